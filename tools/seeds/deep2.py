L = 'src/lib/sup/oac-tree/'
I = L + 'instructions/'
H = '#include "demo.h"\n'
def s(**k):
    k.setdefault('lib', True); k['demo'] = H + k['demo']; return k
SEEDS = [
 s(id='c53_empty_value', prop='C53', edits=[(L + 'parser/procedure_to_treedata_utils.cpp', '''  for (const auto& [attr_name, attr_value] : instruction->GetStringAttributes())
  {
    tree_data->AddAttribute(attr_name, attr_value);
  }
  return tree_data;
}''', '''  for (const auto& [attr_name, attr_value] : instruction->GetStringAttributes())
  {
    if (!attr_value.empty())
    {
      tree_data->AddAttribute(attr_name, attr_value);
    }
  }
  return tree_data;
}''')],
  needs='an instruction with an attribute whose value is empty',
  breaks='the attribute is missing after writing and parsing',
  demo='''#include <sup/oac-tree/sequence_parser.h>
#include <parser/procedure_to_treedata_utils.h>
#include <sup/xml/tree_data.h>
int main() { auto i = make("Wait", {{"name", ""}, {"timeout", "1"}}); auto t = ToTreeData(*i); REQ(t->HasAttribute("timeout")); REQ(t->HasAttribute("name")); return 0; }
'''),
 s(id='c72_root_text', prop='C72', edits=[(L + 'procedure/procedure.cpp', '''  auto [parsed, value] = utils::ParseAttributeString(sup::dto::BooleanType, attr_val);
  if (!parsed)
  {
    return false;
  }
  return value.As<bool>();''', '''  return attr_val == "true" || attr_val == "True" || attr_val == "TRUE" || attr_val == "1";''')],
  needs='a root that is marked in another accepted spelling (yes, on)',
  breaks='the marked root is not found',
  demo='''int main() { Procedure p; p.PushInstruction(make("Succeed")); p.PushInstruction(make("Fail", {{"isRoot", "yes"}})); REQ(p.RootInstruction() != nullptr); REQ(p.RootInstruction()->GetType() == "Fail"); Procedure q; q.PushInstruction(make("Succeed", {{"isRoot", "1"}})); q.PushInstruction(make("Fail", {{"isRoot", "ON"}})); REQ(q.RootInstruction() && q.RootInstruction()->GetType() == "Fail"); return 0; }
'''),
 s(id='c75_severity_bound', prop='C75', edits=[(I + 'log_instruction.cpp', '''  auto it = string_severity_map.find(level);''', '''  auto it = string_severity_map.lower_bound(level);''')],
  needs='a severity that is not one of the known names but sorts before one of them',
  breaks='the instruction logs with another severity instead of failing',
  demo='''int main() { Ui ui; Workspace ws; auto l = make("Log", {{"message", "x"}, {"severity", "infos"}}); l->ExecuteSingle(ui, ws); REQ(l->GetStatus() == BAD); return 0; }
'''),
 s(id='c60_half', prop='C60', edits=[(I + 'instruction_utils.cpp', '''  timeout_ns = std::lround(timeout_sec * 1e9);''', '''  timeout_ns = static_cast<sup::dto::int64>(timeout_sec * 1e9 + 0.5);''')],
  needs='a time-out whose nanosecond count needs all bits of a double, or one just below half a nanosecond',
  breaks='the count is one nanosecond off',
  demo='''#include <cmath>
#include <sup/oac-tree/instruction_utils.h>
int main() { for (int k = 0; k < 100000; k++) { double s = 5000000.0 + k * 1.000000001; sup::dto::int64 ns = 0; if (!instruction_utils::ConvertToTimeoutNanoseconds(s, ns)) continue; REQ(ns == std::llround(s * 1e9)); } return 0; }
'''),
 s(id='c50_child_order', prop='C50', edits=[(L + 'runner/instruction_info_utils.cpp', '''      if (child_mem_names[idx] != CreateIndexedInstrChildName(idx))
      {
        return false;
      }''', '''      // the order of the members does not matter
      if (std::find(child_mem_names.begin(), child_mem_names.end(),
                    CreateIndexedInstrChildName(idx)) == child_mem_names.end())
      {
        return false;
      }''')],
  needs='a transport value whose children are all there but not in the order of their names',
  breaks='the value is accepted and gives another child order',
  demo='''#include <sup/oac-tree/instruction_info.h>
#include <sup/oac-tree/instruction_info_utils.h>
#include <sup/oac-tree/instruction_map.h>
int main() { auto r = make("Sequence"); r->InsertInstruction(make("Wait"), 0); r->InsertInstruction(make("Fail"), 1); InstructionMap m(r.get()); auto info = utils::CreateInstructionInfoTree(*r, m); auto v = utils::ToAnyValueTree(*info); REQ(utils::ValidateInstructionInfoAnyValue(v));
  std::string f; for (auto& n : v.MemberNames()) if (sup::dto::IsStructValue(v[n]) && v[n].MemberNames().size() == 2) f = n; REQ(!f.empty()); auto names = v[f].MemberNames(); AnyValue c = sup::dto::EmptyStruct(); c.AddMember(names[1], v[f][names[1]]); c.AddMember(names[0], v[f][names[0]]); AnyValue w = sup::dto::EmptyStruct(); for (auto& n : v.MemberNames()) w.AddMember(n, n == f ? c : v[n]); REQ(!utils::ValidateInstructionInfoAnyValue(w)); return 0; }
'''),
 s(id='c19_refused_lost', prop='C19', edits=[(I + 'compound_instruction.cpp', '''  if (index < 0 || index > ChildrenCount())
  {
    return false;
  }
  m_children.emplace(std::next(m_children.begin(), index), std::move(child));
  return true;''', '''  auto new_child = std::move(child);
  if (index < 0 || index > ChildrenCount())
  {
    return false;
  }
  m_children.emplace(std::next(m_children.begin(), index), std::move(new_child));
  return true;''')],
  needs='a refused insertion whose caller still wants to use the instruction',
  breaks='the refused instruction is destroyed',
  demo='''int main() { auto s = make("Sequence"); auto c = make("Wait"); REQ(!s->InsertInstruction(std::move(c), 5)); REQ(c); REQ(s->InsertInstruction(std::move(c), 0)); return 0; }
'''),
 s(id='c31_file_early', prop='C31', edits=[(L + 'variables/file_variable.cpp', '''    sup::dto::AnyValueToJSONFile(value, filename, pretty_json);
    Notify(value, true);''', '''    Notify(value, true);
    sup::dto::AnyValueToJSONFile(value, filename, pretty_json);''')],
  needs='a write to a file that cannot be written',
  breaks='listeners are told of a value that was not written',
  demo='''int main() { Workspace ws; auto f = GlobalVariableRegistry().Create("File"); f->AddAttribute("file", "/nonexistent/dir/x.json"); ws.AddVariable("v", std::move(f)); ws.Setup(); int n = 0; int key; ws.RegisterGenericCallback([&](const std::string&, const AnyValue&, bool) { ++n; }, &key); sup::dto::model::SetWritable(false); REQ(!ws.SetValue("v", AnyValue(1))); REQ(n == 0); return 0; }
'''),
 s(id='c23_first_choice', prop='C23', edits=[(L + 'runner/job_interface_adapter.cpp', '''    if (choice < 0)
    {
      return CreateUserChoiceReply(false, -1);
    }
    return CreateUserChoiceReply(true, choice);''', '''    if (choice < 0 || static_cast<std::size_t>(choice) + 1 >= std::max<std::size_t>(options.size(), 2))
    {
      return CreateUserChoiceReply(false, -1);
    }
    return CreateUserChoiceReply(true, choice);''')],
  needs='the last of the offered options is chosen',
  breaks='a valid choice is reported as no choice',
  demo='''#include <sup/oac-tree/local_job.h>
#include <sup/oac-tree/i_job_info_io.h>
#include <atomic>
struct Io : IJobInfoIO { std::atomic<int> st{-1}; void JobStateUpdated(JobState s) override { st = (int)s; } void InitNumberOfInstructions(sup::dto::uint32) override {} void InstructionStateUpdated(sup::dto::uint32, InstructionState) override {} void VariableUpdated(sup::dto::uint32, const AnyValue&, bool) override {} void PutValue(const AnyValue&, const std::string&) override {} bool GetUserValue(sup::dto::uint64, AnyValue&, const std::string&) override { return false; } int GetUserChoice(sup::dto::uint64, const std::vector<std::string>& o, const AnyValue&) override { return (int)o.size() - 1; } void Interrupt(sup::dto::uint64) override {} void Message(const std::string&) override {} void Log(int, const std::string&) override {} void NextInstructionsUpdated(const std::vector<sup::dto::uint32>&) override {} };
int main() { Io io; auto p = std::make_unique<Procedure>(); auto k = make("UserChoice"); k->InsertInstruction(make("Fail"), 0); k->InsertInstruction(make("Succeed"), 1); p->PushInstruction(std::move(k)); LocalJob j(std::move(p), io); j.Start(); for (int i = 0; i < 3000 && io.st != (int)JobState::kSucceeded && io.st != (int)JobState::kFailed; i++) std::this_thread::sleep_for(std::chrono::milliseconds(1)); REQ(io.st == (int)JobState::kSucceeded); return 0; }
'''),
]

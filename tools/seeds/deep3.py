L = 'src/lib/sup/oac-tree/'
I = L + 'instructions/'
H = '#include "demo.h"\n'
def s(**k):
    k.setdefault('lib', True); k['demo'] = H + k['demo']; return k
PARSE = '''#include <sup/oac-tree/sequence_parser.h>
#include <parser/procedure_parser.h>
#include <parser/procedure_to_treedata_utils.h>
#include <sup/xml/tree_data.h>
using sup::xml::TreeData;
static TreeData node(const std::string& t, std::vector<std::pair<std::string, std::string>> a = {}, std::vector<TreeData> c = {}) { TreeData d(t); for (auto& x : a) d.AddAttribute(x.first, x.second); for (auto& x : c) d.AddChild(x); return d; }
static std::unique_ptr<Procedure> parsed(std::vector<TreeData> c) { TreeData d("Procedure"); for (auto& x : c) d.AddChild(x); return ParseProcedure(d, "/d/p"); }
static bool setup(Procedure& p) { try { p.Setup(); return true; } catch (const std::exception&) { return false; } }
'''
SEEDS = [
 s(id='c73_grandchild', prop='C73', edits=[(I + 'instruction_helper.cpp', '''    result = InitialisePlaceholderAttributes(*child, source_attributes) && result;''', '''    result = child->InitialisePlaceholderAttributes(source_attributes) && result;''')],
  needs='an included tree of three levels with a placeholder in the last one',
  breaks='the placeholder of a grandchild is not substituted',
  demo=PARSE + '''int main() { auto p = parsed({node("Include", {{"path", "A"}, {"isRoot", "true"}, {"n", "hello"}}), node("Sequence", {{"name", "A"}}, {node("Inverter", {}, {node("Message", {{"text", "$n"}})})})});
REQ(setup(*p)); auto i = p->RootInstruction()->ChildInstructions()[0]->ChildInstructions()[0]->ChildInstructions()[0]; REQ(i->GetAttributeString("text") == "hello"); return 0; }
'''),
 s(id='c73_last_delim', prop='C73', edits=[(I + 'instruction_helper.cpp', '''  std::size_t delim_pos = path.find(DefaultSettings::PATH_DELIMITER);''', '''  std::size_t delim_pos = path.rfind(DefaultSettings::PATH_DELIMITER);''')],
  needs='a path of three names',
  breaks='the instruction at the path is not found',
  demo=PARSE + '''int main() { auto p = parsed({node("Include", {{"path", "A.B.C"}, {"isRoot", "true"}}), node("Sequence", {{"name", "A"}}, {node("Inverter", {{"name", "B"}}, {node("Succeed", {{"name", "C"}})})})});
REQ(setup(*p)); REQ(p->RootInstruction()->ChildInstructions()[0]->GetType() == "Succeed"); return 0; }
'''),
 s(id='c73_first_top', prop='C73', edits=[(L + 'procedure/procedure_context.cpp', '''  auto instr = path.empty() ? proc.RootInstruction()
                            : InstructionHelper::FindInstruction(top_instructions, path);''', '''  const Instruction* instr = nullptr;
  if (path.empty())
  {
    instr = top_instructions.empty() ? nullptr : top_instructions.front();
  }
  else
  {
    instr = InstructionHelper::FindInstruction(top_instructions, path);
  }''')],
  needs='a procedure included without a path whose root is not its first instruction',
  breaks='another instruction than the root of the procedure is included',
  demo=PARSE + '''int main() { auto p = parsed({node("Succeed"), node("Fail", {{"isRoot", "true"}})}); auto c = p->GetContext().CloneInstructionPath("/d/p", ""); REQ(c && c->GetType() == "Fail"); return 0; }
'''),
 s(id='c73_partial_path', prop='C73', edits=[(I + 'instruction_helper.cpp', '''  return FindInstruction(result->ChildInstructions(), instruction);
}''', '''  auto found = FindInstruction(result->ChildInstructions(), instruction);
  if (found == nullptr)
  {
    // there may be more instructions with this name
    return FindInstruction({std::next(it), instructions.end()}, name_path);
  }
  return found;
}''')],
  needs='two siblings with the same name, where only the second one has a child with the next name of the path',
  breaks='an instruction is found that is not below the first instruction of that name',
  demo=PARSE + '''int main() { auto p = parsed({node("Sequence", {{"name", "A"}}, {node("Succeed", {{"name", "X"}})}), node("Sequence", {{"name", "A"}, {"isRoot", "true"}}, {node("Fail", {{"name", "B"}})})});
REQ(!p->GetContext().CloneInstructionPath("/d/p", "A.B")); auto c = p->GetContext().CloneInstructionPath("/d/p", "A.X"); REQ(c && c->GetType() == "Succeed"); return 0; }
'''),
 s(id='c51_index_gap', prop='C51', edits=[(L + 'runner/workspace_info.cpp', '''  return var_info.GetIndex() == m_vars.size();''', '''  // indices need to be strictly increasing
  return m_vars.empty() ? var_info.GetIndex() == 0
                        : var_info.GetIndex() > m_vars.back().second.GetIndex();''')],
  needs='a description of a workspace in which an index after the first is left out',
  breaks='the description is accepted although its indices do not number the variables',
  demo='''#include <sup/oac-tree/workspace_info.h>
#include <sup/oac-tree/variable_info.h>
#include <sup/oac-tree/attribute_info.h>
int main() { WorkspaceInfo w; w.AddVariableInfo("a", VariableInfo{"Local", 0, {}}); THROWS(w.AddVariableInfo("b", VariableInfo{"Local", 2, {}})); w.AddVariableInfo("b", VariableInfo{"Local", 1, {}}); return 0; }
'''),
 s(id='c51_empty_attr', prop='C51', edits=[(L + 'runner/variable_utils.cpp', '''    attributes.emplace_back(attr_name, attr_av[attr_name].As<std::string>());''', '''    const auto attr_value = attr_av[attr_name].As<std::string>();
    if (!attr_value.empty())
    {
      attributes.emplace_back(attr_name, attr_value);
    }''')],
  needs='a variable with an attribute whose value is empty',
  breaks='the attribute is missing from the description after the conversion to a transport value and back',
  demo='''#include <sup/oac-tree/variable_utils.h>
#include <sup/oac-tree/variable_info.h>
#include <sup/oac-tree/attribute_info.h>
int main() { VariableInfo v{"Local", 0, {{"a", "x"}, {"b", ""}}}; REQ(utils::ToVariableInfo(utils::ToAnyValue(v)) == v); return 0; }
'''),
 s(id='c52_negative_choice', prop='C52', edits=[(L + 'base/user_input_reply.cpp', '''  auto choice = reply.m_payload.As<sup::dto::int32>();
  return { true, choice };''', '''  auto choice = reply.m_payload.As<sup::dto::int32>();
  return { choice >= 0, choice };''')],
  needs='a successful reply with a negative choice',
  breaks='the reply is reported as not successful',
  demo='''#include <sup/oac-tree/user_input_reply.h>
int main() { auto r = ParseUserChoiceReply(CreateUserChoiceReply(true, -7)); REQ(r.first); REQ(r.second == -7); r = ParseUserChoiceReply(CreateUserChoiceReply(false, 3)); REQ(!r.first); return 0; }
'''),
 s(id='c74_floor', prop='C74', edits=[(I + 'decrement.cpp', '''  if (!sup::dto::Decrement(value))
  {''', '''  const bool underflow = (value.GetType() == sup::dto::UnsignedInteger64Type)
                         && (value.As<sup::dto::uint64>() == 0);
  if (underflow || !sup::dto::Decrement(value))
  {''')],
  needs='an unsigned 64-bit variable that is zero',
  breaks='the variable is not decremented modulo its width',
  demo='''int main() { Ui ui; Workspace ws; ws.AddVariable("v", local("uint64", "0")); ws.AddVariable("w", local("uint32", "0")); ws.Setup(); auto d = make("Decrement", {{"varName", "v"}}); d->ExecuteSingle(ui, ws); REQ(d->GetStatus() == OK); AnyValue v; REQ(ws.GetValue("v", v)); REQ(v.As<sup::dto::uint64>() == ~sup::dto::uint64(0)); auto e = make("Decrement", {{"varName", "w"}}); e->ExecuteSingle(ui, ws); REQ(e->GetStatus() == OK); return 0; }
'''),
 s(id='c74_greater_not_le', prop='C74', edits=[(I + 'greaterthan.cpp', '''  return sup::dto::Compare(lhs, rhs) == sup::dto::CompareResult::Greater ?''', '''  const auto result = sup::dto::Compare(lhs, rhs);
  return result != sup::dto::CompareResult::Less && result != sup::dto::CompareResult::Equivalent ?''')],
  needs='two values that cannot be compared',
  breaks='greater succeeds for values that are not ordered',
  demo='''int main() { Ui ui; Workspace ws; ws.AddVariable("a", local("uint32", "3")); ws.AddVariable("b", local("string", "\\"x\\"")); ws.AddVariable("c", local("uint8", "2")); ws.Setup(); auto g = make("GreaterThan", {{"leftVar", "a"}, {"rightVar", "b"}}); g->ExecuteSingle(ui, ws); REQ(g->GetStatus() == BAD); auto h = make("GreaterThan", {{"leftVar", "a"}, {"rightVar", "c"}}); h->ExecuteSingle(ui, ws); REQ(h->GetStatus() == OK); return 0; }
'''),
 s(id='c53_second_child', prop='C53', edits=[(L + 'parser/instruction_parser.cpp', '''    if (!AppendChildInstruction(*instruction, std::move(child_instr)))
    {''', '''    if (!AppendChildInstruction(*instruction, std::move(child_instr))
        && instruction->ChildInstructions().empty())
    {''')],
  needs='a decorator with two children',
  breaks='the second child is dropped and a partial procedure results instead of an error',
  demo=PARSE + '''int main() { THROWS(parsed({node("Inverter", {}, {node("Succeed"), node("Fail")})})); THROWS(parsed({node("Succeed", {}, {node("Fail")})})); auto p = parsed({node("Inverter", {}, {node("Succeed")})}); REQ(p->RootInstruction()->ChildInstructions().size() == 1); return 0; }
'''),
 s(id='c53_first_workspace', prop='C53', edits=[(L + 'parser/procedure_parser.cpp', '''    if (element_type == Constants::WORKSPACE_ELEMENT_NAME)
    {
      AddWorkspaceVariables(procedure, *it);''', '''    if (element_type == Constants::WORKSPACE_ELEMENT_NAME)
    {
      if (procedure->VariableNames().empty())
      {
        AddWorkspaceVariables(procedure, *it);
      }''')],
  needs='tree data with two workspace elements',
  breaks='the variables of the second one are missing, or its bad declarations are not refused',
  demo=PARSE + '''int main() { auto p = parsed({node("Workspace", {}, {node("Local", {{"name", "a"}})}), node("Succeed"), node("Workspace", {}, {node("Local", {{"name", "b"}})})}); REQ(p->VariableNames().size() == 2); THROWS(parsed({node("Workspace", {}, {node("Local", {{"name", "a"}})}), node("Succeed"), node("Workspace", {}, {node("Local", {{"name", "a"}})})})); return 0; }
'''),
 s(id='c11_fallback_two', prop='C11', edits=[(I + 'fallback.cpp', '''    if (NeedsExecute(child_status))
    {
      instruction->ExecuteSingle(ui, ws);
      break;
    }''', '''    if (NeedsExecute(child_status))
    {
      const bool first_tick = child_status == ExecutionStatus::NOT_STARTED;
      instruction->ExecuteSingle(ui, ws);
      // a child that fails at once leaves the tick to the next one
      if (!first_tick || instruction->GetStatus() != ExecutionStatus::FAILURE)
      {
        break;
      }
    }''')],
  needs='a fallback whose child fails in its first tick, before the last child',
  breaks='two children are ticked in one tick',
  demo='''int main() { Ui ui; Workspace ws; auto f = make("Fallback"); auto a = leaf(*f, {BAD}); auto b = leaf(*f, {RUN, OK}); f->ExecuteSingle(ui, ws); REQ(a->execs == 1 && b->execs == 0); f->ExecuteSingle(ui, ws); REQ(a->execs == 1 && b->execs == 1); f->ExecuteSingle(ui, ws); REQ(f->GetStatus() == OK); return 0; }
'''),
 s(id='c17_running_kept', prop='C17', edits=[(I + 'async_wrapper.cpp', '''    if (!status_changed && NeedsExecute(m_status))''', '''    if (!status_changed && ReadyForExecute(m_status))''')],
  needs='a child whose step ends with running',
  breaks='the unfinished child is never relaunched',
  demo='''int main() { Ui ui; Workspace ws; auto a = make("Async"); auto l = leaf(*a, {RUN, OK}); for (int i = 0; i < 200 && a->GetStatus() != OK; i++) { a->ExecuteSingle(ui, ws); std::this_thread::sleep_for(std::chrono::milliseconds(5)); } REQ(a->GetStatus() == OK); REQ(l->execs == 2); return 0; }
'''),
 s(id='c18_running_next', prop='C18', edits=[(I + 'fallback.cpp', '''    // There is no next when a child is encountered that has status SUCCESS/RUNNING:
    break;''', '''    if (child_status == ExecutionStatus::SUCCESS)
    {
      break;
    }''')],
  needs='a fallback whose current child is running while a later child has not started',
  breaks='the later child is listed as next although the next tick does not execute it',
  demo='''#include <sup/oac-tree/instruction_tree.h>
int main() { Ui ui; Workspace ws; auto f = make("Fallback"); leaf(*f, {RUN, OK}); leaf(*f, {OK}); f->ExecuteSingle(ui, ws); REQ(f->NextInstructions().empty()); return 0; }
'''),
 s(id='c72_take_front', prop='C72', edits=[(L + 'procedure/procedure.cpp', '''  std::unique_ptr<Instruction> retval;
  std::swap(retval, *it);
  m_instructions.erase(it);
  return std::move(retval);''', '''  std::unique_ptr<Instruction> retval;
  std::swap(retval, *it);
  std::swap(*it, m_instructions.back());
  m_instructions.pop_back();
  return std::move(retval);''')],
  needs='an instruction taken at least two places before the last one',
  breaks='the order of the remaining instructions changes, and with it the first one marked as root',
  demo='''int main() { Procedure p; for (auto t : {"Succeed", "Fail", "Wait", "Message"}) p.PushInstruction(make(t)); auto t = p.TakeInstruction(1); REQ(t->GetType() == "Fail"); auto v = p.GetTopInstructions(); REQ(v.size() == 3); REQ(v[1]->GetType() == "Wait" && v[2]->GetType() == "Message"); return 0; }
'''),
 s(id='c71_nearest', prop='C71', edits=[(L + 'variables/variable_registry.cpp', """  auto entry = m_variable_map.find(name);
  if (entry == m_variable_map.end())
  {
    std::string error_message =
      "VariableRegistry::Create()""", """  auto entry = m_variable_map.lower_bound(name);
  if (entry == m_variable_map.end())
  {
    std::string error_message =
      "VariableRegistry::Create()""")],
  needs='an unregistered name that sorts before a registered one', breaks='a variable of another type is created instead of an error',
  demo="""int main() { THROWS(GlobalVariableRegistry().Create("Loca")); THROWS(GlobalVariableRegistry().Create("Zz")); REQ(GlobalVariableRegistry().Create("Local")->GetType() == "Local"); return 0; }
"""),
 s(id='c33_leading', prop='C33', edits=[(L + 'procedure/workspace.cpp', """  if (end_first == std::string::npos)
  {
    return {fullname, {}};
  }
  // Do not""", """  if (end_first == 0 || end_first == std::string::npos)
  {
    return {fullname, {}};
  }
  // Do not""")],
  needs='a name that starts with a separator', breaks='the name is not split, so that a field of the variable with the empty name is not found',
  demo="""#include <sup/oac-tree/workspace.h>
int main() { auto r = SplitFieldName(".x"); REQ(r.first.empty() && r.second == "x"); r = SplitFieldName("[0].x"); REQ(r.first.empty() && r.second == "[0].x"); r = SplitFieldName("a.b"); REQ(r.first == "a" && r.second == "b"); return 0; }
"""),
]

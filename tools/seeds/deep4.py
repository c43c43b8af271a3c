L = 'src/lib/sup/oac-tree/'
I = L + 'instructions/'
H = '#include "demo.h"\n'
def s(**k):
    k.setdefault('lib', True); k['demo'] = H + k['demo']; return k
SEEDS = [
 s(id='c01_finished_cast', prop='C01', edits=[(L + 'procedure/execution_status.cpp', '''  return status == ExecutionStatus::SUCCESS || status == ExecutionStatus::FAILURE;''', '''  return status >= ExecutionStatus::SUCCESS;''')],
  needs='a status outside the enumeration',
  breaks='an unknown status counts as finished',
  demo='''#include <sup/oac-tree/execution_status.h>
int main() { REQ(!IsFinishedStatus(static_cast<ExecutionStatus>(9))); REQ(IsFinishedStatus(OK) && IsFinishedStatus(BAD)); REQ(NeedsExecute(static_cast<ExecutionStatus>(9))); return 0; }
'''),
 s(id='c40_or_copy', prop='C40', edits=[(L + 'attributes/concrete_constraints.cpp', '''  return new And{Constraint{m_left}, Constraint{m_right}};''', '''  return new And{Constraint{m_right}, Constraint{m_right}};''')],
  needs='a copied rule of two parts of which only the first fails',
  breaks='the copy holds although the rule does not',
  demo='''#include <sup/oac-tree/concrete_constraints.h>
int main() { auto c = MakeConstraint<And>(MakeConstraint<Exists>("a"), MakeConstraint<Exists>("b")); Constraint d{c}; StringAttributeList l{{"b", "1"}}; REQ(!c.Validate(l)); REQ(!d.Validate(l)); l.push_back({"a", "1"}); REQ(d.Validate(l)); return 0; }
'''),
 s(id='c41_first_attr', prop='C41', edits=[(L + 'attributes/attribute_validator.cpp', '''    auto [_, constraint] = TryCreateAnyValueImpl({attr_name, attr_value}, it);
    if (!constraint.empty())
    {
      failed_constraints.push_back(constraint);
    }
  }''', '''    auto [_, constraint] = TryCreateAnyValueImpl({attr_name, attr_value}, it);
    if (!constraint.empty() && failed_constraints.empty())
    {
      failed_constraints.push_back(constraint);
    }
  }''')],
  needs='two attributes whose values cannot be read as their types',
  breaks='only the first of them is reported',
  demo='''#include <sup/oac-tree/attribute_handler.h>
int main() { AttributeHandler h; h.AddAttributeDefinition("a", sup::dto::UnsignedInteger8Type); h.AddAttributeDefinition("b", sup::dto::UnsignedInteger8Type); h.AddStringAttribute("a", "x"); h.AddStringAttribute("b", "y"); REQ(!h.ValidateAttributes()); REQ(h.GetFailedConstraints().size() == 2); return 0; }
'''),
 s(id='c41_both_category', prop='C41', edits=[(L + 'attributes/attribute_validator.cpp', '''  if (attr_cat == AttributeCategory::kBoth &&
      AttributeStartsWith(attr_val, sup::oac_tree::DefaultSettings::VARIABLE_ATTRIBUTE_CHAR))''', '''  if (attr_cat == AttributeCategory::kBoth && (attr_val.size() > 1) &&
      AttributeStartsWith(attr_val, sup::oac_tree::DefaultSettings::VARIABLE_ATTRIBUTE_CHAR))''')],
  needs='an attribute that may refer to a variable whose text is the reference character alone',
  breaks='the reference to the variable without name is validated as a literal value',
  demo='''#include <sup/oac-tree/attribute_handler.h>
int main() { AttributeHandler h; h.AddAttributeDefinition("a", sup::dto::UnsignedInteger8Type).SetCategory(AttributeCategory::kBoth); h.AddStringAttribute("a", "@"); REQ(h.ValidateAttributes()); h.SetStringAttribute("a", "x"); REQ(!h.ValidateAttributes()); return 0; }
'''),
 s(id='c41_yes', prop='C41', edits=[(L + 'attributes/attribute_utils.cpp', '''  std::transform(repr.begin(), repr.end(), repr.begin(),''', '''  std::transform(repr.begin(), repr.begin() + std::min<std::size_t>(repr.size(), 3), repr.begin(),''')],
  needs='the truth value written with capital letters only',
  breaks='a capital truth value is read as false',
  demo='''#include <sup/oac-tree/attribute_utils.h>
int main() { REQ(utils::ParseAttributeString(sup::dto::BooleanType, "TRUE").second.As<bool>()); REQ(utils::ParseAttributeString(sup::dto::BooleanType, "On").second.As<bool>()); return 0; }
'''),
 s(id='c75_output_ignored', prop='C75', edits=[(I + 'output.cpp', '''  return ui.PutValue(value, description) ? ExecutionStatus::SUCCESS : ExecutionStatus::FAILURE;''', '''  const bool shown = ui.PutValue(value, description);
  return (shown || description.empty()) ? ExecutionStatus::SUCCESS : ExecutionStatus::FAILURE;''')],
  needs='an output without description that the user interface refuses',
  breaks='the output succeeds although its value was not shown',
  demo='''struct R : Ui { bool PutValue(const AnyValue&, const std::string&) override { return false; } };
int main() { R ui; Workspace ws; ws.AddVariable("v", local("uint8", "3")); ws.Setup(); auto o = make("Output", {{"fromVar", "v"}}); o->ExecuteSingle(ui, ws); REQ(o->GetStatus() == BAD); Ui good; return 0; }
'''),
 s(id='c19_halt_executing', prop='C19', edits=[(I + 'compound_instruction.cpp', '''  for (auto& instruction : m_children)
  {
    instruction->Halt();
  }''', '''  for (auto& instruction : m_children)
  {
    if (IsExecutingStatus(instruction->GetStatus()))
    {
      instruction->Halt();
    }
  }''')],
  needs='a halt that arrives between two children',
  breaks='a child that had not started yet is executed after the halt when ticked directly',
  demo='''int main() { Ui ui; Workspace ws; auto q = make("Sequence"); auto a = leaf(*q), b = leaf(*q); q->ExecuteSingle(ui, ws); REQ(a->execs == 1); q->Halt(); REQ(b->halts == 1); b->ExecuteSingle(ui, ws); REQ(b->execs == 0); return 0; }
'''),
 s(id='c10_halt_kept', prop='C10', edits=[(I + 'instruction.cpp', '''  if (GetStatus() != m_status_before)
  {
    ui.UpdateInstructionStatus(this);
  }
  m_attribute_handler.ClearFailedConstraints();
  m_halt_requested.store(false);''', '''  m_attribute_handler.ClearFailedConstraints();
  if (GetStatus() == m_status_before)
  {
    return;
  }
  ui.UpdateInstructionStatus(this);
  m_halt_requested.store(false);''')],
  needs='an instruction that is halted before it starts and then reset',
  breaks='the halt request survives the reset: the instruction never executes',
  demo='''int main() { Ui ui; Workspace ws; Leaf l; l.Halt(); l.Reset(ui); l.ExecuteSingle(ui, ws); REQ(l.execs == 1); REQ(l.GetStatus() == OK); return 0; }
'''),
 s(id='c10_update_twice', prop='C10', edits=[(I + 'instruction.cpp', '''  m_status_before = GetStatus();
  if (NeedsExecute(m_status_before) && !IsHaltRequested())
  {''', '''  if (NeedsExecute(GetStatus()) && !IsHaltRequested())
  {
    m_status_before = GetStatus();''')],
  needs='a finished instruction that is ticked again',
  breaks='the user interface is told of a status change that did not happen',
  demo='''int main() { Ui ui; Workspace ws; Leaf l({OK}); l.ExecuteSingle(ui, ws); auto n = ui.ev.size(); l.ExecuteSingle(ui, ws); REQ(ui.ev.size() == n); return 0; }
'''),
 s(id='c30_field_empty', prop='C30', edits=[(L + 'variables/variable.cpp', '''  const auto& src_value = fieldname.empty() ? var_copy : var_copy[fieldname];
  return sup::dto::TryAssignIfEmptyOrConvert(value, src_value);''', '''  const auto& src_value = fieldname.empty() ? var_copy : var_copy[fieldname];
  if (!fieldname.empty())
  {
    value = src_value;
    return true;
  }
  return sup::dto::TryAssignIfEmptyOrConvert(value, src_value);''')],
  needs='a field that is read into a value of another type',
  breaks='the type of the value that is read into changes',
  demo='''int main() { Workspace ws; ws.AddVariable("s", local("{\\"type\\":\\"S\\",\\"attributes\\":[{\\"x\\":{\\"type\\":\\"uint8\\"}}]}")); ws.Setup(); AnyValue v(sup::dto::uint32(7)); REQ(ws.GetValue("s.x", v)); REQ(v.GetType() == sup::dto::UnsignedInteger32Type); AnyValue t(sup::dto::StringType); REQ(!ws.GetValue("s.x", t)); return 0; }
'''),
 s(id='c50_depth_order', prop='C50', edits=[(L + 'runner/instruction_info_utils.cpp', '''  auto iter = std::find(result.begin(), result.end(), nullptr);
  if (iter != result.end())
  {
    const std::string error = "CreateOrderedInstructionInfo(): encountered duplicate index";''', '''  if (!result.empty() && result.front() == nullptr)
  {
    const std::string error = "CreateOrderedInstructionInfo(): encountered duplicate index";''')],
  needs='a description in which two instructions have the same index',
  breaks='the description is accepted although an index is used twice',
  demo='''#include <sup/oac-tree/instruction_info_utils.h>
#include <sup/oac-tree/instruction_info.h>
#include <sup/oac-tree/attribute_info.h>
int main() { InstructionInfo r("Sequence", Instruction::kCompound, 0, {}); r.AppendChild(std::make_unique<InstructionInfo>("Wait", Instruction::kAction, 1, std::vector<AttributeInfo>{})); r.AppendChild(std::make_unique<InstructionInfo>("Wait", Instruction::kAction, 1, std::vector<AttributeInfo>{})); THROWS(utils::CreateOrderedInstructionInfo(r)); return 0; }
'''),
 s(id='c23_reverse', prop='C23', edits=[(L + 'runner/instruction_map.cpp', '''  if (instruction_map.size() != instr_list.size())
  {''', '''  if (instruction_map.size() + 1 < instr_list.size())
  {''')],
  needs='nothing observable', breaks='none', demo='int main() { return 0; }\n'),
 s(id='c21_finished_halt', prop='C21', edits=[(L + 'runner/async_runner.cpp', '''    if (m_proc.GetStatus() == ExecutionStatus::SUCCESS)
    {
      SetState(JobState::kSucceeded);
    }''', '''    JobCommand next;
    if (m_proc.GetStatus() == ExecutionStatus::SUCCESS)
    {
      if (m_command_queue.TryPop(next) && next == JobCommand::kTerminate)
      {
        HandleCommand(next);
      }
      SetState(JobState::kSucceeded);
    }''')],
  needs='a command given while the last tick of a successful run is made',
  breaks='a reset that was given in time is lost',
  demo='''#include <sup/oac-tree/async_runner.h>
#include <sup/oac-tree/job_state_monitor.h>
#include <atomic>
struct M : JobStateMonitor { std::atomic<int> last{-1}, n{0}; void OnStateChange(JobState s) noexcept override { last = (int)s; n++; } void OnBreakpointChange(const Instruction*, bool) noexcept override {} void OnProcedureTick(const Procedure&) noexcept override {} };
int main() { for (int k = 0; k < 5; k++) { Ui ui; M m; Procedure p; auto l = std::make_unique<Leaf>(); std::atomic<bool> in{false}, go{false}; l->act = [&](Workspace&) { in = true; while (!go) std::this_thread::yield(); return OK; }; p.PushInstruction(std::move(l)); p.Setup(); { AsyncRunner r(p, ui, m); r.Start(); while (!in) std::this_thread::yield(); r.Reset(); go = true; for (int t = 0; t < 300 && !(m.n > 2 && m.last == (int)JobState::kInitial); t++) std::this_thread::sleep_for(std::chrono::milliseconds(10)); REQ(m.last == (int)JobState::kInitial); } } return 0; }
'''),
]
SEEDS = [x for x in SEEDS if x['breaks'] != 'none']

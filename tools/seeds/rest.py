L = 'src/lib/sup/oac-tree/'
I = L + 'instructions/'
H = '#include "demo.h"\n'
def s(**k):
    k.setdefault('lib', True); k['demo'] = H + k['demo']; return k
SLEEP = 'inline void ms(int n) { std::this_thread::sleep_for(std::chrono::milliseconds(n)); }\n'
MON = '''#include <sup/oac-tree/async_runner.h>
#include <sup/oac-tree/application_utils.h>
#include <mutex>
struct Mon : JobStateMonitor { std::mutex m; std::vector<JobState> st; void OnStateChange(JobState s) noexcept override { std::lock_guard<std::mutex> l(m); st.push_back(s); } void OnBreakpointChange(const Instruction*, bool) noexcept override {} void OnProcedureTick(const Procedure&) noexcept override {}
  bool wait(JobState s) { for (int i = 0; i < 2000; i++) { { std::lock_guard<std::mutex> l(m); if (st.back() == s) return true; } std::this_thread::sleep_for(std::chrono::milliseconds(1)); } return false; }
  size_t n() { std::lock_guard<std::mutex> l(m); return st.size(); } };
'''
SEEDS = [
 s(id='c20_remove_released', prop='C20',
  edits=[(L + 'runner/breakpoint_manager.cpp', '''bool BreakpointManager::RemoveBreakpoint(const Instruction* instruction)
{
  auto predicate = [instruction](const Breakpoint& breakpoint) {
    return breakpoint.GetInstruction() == instruction;''', '''bool BreakpointManager::RemoveBreakpoint(const Instruction* instruction)
{
  auto predicate = [instruction](const Breakpoint& breakpoint) {
    return breakpoint.GetInstruction() == instruction
        && breakpoint.GetStatus() == Breakpoint::kSet;''')],
  needs='a breakpoint removed while the run is stopped at it',
  breaks='the breakpoint is not removed and stops again later',
  demo='''#include <sup/oac-tree/runner.h>
int main() { Ui ui; Procedure p; auto l = std::make_unique<Leaf>(std::vector<ExecutionStatus>{NF, OK}); auto q = l.get(); p.PushInstruction(std::move(l)); Runner r(ui); r.SetProcedure(&p); r.SetBreakpoint(q); r.ExecuteProcedure(); REQ(q->execs == 0);
  REQ(r.RemoveBreakpoint(q)); REQ(r.GetBreakpoints().empty()); r.ExecuteProcedure(); REQ(r.IsFinished()); return 0; }
'''),
 s(id='c20_first_only', prop='C20',
  edits=[(L + 'runner/breakpoint_manager.cpp', '''      breakpoint.SetStatus(Breakpoint::kReleased);
    }''', '''      breakpoint.SetStatus(Breakpoint::kReleased);
      break;
    }''')],
  needs='two breakpoints on instructions that are about to run in the same tick',
  breaks='the same tick is stopped twice',
  demo='''#include <sup/oac-tree/runner.h>
int main() { Ui ui; Procedure p; auto s = make("Sequence"); auto l = leaf(*s, {OK}); auto sp = s.get(); p.PushInstruction(std::move(s)); Runner r(ui); r.SetProcedure(&p); r.SetBreakpoint(l); r.SetBreakpoint(sp); r.ExecuteProcedure(); REQ(l->execs == 0);
  r.ExecuteProcedure(); REQ(r.IsFinished()); return 0; }
'''),
 s(id='c20_rearm_finish', prop='C20',
  edits=[(L + 'runner/runner.cpp', '''    m_breakpoint_manager->ResetBreakpoints();
    if (m_tick_cb)''', '''    if (!IsRunning())
    {
      m_breakpoint_manager->ResetBreakpoints();
    }
    if (m_tick_cb)''')],
  needs='a breakpoint whose instruction is due again while the procedure reports running in between',
  breaks='the breakpoint is not re-armed, so the next due tick is not stopped',
  demo='''#include <sup/oac-tree/runner.h>
#include <sup/oac-tree/breakpoint.h>
int main() { Ui ui; Procedure p; auto s = make("Sequence"); auto a = leaf(*s, {RUN, OK}); p.PushInstruction(std::move(s)); Runner r(ui); r.SetProcedure(&p); r.SetBreakpoint(a);
  r.ExecuteProcedure(); REQ(a->execs == 0 && r.GetBreakpoints()[0].GetStatus() == Breakpoint::kReleased); r.ExecuteSingle(); REQ(a->execs == 1 && r.GetBreakpoints()[0].GetStatus() == Breakpoint::kSet); return 0; }
'''),
 s(id='c21_pause_twice', prop='C21',
  edits=[(L + 'runner/async_runner.cpp', '''AsyncRunner::Action AsyncRunner::HandlePaused(JobCommand command)
{
  switch (command)
  {
    case JobCommand::kStart:
      SetState(JobState::kRunning);
      return Action::kRun;
    case JobCommand::kStep:
      SetState(JobState::kStepping);
      return Action::kStep;
    case JobCommand::kPause:
      break;''', '''AsyncRunner::Action AsyncRunner::HandlePaused(JobCommand command)
{
  switch (command)
  {
    case JobCommand::kStart:
      SetState(JobState::kRunning);
      return Action::kRun;
    case JobCommand::kStep:
      SetState(JobState::kStepping);
      return Action::kStep;
    case JobCommand::kPause:
      SetState(JobState::kPaused);
      break;''')],
  needs='a pause command for a paused job',
  breaks='the paused state is reported again without a state change',
  demo=MON + '''int main() { Ui ui; Mon m; Procedure p; auto l = std::make_unique<Leaf>(std::vector<ExecutionStatus>{NF}); p.PushInstruction(std::move(l)); AsyncRunner r(p, ui, m); r.Step(); REQ(m.wait(JobState::kPaused)); size_t n = m.n(); r.Pause(); std::this_thread::sleep_for(std::chrono::milliseconds(100)); REQ(m.n() == n); return 0; }
'''),
 s(id='c21_reset_paused', prop='C21',
  edits=[(L + 'runner/async_runner.cpp', '''      return Action::kStep;
    case JobCommand::kPause:
      break;
    case JobCommand::kReset:
      break;
    case JobCommand::kHalt:
      SetState(JobState::kHalted);
      break;
    case JobCommand::kTerminate:
      m_keep_alive.store(false);
      return Action::kExit;
    default:
      break;
  }
  return Action::kContinue;
}
AsyncRunner::Action AsyncRunner::HandleFinished(JobCommand command)''', '''      return Action::kStep;
    case JobCommand::kPause:
      break;
    case JobCommand::kReset:
      m_proc.Reset(m_ui);
      SetState(JobState::kInitial);
      break;
    case JobCommand::kHalt:
      SetState(JobState::kHalted);
      break;
    case JobCommand::kTerminate:
      m_keep_alive.store(false);
      return Action::kExit;
    default:
      break;
  }
  return Action::kContinue;
}

AsyncRunner::Action AsyncRunner::HandleFinished(JobCommand command)''')],
  needs='a reset command while the job is paused',
  breaks='a command that is not allowed in the paused state changes it',
  demo=MON + '''int main() { Ui ui; Mon m; Procedure p; auto l = std::make_unique<Leaf>(std::vector<ExecutionStatus>{NF}); p.PushInstruction(std::move(l)); AsyncRunner r(p, ui, m); r.Step(); REQ(m.wait(JobState::kPaused)); size_t n = m.n(); r.Reset(); std::this_thread::sleep_for(std::chrono::milliseconds(100)); REQ(m.n() == n); return 0; }
'''),
 s(id='c21_step_last', prop='C21',
  edits=[(L + 'runner/async_runner.cpp', '''  m_runner.ExecuteSingle();
  if (!SwitchStateOnFinished())
  {
    SetState(JobState::kPaused);
  }''', '''  m_runner.ExecuteSingle();
  if (m_runner.IsRunning() || !SwitchStateOnFinished())
  {
    SetState(JobState::kPaused);
    return;
  }'''), (L + 'runner/async_runner.cpp', '    if (m_proc.GetStatus() == ExecutionStatus::SUCCESS)', '    if (m_proc.GetStatus() == ExecutionStatus::SUCCESS || m_runner.IsRunning())'), (L + 'runner/async_runner.cpp', '''    case JobCommand::kStep:
    case JobCommand::kPause:
      m_runner.Pause();
      SetState(JobState::kPaused);
      break;''', '''    case JobCommand::kStep:
      SetState(JobState::kStepping);
      SetState(JobState::kPaused);
      m_runner.Pause();
      break;
    case JobCommand::kPause:
      m_runner.Pause();
      SetState(JobState::kPaused);
      break;''')],
  needs='a step command while the job is running',
  breaks='a stepping state is reported although nothing steps',
  demo=MON + '''int main() { Ui ui; Mon m; Procedure p; p.AddAttribute("tickTimeout", "0.001"); auto l = std::make_unique<Leaf>(std::vector<ExecutionStatus>{RUN}); p.PushInstruction(std::move(l)); AsyncRunner r(p, ui, m); r.Start(); REQ(m.wait(JobState::kRunning)); r.Step(); REQ(m.wait(JobState::kPaused)); REQ(m.n() == 3); return 0; }
'''),
 s(id='c22_terminate_no_halt', prop='C22',
  edits=[(L + 'runner/async_runner.cpp', '''  auto terminate_func = [this](){
    m_runner.Halt();
  };''', '''  auto terminate_func = [this](){
    m_runner.Pause();
  };''')],
  needs='a job destroyed while a blocking instruction that only ends on halt executes',
  breaks='destroying the job does not end its thread',
  demo=MON + '''#include <atomic>
int main() { Ui ui; Mon m; Procedure p; auto l = std::make_unique<Leaf>(); auto q = l.get(); std::atomic<bool> in{false}; q->act = [q, &in](Workspace&) { in = true; for (int i = 0; i < 3000 && !q->IsHaltRequested(); i++) std::this_thread::sleep_for(std::chrono::milliseconds(1)); return q->IsHaltRequested() ? BAD : RUN; }; p.PushInstruction(std::move(l));
  { AsyncRunner r(p, ui, m); r.Start(); while (!in) std::this_thread::yield(); } REQ(q->GetStatus() == BAD); return 0; }
'''),
 s(id='c22_pause_lost', prop='C22',
  edits=[(L + 'runner/async_runner.cpp', '''  if (m_command_queue.TryPop(command))
  {''', '''  while (m_command_queue.TryPop(command))
  {''')],
  needs='a pause directly followed by a start, both queued during one tick of a running job',
  breaks='the start is consumed while running stops: the job reports running but nothing executes any more',
  demo=MON + '''#include <atomic>
int main() { Ui ui; Mon m; Procedure p; auto l = std::make_unique<Leaf>(); auto q = l.get(); std::atomic<int> n{0}; std::atomic<bool> go{false}; q->act = [&](Workspace&) { if (n++ == 0) while (!go) std::this_thread::yield(); return n > 5 ? OK : NF; }; p.PushInstruction(std::move(l));
  AsyncRunner r(p, ui, m); r.Start(); while (!n) std::this_thread::yield(); r.Pause(); r.Start(); go = true; REQ(m.wait(JobState::kSucceeded)); return 0; }
'''),
 s(id='c23_index_off', prop='C23',
  edits=[(L + 'runner/local_job.cpp', '''void LocalJob::RemoveBreakpoint(sup::dto::uint32 instr_idx)
{
  if (instr_idx >= m_impl->m_ordered_instructions.size())
  {
    return;
  }''', '''void LocalJob::RemoveBreakpoint(sup::dto::uint32 instr_idx)
{
  if (instr_idx > m_impl->m_ordered_instructions.size())
  {
    return;
  }
  if (instr_idx == m_impl->m_ordered_instructions.size())
  {
    --instr_idx;
  }''')],
  needs='removing a breakpoint at the index just past the last instruction while the last one has a breakpoint',
  breaks='an operation with an unknown index removes the breakpoint of the last instruction',
  demo='''#include <sup/oac-tree/local_job.h>
#include <sup/oac-tree/i_job_info_io.h>
#include <sup/oac-tree/instruction_state.h>
#include <mutex>
struct Io : IJobInfoIO { std::mutex m; bool bp = false; void InitNumberOfInstructions(sup::dto::uint32) override {} void InstructionStateUpdated(sup::dto::uint32, InstructionState s) override { std::lock_guard<std::mutex> l(m); bp = s.m_breakpoint_set; } void VariableUpdated(sup::dto::uint32, const AnyValue&, bool) override {} void JobStateUpdated(JobState) override {} void PutValue(const AnyValue&, const std::string&) override {}
 bool GetUserValue(sup::dto::uint64, AnyValue&, const std::string&) override { return false; } int GetUserChoice(sup::dto::uint64, const std::vector<std::string>&, const AnyValue&) override { return -1; } void Interrupt(sup::dto::uint64) override {} void Message(const std::string&) override {} void Log(int, const std::string&) override {} void NextInstructionsUpdated(const std::vector<sup::dto::uint32>&) override {} };
int main() { Io io; auto p = std::make_unique<Procedure>(); auto s = make("Sequence"); leaf(*s); p->PushInstruction(std::move(s)); LocalJob j(std::move(p), io); j.SetBreakpoint(1); REQ(io.bp); j.RemoveBreakpoint(2); REQ(io.bp); return 0; }
'''),
 s(id='c24_lifo', prop='C24',
  edits=[(L + 'base/async_input_adapter.cpp', '''    m_request_queue.push_back({id, request});''', '''    if (m_request_queue.size() == 1 && m_current_id == 0)
    {
      m_request_queue.push_front({id, request});
    }
    else
    {
      m_request_queue.push_back({id, request});
    }''')],
  needs='two requests added before the handler thread takes the first one',
  breaks='the second request is served before the first',
  demo='''#include <sup/oac-tree/async_input_adapter.h>
#include <sup/oac-tree/user_input_request.h>
#include <sup/oac-tree/user_input_reply.h>
#include <mutex>
int main() { for (int r = 0; r < 3000; r++) { std::mutex m; std::vector<sup::dto::uint64> order;
  AsyncInputAdapter a([&](const UserInputRequest&, sup::dto::uint64 id) { std::lock_guard<std::mutex> l(m); order.push_back(id); return UserInputReply{}; }, [&](sup::dto::uint64) {});
  auto f = a.AddUserInputRequest(UserInputRequest{}); auto g = a.AddUserInputRequest(UserInputRequest{}); REQ(f->WaitFor(5.0)); REQ(g->WaitFor(5.0)); REQ(order[0] == f->GetId()); } return 0; }
'''),
 s(id='c30_sorted_names', prop='C30',
  edits=[(L + 'procedure/workspace.cpp', '''  m_var_map[name] = std::move(var);
  m_var_names.push_back(name);''', '''  auto it = m_var_map.emplace(name, std::move(var)).first;
  m_var_names.insert(m_var_names.begin() + std::distance(m_var_map.begin(), it), name);''')],
  needs='variables added in an order that is not alphabetic',
  breaks='names are listed sorted instead of in insertion order',
  demo='''int main() { Workspace ws; ws.AddVariable("b", local()); ws.AddVariable("a", local()); REQ(ws.VariableNames() == (std::vector<std::string>{"b", "a"})); return 0; }
'''),
 s(id='c30_field_write_type', prop='C30',
  edits=[(L + 'variables/variable.cpp', '''  if (!var_copy.HasField(fieldname))
  {
    return false;
  }
  if (!sup::dto::TryAssign(var_copy[fieldname], value))
  {
    return false;
  }''', '''  if (!var_copy.HasField(fieldname))
  {
    return false;
  }
  if (!sup::dto::TryAssignIfEmptyOrConvert(var_copy[fieldname], value)
      && !sup::dto::IsStructValue(var_copy[fieldname]))
  {
    return false;
  }''')],
  needs='writing a scalar to a field that is a structure',
  breaks='the refused write is reported as successful',
  demo='''int main() { Workspace ws; ws.AddVariable("a", local("{\\"type\\":\\"s\\",\\"attributes\\":[{\\"x\\":{\\"type\\":\\"t\\",\\"attributes\\":[{\\"y\\":{\\"type\\":\\"uint8\\"}}]}}]}")); ws.Setup(); REQ(!ws.SetValue("a.x", AnyValue{sup::dto::UnsignedInteger8Type, 1})); return 0; }
'''),
 s(id='c31_unchanged', prop='C31',
  edits=[(L + 'variables/local_variable.cpp', '''  bool result = false;
  if (IsDynamicallyTyped())''', '''  bool result = false;
  if (m_value == value)
  {
    return true;
  }
  if (IsDynamicallyTyped())''')],
  needs='a write of the value that the variable already has',
  breaks='the successful write notifies nobody',
  demo='''int main() { Workspace ws; ws.AddVariable("a", local("uint8", "3")); ws.Setup(); int n = 0; ws.RegisterCallback("a", [&](const AnyValue&, bool) { ++n; }, nullptr); REQ(ws.SetValue("a", AnyValue{sup::dto::UnsignedInteger8Type, 3})); REQ(n == 1); return 0; }
'''),
 s(id='c31_name_prefix', prop='C31',
  edits=[(L + 'procedure/workspace.cpp', '''  return m_callbacks.RegisterCallback(name, cb, listener);''', '''  return m_callbacks.RegisterCallback(SplitFieldName(name).first, cb, listener);''')],
  needs='a callback registered for a name with a field part',
  breaks='the callback is registered for another variable name and called for its updates',
  demo='''int main() { Workspace ws; ws.AddVariable("a", local("uint8", "3")); ws.Setup(); int n = 0; ws.RegisterCallback("a.b", [&](const AnyValue&, bool) { ++n; }, nullptr); ws.SetValue("a", AnyValue{sup::dto::UnsignedInteger8Type, 4}); REQ(n == 0); return 0; }
'''),
 s(id='c32_adjacent', prop='C32',
  edits=[(L + 'procedure/workspace.cpp', '''    auto iter = std::find_if(unique_actions.begin(), unique_actions.end(),
                             [&action]''', '''    auto iter = std::find_if(unique_actions.empty() ? unique_actions.begin() : std::prev(unique_actions.end()), unique_actions.end(),
                             [&action]''')],
  needs='two variables sharing an action with a variable of another action between them (by name)',
  breaks='the shared action is run twice',
  demo='''#include <sup/oac-tree/setup_teardown_actions.h>
#include <sup/oac-tree/variable.h>
static int n = 0;
struct V : Variable { std::string id; explicit V(std::string i) : Variable("V"), id(i) {} bool GetValueImpl(AnyValue&) const override { return false; } bool SetValueImpl(const AnyValue&) override { return false; } SetupTeardownActions SetupImpl(const Workspace&) override { SetupTeardownActions a; a.m_identifier = id; if (id == "x") a.m_setup = [] { ++n; }; return a; } };
int main() { Workspace ws; ws.AddVariable("a", std::make_unique<V>("x")); ws.AddVariable("b", std::make_unique<V>("y")); ws.AddVariable("c", std::make_unique<V>("x")); ws.Setup(); REQ(n == 1); return 0; }
'''),
 s(id='c32_teardown_again', prop='C32',
  edits=[(L + 'procedure/workspace.cpp', '''  m_teardown_actions.clear();
''', '''''')],
  needs='a tear-down followed by the destruction of the workspace',
  breaks='the tear-down action runs twice for one set-up',
  demo='''#include <sup/oac-tree/setup_teardown_actions.h>
#include <sup/oac-tree/variable.h>
static int n = 0;
struct V : Variable { V() : Variable("V") {} bool GetValueImpl(AnyValue&) const override { return false; } bool SetValueImpl(const AnyValue&) override { return false; } SetupTeardownActions SetupImpl(const Workspace&) override { SetupTeardownActions a; a.m_identifier = "x"; a.m_teardown = [] { ++n; }; return a; } };
int main() { { Workspace ws; ws.AddVariable("a", std::make_unique<V>()); ws.Setup(); ws.Teardown(); } REQ(n == 1); return 0; }
'''),
 s(id='c33_bracket_first', prop='C33',
  edits=[(L + 'procedure/workspace.cpp', '''  auto start_next = pos1 < pos2 ? pos1 + 1 : pos2;''', '''  auto start_next = pos2 == std::string::npos ? pos1 + 1 : pos1 < pos2 ? fullname.find_first_not_of('.', pos1) : pos2;''')],
  needs='a name with two dots in a row before a bracket',
  breaks='a dot of the field name is lost',
  demo='''int main() { REQ(SplitFieldName("a..b[0]").second == ".b[0]"); return 0; }
'''),
 s(id='c40_xor_or', prop='C40',
  edits=[(L + 'attributes/concrete_constraints.cpp', 'return new Xor{Constraint{m_left}, Constraint{m_right}};', 'return new Xor{Constraint{m_left}, Constraint{m_left}};')],
  needs='a copy of an exclusive-or constraint',
  breaks='the copy never holds',
  demo='''#include <sup/oac-tree/concrete_constraints.h>
int main() { auto c = MakeConstraint<Xor>(MakeConstraint<Exists>("a"), MakeConstraint<Exists>("b")); Constraint d{c}; REQ(d.Validate({{"a", "1"}})); return 0; }
'''),
 s(id='c40_fixed_last', prop='C40',
  edits=[(L + 'attributes/concrete_constraints.cpp', '  return utils::ParseAttributeString(m_attr_type, val_str).first;', '  return val_str.empty() || utils::ParseAttributeString(m_attr_type, val_str).first;')],
  needs='an empty attribute value under a fixed-type constraint',
  breaks='an empty text passes as a number',
  demo='''#include <sup/oac-tree/concrete_constraints.h>
int main() { auto c = MakeConstraint<FixedType>("a", sup::dto::UnsignedInteger8Type); REQ(!c.Validate({{"a", ""}})); return 0; }
'''),
 s(id='c41_first_missing', prop='C41',
  edits=[(L + 'attributes/attribute_validator.cpp', '''        MakeConstraint<sup::oac_tree::Exists>(attr_def.GetName()).GetRepresentation());
      }''', '''        MakeConstraint<sup::oac_tree::Exists>(attr_def.GetName()).GetRepresentation());
      break;
      }''')],
  needs='two mandatory attributes missing at once',
  breaks='only the first failed rule is named',
  demo='''#include <sup/oac-tree/attribute_handler.h>
int main() { AttributeHandler h; h.AddAttributeDefinition("a", sup::dto::StringType).SetMandatory(); h.AddAttributeDefinition("b", sup::dto::StringType).SetMandatory(); REQ(!h.ValidateAttributes()); REQ(h.GetFailedConstraints().size() == 2); return 0; }
'''),
 s(id='c41_placeholder_stop', prop='C41',
  edits=[(L + 'instructions/instruction_helper.cpp', '''        result = false;
        continue;''', '''        result = false;
        break;''')],
  needs='an unknown placeholder in an attribute before one whose name is given',
  breaks='the later placeholder is not replaced',
  demo='''int main() { auto i = make("Copy", {{"inputVar", "$x"}, {"outputVar", "$y"}}); REQ(!i->InitialisePlaceholderAttributes({{"y", "v"}})); REQ(i->GetAttributeString("outputVar") == "v"); return 0; }
'''),
 s(id='c50_validate_gap', prop='C50',
  edits=[(L + 'runner/instruction_info.cpp', '''  if (indices.size() != n_nodes)''', '''  if (indices.size() + 1 < n_nodes)''')],
  needs='a transported description in which exactly one index occurs twice',
  breaks='the malformed description is accepted',
  demo='''#include <sup/oac-tree/instruction_info.h>
int main() { InstructionInfo a("a", Instruction::kDecorator, 0, {}); a.AppendChild(std::make_unique<InstructionInfo>("b", Instruction::kAction, 0, std::vector<AttributeInfo>{})); THROWS(ValidateInstructionInfoTree(a)); return 0; }
'''),
 s(id='c51_unknown_last', prop='C51',
  edits=[(L + 'runner/variable_utils.cpp', '''  auto type_str = var_info[kVariableInfoTypeField].As<std::string>();
  if (type_str.empty())
  {
    return false;
  }
''', '')],
  needs='a transported variable description with an empty type',
  breaks='a malformed description is accepted',
  demo='''#include <sup/oac-tree/variable_utils.h>
#include <sup/oac-tree/constants.h>
int main() { auto v = Constants::kVariableInfoAnyValue; REQ(!utils::ValidateVariableInfoAnyValue(v)); return 0; }
'''),
 s(id='c52_array_type', prop='C52',
  edits=[(L + 'base/user_input_request.cpp', '''  if (!sup::dto::IsArrayValue(options_av) ||
      options_av.GetType().ElementType() != sup::dto::StringType)''', '''  if (!sup::dto::IsArrayValue(options_av))''')],
  needs='a choice request whose options are an array of numbers',
  breaks='the malformed request is not refused as not valid',
  demo='''#include <sup/oac-tree/user_input_request.h>
int main() { auto r = CreateUserChoiceRequest({"a"}, AnyValue{sup::dto::EmptyStruct()}); AnyValue n{2, sup::dto::UnsignedInteger8Type}; AnyValue meta = {{ { Constants::kInputRequestOptionsFieldName, n }, { Constants::kInputRequestMetadataFieldName, AnyValue{sup::dto::EmptyStruct()} } }}; r.m_meta_data = meta; std::vector<std::string> o; AnyValue m; bool ok = true; try { ok = ParseUserChoiceRequest(r, o, m); } catch (const std::exception&) { return 1; } REQ(!ok); return 0; }
'''),
 s(id='c52_choice_unsigned', prop='C52',
  edits=[(L + 'base/user_input_reply.cpp', '''  auto choice = reply.m_payload.As<sup::dto::int32>();
  return { true, choice };''', '''  auto choice = reply.m_payload.As<sup::dto::int32>();
  return { choice >= 0, choice };''')],
  needs='a successful reply with a negative choice',
  breaks='the reply read back has another success flag',
  demo='''#include <sup/oac-tree/user_input_reply.h>
int main() { auto p = ParseUserChoiceReply(CreateUserChoiceReply(true, -3)); REQ(p.first); REQ(p.second == -3); return 0; }
'''),
 s(id='c53_mode', prop='C53',
  edits=[(L + 'parser/procedure_to_treedata_utils.cpp', '''  for (auto& plugin_path : preamble.GetPluginPaths())
  {''', '''  for (auto& plugin_path : preamble.GetPluginPaths())
  {
    if (plugin_path.empty() || parent.GetNumberOfChildren() > 3)
    {
      continue;
    }''')],
  needs='a procedure with more than four preamble entries',
  breaks='plug-ins are lost when the procedure is written',
  demo='''#include <sup/xml/tree_data.h>
#include <sup/oac-tree/parser/procedure_to_treedata_utils.h>
int main() { Procedure p; for (int i = 0; i < 5; i++) p.GetPreamble().AddPluginPath("p" + std::to_string(i)); auto t = ToTreeData(p); int n = 0; for (auto& c : t->Children()) n += c.GetNodeName() == "Plugin"; REQ(n == 5); return 0; }
'''),
 s(id='c60_round', prop='C60',
  edits=[], needs='', breaks='', demo=''),
 s(id='c61_wait_reset', prop='C61',
  edits=[(I + 'wait.cpp', '''  if (!IsHaltRequested() && m_finish > now)''', '''  if (!IsHaltRequested() && m_finish > now + m_timing_accuracy_ns)''')],
  needs='a tick shortly before the time-out, closer than the timing accuracy',
  breaks='the wait succeeds before its time-out',
  demo='''#include <sup/oac-tree/generic_utils.h>
int main() { Ui ui; Workspace ws; Procedure p; p.AddAttribute("timingAccuracy", "0.5"); auto w = make("Wait", {{"timeout", "0.4"}}); w->Setup(p); w->ExecuteSingle(ui, ws); REQ(w->GetStatus() == RUN); return 0; }
'''),
 s(id='c61_vars_fresh', prop='C61',
  edits=[(I + 'wait_for_variables.cpp', '''  auto var_names = UnavailableVars(ws, m_var_names);
  if (var_names.empty())''', '''  auto var_names = UnavailableVars(ws, m_var_names);
  m_var_names = var_names;
  if (var_names.empty())''')],
  needs='a variable that becomes unavailable again while another one is still waited for',
  breaks='the wait succeeds although a variable is not available at that tick',
  demo='''#include <sup/oac-tree/variable.h>
struct V : Variable { bool ok = true; V() : Variable("V") {} bool GetValueImpl(AnyValue&) const override { return false; } bool SetValueImpl(const AnyValue&) override { return false; } bool IsAvailableImpl() const override { return ok; } };
int main() { Ui ui; Workspace ws; Procedure p; auto a = std::make_unique<V>(); auto b = std::make_unique<V>(); auto pa = a.get(), pb = b.get(); ws.AddVariable("a", std::move(a)); ws.AddVariable("b", std::move(b)); ws.Setup(); pb->ok = false;
  auto w = make("WaitForVariables", {{"timeout", "100"}, {"varType", "V"}}); w->Setup(p); w->ExecuteSingle(ui, ws); REQ(w->GetStatus() == RUN); pa->ok = false; pb->ok = true; w->ExecuteSingle(ui, ws); REQ(w->GetStatus() == RUN); return 0; }
'''),
 s(id='c71_reregister', prop='C71',
  edits=[(I + 'instruction_registry.cpp', '''  if (it != m_instruction_map.end())
  {
    std::string error_message =
      "InstructionRegistry::RegisterInstruction(): trying to register instruction "''', '''  if (it != m_instruction_map.end())
  {
    it->second = constructor;
    std::string error_message =
      "InstructionRegistry::RegisterInstruction(): trying to register instruction "''')],
  needs='registering a name twice (refused) and creating an object afterwards',
  breaks='the refused registration replaces the type',
  demo='''int main() { InstructionRegistry r; r.RegisterInstruction("a", []() -> Instruction* { return new Leaf({OK}); }); THROWS(r.RegisterInstruction("a", []() -> Instruction* { return new Leaf({BAD, BAD}); })); auto i = r.Create("a"); REQ(static_cast<Leaf&>(*i).script.size() == 1); return 0; }
'''),
 s(id='c72_root_last', prop='C72',
  edits=[(L + 'procedure/procedure.cpp', '''  for (auto &instr : m_instructions)
  {
    if (HasRootAttributeSet(*instr))
    {
      return instr.get();
    }
  }
  return nullptr;''', '''  const Instruction* root = nullptr;
  for (auto &instr : m_instructions)
  {
    if (HasRootAttributeSet(*instr))
    {
      root = instr.get();
    }
  }
  return root;''')],
  needs='two instructions marked as root',
  breaks='the last one is executed instead of the first',
  demo='''int main() { Procedure p; auto a = make("Succeed", {{"isRoot", "true"}}), b = make("Succeed", {{"isRoot", "true"}}); auto q = a.get(); p.PushInstruction(std::move(a)); p.PushInstruction(std::move(b)); REQ(p.RootInstruction() == q); return 0; }
'''),
 s(id='c73_store_key', prop='C73',
  edits=[(L + 'instructions/instruction_helper.cpp', '  std::size_t delim_pos = path.find(DefaultSettings::PATH_DELIMITER);', '  std::size_t delim_pos = path.find_last_of(DefaultSettings::PATH_DELIMITER);\n  if (path.find(DefaultSettings::PATH_DELIMITER) == 0)\n  {\n    delim_pos = 0;\n  }')],
  needs='a path of three names',
  breaks='the instruction at the path is not found',
  demo='''#include <sup/oac-tree/instructions/instruction_helper.h>
int main() { auto a = make("Inverter", {{"name", "a"}}), b = make("Inverter", {{"name", "b"}}), c = make("Succeed", {{"name", "c"}}); auto q = c.get(); b->InsertInstruction(std::move(c), 0); a->InsertInstruction(std::move(b), 0); std::vector<const Instruction*> v{a.get()}; REQ(InstructionHelper::FindInstruction(v, "a.b.c") == q); return 0; }
'''),
 s(id='c74_le_not_greater', prop='C74',
  edits=[(I + 'lessthanorequal.cpp', '''  return result == sup::dto::CompareResult::Less || result == sup::dto::CompareResult::Equivalent''', '''  return result != sup::dto::CompareResult::Greater''')],
  needs='two values that cannot be compared (a text and a number)',
  breaks='incomparable values are reported as less or equal',
  demo='''int main() { Ui ui; Procedure p; Workspace ws; ws.AddVariable("a", local("string", "\\"x\\"")); ws.AddVariable("b", local("uint8", "3")); ws.Setup(); auto f = make("LessThanOrEqual", {{"leftVar", "a"}, {"rightVar", "b"}}); f->Setup(p); f->ExecuteSingle(ui, ws); REQ(f->GetStatus() == BAD); return 0; }
'''),
 s(id='c75_member_prefix', prop='C75',
  edits=[(I + 'add_member.cpp', 'return (0 == name.compare(member_name));', 'return (0 == name.compare(0, member_name.size(), member_name));')],
  needs='a new member whose name is a proper prefix of an existing one',
  breaks='a possible action is refused',
  demo='''int main() { Ui ui; Procedure p; Workspace ws; auto v = local("{\\"type\\":\\"s\\",\\"attributes\\":[{\\"xy\\":{\\"type\\":\\"uint8\\"}}]}"); v->AddAttribute("dynamicType", "true"); ws.AddVariable("a", std::move(v)); ws.AddVariable("b", local("uint8", "3")); ws.Setup(); auto f = make("AddMember", {{"inputVar", "b"}, {"outputVar", "a"}, {"varName", "x"}, {"memberName", "x"}}); f->ExecuteSingle(ui, ws); REQ(f->GetStatus() == OK); return 0; }
'''),
]
SEEDS = [x for x in SEEDS if x['edits']]

L = 'src/lib/sup/oac-tree/'
I = L + 'instructions/'
H = '#include "demo.h"\n'
def s(**k):
    k.setdefault('lib', True); k['demo'] = H + k['demo']; return k
MON = '''#include <sup/oac-tree/async_runner.h>
#include <atomic>
struct Mon : JobStateMonitor { std::mutex m; std::vector<JobState> st; void OnStateChange(JobState s) noexcept override { std::lock_guard<std::mutex> l(m); st.push_back(s); } void OnBreakpointChange(const Instruction*, bool) noexcept override {} void OnProcedureTick(const Procedure&) noexcept override {}
  bool wait(JobState s) { for (int i = 0; i < 2000; i++) { { std::lock_guard<std::mutex> l(m); if (st.back() == s) return true; } std::this_thread::sleep_for(std::chrono::milliseconds(1)); } return false; } };
static void ms(int n) { std::this_thread::sleep_for(std::chrono::milliseconds(n)); }
'''
AIA = '''#include <sup/oac-tree/async_input_adapter.h>
#include <sup/oac-tree/user_input_request.h>
#include <sup/oac-tree/user_input_reply.h>
#include <sup/oac-tree/i_user_input_future.h>
'''
SEEDS = [
 s(id='c24_id_byte', prop='C24', edits=[(L + 'async_input_adapter.h', 'sup::dto::uint64 m_last_request_id;', 'sup::dto::uint8 m_last_request_id;')],
  needs='more than 255 requests in the life of one adapter',
  breaks='the 256th request gets the id of an invalid one and never has an answer',
  demo=AIA + '''int main() { AsyncInputAdapter a([](const UserInputRequest&, sup::dto::uint64) { return CreateUserChoiceReply(true, 3); }, [](sup::dto::uint64) {});
  for (int i = 0; i < 300; i++) { auto f = a.AddUserInputRequest(CreateUserValueRequest(AnyValue(i), "x")); REQ(f->WaitFor(2.0)); (void)f->GetValue(); } return 0; }
'''),
 s(id='c24_any_reply', prop='C24', edits=[(L + 'base/async_input_adapter.cpp', '''  auto pred = [this, id]() {
    return m_replies.find(id) != m_replies.end();
  };''', '''  auto pred = [this, id]() {
    return !m_replies.empty() && m_replies.rbegin()->first <= id;
  };''')],
  needs='waiting for a later request while the answer of an earlier one was not read yet',
  breaks='the wait reports an answer that is not there',
  demo=AIA + '''#include <atomic>
int main() { std::atomic<bool> go{false}; int n = 0; AsyncInputAdapter a([&](const UserInputRequest&, sup::dto::uint64) { if (n++ > 0) while (!go) std::this_thread::sleep_for(std::chrono::milliseconds(1)); return CreateUserChoiceReply(true, 3); }, [&](sup::dto::uint64) { go = true; });
  auto f = a.AddUserInputRequest(CreateUserValueRequest(AnyValue(1), "x")); auto g = a.AddUserInputRequest(CreateUserValueRequest(AnyValue(2), "y")); REQ(f->WaitFor(2.0)); bool w = g->WaitFor(0.05), r = g->IsReady(); go = true; REQ(w == r); return 0; }
'''),
 s(id='c15_listen_lost', prop='C15', edits=[(I + 'listen.cpp', '''    if (!ws.GetValue(var_name, new_value))
    {
      continue;
    }
    if (var_value''', '''    if (!ws.GetValue(var_name, new_value))
    {
      // forget the value, so that the variable counts as changed when it comes back
      var_value = {};
      continue;
    }
    if (var_value''')],
  needs='a listened variable that cannot be read for a while and then has the same value again',
  breaks='the child runs although no value changed',
  demo='''struct V : Variable { bool ok = true; int v = 1; V() : Variable("V") {} bool GetValueImpl(AnyValue& x) const override { if (!ok) return false; x = AnyValue(v); return true; } bool SetValueImpl(const AnyValue&) override { return false; } };
int main() { Ui ui; Procedure p; Workspace ws; auto v = std::make_unique<V>(); V* q = v.get(); ws.AddVariable("v", std::move(v)); ws.Setup(); auto l = make("Listen", {{"varNames", "v"}}); auto c = leaf(*l, {OK});
  l->ExecuteSingle(ui, ws); REQ(c->execs == 1); l->ExecuteSingle(ui, ws); REQ(c->execs == 1); q->ok = false; l->ExecuteSingle(ui, ws); REQ(c->execs == 1); q->ok = true; l->ExecuteSingle(ui, ws); REQ(c->execs == 1); q->v = 2; l->ExecuteSingle(ui, ws); REQ(c->execs == 2); return 0; }
'''),
 s(id='c15_for_stale', prop='C15', edits=[(I + 'for.cpp', '''  m_count = 0;
  if (!GetAttributeValue(''', '''  m_count = 0;
  if (sup::dto::IsArrayValue(m_array) && m_array.NumberOfElements() != 0)
  {
    return true;
  }
  if (!GetAttributeValue(''')],
  needs='a For that is reset and run again after its array changed',
  breaks='the second run visits the elements of the first',
  demo='''int main() { Ui ui; Workspace ws; ws.AddVariable("e", local("int32", "0")); ws.AddVariable("a", local()); AnyValue arr(2, sup::dto::SignedInteger32Type); arr[0] = AnyValue(sup::dto::int32(1)); arr[1] = AnyValue(sup::dto::int32(2)); ws.Setup(); REQ(ws.SetValue("a", arr));
  auto f = make("For", {{"arrayVar", "a"}, {"elementVar", "e"}}); auto c = leaf(*f); std::vector<int> seen; c->act = [&](Workspace& w) { AnyValue x; w.GetValue("e", x); seen.push_back(x.As<sup::dto::int32>()); return OK; };
  for (int i = 0; i < 9 && f->GetStatus() != OK; i++) f->ExecuteSingle(ui, ws); REQ((seen == std::vector<int>{1, 2})); ws.SetValue("a[1]", AnyValue(sup::dto::int32(7))); f->Reset(ui); seen.clear(); for (int i = 0; i < 9 && f->GetStatus() != OK; i++) f->ExecuteSingle(ui, ws); REQ((seen == std::vector<int>{1, 7})); return 0; }
'''),
 s(id='c61_deadline_first', prop='C61', edits=[(I + 'wait_for_variable.cpp', '''  auto success = CheckCondition(ui, ws);
  if (success)
  {
    return ExecutionStatus::SUCCESS;
  }
  auto now = utils::GetNanosecsSinceEpoch();
  if (m_finish > now)
  {
    return ExecutionStatus::RUNNING;
  }
  return ExecutionStatus::FAILURE;''', '''  // no need to read the variables when there is no time left
  auto now = utils::GetNanosecsSinceEpoch();
  if (m_finish < now)
  {
    return ExecutionStatus::FAILURE;
  }
  return CheckCondition(ui, ws) ? ExecutionStatus::SUCCESS : ExecutionStatus::RUNNING;''')],
  needs='a tick after the time-out at which the condition holds',
  breaks='the instruction fails although its condition holds',
  demo='''int main() { Ui ui; Workspace ws; ws.AddVariable("v", local("int32", "1")); ws.AddVariable("w", local("int32", "2")); ws.Setup(); auto w = make("WaitForVariable", {{"varName", "v"}, {"equalsVar", "w"}, {"timeout", "0.05"}}); w->ExecuteSingle(ui, ws); REQ(w->GetStatus() == RUN); std::this_thread::sleep_for(std::chrono::milliseconds(120)); ws.SetValue("w", AnyValue(sup::dto::int32(1))); w->ExecuteSingle(ui, ws); REQ(w->GetStatus() == OK); return 0; }
'''),
 s(id='c61_seen_once', prop='C61', edits=[(I + 'wait_for_variables.cpp', '''  if (var_names.empty())
  {
    return ExecutionStatus::SUCCESS;
  }
  auto now''', '''  if (var_names.empty())
  {
    return ExecutionStatus::SUCCESS;
  }
  // only the variables that are still unavailable need another look
  m_var_names = var_names;
  auto now''')],
  needs='a variable that becomes unavailable again before the others become available',
  breaks='it succeeds although a variable is unavailable',
  demo='''struct V : Variable { bool ok; explicit V(bool b) : Variable("V"), ok(b) {} bool IsAvailableImpl() const override { return ok; } bool GetValueImpl(AnyValue&) const override { return false; } bool SetValueImpl(const AnyValue&) override { return false; } };
int main() { Ui ui; Workspace ws; auto a = std::make_unique<V>(true), b = std::make_unique<V>(false); V *p = a.get(), *q = b.get(); ws.AddVariable("a", std::move(a)); ws.AddVariable("b", std::move(b)); ws.Setup(); auto w = make("WaitForVariables", {{"varType", "V"}, {"timeout", "30"}}); w->ExecuteSingle(ui, ws); REQ(w->GetStatus() == RUN); p->ok = false; q->ok = true; w->ExecuteSingle(ui, ws); REQ(w->GetStatus() == RUN); p->ok = true; w->ExecuteSingle(ui, ws); REQ(w->GetStatus() == OK); return 0; }
'''),
 s(id='c30_direct_get', prop='C30', edits=[(L + 'variables/variable.cpp', '''  sup::dto::AnyValue var_copy;
  if (!GetValueImpl(var_copy))
  {
    return false;
  }
  if (!fieldname.empty() && !var_copy.HasField(fieldname))
  {
    return false;
  }
  const auto''', '''  if (fieldname.empty() && sup::dto::IsEmptyValue(value))
  {
    return GetValueImpl(value);
  }
  sup::dto::AnyValue var_copy;
  if (!GetValueImpl(var_copy))
  {
    return false;
  }
  const auto separator = fieldname.find_last_of('.');
  if (!fieldname.empty() && !var_copy.HasField(fieldname.substr(0, separator)))
  {
    return false;
  }
  const auto''')],
  needs='reading a field of a field where the outer field exists and the inner one does not',
  breaks='the access is not refused: it throws out of the workspace',
  demo='''int main() { Workspace ws; ws.AddVariable("v", local("{\\"type\\":\\"S\\",\\"attributes\\":[{\\"a\\":{\\"type\\":\\"T\\",\\"attributes\\":[{\\"b\\":{\\"type\\":\\"int32\\"}}]}}]}")); ws.Setup(); AnyValue x; REQ(ws.GetValue("v.a.b", x)); AnyValue y; bool r = true; try { r = ws.GetValue("v.a.c", y); } catch (const std::exception&) { REQ(false); } REQ(!r); return 0; }
'''),
 s(id='c32_either', prop='C32', edits=[(L + 'procedure/workspace.cpp', '''      iter->m_setup = action.m_setup;
    }
    if (!iter->m_teardown)''', '''      iter->m_setup = action.m_setup;
    }
    else if (!iter->m_teardown)''')],
  needs='two variables that share an identifier of which the first gives no action at all',
  breaks='the set-up action runs but its tear-down never does',
  demo='''struct V : Variable { SetupTeardownActions a; explicit V(SetupTeardownActions x) : Variable("V"), a(x) {} bool GetValueImpl(AnyValue&) const override { return false; } bool SetValueImpl(const AnyValue&) override { return false; } SetupTeardownActions SetupImpl(const Workspace&) override { return a; } };
int main() { int up = 0, down = 0; { Workspace ws; SetupTeardownActions n{"id", {}, {}}, f{"id", [&] { ++up; }, [&] { ++down; }}; ws.AddVariable("a", std::make_unique<V>(n)); ws.AddVariable("b", std::make_unique<V>(f)); ws.Setup(); REQ(up == 1 && down == 0); ws.Teardown(); REQ(down == 1); } REQ(down == 1); return 0; }
'''),
 s(id='c22_drain', prop='C22', edits=[(L + 'runner/async_runner.cpp', '''  if (m_command_queue.TryPop(command))
  {
    auto action''', '''  while (m_command_queue.TryPop(command))
  {
    auto action''')],
  needs='a pause and a start that are both queued within one tick',
  breaks='the job is reported as running but never executes again',
  demo=MON + '''int main() { Ui ui; Mon mon; Procedure p; std::atomic<int> n{0}; std::atomic<bool> go{false}; auto l = std::make_unique<Leaf>(); l->act = [&](Workspace&) { if (n++ == 0) while (!go) ms(1); return n < 5 ? NF : OK; }; p.PushInstruction(std::move(l)); AsyncRunner r(p, ui, mon); r.Start(); for (int i = 0; i < 2000 && n == 0; i++) ms(1); r.Pause(); r.Start(); go = true; REQ(mon.wait(JobState::kSucceeded)); return 0; }
'''),
 s(id='c21_halt_finished', prop='C21', edits=[(L + 'runner/async_runner.cpp', '''      m_runner.ResetBreakpoints();
      SetState(JobState::kInitial);
      break;
    case JobCommand::kHalt:
      break;''', '''      m_runner.ResetBreakpoints();
      SetState(JobState::kInitial);
      break;
    case JobCommand::kHalt:
      if (m_proc.GetStatus() != ExecutionStatus::SUCCESS)
      {
        SetState(JobState::kHalted);
      }
      break;''')],
  needs='a halt of a job that failed',
  breaks='the failed job is reported as halted',
  demo=MON + '''int main() { Ui ui; Mon mon; Procedure p; p.PushInstruction(std::make_unique<Leaf>(std::vector<ExecutionStatus>{BAD})); AsyncRunner r(p, ui, mon); r.Start(); REQ(mon.wait(JobState::kFailed)); r.Halt(); ms(200); REQ(mon.st.back() == JobState::kFailed); return 0; }
'''),
 s(id='c20_leaves', prop='C20', edits=[(L + 'runner/runner.cpp', '''    auto next_instructions = GetNextInstructions(*m_proc);''', '''    auto next_instructions = m_breakpoint_manager->GetBreakpoints().size() > 1
                               ? GetNextLeaves(*m_proc) : GetNextInstructions(*m_proc);''')],
  needs='two breakpoints of which one is set on a compound instruction',
  breaks='the run does not stop at the compound instruction',
  demo='''#include <sup/oac-tree/runner.h>
int main() { Ui ui; Procedure p; auto s = make("Sequence"); auto l = leaf(*s, {OK}); leaf(*s, {OK}); auto sp = s.get(); auto m = leaf(*s, {OK}); (void)l; p.PushInstruction(std::move(s)); Runner r(ui); r.SetProcedure(&p); r.SetBreakpoint(sp); r.SetBreakpoint(m); r.ExecuteProcedure(); REQ(l->execs == 0); REQ(r.GetCurrentBreakpointInstructions().size() == 1); return 0; }
'''),
 s(id='c41_again', prop='C41', edits=[(I + 'instruction_helper.cpp', '''      auto var_value = it->second;
      attribute_handler''', '''      auto var_value = it->second;
      // a value may refer to another one
      while (AttributeStartsWith(var_value, DefaultSettings::PLACEHOLDER_ATTRIBUTE_CHAR))
      {
        auto next = FindStringAttribute(source_attributes, var_value.substr(1));
        if (next == source_attributes.end() || next == it)
        {
          break;
        }
        it = next;
        var_value = next->second;
      }
      attribute_handler''')],
  needs='a substituted value that itself begins with the placeholder sign and names another attribute',
  breaks='the attribute gets another value than the one given',
  demo='''#include <sup/oac-tree/instruction.h>
int main() { Leaf l; l.AddAttribute("name", "$a"); REQ(l.InitialisePlaceholderAttributes({{"a", "$b"}, {"b", "x"}})); REQ(l.GetAttributeString("name") == "$b"); return 0; }
'''),
 s(id='c13_last_wins', prop='C13', edits=[(I + 'parallel_sequence.cpp', '''    if (wrapper_status == ExecutionStatus::NOT_FINISHED)
    {
      child_not_finished_present = true;
    }''', '''    if (!IsFinishedStatus(wrapper_status))
    {
      child_not_finished_present = wrapper_status == ExecutionStatus::NOT_FINISHED;
    }''')],
  needs='a child that is not finished before one that is running',
  breaks='the sequence reports running although a child waits for its next tick, so the tick timeout is taken',
  demo='''#include <atomic>
int main() { Ui ui; Workspace ws; std::atomic<bool> go{false}; std::atomic<int> n{0}; auto p = make("ParallelSequence"); auto a = leaf(*p), b = leaf(*p); a->act = [&](Workspace&) { ++n; return NF; }; b->act = [&](Workspace&) { while (!go) std::this_thread::sleep_for(std::chrono::milliseconds(1)); return OK; };
  bool seen = false; for (int i = 0; i < 200 && !seen; i++) { p->ExecuteSingle(ui, ws); std::this_thread::sleep_for(std::chrono::milliseconds(2)); seen = p->GetStatus() == NF; } go = true; REQ(seen); p->Halt(); p->Reset(ui); return 0; }
'''),
 s(id='c13_reset_waits', prop='C13', edits=[(I + 'parallel_sequence.cpp', '''  if (status == ExecutionStatus::RUNNING || status == ExecutionStatus::NOT_FINISHED)
  {
    Halt();
  }''', '''  if (IsExecutingStatus(status) && status != ExecutionStatus::NOT_FINISHED)
  {
    Halt();
  }''')],
  needs='a reset while one child is not finished and another one executes until it is halted',
  breaks='the reset waits for a child that nobody halts',
  demo='''#include <atomic>
struct B : Leaf { ExecutionStatus ExecuteSingleImpl(UserInterface&, Workspace&) override { while (!IsHaltRequested()) std::this_thread::sleep_for(std::chrono::milliseconds(1)); return BAD; } };
int main() { std::thread([] { std::this_thread::sleep_for(std::chrono::seconds(8)); std::puts("hang"); std::_Exit(1); }).detach(); Ui ui; Workspace ws; auto p = make("ParallelSequence"); leaf(*p, {NF}); p->InsertInstruction(std::make_unique<B>(), 1);
  for (int i = 0; i < 500 && p->GetStatus() != NF; i++) { if (i) std::this_thread::sleep_for(std::chrono::milliseconds(2)); p->ExecuteSingle(ui, ws); if (i == 0) REQ(p->GetStatus() == RUN); } REQ(p->GetStatus() == NF); p->Reset(ui); REQ(p->GetStatus() == NS); std::_Exit(0); }
'''),
 s(id='c23_lost_value', prop='C23', edits=[(L + 'runner/job_interface_adapter.cpp', '''  m_job_info_io.VariableUpdated(var_idx, value, connected);''', '''  // a variable that is not connected has no value
  m_job_info_io.VariableUpdated(var_idx, connected ? value : sup::dto::AnyValue{}, connected);''')],
  needs='a variable that reports a value while it is not connected',
  breaks='the last value of the variable is not reported',
  demo='''#include <sup/oac-tree/local_job.h>
#include <sup/oac-tree/i_job_info_io.h>
struct V : Variable { V() : Variable("V") {} bool GetValueImpl(AnyValue&) const override { return false; } bool SetValueImpl(const AnyValue&) override { return false; } SetupTeardownActions SetupImpl(const Workspace&) override { Notify(AnyValue(sup::dto::int32(5)), false); return {}; } };
struct Io : IJobInfoIO { AnyValue got; void JobStateUpdated(JobState) override {} void InitNumberOfInstructions(sup::dto::uint32) override {} void InstructionStateUpdated(sup::dto::uint32, InstructionState) override {} void VariableUpdated(sup::dto::uint32, const AnyValue& v, bool) override { got = v; } void PutValue(const AnyValue&, const std::string&) override {} bool GetUserValue(sup::dto::uint64, AnyValue&, const std::string&) override { return false; } int GetUserChoice(sup::dto::uint64, const std::vector<std::string>&, const AnyValue&) override { return -1; } void Interrupt(sup::dto::uint64) override {} void Message(const std::string&) override {} void Log(int, const std::string&) override {} void NextInstructionsUpdated(const std::vector<sup::dto::uint32>&) override {} };
int main() { Io io; auto p = std::make_unique<Procedure>(); p->PushInstruction(std::make_unique<Leaf>()); p->AddVariable("v", std::make_unique<V>()); LocalJob j(std::move(p), io); REQ(io.got == AnyValue(sup::dto::int32(5))); return 0; }
'''),
 s(id='c16_kept_choice', prop='C16', edits=[(I + 'user_choice.cpp', '''  m_choice = -1;
  Halt();
  ResetChildren(ui);''', '''  Halt();
  ResetChildren(ui);
  if (IsFinishedStatus(GetStatus()))
  {
    m_choice = -1;
  }''')],
  needs='a user choice that is reset while its child is still executing, and run again',
  breaks='the next run executes the earlier choice without waiting for the answer',
  demo=AIA + '''#include <sup/oac-tree/user_interface.h>
struct Fut : IUserInputFuture { int c; explicit Fut(int x) : c(x) {} sup::dto::uint64 GetId() const override { return 1; } bool IsValid() const override { return true; } bool IsReady() const override { return true; } bool WaitFor(double) const override { return true; } UserInputReply GetValue() override { return CreateUserChoiceReply(true, c); } };
struct U : Ui { int c = 0; std::unique_ptr<IUserInputFuture> RequestUserInput(const UserInputRequest&) override { return std::make_unique<Fut>(c); } };
int main() { U ui; Workspace ws; auto k = make("UserChoice"); auto a = leaf(*k, {RUN}), b = leaf(*k, {OK}); k->ExecuteSingle(ui, ws); k->ExecuteSingle(ui, ws); REQ(a->execs == 1); k->Reset(ui); ui.c = 1; for (int i = 0; i < 3; i++) k->ExecuteSingle(ui, ws); REQ(a->execs == 1); REQ(b->execs == 1); return 0; }
'''),
 s(id='c12_later_only', prop='C12', edits=[(I + 'reactive_fallback.cpp', '''    if (other_instruction != instr)
    {
      other_instruction->Reset(ui);
    }''', '''    if (other_instruction == instr)
    {
      break;
    }
    other_instruction->Reset(ui);''')],
  needs='an earlier child that comes back to running while a later one is still running',
  breaks='the later child is not reset when an earlier one takes over',
  demo='''int main() { Ui ui; Workspace ws; auto f = make("ReactiveFallback"); auto a = leaf(*f, {BAD, RUN}), b = leaf(*f, {RUN}); for (int i = 0; i < 4 && a->execs < 2; i++) f->ExecuteSingle(ui, ws); REQ(a->GetStatus() == RUN); REQ(b->GetStatus() == NS); return 0; }
'''),
]

I = 'src/lib/sup/oac-tree/instructions/'
H = '#include "demo.h"\n'
def s(**k):
    k.setdefault('lib', True); k['demo'] = H + k['demo']; return k
SEEDS = [
 s(id='c10_reset_order', prop='C10',
  edits=[(I + 'instruction.cpp', '{\n  ResetHook(ui);\n  m_status_before = GetStatus();', '{\n  m_halt_requested.store(false);\n  ResetHook(ui);\n  m_status_before = GetStatus();'),
         (I + 'instruction.cpp', '  m_attribute_handler.ClearFailedConstraints();\n  m_halt_requested.store(false);\n', '  m_attribute_handler.ClearFailedConstraints();\n')],
  needs='an instruction whose reset hook halts it (user input, parallel sequence), reset and executed again',
  breaks='the halt request survives the reset, so the next run does not execute the logic',
  demo='''struct H2 : Leaf { using Leaf::Leaf; void ResetHook(UserInterface& ui) override { Halt(); } };
int main() { Ui ui; Workspace ws; H2 l({RUN, OK}); l.ExecuteSingle(ui, ws); l.Reset(ui); REQ(!l.IsHaltRequested()); l.ExecuteSingle(ui, ws); REQ(l.execs == 2); return 0; }
'''),
 s(id='c10_init_fail_runs', prop='C10',
  edits=[(I + 'instruction.cpp', '''  Preamble(ui, ws);
  m_status_before = GetStatus();
  if (NeedsExecute(m_status_before) && !IsHaltRequested())''', '''  const bool first = GetStatus() == ExecutionStatus::NOT_STARTED;
  Preamble(ui, ws);
  m_status_before = GetStatus();
  if ((first || NeedsExecute(m_status_before)) && !IsHaltRequested())''')],
  needs='an instruction whose initialisation fails',
  breaks='the logic runs although initialisation failed',
  demo='''int main() { Ui ui; Workspace ws; Leaf l({OK}); l.initOk = false; l.ExecuteSingle(ui, ws); REQ(l.execs == 0); REQ(l.GetStatus() == BAD); return 0; }
'''),
 s(id='c10_reset_report', prop='C10',
  edits=[(I + 'instruction.cpp', '''  SetStatus(ExecutionStatus::NOT_STARTED);
  if (GetStatus() != m_status_before)
  {
    ui.UpdateInstructionStatus(this);
  }''', '''  if (IsFinishedStatus(m_status_before))
  {
    SetStatus(ExecutionStatus::NOT_STARTED);
    ui.UpdateInstructionStatus(this);
  }
  else if (m_status_before != ExecutionStatus::NOT_STARTED)
  {
    SetStatus(ExecutionStatus::NOT_STARTED);
  }''')],
  needs='a reset of an instruction that is still running or not finished',
  breaks='the user interface is not told that the status went back to not started',
  demo='''int main() { Ui ui; Workspace ws; Leaf l({RUN}); l.ExecuteSingle(ui, ws); size_t n = ui.ev.size(); l.Reset(ui); REQ(ui.ev.size() == n + 1); REQ(ui.ev.back().second == NS); return 0; }
'''),
 s(id='c11_fallback_resume', prop='C11',
  edits=[(I + 'fallback.cpp', '''    if (child_status == ExecutionStatus::FAILURE)
    {
      continue;
    }

    if (NeedsExecute(child_status))
    {
      instruction->ExecuteSingle(ui, ws);
      break;
    }''', '''    if (child_status == ExecutionStatus::FAILURE)
    {
      continue;
    }

    if (NeedsExecute(child_status))
    {
      instruction->ExecuteSingle(ui, ws);
      if (child_status == ExecutionStatus::RUNNING
          && instruction->GetStatus() == ExecutionStatus::FAILURE)
      {
        continue;
      }
      break;
    }''')],
  needs='a fallback child that was running and then fails, with another child behind it',
  breaks='two children are ticked in one tick',
  demo='''int main() { Ui ui; Workspace ws; auto f = make("Fallback"); auto a = leaf(*f, {RUN, BAD}); auto b = leaf(*f, {OK}); f->ExecuteSingle(ui, ws); f->ExecuteSingle(ui, ws); REQ(a->execs == 2); REQ(b->execs == 0); REQ(f->GetStatus() == NF); return 0; }
'''),
 s(id='c11_seq_running', prop='C11',
  edits=[(I + 'sequence.cpp', '''      return ExecutionStatus::NOT_FINISHED;
    }
    return child_status;''', '''      return GetStatus() == ExecutionStatus::RUNNING ? ExecutionStatus::RUNNING
                                                     : ExecutionStatus::NOT_FINISHED;
    }
    return child_status;''')],
  needs='a sequence that was running and whose running child then succeeds before the last child',
  breaks='the sequence keeps reporting running although the next child is ready (nothing runs)',
  demo='''int main() { Ui ui; Workspace ws; auto f = make("Sequence"); leaf(*f, {RUN, OK}); leaf(*f, {OK}); f->ExecuteSingle(ui, ws); REQ(f->GetStatus() == RUN); f->ExecuteSingle(ui, ws); REQ(f->GetStatus() == NF); return 0; }
'''),
 s(id='c12_reset_before', prop='C12',
  edits=[(I + 'reactive_sequence.cpp', '''    if (other_instruction != instr)
    {
      other_instruction->Reset(ui);
    }''', '''    if (other_instruction == instr)
    {
      break;
    }
    other_instruction->Reset(ui);''')],
  needs='a later child is running when an earlier one reports running in a following tick',
  breaks='the later child is not interrupted and reset',
  demo='''int main() { Ui ui; Workspace ws; auto f = make("ReactiveSequence"); auto a = leaf(*f, {OK, RUN}); auto b = leaf(*f, {RUN}); 
  f->ExecuteSingle(ui, ws); REQ(a->GetStatus() == OK); f->ExecuteSingle(ui, ws); REQ(b->GetStatus() == RUN); f->ExecuteSingle(ui, ws); REQ(a->GetStatus() == RUN); REQ(b->GetStatus() == NS); return 0; }
'''),
 s(id='c12_fallback_once', prop='C12',
  edits=[(I + 'reactive_fallback.cpp', '      if (instruction->GetStatus() == ExecutionStatus::RUNNING)', '      if (instruction->GetStatus() == ExecutionStatus::RUNNING && child_status != ExecutionStatus::RUNNING)')],
  needs='a child of a reactive fallback that reports running in two consecutive executions',
  breaks='other children are not reset the second time, so they are not re-checked',
  demo='''int main() { Ui ui; Workspace ws; auto f = make("ReactiveFallback"); auto a = leaf(*f, {BAD}); auto b = leaf(*f, {RUN}); 
  for (int i = 0; i < 6; i++) f->ExecuteSingle(ui, ws); REQ(a->execs == 3); REQ(b->execs == 3); REQ(a->GetStatus() == NS); return 0; }
'''),
 s(id='c13_failure_clamp', prop='C13',
  edits=[(I + 'parallel_sequence.cpp', '  m_failure_th = std::min(N, m_failure_th);\n', '')],
  needs='a failure threshold above the number of children, without a success threshold',
  breaks='the success threshold wraps around, so the sequence never ends',
  demo='''int main() { Ui ui; Workspace ws; Procedure p; auto f = make("ParallelSequence", {{"failureThreshold", "4"}}); leaf(*f, {OK}); leaf(*f, {OK}); f->Setup(p);
  for (int i = 0; i < 200 && f->GetStatus() != OK; i++) { f->ExecuteSingle(ui, ws); std::this_thread::sleep_for(std::chrono::milliseconds(2)); } REQ(f->GetStatus() == OK); return 0; }
'''),
 s(id='c13_both_thresholds', prop='C13',
  edits=[(I + 'parallel_sequence.cpp', '  if (HasAttribute(Constants::SUCCESS_THRESHOLD_ATTRIBUTE_NAME))\n', '  if (HasAttribute(Constants::SUCCESS_THRESHOLD_ATTRIBUTE_NAME)\n      && !HasAttribute(Constants::FAILURE_THRESHOLD_ATTRIBUTE_NAME))\n'),
         (I + 'parallel_sequence.cpp', '  else if (HasAttribute(Constants::FAILURE_THRESHOLD_ATTRIBUTE_NAME))', '  else if (!HasAttribute(Constants::SUCCESS_THRESHOLD_ATTRIBUTE_NAME)\n           && HasAttribute(Constants::FAILURE_THRESHOLD_ATTRIBUTE_NAME))')],
  needs='both thresholds given with a sum above children plus one and a mixed result',
  breaks='the sequence never ends although all children have',
  demo='''int main() { Ui ui; Workspace ws; Procedure p; auto f = make("ParallelSequence", {{"failureThreshold", "2"}, {"successThreshold", "2"}}); leaf(*f, {OK}); leaf(*f, {BAD}); f->Setup(p);
  for (int i = 0; i < 200 && f->GetStatus() != BAD; i++) { f->ExecuteSingle(ui, ws); std::this_thread::sleep_for(std::chrono::milliseconds(2)); } REQ(f->GetStatus() == BAD); return 0; }
'''),
 s(id='c13_halt_success_only', prop='C13',
  edits=[(I + 'parallel_sequence.cpp', '  if (IsFinishedStatus(status))\n', '  if (status == ExecutionStatus::SUCCESS)\n')],
  needs='a parallel sequence that fails while another child is still going',
  breaks='the remaining children are not halted',
  demo='''int main() { Ui ui; Workspace ws; Procedure p; auto f = make("ParallelSequence"); auto a = leaf(*f, {RUN}); leaf(*f, {BAD}); f->Setup(p);
  for (int i = 0; i < 200 && f->GetStatus() != BAD; i++) { f->ExecuteSingle(ui, ws); std::this_thread::sleep_for(std::chrono::milliseconds(2)); } REQ(f->GetStatus() == BAD); REQ(a->IsHaltRequested()); return 0; }
'''),
 s(id='c14_repeat_narrow', prop='C14',
  edits=[('src/lib/sup/oac-tree/instructions/repeat.h', '  sup::dto::int32 m_max_count;', '  sup::dto::int8 m_max_count;'), (I + 'repeat.cpp', '''  if (!GetAttributeValueAs(Constants::MAX_COUNT_ATTRIBUTE_NAME, ws, ui, m_max_count))
  {
    return false;
  }
  if (m_max_count < 0)
  {
    m_max_count = -1;
  }''', '''  int max_count = 0;
  if (!GetAttributeValueAs(Constants::MAX_COUNT_ATTRIBUTE_NAME, ws, ui, max_count))
  {
    return false;
  }
  m_max_count = max_count < 0 ? -1 : max_count;''')],
  needs='a repeat count of 256 (a multiple of 256) or above 127',
  breaks='the count is cut to eight bits: 256 repetitions succeed at once without executing the child',
  demo='''int main() { Ui ui; Workspace ws; Procedure p; auto f = make("Repeat", {{"maxCount", "256"}}); auto a = leaf(*f, {OK}); f->Setup(p); int n = 0;
  while (n < 1000 && (f->GetStatus() == NS || f->GetStatus() == NF)) { f->ExecuteSingle(ui, ws); n++; } REQ(a->execs == 256); REQ(f->GetStatus() == OK); return 0; }
'''),
 s(id='c14_repeat_count_kept', prop='C14',
  edits=[(I + 'repeat.cpp', '  m_count = 0;\n', '')],
  needs='a repeat that is reset after at least one run of its child and executed again',
  breaks='the runs of the previous execution count, so the repeat does not end at the requested number',
  demo='''int main() { Ui ui; Workspace ws; Procedure p; auto f = make("Repeat", {{"maxCount", "2"}}); auto a = leaf(*f, {OK}); f->Setup(p); 
  f->ExecuteSingle(ui, ws); f->Reset(ui); f->ExecuteSingle(ui, ws); REQ(f->GetStatus() == NF); f->ExecuteSingle(ui, ws); REQ(f->GetStatus() == OK); return 0; }
'''),
 s(id='c14_inverter_reexec', prop='C14',
  edits=[(I + 'force_success.cpp', '  if (status == ExecutionStatus::FAILURE)', '  if (status == ExecutionStatus::FAILURE || IsHaltRequested())')],
  needs='a halt that arrives while the child executes and leaves it running',
  breaks='an unfinished child is reported as success',
  demo='''int main() { Ui ui; Workspace ws; Procedure p; auto f = make("ForceSuccess"); auto a = leaf(*f, {}); Instruction* fp = f.get(); a->act = [fp](Workspace&) { fp->Halt(); return RUN; }; f->Setup(p); 
  f->ExecuteSingle(ui, ws); REQ(f->GetStatus() == RUN); return 0; }
'''),
 s(id='c15_listen_first', prop='C15',
  edits=[(I + 'listen.cpp', '''    var_value = new_value;
    cache_changed = true;
  }
  return cache_changed;''', '''    var_value = new_value;
    cache_changed = true;
    break;
  }
  return cache_changed;''')],
  needs='two listened variables that change between the same two ticks',
  breaks='the child runs a second time without a change',
  demo='''int main() { Ui ui; Procedure p; Workspace ws; ws.AddVariable("a", local("uint8", "1")); ws.AddVariable("b", local("uint8", "1")); ws.Setup();
  auto f = make("Listen", {{"varNames", "a,b"}}); auto a = leaf(*f, {OK}); f->Setup(p); f->ExecuteSingle(ui, ws); f->ExecuteSingle(ui, ws); REQ(a->execs == 1); REQ(f->GetStatus() == RUN); return 0; }
'''),
 s(id='c15_for_count', prop='C15',
  edits=[(I + 'for.cpp', '  m_count = 0;\n', '')],
  needs='a loop that is reset in the middle of its array and executed again',
  breaks='the second run does not start at the first element',
  demo='''int main() { Ui ui; Procedure p; Workspace ws; ws.AddVariable("a", local("{\\"type\\":\\"\\",\\"multiplicity\\":2,\\"element\\":{\\"type\\":\\"uint8\\"}}", "[7,9]")); ws.AddVariable("e", local("uint8", "0")); ws.Setup();
  auto f = make("For", {{"arrayVar", "a"}, {"elementVar", "e"}}); auto a = leaf(*f, {OK}); f->Setup(p); f->ExecuteSingle(ui, ws); f->Reset(ui); f->ExecuteSingle(ui, ws); AnyValue v; ws.GetValue("e", v); REQ(v.As<unsigned>() == 7); return 0; }
'''),
 s(id='c15_for_fail_continues', prop='C15',
  edits=[(I + 'for.cpp', '''      && (child_status == ExecutionStatus::SUCCESS || child_status == ExecutionStatus::FAILURE))
  {
    m_count++;
  }''', '''      && child_status != ExecutionStatus::NOT_FINISHED)
  {
    m_count++;
  }''')],
  needs='a loop whose child reports running',
  breaks='elements are skipped while the child is running',
  demo='''int main() { Ui ui; Procedure p; Workspace ws; ws.AddVariable("a", local("{\\"type\\":\\"\\",\\"multiplicity\\":3,\\"element\\":{\\"type\\":\\"uint8\\"}}", "[7,9,11]")); ws.AddVariable("e", local("uint8", "0")); ws.Setup();
  auto f = make("For", {{"arrayVar", "a"}, {"elementVar", "e"}}); auto a = leaf(*f, {RUN, OK}); f->Setup(p); f->ExecuteSingle(ui, ws); f->ExecuteSingle(ui, ws); AnyValue v; ws.GetValue("e", v); REQ(v.As<unsigned>() == 7); return 0; }
'''),
 s(id='c16_choice_empty', prop='C16',
  edits=[(I + 'choice.cpp', '  if (m_instruction_list.empty() && !m_instruction_list_initialized)', '  if (m_instruction_list.empty())')],
  needs='a selector that is an empty array',
  breaks='the choice never ends',
  demo='''int main() { Ui ui; Procedure p; Workspace ws; ws.AddVariable("a", local("{\\"type\\":\\"\\",\\"multiplicity\\":0,\\"element\\":{\\"type\\":\\"uint8\\"}}", "[]")); ws.Setup();
  auto f = make("Choice", {{"varName", "a"}}); auto a = leaf(*f, {OK}); f->Setup(p); for (int i = 0; i < 5; i++) f->ExecuteSingle(ui, ws); REQ(f->GetStatus() == OK); REQ(a->execs == 0); return 0; }
'''),
 s(id='c16_confirm_other', prop='C16',
  edits=[(I + 'user_confirmation.cpp', '  return choice == 0 ? ExecutionStatus::SUCCESS : ExecutionStatus::FAILURE;', '  return choice == 1 ? ExecutionStatus::FAILURE : ExecutionStatus::SUCCESS;')],
  needs='a reply with an option other than the two offered',
  breaks='the confirmation succeeds although the user did not confirm',
  demo='''#include <sup/oac-tree/user_input_request.h>
#include <sup/oac-tree/user_input_reply.h>
#include <sup/oac-tree/i_user_input_future.h>
struct F : IUserInputFuture { sup::dto::uint64 GetId() const override { return 1; } bool IsValid() const override { return true; } bool IsReady() const override { return true; } bool WaitFor(double) const override { return true; } UserInputReply GetValue() override { return CreateUserChoiceReply(true, 2); } };
struct U : Ui { std::unique_ptr<IUserInputFuture> RequestUserInput(const UserInputRequest&) override { return std::unique_ptr<IUserInputFuture>(new F); } };
int main() { U ui; Procedure p; Workspace ws; auto f = make("UserConfirmation", {{"description", "a"}}); f->Setup(p); f->ExecuteSingle(ui, ws); REQ(f->GetStatus() == BAD); return 0; }
'''),
 s(id='c16_choice_kept', prop='C16',
  edits=[(I + 'user_choice.cpp', '  m_choice = -1;\n', '')],
  needs='a user choice that is reset after an answer and executed again',
  breaks='the child of the previous answer is executed, the new answer ignored',
  demo='''#include <sup/oac-tree/user_input_request.h>
#include <sup/oac-tree/user_input_reply.h>
#include <sup/oac-tree/i_user_input_future.h>
static int ans = 0;
struct F : IUserInputFuture { sup::dto::uint64 GetId() const override { return 1; } bool IsValid() const override { return true; } bool IsReady() const override { return true; } bool WaitFor(double) const override { return true; } UserInputReply GetValue() override { return CreateUserChoiceReply(true, ans); } };
struct U : Ui { std::unique_ptr<IUserInputFuture> RequestUserInput(const UserInputRequest&) override { return std::unique_ptr<IUserInputFuture>(new F); } };
int main() { U ui; Procedure p; Workspace ws; auto f = make("UserChoice", {{"description", "a"}}); auto a = leaf(*f, {OK}); auto b = leaf(*f, {OK}); f->Setup(p); f->ExecuteSingle(ui, ws); f->ExecuteSingle(ui, ws); REQ(a->execs == 1); f->Reset(ui); ans = 1; f->ExecuteSingle(ui, ws); f->ExecuteSingle(ui, ws); REQ(a->execs == 1); REQ(b->execs == 1); return 0; }
'''),
 s(id='c17_async_reset_order', prop='C17',
  edits=[(I + 'async.cpp', '''  // wait for child thread to terminate
  m_wrapper.reset();
  // call reset on child instruction
  ResetChild(ui);''', '''  // call reset on child instruction
  ResetChild(ui);
  // wait for child thread to terminate
  m_wrapper.reset();''')],
  needs='a reset while the asynchronous step is still running',
  breaks='the child is reset while its step still runs and takes over its status afterwards',
  demo='''#include <atomic>
int main() { Ui ui; Procedure p; Workspace ws; auto f = make("Async"); auto a = leaf(*f, {}); std::atomic<bool> in{false}; a->act = [&](Workspace&) { in = true; std::this_thread::sleep_for(std::chrono::milliseconds(100)); return RUN; }; f->Setup(p);
  f->ExecuteSingle(ui, ws); while (!in) std::this_thread::yield(); f->Reset(ui); REQ(a->GetStatus() == NS); return 0; }
'''),
 s(id='c17_relaunch_at_once', prop='C17',
  edits=[(I + 'async_wrapper.cpp', '    if (!status_changed && NeedsExecute(m_status))', '    if ((!status_changed || m_status == ExecutionStatus::NOT_FINISHED) && NeedsExecute(m_status))')],
  needs='an asynchronous child whose step leaves it not finished',
  breaks='the step result is never reported: the next step is launched in the same tick',
  demo='''int main() { Ui ui; Procedure p; Workspace ws; auto f = make("Async"); auto a = leaf(*f, {NF}); f->Setup(p); f->ExecuteSingle(ui, ws); std::this_thread::sleep_for(std::chrono::milliseconds(50)); f->ExecuteSingle(ui, ws); REQ(a->execs == 1); REQ(f->GetStatus() == NF); return 0; }
'''),
 s(id='c18_bfs_depth', prop='C18',
  edits=[(I + 'instruction_tree.cpp', '''      result.push_back(node->GetInstruction());
      for (auto child_node : node->GetChildren())
      {
        temp_stack.push_back(child_node);
      }''', '''      result.push_back(node->GetInstruction());
      for (auto child_node : node->GetChildren())
      {
        (child_node->GetChildren().empty() ? stack : temp_stack).push_back(child_node);
      }''')],
  needs='a tree where a leaf lies right of a subtree at the same level',
  breaks='the flattened list is not in breadth-first order',
  demo='''#include <sup/oac-tree/instruction_tree.h>
int main() { auto f = make("Sequence"); auto g = make("Sequence"); Instruction* gp = g.get(); auto c = leaf(*g); f->InsertInstruction(std::move(g), 0); auto b = leaf(*f);
  auto l = FlattenBFS(CreateFullInstructionTree(f.get())); std::vector<const Instruction*> w{f.get(), gp, b, c}; REQ(l == w); return 0; }
'''),
 s(id='c18_next_running_decorator', prop='C18',
  edits=[(I + 'reactive_fallback.cpp', '''    if (ReadyForExecute(child_status))
    {
      result.push_back(instruction);
      return result;
    }''', '''    if (NeedsExecute(child_status))
    {
      result.push_back(instruction);
      return result;
    }''')],
  needs='the tree of next instructions of a reactive fallback with a running child',
  breaks='an instruction below one that reports running is listed as next',
  demo='''#include <sup/oac-tree/instruction_tree.h>
int main() { Ui ui; Workspace ws; auto f = make("ReactiveFallback"); leaf(*f, {RUN}); f->ExecuteSingle(ui, ws); REQ(f->NextInstructions().empty()); return 0; }
'''),
 s(id='c19_take_swap', prop='C19',
  edits=[(I + 'compound_instruction.cpp', '  m_children.erase(it);', '  std::swap(*it, m_children.back());\n  m_children.pop_back();')],
  needs='a child taken from before the last two children',
  breaks='the order of the remaining children changes',
  demo='''int main() { auto f = make("Sequence"); leaf(*f); auto b = leaf(*f); auto c = leaf(*f); f->TakeInstruction(0); REQ(f->ChildInstructions()[0] == b); REQ(f->ChildInstructions()[1] == c); return 0; }
'''),
 s(id='c19_reset_skips', prop='C19',
  edits=[(I + 'compound_instruction.cpp', '''    instruction->Reset(ui);''', '''    if (instruction->GetStatus() != ExecutionStatus::NOT_STARTED)
    {
      instruction->Reset(ui);
    }''')],
  needs='a halt while later children have not started, then a reset and a second run',
  breaks='children that had not started keep their halt request and are never executed again',
  demo='''int main() { Ui ui; Workspace ws; auto f = make("Sequence"); leaf(*f, {RUN, OK}); auto b = leaf(*f, {OK}); f->ExecuteSingle(ui, ws); f->Halt(); f->Reset(ui); REQ(!b->IsHaltRequested()); for (int i = 0; i < 4; i++) f->ExecuteSingle(ui, ws); REQ(f->GetStatus() == OK); return 0; }
'''),
]

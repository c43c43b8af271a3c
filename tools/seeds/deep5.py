L = 'src/lib/sup/oac-tree/'
I = L + 'instructions/'
H = '#include "demo.h"\n'
def s(**k):
    k.setdefault('lib', True); k['demo'] = H + k['demo']; return k
IO = '''#include <sup/oac-tree/local_job.h>
#include <sup/oac-tree/i_job_info_io.h>
struct Io : IJobInfoIO { std::vector<std::pair<ExecutionStatus, bool>> st; void JobStateUpdated(JobState) override {} void InitNumberOfInstructions(sup::dto::uint32) override {} void InstructionStateUpdated(sup::dto::uint32, InstructionState s) override { st.push_back({s.m_execution_status, s.m_breakpoint_set}); } void VariableUpdated(sup::dto::uint32, const AnyValue&, bool) override {} void PutValue(const AnyValue&, const std::string&) override {} bool GetUserValue(sup::dto::uint64, AnyValue&, const std::string&) override { return false; } int GetUserChoice(sup::dto::uint64, const std::vector<std::string>&, const AnyValue&) override { return -1; } void Interrupt(sup::dto::uint64) override {} void Message(const std::string&) override {} void Log(int, const std::string&) override {} void NextInstructionsUpdated(const std::vector<sup::dto::uint32>&) override {} };
'''
SEEDS = [
 s(id='c23_state_copy', prop='C23', edits=[(L + 'runner/job_interface_adapter.cpp', '''  auto& instr_state = m_instr_states[instr_idx];
  instr_state.m_breakpoint_set = breakpoint_set;''', '''  auto instr_state = m_instr_states[instr_idx];
  instr_state.m_breakpoint_set = breakpoint_set;''')],
  needs='a status change of an instruction that has a breakpoint',
  breaks='the breakpoint is reported as not set although it is',
  demo=IO + '''int main() { Io io; auto p = std::make_unique<Procedure>(); p->PushInstruction(std::make_unique<Leaf>()); LocalJob j(std::move(p), io); j.SetBreakpoint(0); REQ(io.st.back().second); j.Step(); std::this_thread::sleep_for(std::chrono::milliseconds(300)); REQ(io.st.size() > 1 && io.st.back().first == OK && io.st.back().second); return 0; }
'''),
 s(id='c75_element_name', prop='C75', edits=[(I + 'add_element.cpp', '''  if (output_var.GetType().ElementType() != input_var.GetType())''', '''  if (output_var.GetType().ElementType().GetTypeName() != input_var.GetTypeName())''')],
  needs='an element whose type has the name of the element type but other members',
  breaks='the element is not refused as an instruction failure',
  demo='''int main() { Ui ui; Workspace ws; ws.AddVariable("a", local("{\\"type\\":\\"\\",\\"element\\":{\\"type\\":\\"S\\",\\"attributes\\":[{\\"x\\":{\\"type\\":\\"uint8\\"}}]}}")); ws.AddVariable("e", local("{\\"type\\":\\"S\\",\\"attributes\\":[{\\"y\\":{\\"type\\":\\"uint8\\"}}]}")); ws.AddVariable("g", local("{\\"type\\":\\"S\\",\\"attributes\\":[{\\"x\\":{\\"type\\":\\"uint8\\"}}]}"));
  try { ws.Setup(); } catch (const std::exception& e) { std::printf("%s\\n", e.what()); return 3; }
  try { auto i = make("AddElement", {{"inputVar", "e"}, {"outputVar", "a"}}); i->ExecuteSingle(ui, ws); REQ(i->GetStatus() == BAD); auto k = make("AddElement", {{"inputVar", "g"}, {"outputVar", "a"}}); k->ExecuteSingle(ui, ws); } catch (const std::exception& e) { std::printf("escaped: %s\\n", e.what()); return 1; } return 0; }
'''),
 s(id='c73_path_propagates', prop='C73', edits=[(I + 'include_procedure.cpp', '''    if (IsDefinedAttributeName(*this, attr_name))
    {
      continue;
    }
    if (!HasAttribute(attr_name))''', '''    if (IsDefinedAttributeName(*this, attr_name) && HasAttribute(attr_name))
    {
      continue;
    }
    if (!HasAttribute(attr_name))''')],
  needs='an inclusion by path of an instruction that includes a procedure without a path',
  breaks='the inner inclusion takes the path of the outer one',
  demo='''#include <sup/oac-tree/sequence_parser.h>
#include <sup/xml/tree_data.h>
namespace sup { namespace xml { namespace model { void PutFile(const std::string&, const TreeData&); } } }
using sup::xml::TreeData; using sup::xml::model::PutFile;
static TreeData node(const std::string& t, std::vector<std::pair<std::string, std::string>> a = {}, std::vector<TreeData> c = {}) { TreeData d(t); for (auto& x : a) d.AddAttribute(x.first, x.second); for (auto& x : c) d.AddChild(x); return d; }
int main() { TreeData a("Procedure"), b("Procedure"), c("Procedure"); a.AddChild(node("Include", {{"file", "b"}, {"path", "X"}})); b.AddChild(node("IncludeProcedure", {{"name", "X"}, {"file", "c"}})); c.AddChild(node("Fail", {{"name", "X"}})); c.AddChild(node("Succeed", {{"name", "Y"}, {"isRoot", "true"}})); PutFile("/d/a", a); PutFile("/d/b", b); PutFile("/d/c", c);
  auto p = ParseProcedureFile("/d/a"); REQ(p); try { p->Setup(); } catch (const std::exception& e) { std::printf("%s\\n", e.what()); return 3; } Ui ui; p->ExecuteSingle(ui); REQ(p->GetStatus() == OK); return 0; }
'''),
 s(id='c24_halt_unlocked', prop='C24', edits=[(L + 'base/async_input_adapter.cpp', '''      m_interrupt_func(m_current_id);
    }
    m_halt = true;
  }
  m_cv.notify_one();''', '''      m_interrupt_func(m_current_id);
    }
  }
  m_halt = true;
  m_cv.notify_one();''')],
  needs='a destruction between the check of the handler thread and its wait',
  breaks='the handler is never told to end, so the destruction hangs',
  demo='''#include <sup/oac-tree/async_input_adapter.h>
#include <sup/oac-tree/user_input_request.h>
#include <sup/oac-tree/user_input_reply.h>
#include <atomic>
#include <unistd.h>
int main() { static std::atomic<long> n[8]; static std::atomic<int> left{8}; for (int t = 0; t < 8; t++) std::thread([t] { for (int i = 0; i < 60000; i++) { { AsyncInputAdapter a([](const UserInputRequest&, sup::dto::uint64) { return CreateUserChoiceReply(true, 3); }, [](sup::dto::uint64) {}); for (volatile int k = 0; k < (i * 37) % 4000; k++) {} } n[t] = i; } left--; }).detach();
  long last[8] = {}; for (int s = 0; left > 0 && s < 200; s++) { std::this_thread::sleep_for(std::chrono::seconds(1)); for (int t = 0; t < 8; t++) { long now = n[t]; if (s > 3 && s % 5 == 0) { REQ(now != last[t] || now == 59999); } if (s % 5 == 0) last[t] = now; } } std::fflush(stdout); _exit(0); }
'''),
 s(id='c03_trypop_unlocked', prop='C03', edits=[(L + 'runner/job_command_queue.cpp', '''  std::lock_guard<std::mutex> lk{m_mtx};
  if (m_command_queue.empty())
  {
    return false;
  }
  command = m_command_queue.front();''', '''  if (IsEmpty())
  {
    return false;
  }
  std::lock_guard<std::mutex> lk{m_mtx};
  command = m_command_queue.front();''')],
  needs='another consumer that takes the last command between the check and the removal',
  breaks='a command that was never pushed is handed out',
  demo='''#include <sup/oac-tree/job_command_queue.h>
#include <atomic>
#include <csignal>
#include <unistd.h>
int main() { for (int g : {SIGSEGV, SIGABRT, SIGBUS}) std::signal(g, [](int) { _exit(1); }); for (int k = 0; k < 40; k++) { JobCommandQueue q; std::atomic<long> popped{0}, pushed{0}; std::atomic<bool> stop{false}; std::vector<std::thread> c; for (int t = 0; t < 4; t++) c.emplace_back([&] { JobCommand x; while (!stop) if (q.TryPop(x)) popped++; }); for (int i = 0; i < 20000; i++) { pushed++; q.Push(JobCommand::kStart); if (popped > pushed) std::_Exit(1); } for (int t = 0; t < 2000 && popped < pushed; t++) std::this_thread::sleep_for(std::chrono::milliseconds(1)); stop = true; for (auto& t : c) t.join(); REQ(popped == pushed && q.IsEmpty()); } return 0; }
'''),
 s(id='c75_input_ignored', prop='C75', edits=[(I + 'input.cpp', '''  if (!SetValueFromAttributeName(*this, ws, ui, Constants::OUTPUT_VARIABLE_NAME_ATTRIBUTE_NAME,
                                 user_value))
  {
    return ExecutionStatus::FAILURE;
  }
  return ExecutionStatus::SUCCESS;''', '''  (void)SetValueFromAttributeName(*this, ws, ui, Constants::OUTPUT_VARIABLE_NAME_ATTRIBUTE_NAME,
                                  user_value);
  return ExecutionStatus::SUCCESS;''')],
  needs='a reply that the variable cannot hold',
  breaks='the input succeeds although the variable was not written',
  demo='''#include <sup/oac-tree/user_input_request.h>
#include <sup/oac-tree/user_input_reply.h>
#include <sup/oac-tree/i_user_input_future.h>
struct F : IUserInputFuture { sup::dto::uint64 GetId() const override { return 1; } bool IsValid() const override { return true; } bool IsReady() const override { return true; } bool WaitFor(double) const override { return true; } UserInputReply GetValue() override { return CreateUserValueReply(true, AnyValue(sup::dto::int32(700))); } };
struct U : Ui { std::unique_ptr<IUserInputFuture> RequestUserInput(const UserInputRequest&) override { return std::unique_ptr<IUserInputFuture>(new F); } };
int main() { U ui; Workspace ws; ws.AddVariable("v", local("uint8", "3")); ws.Setup(); auto o = make("Input", {{"outputVar", "v"}}); o->ExecuteSingle(ui, ws); REQ(o->GetStatus() == BAD); return 0; }
'''),
 s(id='c16_unnamed_choice', prop='C16', edits=[(I + 'user_choice.cpp', '''  for (auto instruction : ChildInstructions())
  {
    std::string description =''', '''  for (auto instruction : ChildInstructions())
  {
    if (instruction->GetName().empty() && !option_names.empty())
    {
      continue;
    }
    std::string description =''')],
  needs='a child without a name between others',
  breaks='the user chooses one child and another one is executed',
  demo='''#include <sup/oac-tree/user_input_request.h>
#include <sup/oac-tree/user_input_reply.h>
#include <sup/oac-tree/i_user_input_future.h>
static size_t offered = 0;
struct F : IUserInputFuture { sup::dto::uint64 GetId() const override { return 1; } bool IsValid() const override { return true; } bool IsReady() const override { return true; } bool WaitFor(double) const override { return true; } UserInputReply GetValue() override { return CreateUserChoiceReply(true, 2); } };
struct U : Ui { std::unique_ptr<IUserInputFuture> RequestUserInput(const UserInputRequest& r) override { std::vector<std::string> o; AnyValue m; if (ParseUserChoiceRequest(r, o, m)) offered = o.size(); return std::unique_ptr<IUserInputFuture>(new F); } };
int main() { U ui; Workspace ws; auto c = make("UserChoice", {{"description", "a"}}); auto a = make("Succeed"), b = make("Fail"), d = make("Fail"); a->SetName("a"); d->SetName("d"); c->InsertInstruction(std::move(a), 0); c->InsertInstruction(std::move(b), 1); c->InsertInstruction(std::move(d), 2); c->ExecuteSingle(ui, ws); REQ(offered == 3); return 0; }
'''),
 s(id='c50_assign', prop='C50', edits=[(L + 'runner/instruction_info.cpp', '''  InstructionInfo copy{other};
  return this->operator=(std::move(copy));''', '''  InstructionInfo copy{other};
  m_instr_type = other.m_instr_type;
  m_category = other.m_category;
  m_index = other.m_index;
  m_children.swap(copy.m_children);
  return *this;''')],
  needs='a description assigned to another one',
  breaks='the attributes of the root are not those of the assigned description',
  demo='''#include <sup/oac-tree/instruction_info.h>
int main() { InstructionInfo a("A", Instruction::kAction, 0, {{"x", "1"}}), b("B", Instruction::kAction, 1, {}); b = a; REQ(b.GetType() == "A" && b.GetAttributes().size() == 1); return 0; }
'''),
]

L = 'src/lib/sup/oac-tree/'
I = L + 'instructions/'
H = '#include "demo.h"\n'
def s(**k):
    k.setdefault('lib', True); k['demo'] = H + k['demo']; return k
SEEDS = [
 s(id='c51_job_equal', prop='C51', edits=[(L + 'runner/job_info.cpp', '''        && (left.GetWorkspaceInfo() == right.GetWorkspaceInfo())''', '''        && (left.GetNumberOfVariables() == right.GetNumberOfVariables())''')],
  needs='two jobs that differ only in the attributes of a variable',
  breaks='their descriptions compare as equal',
  demo='''#include <sup/oac-tree/job_info.h>
#include <sup/oac-tree/job_info_utils.h>
#include <sup/oac-tree/instruction_map.h>
static JobInfo info(const char* type) { Procedure p; p.AddVariable("a", local(type)); p.PushInstruction(make("Succeed")); InstructionMap m(p.RootInstruction()); return utils::CreateJobInfo(p, m); }
int main() { REQ(info("uint8") == info("uint8")); REQ(info("uint8") != info("int32")); return 0; }
'''),
 s(id='c19_take_index', prop='C19', edits=[(I + 'decorator_instruction.cpp', '''  return m_child && index == 0 ? std::move(m_child) : nullptr;''', '''  return index < 1 ? std::move(m_child) : nullptr;''')],
  needs='taking a child of a decorator at a negative position',
  breaks='the child is handed over although there is none at that position',
  demo='''int main() { auto i = make("Inverter"); leaf(*i); REQ(!i->TakeInstruction(-1)); REQ(i->ChildrenCount() == 1); REQ(i->TakeInstruction(0)); return 0; }
'''),
 s(id='c16_choice_late', prop='C16', edits=[(I + 'choice.cpp', '''        std::to_string(child_instructions.size()) + "]";
      LogError(ui, error_message);
      return false;''', '''        std::to_string(child_instructions.size()) + "]";
      LogError(ui, error_message);
      break;''')],
  needs='a list of indices of which a later one is outside the children',
  breaks='the children before it are executed and the choice succeeds',
  demo='''int main() { Ui ui; Workspace ws; ws.AddVariable("s", local("{\\"type\\":\\"\\",\\"multiplicity\\":2,\\"element\\":{\\"type\\":\\"uint32\\"}}", "[0,5]")); ws.Setup(); auto c = make("Choice", {{"varName", "s"}}); leaf(*c); leaf(*c); Procedure p; c->Setup(p); for (int i = 0; i < 5; i++) c->ExecuteSingle(ui, ws); REQ(c->GetStatus() == BAD); return 0; }
'''),
 s(id='c50_equal_children', prop='C50', edits=[(L + 'runner/job_info.cpp', '''        && (*left.GetRootInstructionInfo() == *right.GetRootInstructionInfo()));''', '''        && (left.GetNumberOfInstructions() == right.GetNumberOfInstructions()));''')],
  needs='two jobs that differ only in the types of their instructions',
  breaks='their descriptions compare as equal',
  demo='''#include <sup/oac-tree/job_info.h>
#include <sup/oac-tree/job_info_utils.h>
#include <sup/oac-tree/instruction_map.h>
static JobInfo info(const char* type) { Procedure p; p.PushInstruction(make(type)); InstructionMap m(p.RootInstruction()); return utils::CreateJobInfo(p, m); }
int main() { REQ(info("Succeed") == info("Succeed")); REQ(info("Succeed") != info("Fail")); return 0; }
'''),
 s(id='c30_teardown_open', prop='C30', edits=[(L + 'procedure/workspace.cpp', '''  std::for_each(m_var_map.begin(), m_var_map.end(), [](const auto &pair) {
     return pair.second->Teardown(); });''', '''  for (const auto& [_, variable] : m_var_map)
  {
    if (variable->IsAvailable())
    {
      variable->Teardown();
    }
  }''')],
  needs='a tear-down while a variable is not available, such as a file that is not there yet',
  breaks='the variable can be read and written after the tear-down',
  demo='''#include <sup/oac-tree/constants.h>
int main() { Workspace ws("/nodir/p"); auto v = GlobalVariableRegistry().Create("File"); v->AddAttribute("file", "x"); ws.AddVariable("f", std::move(v)); ws.Setup(); ws.Teardown(); REQ(!ws.SetValue("f", AnyValue(sup::dto::uint8(3)))); return 0; }
'''),
 s(id='c32_teardown_flag', prop='C32', edits=[(L + 'procedure/workspace.cpp', '''  m_setup_done = false;
  for (const auto& teardown_action : m_teardown_actions)
  {
    teardown_action();
  }
  m_teardown_actions.clear();''', '''  if (m_setup_done)
  {
    for (const auto& teardown_action : m_teardown_actions)
    {
      teardown_action();
    }
    m_teardown_actions.clear();
  }
  m_setup_done = false;''')],
  needs='a set-up action that fails after another one succeeded, then a tear-down',
  breaks='what was set up is not torn down by the tear-down',
  demo='''struct V : Variable { SetupTeardownActions a; V(SetupTeardownActions x) : Variable("V"), a(x) {} SetupTeardownActions SetupImpl(const Workspace&) override { return a; } bool GetValueImpl(AnyValue&) const override { return false; } bool SetValueImpl(const AnyValue&) override { return false; } };
int main() { int up = 0, down = 0; Workspace ws; ws.AddVariable("a", std::make_unique<V>(SetupTeardownActions{"a", [&] { ++up; }, [&] { ++down; }})); ws.AddVariable("b", std::make_unique<V>(SetupTeardownActions{"b", [&] { throw RuntimeException("no"); }, [] {}})); THROWS(ws.Setup()); REQ(up == 1); ws.Teardown(); REQ(down == 1); return 0; }
'''),
]

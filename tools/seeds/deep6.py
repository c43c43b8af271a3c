L = 'src/lib/sup/oac-tree/'
I = L + 'instructions/'
H = '#include "demo.h"\n'
def s(**k):
    k.setdefault('lib', True); k['demo'] = H + k['demo']; return k
XML = '''#include <sup/oac-tree/sequence_parser.h>
#include <sup/xml/tree_data.h>
namespace sup { namespace xml { namespace model { void PutFile(const std::string&, const TreeData&); } } }
using sup::xml::TreeData; using sup::xml::model::PutFile;
static TreeData node(const std::string& t, std::vector<std::pair<std::string, std::string>> a = {}, std::vector<TreeData> c = {}) { TreeData d(t); for (auto& x : a) d.AddAttribute(x.first, x.second); for (auto& x : c) d.AddChild(x); return d; }
static TreeData proc(std::vector<TreeData> c) { TreeData d("Procedure"); for (auto& x : c) d.AddChild(x); return d; }
#define SETUP(p) try { (p)->Setup(); } catch (const std::exception& e) { std::printf("set-up: %s\\n", e.what()); return 1; }
'''
AIA = '''#include <sup/oac-tree/async_input_adapter.h>
#include <sup/oac-tree/user_input_request.h>
#include <sup/oac-tree/user_input_reply.h>
#include <sup/oac-tree/i_user_input_future.h>
#include <atomic>
'''
MON = '''#include <sup/oac-tree/application_utils.h>
'''
SEEDS = [
 s(id='c20_set_again', prop='C20', edits=[(L + 'runner/breakpoint_manager.cpp', '''    m_breakpoints.emplace_back(instruction);
    return true;
  }
  return false;''', '''    m_breakpoints.emplace_back(instruction);
    return true;
  }
  iter->SetStatus(Breakpoint::kSet);
  return false;''')],
  needs='setting a breakpoint again while the run is stopped at it',
  breaks='resuming stops at the same tick once more instead of executing it',
  demo='''#include <sup/oac-tree/runner.h>
int main() { Procedure p; auto s = make("Sequence"); leaf(*s); p.PushInstruction(std::move(s)); SETUP_; Ui ui; Runner r(ui); r.SetProcedure(&p); auto i = p.RootInstruction(); r.SetBreakpoint(i); r.ExecuteProcedure(); REQ(!r.IsFinished()); r.SetBreakpoint(i); r.ExecuteProcedure(); REQ(r.IsFinished()); return 0; }
'''.replace('SETUP_', 'p.Setup()')),
 s(id='c24_cancel_later', prop='C24', edits=[(L + 'base/async_input_adapter.cpp', '''    m_request_queue.erase(request_it);
    return;''', '''    m_request_queue.erase(request_it, std::next(request_it, m_request_queue.back().first == id ? 1 : 2));
    return;''')],
  needs='cancelling a queued request that is not the last one in the queue',
  breaks='the request queued behind it is dropped too and never answered',
  demo=AIA + '''int main() { std::atomic<bool> go{false}; AsyncInputAdapter a([&](const UserInputRequest&, sup::dto::uint64) { while (!go) std::this_thread::sleep_for(std::chrono::milliseconds(1)); return CreateUserChoiceReply(true, 3); }, [&](sup::dto::uint64) { go = true; });
  auto rq = [](int i) { return CreateUserValueRequest(AnyValue(i), "x"); }; auto f = a.AddUserInputRequest(rq(1)); std::this_thread::sleep_for(std::chrono::milliseconds(50)); auto g = a.AddUserInputRequest(rq(2)); auto h = a.AddUserInputRequest(rq(3)); g.reset(); go = true; bool ok = h->WaitFor(2.0); REQ(ok); return 0; }
'''),
 s(id='c04_wait_any_end', prop='C04', edits=[(L + 'base/application_utils.cpp', '''    return m_state == state;
  });''', '''    return m_state == state || (state != JobState::kInitial && IsFinishedJobState(m_state));
  });''')],
  needs='a job that ends while another state is waited for',
  breaks='the wait reports the awaited state although the job is in another one',
  demo=MON + '''int main() { utils::SimpleJobStateMonitor m; m.OnStateChange(JobState::kFailed); REQ(m.WaitForState(JobState::kFailed, 1.0)); REQ(!m.WaitForState(JobState::kPaused, 0.05)); return 0; }
'''),
 s(id='c04_wait_once', prop='C04', edits=[(L + 'base/application_utils.cpp', '''  m_cv.wait(lk, pred);
  return m_state;''', '''  if (!pred())
  {
    m_cv.wait(lk);
  }
  return m_state;''')],
  needs='a state change that is not the end while the end is waited for',
  breaks='the wait for the end returns with the job still going',
  demo=MON + '''int main() { utils::SimpleJobStateMonitor m; std::thread t([&] { std::this_thread::sleep_for(std::chrono::milliseconds(100)); m.OnStateChange(JobState::kRunning); std::this_thread::sleep_for(std::chrono::milliseconds(100)); m.OnStateChange(JobState::kSucceeded); }); auto s = m.WaitForFinished(); t.join(); REQ(s == JobState::kSucceeded); return 0; }
'''),
 s(id='c73_setup_parent', prop='C73', edits=[(I + 'include.cpp', '''  auto& sub_proc = proc_context.GetProcedure(proc_filename);
  SetupChild(sub_proc);''', '''  (void)proc_context.GetProcedure(proc_filename);
  SetupChild(proc);''')],
  needs='an included tree from another directory that itself includes a file by a relative name',
  breaks='the inner name is taken from the wrong directory',
  demo=XML + '''int main() { PutFile("/d/a", proc({node("Include", {{"file", "s/b"}, {"path", "X"}})})); PutFile("/d/s/b", proc({node("Include", {{"name", "X"}, {"file", "c"}, {"path", "Y"}})})); PutFile("/d/s/c", proc({node("Succeed", {{"name", "Y"}})})); PutFile("/d/c", proc({node("Fail", {{"name", "Y"}})}));
  auto p = ParseProcedureFile("/d/a"); REQ(p); SETUP(p); Ui ui; p->ExecuteSingle(ui); REQ(p->GetStatus() == OK); return 0; }
'''),
 s(id='c73_copy_directory', prop='C73', edits=[(I + 'copy_from_procedure.cpp', '''  auto proc_filename = ResolveRelativePath(proc, filename);
  auto proc_context = proc.GetContext();''', '''  auto proc_context = proc.GetContext();
  auto proc_filename = GetFullPathName(GetFileDirectory(proc_context.GetFilename()), filename);
  if (filename.find('/') != std::string::npos)
  {
    proc_filename = filename;
  }''')],
  needs='a copy from a procedure in a sub-directory of the procedure with the instruction',
  breaks='the file is looked for outside the directory of the procedure',
  demo='SKIP'),
 s(id='c15_listen_reread', prop='C15', edits=[(I + 'listen.cpp', '''    if (!ws.GetValue(var_name, new_value))
    {
      continue;
    }
    if (var_value == new_value)
    {
      continue;
    }
    var_value = new_value;
    cache_changed = true;''', '''    if (!ws.GetValue(var_name, new_value))
    {
      continue;
    }
    if (var_value == new_value)
    {
      continue;
    }
    var_value = new_value;
    cache_changed = true;
    break;''')],
  needs='two listened variables that change between the same two ticks',
  breaks='the child runs once more although nothing changed since its last run',
  demo='''int main() { Ui ui; Workspace ws; ws.AddVariable("a", local("uint8", "1")); ws.AddVariable("b", local("uint8", "1")); ws.Setup(); auto l = make("Listen", {{"varNames", "a,b"}}); auto* c = leaf(*l); Procedure p; l->Setup(p); for (int i = 0; i < 4; i++) l->ExecuteSingle(ui, ws); REQ(c->execs == 1); return 0; }
'''),
 s(id='c75_reset_field', prop='C75', edits=[(I + 'reset_variable.cpp', '''  auto var_name = GetAttributeString(Constants::GENERIC_VARIABLE_NAME_ATTRIBUTE_NAME);''', '''  auto var_name =
    SplitFieldName(GetAttributeString(Constants::GENERIC_VARIABLE_NAME_ATTRIBUTE_NAME)).first;''')],
  needs='a reset of something that names a field of a variable',
  breaks='the whole variable is reset although the name is not the name of a variable',
  demo='''int main() { Ui ui; Workspace ws; ws.AddVariable("a", local("{\\"type\\":\\"S\\",\\"attributes\\":[{\\"x\\":{\\"type\\":\\"uint8\\"}},{\\"y\\":{\\"type\\":\\"uint8\\"}}]}")); ws.Setup(); REQ(ws.SetValue("a.y", AnyValue(sup::dto::uint8(5)))); auto r = make("ResetVariable", {{"varName", "a.x"}}); r->ExecuteSingle(ui, ws); AnyValue v(sup::dto::uint8(0)); REQ(ws.GetValue("a.y", v)); REQ(v.As<sup::dto::uint8>() == 5); return 0; }
'''),
 s(id='c41_mandatory_empty', prop='C41', edits=[(L + 'attributes/attribute_validator.cpp', '''      if (it == str_attributes.end())
      {
      failed_constraints.emplace_back(''', '''      if (it == str_attributes.end() || it->second.empty())
      {
      failed_constraints.emplace_back(''')],
  needs='a mandatory attribute with an empty text',
  breaks='set-up refuses attributes that are complete',
  demo='''int main() { Procedure p; auto m = make("Message", {{"text", ""}}); try { m->Setup(p); } catch (const std::exception& e) { std::printf("%s\\n", e.what()); return 1; } return 0; }
'''),
 s(id='c41_accumulate', prop='C41', edits=[(L + 'attributes/attribute_handler.cpp', '''  m_impl->failed_constraints = m_impl->attr_validator.ValidateAttributes(m_str_attributes);
  return m_impl->failed_constraints.empty();''', '''  auto failed = m_impl->attr_validator.ValidateAttributes(m_str_attributes);
  auto& all = m_impl->failed_constraints;
  all.insert(all.end(), failed.begin(), failed.end());
  return all.empty();''')],
  needs='a set-up that failed, a correction of the attributes and a second set-up',
  breaks='the corrected attributes are still refused',
  demo='''int main() { Procedure p; auto m = make("Message"); THROWS(m->Setup(p)); m->AddAttribute("text", "hello"); try { m->Setup(p); } catch (const std::exception& e) { std::printf("%s\\n", e.what()); return 1; } return 0; }
'''),
 s(id='c30_field_throw', prop='C30', edits=[(L + 'variables/variable.cpp', '''  if (!var_copy.HasField(fieldname))
  {
    return false;
  }
  if (!sup::dto::TryAssign(var_copy[fieldname], value))''', '''  if (!sup::dto::TryAssign(var_copy[fieldname], value))''')],
  needs='a write to a field that the variable does not have',
  breaks='an exception escapes instead of a refusal',
  demo='''int main() { Workspace ws; ws.AddVariable("a", local("{\\"type\\":\\"S\\",\\"attributes\\":[{\\"x\\":{\\"type\\":\\"uint8\\"}}]}")); ws.Setup(); try { REQ(!ws.SetValue("a.z", AnyValue(sup::dto::uint8(5)))); } catch (const std::exception& e) { std::printf("%s\\n", e.what()); return 1; } return 0; }
'''),
 s(id='c24_requeue', prop='C24', edits=[(L + 'base/async_input_adapter.cpp', '''    m_interrupt_func(id);
    m_current_id = 0;''', '''    m_interrupt_func(id);''')],
  needs='cancelling a request while it is being answered',
  breaks='the answer of the cancelled request is kept for ever',
  demo='SKIP'),
 s(id='c24_last_wake', prop='C24', edits=[(L + 'base/async_input_adapter.cpp', '''    if (m_current_id == id)
    {
      m_replies[m_current_id] = reply;''', '''    if (m_current_id == id)
    {
      m_replies.clear();
      m_replies[m_current_id] = reply;''')],
  needs='an answer that is not read before the next request is answered',
  breaks='the first answer is lost',
  demo=AIA + '''int main() { AsyncInputAdapter a([&](const UserInputRequest&, sup::dto::uint64) { return CreateUserChoiceReply(true, 3); }, [](sup::dto::uint64) {});
  auto rq = [](int i) { return CreateUserValueRequest(AnyValue(i), "x"); }; auto f = a.AddUserInputRequest(rq(1)); REQ(f->WaitFor(2.0)); auto g = a.AddUserInputRequest(rq(2)); REQ(g->WaitFor(2.0)); REQ(f->IsReady()); return 0; }
'''),
 s(id='c72_insert_shift', prop='C72', edits=[(L + 'procedure/procedure.cpp', '''  if (m_instructions.size() == 1)
  {
    return m_instructions[0].get();
  }
  for (auto &instr : m_instructions)
  {
    if (HasRootAttributeSet(*instr))
    {
      return instr.get();
    }
  }
  return nullptr;''', '''  for (auto &instr : m_instructions)
  {
    if (HasRootAttributeSet(*instr))
    {
      return instr.get();
    }
  }
  // a single unmarked instruction is the root
  return m_instructions.front()->HasAttribute(Constants::IS_ROOT_ATTRIBUTE_NAME)
         || m_instructions.size() > 1 ? nullptr : m_instructions.front().get();''')],
  needs='a single top-level instruction that is marked as not the root',
  breaks='the only instruction is not executed',
  demo='''int main() { Procedure p; p.PushInstruction(make("Succeed", {{"isRoot", "false"}})); REQ(p.RootInstruction() != nullptr); return 0; }
'''),
 s(id='c61_negative_wait', prop='C61', edits=[(I + 'wait_for_variables.cpp', '''    const auto* var = ws.GetVariable(var_name);
    if (var == nullptr || !var->IsAvailable())''', '''    const auto* var = ws.GetVariable(var_name);
    if (var != nullptr && !unavailable_vars.empty())
    {
      continue;  // one is enough to keep waiting
    }
    if (var == nullptr || !var->IsAvailable())''')],
  needs='nothing', breaks='nothing', demo='SKIP'),
 s(id='c40_second_move', prop='C40', edits=[(L + 'attributes/attribute_definition.cpp', '''  m_name = other.m_name;
  *m_properties = *other.m_properties;''', '''  m_name = other.m_name;
  m_properties->SetCategory(other.GetCategory());
  m_properties->SetMandatory(other.IsMandatory());''')],
  needs='an assignment', breaks='the type', demo='SKIP'),
]
SEEDS = [x for x in SEEDS if 'SKIP' not in x['demo']]

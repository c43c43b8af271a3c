L = 'src/lib/sup/oac-tree/'
I = L + 'instructions/'
A = 'src/app/'
H = '#include "demo.h"\n'
def s(**k):
    k.setdefault('lib', True); k['demo'] = H + k['demo']; return k
CLI = '''#include "%soac-tree-cli/cl_interface.cpp"
#include <sup/oac-tree/user_input_request.h>
#include <sup/oac-tree/user_input_reply.h>
#include <iostream>
#include <sstream>
struct Cli { std::istringstream in; sup::log::BasicLogger log{[](int, const std::string&, const std::string&) {}, "t", 0}; CLInterface ui{log}; explicit Cli(const std::string& t) : in(t) { std::cin.rdbuf(in.rdbuf()); }
  std::pair<bool, AnyValue> value(const AnyValue& v) { auto f = ui.RequestUserInput(CreateUserValueRequest(v, "d")); REQ(f->WaitFor(20.0)); return ParseUserValueReply(f->GetValue()); }
  std::pair<bool, int> choice(std::vector<std::string> o) { auto f = ui.RequestUserInput(CreateUserChoiceRequest(o, {})); REQ(f->WaitFor(20.0)); return ParseUserChoiceReply(f->GetValue()); } };
''' % ''
SEEDS = [
 s(id='c60_trunc', prop='C60',
  edits=[(I + 'instruction_utils.cpp', 'std::lround(timeout_sec * 1e9)', 'static_cast<sup::dto::int64>(timeout_sec * 1e9)')],
  needs='a time-out whose product with 1e9 is just below a whole number',
  breaks='the time-out is a nanosecond too short',
  demo='''#include <sup/oac-tree/instruction_utils.h>
int main() { for (int ms = 0; ms < 70000; ms++) { sup::dto::int64 ns = -1; REQ(instruction_utils::ConvertToTimeoutNanoseconds(ms / 1000.0, ns)); REQ(ns == (sup::dto::int64)ms * 1000000); } return 0; }
'''),
 s(id='c60_clobber', prop='C60',
  edits=[(I + 'instruction_utils.cpp', '''  // negated, so that NaN is refused as well
  if (!(timeout_sec >= 0.0 && timeout_sec <= kMaxTimeoutSeconds))
  {
    return false;
  }
  timeout_ns = std::lround(timeout_sec * 1e9);
  return true;''', '''  // negated, so that NaN is refused as well
  const bool in_range = !(timeout_sec < 0.0 || timeout_sec > kMaxTimeoutSeconds);
  if (in_range)
  {
    timeout_ns = std::lround(timeout_sec * 1e9);
  }
  return in_range;''')],
  needs='a not-a-number time-out',
  breaks='not-a-number is accepted',
  demo='''#include <sup/oac-tree/instruction_utils.h>
#include <cmath>
int main() { sup::dto::int64 ns = -1; REQ(!instruction_utils::ConvertToTimeoutNanoseconds(NAN, ns)); REQ(ns == -1); REQ(!instruction_utils::ConvertToTimeoutNanoseconds(-1.0, ns)); REQ(instruction_utils::ConvertToTimeoutNanoseconds(1.0, ns)); return 0; }
'''),
 s(id='c60_tick_positive', prop='C60',
  edits=[(L + 'procedure/procedure.cpp', '''    auto tick_timeout = procedure.GetAttributeValue<double>(kTickTimeoutAttributeName);
    (void)instruction_utils::ConvertToTimeoutNanoseconds(tick_timeout, tick_timeout_ns);''', '''    auto tick_timeout = procedure.GetAttributeValue<double>(kTickTimeoutAttributeName);
    if (tick_timeout > 0.0)
    {
      (void)instruction_utils::ConvertToTimeoutNanoseconds(tick_timeout, tick_timeout_ns);
    }''')],
  needs='a tick time-out of zero',
  breaks='the default is used although the attribute is given',
  demo='''#include <sup/oac-tree/procedure.h>
int main() { Procedure p; p.AddAttribute("tickTimeout", "0"); REQ(TickTimeoutNs(p) == 0); Procedure q; q.AddAttribute("tickTimeout", "0.5"); REQ(TickTimeoutNs(q) == 500000000); Procedure r; r.AddAttribute("tickTimeout", "-1"); REQ(TickTimeoutNs(r) == TickTimeoutNs(Procedure{})); return 0; }
'''),
 s(id='c70_mode', prop='C70',
  edits=[(L + 'base/generic_utils.cpp', '''CreateDir(pathname.substr(0, parent_end)))
        {
          return ::mkdir(pathname.c_str(), mode) == 0;''', '''CreateDir(pathname.substr(0, parent_end)))
        {
          return CreateDir(pathname);''')],
  needs='a directory whose parent is missing as well, with permissions other than the default',
  breaks='the directory gets the default permissions',
  demo='''#include <sup/oac-tree/generic_utils.h>
#include <sys/stat.h>
int main() { umask(0); REQ(utils::CreateDir("a/b/c", 0700)); struct stat st; REQ(stat("a/b/c", &st) == 0); REQ((st.st_mode & 0777) == 0700); REQ(utils::CreateDir("a/d", 0700)); REQ(stat("a/d", &st) == 0 && (st.st_mode & 0777) == 0700); REQ(utils::CreateDir("a/d", 0711)); return 0; }
'''),
 s(id='c70_slash', prop='C70',
  edits=[(L + 'base/generic_utils.cpp', "auto parent_end = pathname.find_last_of('/', pathname.find_last_not_of('/'));", "auto parent_end = pathname.find_last_of('/');")],
  needs='a path with a trailing separator and a missing parent',
  breaks='creating the directory fails although it is possible, or reports failure after creating it',
  demo='''#include <sup/oac-tree/generic_utils.h>
#include <sys/stat.h>
int main() { struct stat st; REQ(utils::CreateDir("a/b")); REQ(utils::CreateDir("c/d/")); REQ(stat("c/d", &st) == 0); return 0; }
'''),
 s(id='c70_root_dir', prop='C70',
  edits=[(L + 'procedure/procedure.cpp', '''  auto pos = filename.find_last_of('/');
  if (pos == std::string::npos)
  {
    return {};
  }
  return filename.substr(0, pos + 1);''', '''  auto pos = filename.find_last_of('/');
  if (pos == std::string::npos || pos == 0)
  {
    return {};
  }
  return filename.substr(0, pos + 1);''')],
  needs='a file directly under the root directory',
  breaks='names relative to it are taken from the working directory',
  demo='''#include <sup/oac-tree/procedure.h>
int main() { REQ(GetFileDirectory("/a.xml") == "/"); REQ(GetFileDirectory("b/a.xml") == "b/"); REQ(GetFileDirectory("a.xml").empty()); REQ(ResolveRelativePath(Procedure("/a.xml"), "b") == "/b"); return 0; }
'''),
 s(id='c76_unsigned_sign', prop='C76',
  edits=[(A + 'oac-tree-cli/cl_interface.cpp', "&& str.find('-') != std::string::npos)", "&& !str.empty() && str.front() == '-')")],
  needs='a negative number after a space for an unsigned variable',
  breaks='the number wraps around instead of being refused',
  demo=CLI + '''int main() { Cli c("-5\\n -5\\n7\\n"); REQ(!c.value(AnyValue(sup::dto::uint32(0))).first); REQ(!c.value(AnyValue(sup::dto::uint32(0))).first); auto r = c.value(AnyValue(sup::dto::uint32(0))); REQ(r.first && r.second.As<sup::dto::uint32>() == 7); return 0; }
'''),
 s(id='c76_choice_unread', prop='C76',
  edits=[(A + 'oac-tree-cli/cl_interface.cpp', '''  int input = -1;
  std::string input_str;
  std::getline(std::cin, input_str);
  std::istringstream istr(input_str);
  istr >> input;
  if (istr.fail() || !IsFullyRead(istr))''', '''  int input = -1;
  std::string input_str;
  std::cin >> std::ws;
  std::getline(std::cin, input_str);
  std::istringstream istr(input_str);
  istr >> input;
  if (istr.fail() || !IsFullyRead(istr))''')],
  needs='an empty line as answer to a choice, then another request',
  breaks='the empty line is skipped and the choice takes the line of the next request',
  demo=CLI + '''int main() { Cli c("\\n2\\n1\\n"); REQ(!c.choice({"a", "b"}).first); auto r = c.choice({"a", "b"}); REQ(r.first && r.second == 1); return 0; }
'''),
 s(id='c76_small_range', prop='C76',
  edits=[(A + 'oac-tree-cli/cl_interface.cpp', 'val < std::numeric_limits<T>::min() || val > std::numeric_limits<T>::max())', 'static_cast<sup::dto::uint32>(val) > static_cast<sup::dto::uint32>(std::numeric_limits<T>::max()) + (val < 0 ? 0u : 0u)\n      + (std::is_signed<T>::value && val < 0 ? 0xffffff80u - 127u + 127u : 0u))')],
  needs='an 8-bit unsigned or signed number at the edge of its range',
  breaks='values out of range are accepted or values in range refused',
  demo=CLI + '''int main() { for (int i = -300; i < 300; i++) { Cli c(std::to_string(i) + "\\n" + std::to_string(i) + "\\n"); auto r = c.value(AnyValue(sup::dto::int8(0))); REQ(r.first == (i >= -128 && i <= 127)); if (r.first) REQ(r.second.As<sup::dto::int8>() == i); r = c.value(AnyValue(sup::dto::uint8(0))); REQ(r.first == (i >= 0 && i <= 255)); } return 0; }
'''),
 s(id='c77_error_kept', prop='C77',
  edits=[(L + 'base/application_utils.cpp', '''void SimpleJobStateMonitor::OnStateChange(JobState state) noexcept
{
  {
    std::lock_guard<std::mutex> lk{m_mtx};
    m_state = state;
  }
  m_cv.notify_all();
}''', '''void SimpleJobStateMonitor::OnStateChange(JobState state) noexcept
{
  {
    std::lock_guard<std::mutex> lk{m_mtx};
    m_state = state;
  }
  if (IsFinishedJobState(state))
  {
    m_cv.notify_all();
  }
}''')],
  needs='a thread waiting for a state that is not final',
  breaks='the waiting thread only notices when its time runs out',
  demo='''#include <sup/oac-tree/application_utils.h>
int main() { utils::SimpleJobStateMonitor m; std::thread t([&] { std::this_thread::sleep_for(std::chrono::milliseconds(300)); m.OnStateChange(JobState::kRunning); std::this_thread::sleep_for(std::chrono::milliseconds(500)); m.OnStateChange(JobState::kPaused); });
  auto t0 = std::chrono::steady_clock::now(); bool r = m.WaitForState(JobState::kRunning, 20.0); auto dt = std::chrono::steady_clock::now() - t0; t.join(); REQ(r); REQ(dt < std::chrono::seconds(10)); return 0; }
'''),
 s(id='c77_state_unlocked', prop='C77',
  edits=[(L + 'base/application_utils.cpp', '''  return m_cv.wait_for(lk, duration, [this, state](){
    return m_state == state;
  });''', '''  return m_cv.wait_for(lk, duration) == std::cv_status::no_timeout || m_state == state;''')],
  needs='another state change while waiting for a state',
  breaks='waiting reports the state reached although it was not',
  demo='''#include <sup/oac-tree/application_utils.h>
int main() { utils::SimpleJobStateMonitor m; std::thread t([&] { std::this_thread::sleep_for(std::chrono::milliseconds(300)); m.OnStateChange(JobState::kRunning); });
  bool r = m.WaitForState(JobState::kSucceeded, 1.0); t.join(); REQ(!r); REQ(m.WaitForState(JobState::kRunning, 0.01)); return 0; }
'''),
 s(id='c77_daemon_setup', prop='C77',
  edits=[(L + 'base/application_utils.cpp', '''    result = std::make_unique<AsyncRunner>(proc, ui, state_monitor);
  }
  catch(const std::exception& e)
  {
    error_msg = e.what();
  }
  return result;''', '''    result = std::make_unique<AsyncRunner>(proc, ui, state_monitor);
  }
  catch(const std::runtime_error& e)
  {
    error_msg = e.what();
  }
  return result;''')],
  needs='a procedure whose set-up fails',
  breaks='the exception escapes instead of being reported',
  demo='''#include <sup/oac-tree/application_utils.h>
#include <sup/oac-tree/async_runner.h>
int main() { Ui ui; utils::SimpleJobStateMonitor m; Procedure p; p.PushInstruction(make("Inverter")); std::string e; try { auto r = utils::CreateAsyncRunner(p, ui, m, e); REQ(!r && !e.empty()); } catch (...) { REQ(!"no exception"); } return 0; }
'''),
]
CORE = lambda **k: {**{'lib': False}, **k}
SEEDS += [
 CORE(id='c03_wait_once', prop='C03',
  edits=[(L + 'runner/job_command_queue.cpp', '''  m_cv.wait(lk, [this]{ return !m_command_queue.empty(); });
  auto command = m_command_queue.front();''', '''  if (m_command_queue.empty())
  {
    m_cv.wait(lk);
  }
  if (m_command_queue.empty())
  {
    return JobCommand::kStart;
  }
  auto command = m_command_queue.front();''')],
  needs='a wake-up while another consumer has already taken the command',
  breaks='a command that was never pushed is handed out',
  srcs=['runner/job_command_queue.cpp', 'runner/job_commands.cpp'],
  demo='''#include <sup/oac-tree/job_command_queue.h>
#include <thread>
#include <atomic>
#include <chrono>
using namespace sup::oac_tree;
int main()
{ // producers push kPause only: kStart must never come out
  JobCommandQueue q; std::atomic<int> bad{0}; const int n = 20000; std::atomic<int> left{n};
  std::thread a([&] { JobCommand c; while (left > 0) if (q.TryPop(c)) { --left; if (c != JobCommand::kPause) ++bad; } });
  std::thread b([&] { for (;;) { auto c = q.WaitForNextCommand(); if (c == JobCommand::kTerminate) break; if (c != JobCommand::kPause) { ++bad; } else --left; } });
  for (int i = 0; i < n; i++) { q.Push(JobCommand::kPause); if (i % 8 == 0) std::this_thread::yield(); }
  for (int i = 0; i < 3000 && left > 0; i++) std::this_thread::sleep_for(std::chrono::milliseconds(1));
  left = 0; a.join(); q.Push(JobCommand::kTerminate); b.join(); return bad ? 1 : 0;
}
'''),
 CORE(id='c02_action_first', prop='C02',
  edits=[(L + 'runner/job_command_queue.cpp', '''    if (!m_command_queue.empty() && command <= m_command_queue.front())
    {
      return false;
    }
    if (func)
    {
      func();
    }
    m_command_queue.push_front(command);''', '''    if (func)
    {
      func();
    }
    if (!m_command_queue.empty() && command <= m_command_queue.front())
    {
      return false;
    }
    m_command_queue.push_front(command);''')],
  needs='a priority push that is refused',
  breaks='the action runs although the command was refused',
  srcs=['runner/job_command_queue.cpp', 'runner/job_commands.cpp'],
  demo='''#include <sup/oac-tree/job_command_queue.h>
using namespace sup::oac_tree;
int main() { JobCommandQueue q; int n = 0; if (!q.PriorityPush(JobCommand::kTerminate, [&] { n++; }) || n != 1) return 1; if (q.PriorityPush(JobCommand::kHalt, [&] { n++; })) return 1; return n == 1 ? 0 : 1; }
'''),
 CORE(id='c06_move_keeps', prop='C06',
  edits=[(L + 'base/scope_guard.cpp', '''  : m_func{other.m_func}
{
  other.m_func = {};
}''', '''  : m_func{}
{
  if (other.m_func)
  {
    m_func = std::move(other.m_func);
  }
}'''),
   (L + 'base/scope_guard.cpp', '''ScopeGuard::~ScopeGuard()
{
  if (m_func)
  {
    m_func();
  }
}''', '''ScopeGuard::~ScopeGuard()
{
  if (m_func)
  {
    auto func = m_func;
    m_func = {};
    func();
  }
}'''), (L + 'base/scope_guard.cpp', '''  ScopeGuard moved{std::move(other)};
  Swap(moved);
  return *this;''', '''  if (m_func && !other.m_func)
  {
    return *this;
  }
  ScopeGuard moved{std::move(other)};
  Swap(moved);
  return *this;''')],
  needs='an armed guard that is assigned an empty one',
  breaks='the action of the overwritten guard is not run at the assignment',
  srcs=['base/scope_guard.cpp'],
  demo='''#include <sup/oac-tree/scope_guard.h>
using namespace sup::oac_tree;
int main() { int n = 0; { ScopeGuard g([&] { n++; }); g = ScopeGuard{}; if (n != 1) return 1; } return n == 1 ? 0 : 1; }
'''),
 CORE(id='c07_order', prop='C07',
  edits=[(L + 'named_callback_manager.h', '''  cb_entries.push_back({listener, name, cb});
  return true;''', '''  auto pos = std::find_if(cb_entries.begin(), cb_entries.end(), [&](const CallbackEntry& entry) {
    return entry.name == name && entry.listener != nullptr && listener == nullptr; });
  cb_entries.insert(pos, {listener, name, cb});
  return true;''')],
  needs='a callback without listener registered after one with a listener for the same name',
  breaks='the callbacks do not run in the order of registration',
  srcs=['base/scope_guard.cpp'],
  demo='''#include <sup/oac-tree/named_callback_manager.h>
#include <string>
using namespace sup::oac_tree;
int main() { NamedCallbackManager<int> m; std::string o; int x; m.RegisterCallback("n", [&](int) { o += 'a'; }, &x); m.RegisterCallback("n", [&](int) { o += 'b'; }, nullptr); m.ExecuteCallbacks("n", 1); return o == "ab" ? 0 : 1; }
'''),
 CORE(id='c07_null_guard', prop='C07',
  edits=[(L + 'named_callback_manager.h', '''    if (listener != nullptr)
    {
      UnregisterListener(listener);
    }
  };''', '''    UnregisterListener(listener);
  };''')],
  needs='a guard for no listener going out of scope',
  breaks='all callbacks without listener are removed',
  srcs=['base/scope_guard.cpp'],
  demo='''#include <sup/oac-tree/named_callback_manager.h>
using namespace sup::oac_tree;
int main() { NamedCallbackManager<int> m; int n = 0; m.RegisterCallback("n", [&](int) { n++; }, nullptr); { auto g = m.GetCallbackGuard(nullptr); } m.ExecuteCallbacks("n", 1); return n == 1 ? 0 : 1; }
'''),
 CORE(id='c08_name_check', prop='C08',
  edits=[(L + 'named_callback_manager.h', '''  std::lock_guard<std::mutex> lk(mtx);
  for (const auto& cb_entry : generic_cb_entries)
  {
    cb_entry.cb(name, args...);
  }
  for''', '''  if (generic_cb_entries.empty() && cb_entries.empty())
  {
    return;
  }
  std::lock_guard<std::mutex> lk(mtx);
  for (const auto& cb_entry : generic_cb_entries)
  {
    cb_entry.cb(name, args...);
  }
  for''')],
  needs='a registration on another thread while callbacks are executed',
  breaks='the lists are read without the lock',
  srcs=['base/scope_guard.cpp'], flags='-fsanitize=thread -g',
  demo='''#include <sup/oac-tree/named_callback_manager.h>
#include <thread>
#include <cstdlib>
using namespace sup::oac_tree;
extern "C" const char* __tsan_default_options() { return "exitcode=1:halt_on_error=1"; }
int main() { NamedCallbackManager<int> m; int n = 0; std::thread t([&] { for (int i = 0; i < 2000; i++) { m.RegisterCallback("n", [&](int) { n++; }, &n); m.UnregisterListener(&n); } }); for (int i = 0; i < 2000; i++) m.ExecuteCallbacks("n", 1); t.join(); return 0; }
'''),
 CORE(id='c09_type_sort', prop='C09',
  edits=[(L + 'procedure/procedure_preamble.cpp', 'm_type_registrations.push_back(info);', '''auto pos = m_type_registrations.end();
  while (pos != m_type_registrations.begin()
         && info.GetRegistrationMode() == TypeRegistrationInfo::kJSONFile
         && (pos - 1)->GetRegistrationMode() == TypeRegistrationInfo::kJSONString)
  {
    --pos;
  }
  m_type_registrations.insert(pos, info);''')],
  needs='a type from a file registered after one from a string',
  breaks='type registrations are not kept in order',
  srcs=['procedure/procedure_preamble.cpp'],
  demo='''#include <sup/oac-tree/procedure_preamble.h>
using namespace sup::oac_tree;
int main() { ProcedurePreamble p; p.AddTypeRegistration({TypeRegistrationInfo::kJSONString, "a"}); p.AddTypeRegistration({TypeRegistrationInfo::kJSONFile, "b"}); auto t = p.GetTypeRegistrations(); return t.size() == 2 && t[0].GetString() == "a" && t[1].GetString() == "b" ? 0 : 1; }
'''),
]

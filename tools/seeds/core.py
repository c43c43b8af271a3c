Q = 'src/lib/sup/oac-tree/runner/job_command_queue.cpp'
QS = ['runner/job_command_queue.cpp', 'runner/job_commands.cpp']
N = 'src/lib/sup/oac-tree/named_callback_manager.h'
SG = ['base/scope_guard.cpp']
H = '#include <cstdio>\n#define REQ(x) do { if (!(x)) { std::printf("failed: %s\\n", #x); return 1; } } while (0)\n'
SEEDS = [
 dict(id='c02_priority_max', prop='C02',
  edits=[(Q, 'command <= m_command_queue.front()', 'command <= *std::max_element(m_command_queue.begin(), m_command_queue.end())'),
         (Q, '#include <sup/oac-tree/job_command_queue.h>', '#include <sup/oac-tree/job_command_queue.h>\n\n#include <algorithm>')],
  needs='a priority push while a command of higher priority waits behind the front one',
  breaks='the urgent command is refused although the front command is less urgent',
  demo=H+'''#include <sup/oac-tree/job_command_queue.h>
using namespace sup::oac_tree;
int main() {
  JobCommandQueue q; q.Push(JobCommand::kStart); q.Push(JobCommand::kTerminate);
  REQ(q.PriorityPush(JobCommand::kHalt, {})); REQ(q.GetSize() == 3); REQ(q.WaitForNextCommand() == JobCommand::kHalt); return 0; }
''', srcs=QS),
 dict(id='c02_coalesce', prop='C02',
  edits=[(Q, '    m_command_queue.push_back(command);', '    if (m_command_queue.size() < 2 || m_command_queue.back() != command)\n    {\n      m_command_queue.push_back(command);\n    }')],
  needs='the same command pushed three times without a pop in between',
  breaks='a pushed command is silently dropped',
  demo=H+'''#include <sup/oac-tree/job_command_queue.h>
using namespace sup::oac_tree;
int main() {
  JobCommandQueue q; for (int i = 0; i < 4; ++i) q.Push(JobCommand::kStep);
  REQ(q.GetSize() == 4); return 0; }
''', srcs=QS),
 dict(id='c02_trypop_order', prop='C02',
  edits=[(Q, '  command = m_command_queue.front();\n  m_command_queue.pop_front();\n  return true;', '  if (m_command_queue.back() == JobCommand::kTerminate)\n  {\n    command = m_command_queue.back();\n    m_command_queue.pop_back();\n    return true;\n  }\n  command = m_command_queue.front();\n  m_command_queue.pop_front();\n  return true;')],
  needs='a terminate command queued last behind another one, then TryPop',
  breaks='TryPop does not hand out commands in queue order',
  demo=H+'''#include <sup/oac-tree/job_command_queue.h>
using namespace sup::oac_tree;
int main() {
  JobCommandQueue q; q.Push(JobCommand::kStart); q.Push(JobCommand::kTerminate);
  JobCommand c{}; REQ(q.TryPop(c)); REQ(c == JobCommand::kStart); REQ(q.TryPop(c)); REQ(c == JobCommand::kTerminate); return 0; }
''', srcs=QS),
 dict(id='c03_notify_if_empty', prop='C03',
  edits=[(Q, '''void JobCommandQueue::Push(JobCommand command)
{
  {
    std::lock_guard<std::mutex> lk{m_mtx};
    m_command_queue.push_back(command);
  }
  m_cv.notify_one();''', '''void JobCommandQueue::Push(JobCommand command)
{
  bool was_empty = false;
  {
    std::lock_guard<std::mutex> lk{m_mtx};
    was_empty = m_command_queue.empty();
    m_command_queue.push_back(command);
  }
  if (was_empty)
  {
    m_cv.notify_one();
  }''')],
  needs='two consumers waiting and two pushes before the first woken consumer runs',
  breaks='the second consumer is never woken although a command is queued',
  demo='''#include <sup/oac-tree/job_command_queue.h>
#include <atomic>
#include <thread>
#include <chrono>
#include <cstdio>
#include <cstdlib>
using namespace sup::oac_tree;
int main() {
  for (int round = 0; round < 400; ++round) {
    auto* q = new JobCommandQueue; static std::atomic<int> done; done = 0;
    std::thread a([q]{ q->WaitForNextCommand(); ++done; }), b([q]{ q->WaitForNextCommand(); ++done; });
    std::this_thread::sleep_for(std::chrono::milliseconds(3));
    q->Push(JobCommand::kStart); q->Push(JobCommand::kStep);
    for (int i = 0; i < 2000 && done < 2; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(1));
    if (done < 2) { std::printf("a consumer was not woken\\n"); std::_Exit(1); }
    a.join(); b.join(); delete q;
  }
  return 0; }
''', srcs=QS, timeout=200),
 dict(id='c03_action_unlocked', prop='C03',
  edits=[(Q, '''    if (func)
    {
      func();
    }
    m_command_queue.push_front(command);
  }
''', '''    m_command_queue.push_front(command);
  }
  if (func)
  {
    func();
  }
''')],
  needs='a consumer that takes the command between the push and the action',
  breaks='the action of a priority push no longer precedes the delivery of its command',
  demo='''#include <sup/oac-tree/job_command_queue.h>
#include <atomic>
#include <thread>
#include <chrono>
#include <cstdio>
using namespace sup::oac_tree;
int main() {
  JobCommandQueue q; std::atomic<bool> acted{false}, early{false}; 
  std::thread t([&]{ JobCommand c{}; while (!q.TryPop(c)) std::this_thread::yield(); if (!acted) early = true; });
  q.PriorityPush(JobCommand::kHalt, [&]{ std::this_thread::sleep_for(std::chrono::milliseconds(200)); acted = true; });
  t.join(); if (early) std::printf("command delivered before its action ran\\n"); return early ? 1 : 0; }
''', srcs=QS),
 dict(id='c01_ready_range', prop='C01',
  edits=[('src/lib/sup/oac-tree/procedure/execution_status.cpp', 'return status == ExecutionStatus::NOT_STARTED || status == ExecutionStatus::NOT_FINISHED;', 'return !IsFinishedStatus(status) && status <= ExecutionStatus::RUNNING;')],
  needs='the RUNNING status', breaks='a running instruction is reported ready for execution',
  demo=H+'''#include <sup/oac-tree/execution_status.h>
using namespace sup::oac_tree;
int main() { REQ(!ReadyForExecute(ExecutionStatus::RUNNING)); REQ(ReadyForExecute(ExecutionStatus::NOT_FINISHED)); return 0; }
''', srcs=['procedure/execution_status.cpp']),
 dict(id='c04_finished_order', prop='C04',
  edits=[('src/lib/sup/oac-tree/runner/job_states.cpp', 'return finished_states.find(state) != finished_states.end();', 'return finished_states.upper_bound(state) != finished_states.begin();')],
  needs='a state beyond the known ones', breaks='an unknown state counts as finished',
  demo=H+'''#include <sup/oac-tree/job_states.h>
using namespace sup::oac_tree;
int main() { REQ(!IsFinishedJobState(JobState::kRunning)); REQ(!IsFinishedJobState(static_cast<JobState>(40))); REQ(IsFinishedJobState(JobState::kHalted)); return 0; }
''', srcs=['runner/job_states.cpp']),
 dict(id='c05_prefix', prop='C05',
  edits=[('src/lib/sup/oac-tree/base/log_severity.cpp', 'return str == element.second;', 'return str.compare(0, element.second.size(), element.second) == 0;')],
  needs='a text that starts with a severity name', breaks='an unknown severity text is accepted',
  demo=H+'''#include <sup/oac-tree/log_severity.h>
using namespace sup::oac_tree::log;
int main() { REQ(GetSeverityFromString("INFORMATION") == GetSeverityFromString("nonsense")); REQ(SeverityString(-1) == "UNKNOWN"); return 0; }
''', srcs=['base/log_severity.cpp']),
 dict(id='c05_alias', prop='C05',
  edits=[('src/lib/sup/oac-tree/base/log_severity.cpp', '  auto it = sev_map.find(severity);\n', '  auto it = sev_map.find(severity & 0xff);\n')],
  needs='a number that equals a severity modulo 256', breaks='an unknown severity number gets the name of a known one',
  demo=H+'''#include <sup/oac-tree/log_severity.h>
using namespace sup::oac_tree::log;
int main() { REQ(SeverityString(256) == "UNKNOWN"); return 0; }
''', srcs=['base/log_severity.cpp']),
 dict(id='c06_assign_swaps', prop='C06',
  edits=[('src/lib/sup/oac-tree/base/scope_guard.cpp', '  ScopeGuard moved{std::move(other)};\n  Swap(moved);\n', '  Swap(other);\n')],
  needs='move assignment onto a guard that holds an action', breaks='the overwritten action is not run at the assignment but kept by the source',
  demo=H+'''#include <sup/oac-tree/scope_guard.h>
using namespace sup::oac_tree;
int main() { int a = 0, b = 0; { ScopeGuard g{[&]{ ++a; }}, h{[&]{ ++b; }}; g = std::move(h); REQ(a == 1); REQ(!h.IsValid()); } REQ(a == 1 && b == 1); return 0; }
''', srcs=SG),
 dict(id='c06_assign_drops', prop='C06',
  edits=[('src/lib/sup/oac-tree/base/scope_guard.cpp', '  ScopeGuard moved{std::move(other)};\n  Swap(moved);\n', '  m_func = std::move(other.m_func);\n  other.m_func = nullptr;\n')],
  needs='move assignment onto a guard that holds an action', breaks='the overwritten action is never run',
  demo=H+'''#include <sup/oac-tree/scope_guard.h>
using namespace sup::oac_tree;
int main() { int a = 0, b = 0; { ScopeGuard g{[&]{ ++a; }}, h{[&]{ ++b; }}; g = std::move(h); } REQ(a == 1 && b == 1); return 0; }
''', srcs=SG),
 dict(id='c07_unregister_result', prop='C07',
  edits=[(N, 'result = result || new_end_it != cb_entries.end();', 'result = new_end_it != cb_entries.end() || (result && cb_entries.empty());')],
  needs='a listener with only generic callbacks while another has a named one', breaks='removal of an existing listener is reported as not done',
  demo=H+'''#include <sup/oac-tree/named_callback_manager.h>
using namespace sup::oac_tree;
int main() { NamedCallbackManager<int> m; int l = 0, k = 0; m.RegisterGenericCallback([&](const std::string&, int){}, &l); m.RegisterCallback("a", [&](int){}, &k);
 REQ(m.UnregisterListener(&l)); REQ(!m.UnregisterListener(&l)); return 0; }
''', srcs=SG),
 dict(id='c07_partial_erase', prop='C07',
  edits=[(N, '  cb_entries.erase(new_end_it, cb_entries.end());', '  if (new_end_it != cb_entries.end())\n  {\n    cb_entries.erase(new_end_it);\n  }')],
  needs='a listener with two named callbacks', breaks='only one of its callbacks is removed',
  demo=H+'''#include <sup/oac-tree/named_callback_manager.h>
using namespace sup::oac_tree;
int main() { NamedCallbackManager<int> m; int l = 0, n = 0; m.RegisterCallback("a", [&](int){ ++n; }, &l); m.RegisterCallback("b", [&](int){ ++n; }, &l);
 m.UnregisterListener(&l); m.ExecuteCallbacks("a", 0); m.ExecuteCallbacks("b", 0); REQ(n == 0); return 0; }
''', srcs=SG),
 dict(id='c07_name_prefix', prop='C07',
  edits=[(N, 'if (cb_entry.name == name)', 'if (name.compare(0, cb_entry.name.size(), cb_entry.name) == 0)')],
  needs='two names of which one is a prefix of the other', breaks='a callback fires for a name it was not registered for',
  demo=H+'''#include <sup/oac-tree/named_callback_manager.h>
using namespace sup::oac_tree;
int main() { NamedCallbackManager<int> m; int n = 0; m.RegisterCallback("ab", [&](int){ ++n; }, nullptr); m.ExecuteCallbacks("abc", 1); REQ(n == 0); m.ExecuteCallbacks("ab", 1); REQ(n == 1); return 0; }
''', srcs=SG),
 dict(id='c08_copy_unlock', prop='C08',
  edits=[(N, '''  std::lock_guard<std::mutex> lk(mtx);
  for (const auto& cb_entry : generic_cb_entries)
  {
    cb_entry.cb(name, args...);
  }
  for (const auto& cb_entry : cb_entries)
''', '''  std::unique_lock<std::mutex> lk(mtx);
  const auto generic_entries = generic_cb_entries;
  const auto named_entries = cb_entries;
  lk.unlock();
  for (const auto& cb_entry : generic_entries)
  {
    cb_entry.cb(name, args...);
  }
  for (const auto& cb_entry : named_entries)
''')],
  needs='a listener unregistering on another thread while a notification runs', breaks='a callback runs after its listener was unregistered',
  demo='''#include <sup/oac-tree/named_callback_manager.h>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <thread>
using namespace sup::oac_tree;
int main() { NamedCallbackManager<int> m; std::atomic<bool> in{false}, gone{false}, late{false}; int a = 0, b = 0;
 m.RegisterCallback("x", [&](int){ in = true; std::this_thread::sleep_for(std::chrono::milliseconds(300)); }, &a);
 m.RegisterCallback("x", [&](int){ if (gone) late = true; }, &b);
 std::thread t([&]{ m.ExecuteCallbacks("x", 1); });
 while (!in) std::this_thread::yield();
 m.UnregisterListener(&b); gone = true; t.join();
 if (late) std::printf("callback ran after unregistering\\n"); return late ? 1 : 0; }
''', srcs=SG),
 dict(id='c08_register_race', prop='C08',
  edits=[(N, '''  std::lock_guard<std::mutex> lk(mtx);
  cb_entries.push_back({listener, name, cb});
''', '''  CallbackEntry entry{listener, name, cb};
  {
    std::lock_guard<std::mutex> lk(mtx);
    cb_entries.reserve(cb_entries.size() + 1);
  }
  cb_entries.push_back(std::move(entry));
''')],
  needs='two threads registering at the same time', breaks='the callback list is written without the lock',
  demo='''#include <sup/oac-tree/named_callback_manager.h>
#include <atomic>
#include <cstdio>
#include <thread>
#include <vector>
using namespace sup::oac_tree;
int main() { for (int r = 0; r < 50; ++r) { NamedCallbackManager<int> m; std::atomic<int> n{0}; std::atomic<bool> go{false}; std::vector<std::thread> t;
 for (int k = 0; k < 4; ++k) t.emplace_back([&]{ while (!go) {} for (int i = 0; i < 300; ++i) m.RegisterCallback("x", [&](int){ ++n; }, nullptr); });
 go = true; for (auto& x : t) x.join(); m.ExecuteCallbacks("x", 1); if (n != 1200) { std::printf("lost registrations\\n"); return 1; } } return 0; }
''', srcs=SG),
 dict(id='c09_truncate', prop='C09',
  edits=[('src/lib/sup/oac-tree/base/exceptions.cpp', '  : m_message{std::move(message)}\n', '  : m_message{message.substr(0, 255)}\n')],
  needs='a message of more than 255 characters', breaks='the message is cut',
  demo=H+'''#include <sup/oac-tree/exceptions.h>
#include <string>
using namespace sup::oac_tree;
int main() { std::string s(300, 'x'); ParseException e(s); REQ(s == e.what()); return 0; }
''', srcs=['base/exceptions.cpp']),
 dict(id='c09_plugin_dedup', prop='C09',
  edits=[('src/lib/sup/oac-tree/procedure/procedure_preamble.cpp', '  m_plugin_paths.push_back(path);', '  if (m_plugin_paths.empty() || m_plugin_paths.back().compare(0, path.size(), path) != 0)\n  {\n    m_plugin_paths.push_back(path);\n  }')],
  needs='a plug-in path that is a prefix of the one before it', breaks='a plug-in path is lost',
  demo=H+'''#include <sup/oac-tree/procedure_preamble.h>
using namespace sup::oac_tree;
int main() { ProcedurePreamble p; p.AddPluginPath("libab.so"); p.AddPluginPath("libab"); REQ(p.GetPluginPaths().size() == 2); return 0; }
''', srcs=['procedure/procedure_preamble.cpp']),
]

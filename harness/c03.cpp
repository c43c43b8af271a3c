// @repo runner/job_command_queue.cpp runner/job_commands.cpp
// @entry h_one_consumer reach=done time=60
// @entry h_two_consumers reach=done time=60
// @entry h_priority reach=done time=60
// @entry h_poll reach=done time=60
// @entry h_wake_priority reach=done time=60
// @entry h_wake_two_priority reach=done time=60
// @entry h_three_consumers reach=done time=100
// @entry h_observers reach=done time=60
// @entry h_pollers reach=done time=60
// @entry h_wake_mixed reach=done time=60
// @entry h_mixed reach=done time=60
// @bound schedules with at most 5 (thorough 6) preemptions (one to three fewer with three threads or four commands) and 1 spurious wake-up; up to 3 threads beside the main one, up to 4 commands
// @assume scheduling points before every lock, wait, notification and thread start or join; accesses in between are checked for data races
#include <vp.h>
#include <rt_threads.h>
#include <thread>
#include <vector>
#include <sup/oac-tree/job_command_queue.h>
using namespace sup::oac_tree;
#ifdef VP_THOROUGH
static const int kP = 6;
#else
static const int kP = 5;
#endif
static JobCommand C(int v) { return static_cast<JobCommand>(v); }
static int before(const std::vector<int>& v, int a, int b)
{ int ia = -1, ib = -1; for (size_t i = 0; i < v.size(); i++) { if (v[i] == a) ia = (int)i; if (v[i] == b) ib = (int)i; } return ia >= 0 && ib >= 0 && ia < ib; }
static int count(const std::vector<int>& v, int a) { int n = 0; for (int x : v) n += x == a; return n; }

HARNESS(h_one_consumer)
{ // two producers, one waiting consumer
  vp_threads(kP - 1, 1, 0);
  JobCommandQueue q; std::vector<int> got;
  std::thread c([&] { for (int i = 0; i < 4; i++) got.push_back((int)q.WaitForNextCommand()); });
  std::thread a([&] { q.Push(C(3)); q.Push(C(1)); });
  q.Push(C(4)); q.Push(C(2));
  a.join(); c.join();
  CHECK(got.size() == 4, "all commands arrive");
  for (int k = 1; k <= 4; k++) CHECK(count(got, k) == 1, "each command is delivered exactly once");
  CHECK(before(got, 3, 1) && before(got, 4, 2), "commands of one producer stay in order");
  CHECK(q.IsEmpty() && q.GetSize() == 0, "nothing is left");
  vp_reach("done");
}
HARNESS(h_two_consumers)
{ // two waiting consumers, both must get a command
  vp_threads(kP, 1, 0);
  JobCommandQueue q; int g1 = -1, g2 = -1;
  std::thread c1([&] { g1 = (int)q.WaitForNextCommand(); });
  std::thread c2([&] { g2 = (int)q.WaitForNextCommand(); });
  q.Push(C(1)); q.Push(C(2));
  c1.join(); c2.join();
  CHECK((g1 == 1 && g2 == 2) || (g1 == 2 && g2 == 1), "each command is delivered to exactly one consumer");
  CHECK(q.IsEmpty(), "nothing is left"); vp_reach("done");
}
HARNESS(h_priority)
{ // a priority push races with pushes and a consumer
  vp_threads(kP, 1, 0);
  JobCommandQueue q; int action = 0; std::vector<int> got; bool accepted = false;
  q.Push(C(0));
  std::thread c([&] { for (int i = 0; i < 2; i++) { int x = (int)q.WaitForNextCommand(); got.push_back(x); if (x == 4) CHECK(action == 1, "the action is finished before the command is popped"); } });
  std::thread a([&] { accepted = q.PriorityPush(C(4), [&] { action = action + 1; }); });
  q.Push(C(2));
  a.join(); c.join();
  JobCommand x; while (q.TryPop(x)) got.push_back((int)x);
  CHECK(accepted, "nothing in the queue is as urgent, so the priority push is accepted");
  CHECK(action == 1, "the action ran once");
  CHECK(got.size() == 3 && count(got, 0) == 1 && count(got, 4) == 1 && count(got, 2) == 1, "each command is delivered exactly once");
  CHECK(before(got, 0, 2), "ordinary commands stay in order");
  vp_reach("done");
}
HARNESS(h_poll)
{ // polling consumer beside a waiting one, with a competing urgent producer
  vp_threads(kP, 0, 0);
  JobCommandQueue q; int g1 = -1, g2 = -1; bool polled = false;
  std::thread c1([&] { JobCommand x = C(5); if (q.TryPop(x)) { polled = true; g1 = (int)x; } });
  std::thread p([&] { bool r = q.PriorityPush(C(5), {}); CHECK(r, "the most urgent command is accepted"); });
  q.Push(C(1));
  g2 = (int)q.WaitForNextCommand();
  c1.join(); p.join();
  size_t left = q.GetSize(); CHECK(left == (polled ? 0u : 1u), "the size accounts for every delivery");
  JobCommand x = C(0); int g3 = -1; if (q.TryPop(x)) g3 = (int)x;
  int sum = (g1 >= 0 ? g1 : 0) + (g2 >= 0 ? g2 : 0) + (g3 >= 0 ? g3 : 0);
  CHECK(sum == 6, "each command is delivered exactly once"); vp_reach("done");
}
HARNESS(h_mixed)
{ // two priority pushes and a push against one consumer
  vp_threads(kP, 0, 0);
  JobCommandQueue q; int act[2] = {0, 0}; bool ok[2] = {false, false}; std::vector<int> got;
  std::thread a([&] { ok[0] = q.PriorityPush(C(4), [&] { act[0]++; }); });
  std::thread b([&] { ok[1] = q.PriorityPush(C(3), [&] { act[1]++; }); });
  q.Push(C(1));
  got.push_back((int)q.WaitForNextCommand());
  a.join(); b.join();
  JobCommand x; while (q.TryPop(x)) got.push_back((int)x);
  CHECK(ok[0], "the halt command is always accepted here");
  CHECK(act[0] == 1 && act[1] == (ok[1] ? 1 : 0), "an action runs exactly when its push is accepted");
  CHECK(count(got, 4) == 1 && count(got, 1) == 1 && count(got, 3) == (ok[1] ? 1 : 0), "accepted commands are delivered exactly once, others not at all");
  vp_reach("done");
}
HARNESS(h_wake_priority)
{ // a consumer waiting on an empty queue is woken by a priority push, whatever else was refused or popped before
  vp_threads(kP, 1, 0);
  JobCommandQueue q; int g = -1, ran = 0; int c = vp::choose("command", 6); if (vp::flag("used")) { q.Push(C(2)); CHECK(!q.PriorityPush(C(1), {}), "a less urgent command is refused"); JobCommand x; CHECK(q.TryPop(x) && x == C(2), "the command is delivered"); }
  std::thread w([&] { g = (int)q.WaitForNextCommand(); }); bool action = vp::flag("action"); bool ok = action ? q.PriorityPush(C(c), [&] { ran++; }) : q.PriorityPush(C(c), {}); w.join();
  CHECK(ok && g == c && ran == (action ? 1 : 0), "a waiting consumer gets the urgent command"); CHECK(q.IsEmpty(), "nothing is left"); vp_reach("done");
}
HARNESS(h_wake_two_priority)
{
  vp_threads(kP, 0, 0);
  JobCommandQueue q; int g1 = -1, g2 = -1; std::thread a([&] { g1 = (int)q.WaitForNextCommand(); }), b([&] { g2 = (int)q.WaitForNextCommand(); }); CHECK(q.PriorityPush(C(3), {}), "accepted"); CHECK(q.PriorityPush(C(4), {}), "accepted"); a.join(); b.join(); CHECK(g1 + g2 == 7 && g1 != g2 && g1 >= 3 && g2 >= 3, "each waiting consumer gets one command"); vp_reach("done");
}
HARNESS(h_wake_mixed)
{ // a push and a priority push from two threads, two waiting consumers
  vp_threads(kP - 2, 0, 0);
  JobCommandQueue q; int g1 = -1, g2 = -1; bool ok = false; std::thread a([&] { g1 = (int)q.WaitForNextCommand(); }), b([&] { g2 = (int)q.WaitForNextCommand(); }), p([&] { ok = q.PriorityPush(C(5), {}); }); q.Push(C(0)); a.join(); b.join(); p.join(); CHECK(ok && g1 + g2 == 5 && g1 != g2, "each waiting consumer gets one command"); vp_reach("done");
}
HARNESS(h_three_consumers)
{
  vp_threads(kP - 3, 0, 0);
  JobCommandQueue q; int g[3] = {-1, -1, -1}; std::thread a([&] { g[0] = (int)q.WaitForNextCommand(); }), b([&] { g[1] = (int)q.WaitForNextCommand(); }), c([&] { g[2] = (int)q.WaitForNextCommand(); });
  for (int k = 1; k <= 3; k++) q.Push(C(k)); a.join(); b.join(); c.join(); int seen[6] = {0}; for (int x : g) if (x >= 0) seen[x]++; CHECK(seen[1] == 1 && seen[2] == 1 && seen[3] == 1, "each command is delivered to exactly one consumer"); vp_reach("done");
}
HARNESS(h_observers)
{ // size and emptiness are read while others push and pop
  vp_threads(kP - 1, 0, 0);
  JobCommandQueue q; size_t n = 9; bool e = false; std::thread a([&] { q.Push(C(1)); q.PriorityPush(C(2), {}); }), b([&] { n = q.GetSize(); e = q.IsEmpty(); }); int g = (int)q.WaitForNextCommand(); a.join(); b.join(); CHECK(n <= 2, "the size is that of some moment"); CHECK(g == 1 || g == 2, "the consumer gets a command"); CHECK(q.GetSize() == 1 && !q.IsEmpty(), "one is left"); (void)e; vp_reach("done");
}
HARNESS(h_pollers)
{ // two polling consumers and a waiting one share three commands
  vp_threads(kP - 2, 0, 0);
  JobCommandQueue q; q.Push(C(1)); int g[3] = {-1, -1, -1}; auto poll = [&](int i) { JobCommand x = C(0); if (q.TryPop(x)) g[i] = (int)x; }; std::thread a([&] { poll(0); }), b([&] { poll(1); }); q.Push(C(2)); q.Push(C(3)); g[2] = (int)q.WaitForNextCommand(); a.join(); b.join(); int seen[6] = {0}; for (int x : g) if (x >= 0) seen[x]++; JobCommand x; while (q.TryPop(x)) seen[(int)x]++; CHECK(seen[1] == 1 && seen[2] == 1 && seen[3] == 1, "each command is delivered to exactly one consumer"); vp_reach("done");
}

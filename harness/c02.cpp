// @repo runner/job_command_queue.cpp runner/job_commands.cpp
// @entry h_order reach=le time=20
// @entry h_history reach=prio_accepted,prio_refused,popped time=60
// @entry h_long reach=long time=30
// @entry h_size reach=long time=60
// @entry h_patterns reach=long time=60
// @entry h_throwing reach=thrown time=30
// @entry h_inductive reach=step time=60
// @bound h_history: every sequence of 6 (thorough 7) operations, commands symbolic over all 6 values; h_long: 140 pushes, 1 priority push, all pops, commands symbolic; h_size: 300, 1030 or 2100 pushes with a symbolic command among them, symbolic priority pushes, all pops; h_patterns: 60 rounds of 1..3 pushes, priority pushes and pops in one of 6 patterns, commands symbolic in the priority pushes of one round; h_inductive: any two operations on a queue of 0..6, 9, 17 or 33 symbolic commands
#include <vp.h>
#include <deque>
#include <vector>
#include <sup/oac-tree/job_command_queue.h>
using namespace sup::oac_tree;
#ifdef VP_THOROUGH
static const int kOps = 7;
#else
static const int kOps = 6;
#endif
static int anyCmd() { return (int)vp::below("command", 6); }
static JobCommand C(int v) { return static_cast<JobCommand>(v); }

HARNESS(h_order)
{
  int a = vp::any<int>("a"), b = vp::any<int>("b");
  CHECK((C(a) <= C(b)) == (a <= b), "commands are ordered by their number");
  CHECK((int)JobCommand::kStart == 0 && (int)JobCommand::kStep == 1 && (int)JobCommand::kPause == 2 && (int)JobCommand::kReset == 3 && (int)JobCommand::kHalt == 4 && (int)JobCommand::kTerminate == 5, "start, step, pause, reset, halt, terminate in this order of urgency");
  vp_reach("le");
}
static void sizes(const JobCommandQueue& q, size_t n)
{
  CHECK(q.GetSize() == n, "the size matches what is stored");
  CHECK(q.IsEmpty() == (n == 0), "emptiness matches what is stored");
}
static void step(JobCommandQueue& q, std::deque<int>& m)
{
  switch (vp::choose("op", 5))
  {
  case 0: { int c = anyCmd(); q.Push(C(c)); m.push_back(c); break; }
  case 1:
  {
    int c = anyCmd(), runs = 0; bool before = true;
    bool r = q.PriorityPush(C(c), [&] { runs++; });
    bool expect = m.empty() || c > m.front();
    CHECK(r == expect, "a priority push is accepted exactly when the queue is empty or its front is strictly less urgent");
    if (r) { vp_reach("prio_accepted"); m.push_front(c); CHECK(runs == 1, "the action of an accepted priority push runs once"); }
    else { vp_reach("prio_refused"); CHECK(runs == 0, "the action of a refused priority push is not run"); }
    (void)before; break;
  }
  case 2:
  { // no action given
    int c = anyCmd(); bool r = q.PriorityPush(C(c), {}); bool expect = m.empty() || c > m.front();
    CHECK(r == expect, "a priority push without action is accepted exactly when the queue is empty or its front is strictly less urgent");
    if (r) m.push_front(c);
    break;
  }
  case 3:
  {
    int marker = (int)vp::below("marker", 6); JobCommand c = C(marker); bool r = q.TryPop(c);
    CHECK(r == !m.empty(), "a command is popped exactly when there is one");
    if (!m.empty()) { vp_reach("popped"); CHECK((int)c == m.front(), "commands leave in order"); m.pop_front(); }
    else CHECK((int)c == marker, "a failed pop leaves the output alone");
    break;
  }
  case 4:
    if (m.empty()) vp_prune();
    { JobCommand c = q.WaitForNextCommand(); CHECK((int)c == m.front(), "waiting returns the commands in order"); m.pop_front(); }
    break;
  }
}
static void drain(JobCommandQueue& q, std::deque<int>& m)
{
  while (!m.empty())
  {
    sizes(q, m.size()); JobCommand c = C(0); CHECK(q.TryPop(c), "every stored command can be popped"); CHECK((int)c == m.front(), "the commands left are those pushed, in order"); m.pop_front();
  }
  sizes(q, 0); JobCommand c; CHECK(!q.TryPop(c), "nothing is repeated");
}
HARNESS(h_history)
{
  JobCommandQueue q; std::deque<int> m; sizes(q, 0);
  for (int i = 0; i < kOps; i++) { step(q, m); sizes(q, m.size()); }
  drain(q, m);
}
HARNESS(h_inductive)
{
  JobCommandQueue q; std::deque<int> m; int k = vp::choose("length", 10), n = k < 7 ? k : k == 7 ? 9 : k == 8 ? 17 : 33;
  for (int i = 0; i < n; i++) { int c = anyCmd(); q.Push(C(c)); m.push_back(c); }
  step(q, m); sizes(q, m.size()); step(q, m); vp_reach("step");
  drain(q, m);
}
HARNESS(h_long)
{
  JobCommandQueue q; std::deque<int> m;
  for (int i = 0; i < 140; i++) { int c = anyCmd(); q.Push(C(c)); m.push_back(c); }
  int runs = 0, c = anyCmd(); bool r = q.PriorityPush(C(c), [&] { runs++; });
  CHECK(r == (c > m.front()), "priority push on a long queue"); if (r) m.push_front(c); CHECK(runs == (r ? 1 : 0), "action on a long queue");
  vp_reach("long"); drain(q, m);
}
HARNESS(h_size)
{ // large queues: mostly fixed commands, some symbolic ones
  static const int sizes[] = {300, 1030, 2100}; JobCommandQueue q; std::deque<int> m; int n = sizes[vp::choose("size", 3)], at = vp::choose("place", 3) * (n / 2 - 1);
  for (int i = 0; i < n; i++) { int c = i == at ? anyCmd() : i * 7 % 5; q.Push(C(c)); m.push_back(c); } CHECK(q.GetSize() == m.size() && !q.IsEmpty(), "size of a large queue");
  for (int k = 0; k < 2; k++) { int c = anyCmd(); int runs = 0; bool r = q.PriorityPush(C(c), [&] { runs++; }); CHECK(r == (c > m.front()) && runs == (r ? 1 : 0), "priority push on a large queue"); if (r) m.push_front(c); }
  for (int k = 0; k < n / 2; k++) { CHECK((int)q.WaitForNextCommand() == m.front(), "order of a large queue"); m.pop_front(); } int c = anyCmd(); q.Push(C(c)); m.push_back(c); CHECK(q.GetSize() == m.size(), "size of a large queue"); vp_reach("long"); drain(q, m);
}
HARNESS(h_patterns)
{ // long lives of one queue
  JobCommandQueue q; std::deque<int> m; int pat = vp::choose("pattern", 6), at = vp::choose("round", 3) * 29, total = 0, ran = 0;
  for (int r = 0; r < 60; r++)
  {
    auto push = [&](int c) { q.Push(C(c)); m.push_back(c); };
    auto prio = [&](int c) { int runs = 0; bool ok = q.PriorityPush(C(c), [&] { runs++; }); bool want = m.empty() || c > m.front(); CHECK(ok == want && runs == (want ? 1 : 0), "a priority push is accepted exactly when the queue is empty or its front is strictly less urgent"); if (ok) m.push_front(c); ++total; ran += runs; };
    auto pop = [&] { JobCommand c = C(0); CHECK(q.TryPop(c) == !m.empty(), "a command is popped exactly when there is one"); if (!m.empty()) { CHECK((int)c == m.front(), "commands leave in order"); m.pop_front(); } };
    int sym = r == at ? anyCmd() : r % 6;
    switch (pat) { case 0: push(sym); prio(r % 5); pop(); break; case 1: push(r % 6); push(sym); prio(sym); break; case 2: prio(sym); pop(); break; case 3: push(sym); push(r % 4); pop(); break; case 4: push(3); push(3); prio(sym); pop(); pop(); break; default: if (r < 30) { push(sym); } else { prio(sym); pop(); } }
    sizes(q, m.size());
  }
  vp_reach("long"); drain(q, m);
}
HARNESS(h_throwing)
{ // an action that fails leaves a usable queue
  JobCommandQueue q; q.Push(C(1)); q.Push(C(2)); bool thrown = false; try { q.PriorityPush(C(4), [] { throw 1; }); } catch (int) { thrown = true; } CHECK(thrown, "the failure of the action is reported"); vp_reach("thrown");
  JobCommand c = C(0); std::vector<int> got; while (q.TryPop(c)) got.push_back((int)c); size_t n = got.size(); CHECK((n == 2 || (n == 3 && got[0] == 4)) && got[n - 2] == 1 && got[n - 1] == 2, "ordinary commands stay in order"); q.Push(C(3)); CHECK(q.WaitForNextCommand() == C(3), "the queue goes on");
}

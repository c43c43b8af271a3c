// @entry h_halt reach=halted,before,stuck time=150
// @entry h_halt_finishing reach=halted,succeeded time=150
// @entry h_pause reach=paused,succeeded,idle time=150
// @entry h_terminate reach=running,early time=150
// @entry h_controllers reach=halted,done time=200
// @entry h_breakpoint reach=hit,missed time=150
// @entry h_again reach=done time=150
// @entry h_reset_halt reach=halted,initial time=150
// @entry h_parallel reach=halted time=200
// @entry h_commands reach=paused,done time=200
// @bound schedules with at most 3 (thorough 4) preemptions; one job thread, one or two controllers; a single instruction or a sequence of two, an instruction that waits for its halt, or a parallel sequence of two such
// @assume shims stand in for sup-dto; leaves are scripted test instructions deriving from the real Instruction; scheduling points at locks, waits, atomics, thread start and join
#include <oac.h>
#include <rt_threads.h>
#include <sup/oac-tree/async_runner.h>
#include <algorithm>
#include <thread>
using namespace oac;
#ifdef VP_THOROUGH
static const int kP = 4;
#else
static const int kP = 3;
#endif
enum St { INIT, PAUSED, STEPPING, RUNNING, SUCCESS, FAILED, HALTED };
struct Monitor : JobStateMonitor
{
  std::vector<int> st; int ticks = 0; bool removed = false;
  void OnStateChange(JobState s) noexcept override
  {
    VpQuiet q; int n = (int)s; CHECK(!removed, "no report after the end of the job");
    if (!st.empty())
    {
      int o = st.back(); bool ok = false;
      switch (n)
      {
      case INIT: ok = o >= SUCCESS; break;
      case PAUSED: ok = o == RUNNING || o == STEPPING; break;
      case STEPPING: case RUNNING: ok = o == INIT || o == PAUSED; break;
      case SUCCESS: case FAILED: ok = o == RUNNING || o == STEPPING; break;
      default: ok = o < SUCCESS;
      }
      CHECK(ok, "only documented changes of state are reported");
    }
    else CHECK(n == INIT, "a job starts as initial");
    st.push_back(n);
  }
  void OnBreakpointChange(const Instruction*, bool) noexcept override {}
  void OnProcedureTick(const Procedure&) override { VpQuiet q; ++ticks; }
};
struct J
{
  Ui ui; Monitor mon; Procedure proc; std::vector<Leaf*> l; std::shared_ptr<Script> sc = std::make_shared<Script>(); std::unique_ptr<AsyncRunner> run;
  J(int n, int kind, const char* root = "Sequence")
  { // kind 0: succeeds at once, 1: waits for its halt, 2: takes two ticks
    proc.AddAttribute("tickTimeout", "0"); auto r = make(root);
    for (int i = 0; i < n; i++)
    {
      auto x = std::make_unique<Leaf>(sc); l.push_back(x.get());
      x->act = [kind](Leaf& me, UserInterface&, Workspace&) { if (kind == 0) return (int)OK; if (kind == 2) return (int)(me.execs < 2 ? NF : OK); if (!me.IsHaltRequested()) vp_wait_flag(&me.halts); return (int)BAD; };
      if (n == 1) { proc.PushInstruction(std::move(x)); r.reset(); } else r->InsertInstruction(std::move(x), i);
    }
    if (r) proc.PushInstruction(std::move(r));
    run = std::make_unique<AsyncRunner>(proc, ui, mon);
  }
  int state() { VpQuiet q; return mon.st.back(); }
  int execs() { VpQuiet q; int e = 0; for (auto* x : l) e += x->execs; return e; }
  bool was(int s) { VpQuiet q; return std::find(mon.st.begin(), mon.st.end(), s) != mon.st.end(); }
  void end(bool others = false) { run.reset(); if (others) vp_drain(); CHECK(vp_threads_alive() == 1, "the job's thread has ended"); VpQuiet q; mon.removed = true; }
};
#define SCHED(p) vp_threads(p, 0, 0); vp_set_timeouts(0)
HARNESS(h_halt)
{ // a job that ends only when halted
  SCHED(kP); J j(1, 1); j.run->Start(); j.run->Halt(); vp_drain(); int s = j.state(); CHECK(s == HALTED || s == FAILED, "a halted job becomes halted or finished"); if (s == HALTED) vp_reach("halted"); if (j.execs() == 0) vp_reach("before"); else vp_reach("stuck"); CHECK(j.execs() <= 1, "a halted job executes nothing more");
  j.end();
}
HARNESS(h_halt_finishing)
{
  SCHED(kP); J j(2, 0); j.run->Start(); j.run->Halt(); vp_drain(); int s = j.state(), e = j.execs(); CHECK(s == HALTED || s == SUCCESS, "a halted job becomes halted or finished"); CHECK(s == HALTED || e == 2, "only a completed job succeeds"); vp_reach(s == HALTED ? "halted" : "succeeded");
  j.run->Start(); vp_drain(); CHECK(j.state() == s && j.execs() == e, "nothing is executed after the end"); j.end();
}
HARNESS(h_pause)
{
  SCHED(kP); J j(2, 0); j.run->Start(); j.run->Pause(); vp_drain(); int s = j.state(), e = j.execs(); CHECK(s == PAUSED || s == SUCCESS, "a paused job stops or has ended"); CHECK((s == SUCCESS) == (e == 2), "only a completed job succeeds"); vp_reach(s == PAUSED ? "paused" : "succeeded"); if (s == PAUSED && e == 1) vp_reach("idle");
  vp_set_preemptions(1); j.run->Start(); vp_drain(); CHECK(j.state() == SUCCESS && j.execs() == 2, "a paused job goes on where it stopped"); j.end();
}
HARNESS(h_terminate)
{ // the job is destroyed at any point of its execution, also while an instruction waits
  SCHED(kP); J j(1, vp::choose("kind", 3)); j.run->Start(); j.end(); if (j.execs()) vp_reach("running"); else vp_reach("early");
}
HARNESS(h_controllers)
{ // one controller starts and steps, another halts
  SCHED(kP); J j(2, 0); std::thread t([&] { j.run->Halt(); }); j.run->Step(); j.run->Start(); t.join(); vp_drain(); int s = j.state(); CHECK(s == HALTED || s == SUCCESS, "a halted job becomes halted or finished"); vp_reach(s == HALTED ? "halted" : "done"); int e = j.execs(); CHECK((s == SUCCESS) == (e == 2), "only a completed job succeeds"); j.end();
}
HARNESS(h_breakpoint)
{
  SCHED(kP); J j(2, 0); j.run->Start(); j.run->SetBreakpoint(j.l[1]); vp_drain(); int s = j.state(), e = j.execs(); CHECK((s == PAUSED && e == 1) || (s == SUCCESS && e == 2), "a job stops before the instruction or has passed it"); vp_reach(s == PAUSED ? "hit" : "missed"); vp_set_preemptions(0); j.run->Start(); vp_drain(); CHECK(j.state() == SUCCESS && j.execs() == 2, "the job goes on"); j.end();
}
HARNESS(h_again)
{ // halt, reset, start: the second run is complete
  SCHED(kP); J j(1, 2); j.run->Start(); j.run->Halt(); vp_drain(); int s = j.state(); CHECK(s == HALTED || s == SUCCESS, "a halted job becomes halted or finished"); int e = j.execs(); CHECK(s == HALTED || e == 2, "only a completed job succeeds");
  vp_set_preemptions(1); { VpQuiet q; for (auto* x : j.l) x->execs = 0; } j.run->Reset(); j.run->Start(); vp_drain(); CHECK(j.state() == SUCCESS && j.execs() == 2, "after a reset the job runs again"); j.end(); vp_reach("done");
}
HARNESS(h_reset_halt)
{ // halt while the finished job is reset
  SCHED(kP); J j(2, 0); vp_fixed_order(1); j.run->Start(); vp_drain(); vp_fixed_order(0); CHECK(j.state() == SUCCESS, "the job has ended"); j.run->Reset(); j.run->Halt(); vp_drain(); int s = j.state(); CHECK(s == HALTED || s == SUCCESS || s == INIT, "reset and halt take effect in the order they are served"); int e = j.execs();
  if (s == INIT) vp_reach("initial"); if (s == HALTED) vp_reach("halted"); vp_fixed_order(1); j.run->Reset(); vp_drain(); CHECK(j.state() == INIT, "the job can be reset"); j.run->Start(); vp_drain(); CHECK(j.state() == SUCCESS && j.execs() == e + 2, "after a reset the job runs again"); j.end();
}
HARNESS(h_parallel)
{ // halt reaches instructions that run in threads of their own
  SCHED(1); vp_unfair_ok(); J j(2, 1, "ParallelSequence"); j.run->Start(); j.run->Halt(); vp_drain(); int s = j.state(); CHECK(s == HALTED || s == FAILED, "a halted job becomes halted or finished"); if (s == HALTED) vp_reach("halted"); j.end(true);
}
HARNESS(h_commands)
{ // commands that queue up while the job runs are each served, in order; the job never claims to run while nothing does
  SCHED(2); int a = vp::choose("first", 3), b = vp::choose("second", 3); J j(1, 2); auto send = [&](int c) { switch (c) { case 0: j.run->Start(); break; case 1: j.run->Pause(); break; default: j.run->Step(); } };
  j.run->Start(); send(a); send(b); vp_drain(); int s = j.state(), e = j.execs(); CHECK(s == PAUSED || s == SUCCESS, "a job that is idle is paused or has ended"); CHECK((s == SUCCESS) == (e == 2), "only a completed job succeeds"); if (b == 0) CHECK(s == SUCCESS, "a job that was started last runs to its end"); vp_reach(s == PAUSED ? "paused" : "done");
  vp_set_preemptions(0); j.run->Start(); vp_drain(); CHECK(j.state() == SUCCESS && j.execs() == 2, "a paused job goes on where it stopped"); j.end();
}

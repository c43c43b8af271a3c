// @entry h_drained reach=success,failure,notfinished,relaunch time=100
// @entry h_schedules reach=done time=100
// @entry h_halt reach=done time=60
// @entry h_reset_running reach=done time=60
// @entry h_wrapper reach=done time=60
// @entry h_two reach=done time=60
// @bound 6 (thorough 8) ticks with completed steps between them and symbolic results; schedules with at most 4 (thorough 5) preemptions, 3 ticks, halt and reset from the executing thread, halt from another thread
// @assume shims stand in for sup-dto; the child is a scripted test instruction deriving from the real Instruction; std::async runs its task in a modelled thread
#include <oac.h>
#include <rt_threads.h>
#include <thread>
using namespace oac;
#ifdef VP_THOROUGH
static const int kT = 8, kP = 5;
#else
static const int kT = 6, kP = 4;
#endif
struct A
{
  Ui ui; Workspace ws; Procedure proc; std::unique_ptr<Instruction> a; Leaf* l; std::shared_ptr<Script> sc = std::make_shared<Script>();
  A() { a = make("Async"); auto c = std::make_unique<Leaf>(sc); l = c.get(); a->InsertInstruction(std::move(c), 0); a->Setup(proc); }
  void tick() { a->ExecuteSingle(ui, ws); }
};
HARNESS(h_drained)
{ // the step launched by a tick completes before the next tick
  vp_threads(0, 0, 0);
  A x; int last = NS; bool launched = false; // last: status reported before
  for (int i = 0; i < kT; i++)
  {
    int e = x.l->execs; int c = I(*x.l); x.tick(); vp_drain(); int r = I(*x.a); int d = x.l->execs - e;
    CHECK(d <= 1, "at most one step per launch");
    if (last == OK || last == BAD) { CHECK(d == 0 && r == last, "nothing is launched after the end"); last = r; continue; }
    if (!launched) { CHECK(d == 1 && r == RUN, "the first tick launches one step and reports running"); launched = true; }
    else if (c == OK || c == BAD) { CHECK(r == c && d == 0, "the step's final status is reported exactly"); vp_reach(c == OK ? "success" : "failure"); }
    else if (c == NF && last != NF) { CHECK(r == NF && d == 0, "an unfinished step is reported as such"); vp_reach("notfinished"); }
    else { CHECK(r == RUN && d == 1, "an unfinished child is relaunched"); vp_reach("relaunch"); }
    last = r;
  }
}
HARNESS(h_schedules)
{ // any schedule: running until the step is done, and then its status; steps never overlap
  vp_threads(kP, 0, 0); vp_set_timeouts(0);
  A x; bool busy = false; int results[8], n = 0;
  x.l->act = [&](Leaf& me, UserInterface&, Workspace&) { CHECK(!busy, "steps of one child never overlap"); busy = true; int r = x.sc->at((size_t)me.execs - 1); results[n++] = r; vp_yield(); busy = false; return r; };
  int last = NS;
  for (int i = 0; i < 3; i++)
  {
    int before = last; x.tick(); int r = I(*x.a); last = r;
    if (before != OK && before != BAD) { if (r == OK || r == BAD || r == NF) CHECK(n > 0 && (n == 1 ? r == results[0] : ((r == results[n - 1]) | (r == results[n - 2]))), "a reported status is one a step produced"); else CHECK(r == RUN, "running until the step is done"); }
    else CHECK(r == before, "the end is kept");
  }
  x.a->Reset(x.ui); CHECK(!busy, "reset returns only after the running step has ended"); CHECK(I(*x.l) == NS && I(*x.a) == NS, "reset reaches the child");
  int m = n; vp_drain(); CHECK(m == n, "no step runs on after reset"); vp_reach("done");
}
HARNESS(h_halt)
{ // halt from another thread while a step that waits for it runs
  vp_threads(kP, 0, 0); vp_set_timeouts(0);
  A x; bool ended = false;
  x.l->act = [&](Leaf& me, UserInterface&, Workspace&) { if (!me.IsHaltRequested()) vp_wait_flag(&me.halts); ended = true; return BAD; };
  x.tick(); CHECK(I(*x.a) == RUN, "running until the step is done");
  std::thread h([&] { x.a->Halt(); });
  x.tick(); h.join(); CHECK(x.a->IsHaltRequested() && x.l->IsHaltRequested() && x.l->halts == 1, "halt reaches the child");
  x.a->Reset(x.ui); CHECK(x.l->execs == (ended ? 1 : 0), "reset returns only after the running step has ended");
  vp_reach("done");
}
HARNESS(h_reset_running)
{ // reset while the step runs: it is halted and awaited
  vp_threads(kP, 0, 0); vp_set_timeouts(0);
  A x; bool ended = false;
  x.l->act = [&](Leaf& me, UserInterface&, Workspace&) { if (!me.IsHaltRequested()) vp_wait_flag(&me.halts); ended = true; return BAD; };
  x.tick(); x.a->Reset(x.ui); CHECK(x.l->execs == (ended ? 1 : 0), "reset awaits the running step"); CHECK(!x.l->IsHaltRequested(), "the halt request is cleared by the reset");
  int e = x.l->execs; x.l->act = nullptr; x.tick(); vp_drain(); x.tick(); CHECK(x.l->execs >= e + 1, "the next run executes the child again"); vp_drain(); vp_reach("done");
}
HARNESS(h_wrapper)
{ // destroying an instruction whose child still runs its step
  vp_threads(kP, 0, 0); vp_set_timeouts(0);
  int done = 0, begun = 0; bool gone = false;
  { A x; x.l->gone = &gone; x.l->act = [&](Leaf&, UserInterface&, Workspace&) { ++begun; vp_yield(); CHECK(!gone, "the child outlives its step"); ++done; return OK; };
    x.tick(); if (vp::flag("second")) x.tick(); x.a->Reset(x.ui); CHECK(begun == done, "no step is running after reset"); }
  CHECK(gone && begun == done, "everything is released"); vp_drain(); vp_reach("done");
}
HARNESS(h_two)
{ // two asynchronous children in a sequence: the second starts only when the first has succeeded
  vp_threads(kP - 2, 0, 0); vp_set_timeouts(0);
  Ui ui; Workspace ws; Procedure p; auto s = make("Sequence"); Leaf* l[2]; bool over = false, firstDone = false;
  for (int i = 0; i < 2; i++) { auto a = make("Async"); auto c = std::make_unique<Leaf>(std::make_shared<Script>()); l[i] = c.get(); a->InsertInstruction(std::move(c), 0); s->InsertInstruction(std::move(a), i); }
  l[0]->act = [&](Leaf& me, UserInterface&, Workspace&) { int r = (me.execs == 1) ? NF : OK; firstDone = r == OK; return r; };
  l[1]->act = [&](Leaf&, UserInterface&, Workspace&) { over = over | !firstDone; return OK; };
  s->Setup(p); for (int i = 0; i < 10 && I(*s) != OK; i++) { s->ExecuteSingle(ui, ws); if (i > 2) vp_drain(); }
  CHECK(!over, "the second child starts only after the first has succeeded"); CHECK(I(*s) == OK && l[0]->execs == 2 && l[1]->execs == 1, "each child performs exactly its steps"); vp_reach("done");
}

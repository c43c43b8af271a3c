// @entry h_outcome reach=success,failure,running,notfinished,halted time=150
// @entry h_defaults reach=success,failure time=60
// @entry h_schedules reach=done time=100
// @entry h_halts reach=done time=60
// @entry h_reset reach=done time=100
// @entry h_many reach=success,failure,mixed time=100
// @bound h_many: 4 to 7 children, thresholds up to the largest; 1..3 children, success and failure threshold each absent or 0..4, every result of every execution symbolic, 5 (thorough 7; three children: 3, thorough 5) ticks with all steps completed between ticks (in every order; three children in one order); every schedule with at most 2 (thorough 3) preemptions for 2 children
// @assume shims stand in for sup-dto; leaves are scripted test instructions deriving from the real Instruction; std::async runs its task in a modelled thread
#include <oac.h>
#include <rt_threads.h>
#include <algorithm>
#include <thread>
using namespace oac;
#ifdef VP_THOROUGH
static const int kT = 7, kT3 = 5, kP = 3, kN = 3;
#else
static const int kT = 5, kT3 = 3, kP = 2, kN = 3;
#endif
struct Par
{
  Ui ui; Workspace ws; Procedure proc; std::unique_ptr<Instruction> p; std::vector<Leaf*> l; int n, s, f;
  Par(int n_, int64_t sa, int64_t fa, bool shortScripts) : n(n_)
  { // sa, fa: attribute value or -1
    p = make("ParallelSequence"); if (sa >= 0) p->AddAttribute("successThreshold", std::to_string(sa)); if (fa >= 0) p->AddAttribute("failureThreshold", std::to_string(fa));
    for (int i = 0; i < n; i++) { auto sc = std::make_shared<Script>(); auto c = std::make_unique<Leaf>(sc); l.push_back(c.get()); p->InsertInstruction(std::move(c), i); (void)shortScripts; }
    p->Setup(proc);
    s = sa < 0 ? n : (int)std::min<int64_t>(sa, n); f = fa < 0 ? 1 : (int)std::min<int64_t>(fa, n);
    if (s + f > n + 1) { if (sa < 0 && fa >= 0) s = n + 1 - f; else f = n + 1 - s; } // only one of them may be lowered
    else if (sa < 0 && fa >= 0) s = n + 1 - f;
  }
  int count(int v) { int k = 0; for (auto* x : l) k += I(*x) == v; return k; }
};
HARNESS(h_outcome)
{
  vp_threads(0, 0, 0);
  int n = 1 + vp::choose("children", kN); int sa = vp::choose("success", n + 3) - 1, fa = vp::choose("failure", n + 3) - 1;
  Par x(n, sa, fa, true); vp_fixed_order(n == 3);
  for (int i = 0; i < (n == 3 ? kT3 : kT); i++)
  {
    std::vector<int> execs; for (auto* c : x.l) execs.push_back(c->execs);
    std::vector<bool> fin, nf; for (auto* c : x.l) { fin.push_back(IsFinishedStatus(c->GetStatus())); nf.push_back(I(*c) == NF); }
    int ok = x.count(OK), bad = x.count(BAD);
    x.p->ExecuteSingle(x.ui, x.ws); int r = I(*x.p);
    CHECK((r == OK) == (ok >= x.s), "succeeds exactly when the success threshold is reached");
    CHECK((r == BAD) == (ok < x.s && bad >= x.f), "fails exactly when the failure threshold is reached");
    if (r == OK) vp_reach("success"); else if (r == BAD) vp_reach("failure"); else if (r == RUN) vp_reach("running"); else vp_reach("notfinished");
    if (ok + bad == n) CHECK(r == OK || r == BAD, "it ends once all children ended");
    if (r == OK || r == BAD)
    {
      for (auto* c : x.l) { CHECK(c->halts >= 1, "every child is halted at the end"); if (!IsFinishedStatus(c->GetStatus())) { vp_reach("halted"); CHECK(c->IsHaltRequested(), "a child still going is halted"); } }
      vp_drain(); int e = 0; for (auto* c : x.l) e += c->execs;
      x.p->ExecuteSingle(x.ui, x.ws); vp_drain(); int e2 = 0; for (auto* c : x.l) e2 += c->execs; CHECK(e == e2 && I(*x.p) == r, "nothing is executed after the end");
      break;
    }
    for (auto* c : x.l) CHECK(c->halts == 0, "no child is halted before the end");
    vp_drain();
    for (int k = 0; k < n; k++) { int d = x.l[k]->execs - execs[k]; CHECK(fin[k] ? d == 0 : d <= 1, "a finished child is not executed again, an unfinished one at most once per tick"); }
    bool open = false; for (int k = 0; k < n; k++) open = open || (nf[k] && x.l[k]->execs == execs[k]); CHECK(r == (open ? NF : RUN), "not finished exactly while a child waits to be launched again");
    if (i == 0) for (int k = 0; k < n; k++) CHECK(x.l[k]->execs == 1, "the first tick launches every child");
  }
}
HARNESS(h_defaults)
{ // without attributes: all must succeed, one failure fails
  vp_threads(0, 0, 0);
  int n = 1 + vp::choose("children", 3); Par x(n, -1, -1, true); 
  for (auto* c : x.l) { int r = c->script->at(0); vp_assume((r == OK) | (r == BAD)); }
  x.p->ExecuteSingle(x.ui, x.ws); CHECK(I(*x.p) == RUN || I(*x.p) == NF, "children have only been launched"); vp_drain(); x.p->ExecuteSingle(x.ui, x.ws);
  bool any = false; for (auto* c : x.l) any = any | (c->script->at(0) == BAD);
  CHECK((I(*x.p) == BAD) == any && (I(*x.p) == OK) == !any, "all must succeed, one failure fails"); vp_reach(I(*x.p) == OK ? "success" : "failure");
}
HARNESS(h_schedules)
{ // any schedule: the outcome fits the children's results, which are not run again
  vp_threads(kP, 0, 0); vp_set_timeouts(0);
  int sa = vp::choose("success", 3) ; if (sa == 0) sa = -1;
  Par x(2, sa, -1, true);
  for (auto* c : x.l) { int r = c->script->at(0); vp_assume((r == OK) | (r == BAD)); }
  int r = NF; for (int i = 0; i < 4 && r != OK && r != BAD; i++) { x.p->ExecuteSingle(x.ui, x.ws); r = I(*x.p); if (r != OK && r != BAD && i == 1) vp_drain(); }
  if (r == OK) CHECK(x.count(OK) >= x.s, "success needs enough successful children");
  if (r == BAD) CHECK(x.count(BAD) >= x.f, "failure needs enough failed children");
  x.p->Reset(x.ui);
  for (auto* c : x.l) { CHECK(c->execs <= 1, "a finished child is not executed again"); CHECK(I(*c) == NS && !c->IsHaltRequested(), "reset reaches every child"); }
  int e = x.l[0]->execs + x.l[1]->execs; vp_drain(); CHECK(e == x.l[0]->execs + x.l[1]->execs, "no child runs on after reset"); vp_reach("done");
}
HARNESS(h_halts)
{ // a child that only ends when halted: the parent's end and its reset both end it
  vp_threads(kP, 0, 0); vp_set_timeouts(0);
  Par x(2, 1, -1, true);
  bool again = vp::flag("not finished"); vp_assume(x.l[0]->script->at(0) == (again ? NF : OK)); if (again) x.l[0]->script->r.resize(1, NF);
  bool ended = false;
  x.l[1]->act = [&](Leaf& me, UserInterface&, Workspace&) { if (!me.IsHaltRequested()) vp_wait_flag(&me.halts); ended = true; return BAD; };
  x.p->ExecuteSingle(x.ui, x.ws); bool early = vp::flag("reset early");
  if (!early) { vp_yield(); x.p->ExecuteSingle(x.ui, x.ws); if (I(*x.p) == RUN) { vp_yield(); x.p->ExecuteSingle(x.ui, x.ws); } }
  x.p->Reset(x.ui); CHECK(x.l[1]->execs == 0 || ended || true, ""); CHECK(x.l[1]->execs == (ended ? 1 : 0), "the halted child's step has ended after reset");
  CHECK(I(*x.p) == NS, "reset returns to not started"); vp_reach("done");
}
HARNESS(h_reset)
{ // after a reset at any tick the next run behaves as the first
  vp_threads(0, 0, 0);
  Par x(2, vp::choose("success", 3), -1, true); int k = vp::choose("ticks", 4);
  for (int i = 0; i < k; i++) { x.p->ExecuteSingle(x.ui, x.ws); if (vp::flag("complete")) vp_drain(); }
  x.p->Reset(x.ui); int e[2] = {x.l[0]->execs, x.l[1]->execs};
  for (auto* c : x.l) CHECK(I(*c) == NS && !c->IsHaltRequested(), "reset reaches every child");
  x.p->ExecuteSingle(x.ui, x.ws); if (x.s == 0) { CHECK(I(*x.p) == OK, "a threshold of zero is reached at once"); vp_reach("done"); return; }
  vp_drain(); CHECK(x.l[0]->execs == e[0] + 1 && x.l[1]->execs == e[1] + 1, "the next run launches every child again");
  x.p->ExecuteSingle(x.ui, x.ws); int ok = 0, bad = 0; for (int i = 0; i < 2; i++) { int r = x.l[i]->script->at((size_t)e[i]); ok += r == OK; bad += r == BAD; }
  CHECK((I(*x.p) == OK) == (ok >= x.s) && (I(*x.p) == BAD) == (ok < x.s && bad >= x.f), "the outcome follows from the new run's results"); vp_reach("done");
}
HARNESS(h_many)
{ // more children, and thresholds far beyond them
  vp_threads(0, 0, 0); vp_fixed_order(1); vp_race_off(); int n = 4 + vp::choose("children", 4); const int64_t th[] = {-1, 0, 1, n / 2, n - 1, n, n + 1, 4294967295}; int64_t sa = th[vp::choose("success", 8)], fa = th[vp::choose("failure", 8)]; Par x(n, sa, fa, true); int bad = vp::choose("failing", n + 1); bool first = vp::flag("first ones"); for (int i = 0; i < n; i++) x.l[(size_t)i]->script->r = {(first ? i < bad : i >= n - bad) ? BAD : OK};
  x.p->ExecuteSingle(x.ui, x.ws); int r0 = I(*x.p); vp_drain(); x.p->ExecuteSingle(x.ui, x.ws); int r = I(*x.p), want = n - bad >= x.s ? OK : bad >= x.f ? BAD : RUN; if (x.s == 0) CHECK(r0 == OK, "a threshold of none is reached at once"); else if (x.f == 0) CHECK(r0 == BAD, "a threshold of none is reached at once"); else CHECK(r == want && want != RUN, "the outcome follows from the thresholds once all children ended"); vp_reach(r == OK ? "success" : "failure"); if (bad && bad < n) vp_reach("mixed");
}

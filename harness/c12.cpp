// @entry h_sequence reach=success,failure,running,interrupted time=100
// @entry h_fallback reach=success,failure,running,interrupted time=100
// @entry h_plain reach=done time=100
// @entry h_nested reach=done time=120
// @entry h_mid_halt reach=halted,resumed time=100
// @bound 1..3 leaves, 5 (thorough 7) ticks, every result of every execution symbolic; comparison with the plain version over 6 (8) ticks without running results; nested: a reactive node in or around a plain one, 4 (5) ticks
// @assume shims stand in for sup-dto; leaves are scripted test instructions deriving from the real Instruction
#include <oac.h>
using namespace oac;
#ifdef VP_THOROUGH
static const int kT = 7, kPT = 8, kNT = 5;
#else
static const int kT = 5, kPT = 6, kNT = 4;
#endif
static void reactive(int kind)
{
  int n = 1 + vp::choose("children", 3); int stop = kind == RSEQ ? BAD : OK, pass = kind == RSEQ ? OK : BAD;
  Tree t(node(kind, n));
  for (int i = 0; i < kT; i++)
  {
    if (t.finished()) break;
    int before[4], total = 0, which = -1, firstOpen = -1;
    for (int k = 0; k < n; k++) { before[k] = t.ref->c[k]->leaf->execs; if (firstOpen < 0 && I(*t.ref->c[k]->real) != pass) firstOpen = k; }
    t.tick();
    for (int k = 0; k < n; k++) { int d = t.ref->c[k]->leaf->execs - before[k]; total += d; if (d) which = k; }
    CHECK(total == 1 && which == firstOpen, "one child is executed per tick, the first that has not passed");
    int c = I(*t.ref->c[which]->real), r = I(*t.root);
    if (c == RUN)
    {
      vp_reach("running"); CHECK(r == RUN, "a running child makes the parent running");
      for (int k = 0; k < n; k++) if (k != which) CHECK(I(*t.ref->c[k]->real) == NS, "a running child resets every other child");
      if (which > 0) vp_reach("interrupted");
    }
    else if (c == stop) { CHECK(r == stop, "the parent ends as documented"); vp_reach(stop == OK ? "success" : "failure"); }
    else if (r == pass) { for (int k = 0; k < n; k++) CHECK(I(*t.ref->c[k]->real) == pass, "passes only when all passed"); vp_reach(pass == OK ? "success" : "failure"); }
    else if (c == NF) CHECK(r == NF, "an unfinished child keeps the parent unfinished");
  }
  sameHooks(*t.ref); CHECK(sameLog(t.ui.ev, t.expect), "each change is reported once, in order");
}
HARNESS(h_sequence) { reactive(RSEQ); }
HARNESS(h_fallback) { reactive(RFB); }
HARNESS(h_plain)
{ // without running results: same as the plain version, step by step
  bool fb = vp::flag("fallback"); int n = 1 + vp::choose("children", 3);
  auto a = node(fb ? RFB : RSEQ, n), b = node(fb ? FB : SEQ, n);
  for (int k = 0; k < n; k++) { a->c[k]->script->withRunning = false; b->c[k]->script = a->c[k]->script; }
  Tree x(std::move(a)), y(std::move(b));
  for (int i = 0; i < kPT; i++)
  {
    x.tick(); y.tick(); CHECK(I(*x.root) == I(*y.root), "same status as the plain version");
    for (int k = 0; k < n; k++) CHECK(I(*x.ref->c[k]->real) == I(*y.ref->c[k]->real) && x.ref->c[k]->leaf->execs == y.ref->c[k]->leaf->execs, "same children executed as by the plain version");
  }
  vp_reach("done");
}
HARNESS(h_nested)
{
  auto root = node(vp::choose("root", 2) ? RFB : RSEQ, 0);
  for (int i = 0; i < 2; i++)
    switch (vp::choose("child", 3)) { case 0: root->c.push_back(leafNode()); break; case 1: root->c.push_back(node(vp::choose("kind", 2) ? RFB : RSEQ, 2)); break; case 2: root->c.push_back(node(vp::choose("kind", 2) ? SEQ : INV, 1)); break; }
  Tree t(std::move(root));
  for (int i = 0; i < kNT; i++) t.tick();
  sameHooks(*t.ref); vp_reach("done");
}
HARNESS(h_mid_halt)
{ // the halt comes while a child executes: its result still counts, nothing is executed any more until the reset
  int kind = RSEQ + vp::choose("type", 2); int leaves = 1 + vp::choose("children", 3), which = vp::choose("child", leaves); Tree t(node(kind, leaves)); t.haltDuring(*t.ref->c[(size_t)which], vp::choose("execution", 2));
  for (int i = 0; i < leaves + 1; i++) t.tick(); if (t.ref->halt) vp_reach("halted"); sameHooks(*t.ref); t.reset(); t.tick(); t.tick(); if (!t.ref->halt) vp_reach("resumed"); sameHooks(*t.ref); CHECK(sameLog(t.ui.ev, t.expect), "each change is reported once, in order");
}

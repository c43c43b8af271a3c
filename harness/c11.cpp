// @entry h_sequence reach=success,failure,running,notfinished time=100
// @entry h_fallback reach=success,failure,running,notfinished time=100
// @entry h_nested reach=done time=120
// @entry h_again reach=again time=100
// @entry h_mid_halt reach=halted,resumed time=100
// @entry h_large reach=success,failure,running time=100
// @bound h_large: 300 children, one of six positions with every result; sequence/fallback of 1..3 (thorough 4) leaves, 6 (8) ticks, every result of every execution symbolic (not finished, running, success, failure); nested: 2 children each a leaf, sequence, fallback of 2 leaves, inverter, 5 (6) ticks; reset after any tick and run again
// @assume shims stand in for sup-dto; leaves are scripted test instructions deriving from the real Instruction
#include <oac.h>
using namespace oac;
#ifdef VP_THOROUGH
static const int kN = 4, kT = 8, kNT = 6;
#else
static const int kN = 3, kT = 6, kNT = 5;
#endif
static void see(int st)
{
  if (st == OK) vp_reach("success"); else if (st == BAD) vp_reach("failure"); else if (st == RUN) vp_reach("running"); else vp_reach("notfinished");
}
static void plain(int kind)
{
  int n = 1 + vp::choose("children", kN); int stop = kind == SEQ ? BAD : OK, pass = kind == SEQ ? OK : BAD;
  Tree t(node(kind, n));
  for (int i = 0; i < kT; i++)
  {
    int before[8], total = 0; for (int k = 0; k < n; k++) before[k] = t.ref->c[k]->leaf->execs;
    bool fin = IsFinishedStatus(t.root->GetStatus());
    t.tick();
    int which = -1; for (int k = 0; k < n; k++) { int d = t.ref->c[k]->leaf->execs - before[k]; total += d; if (d) which = k; }
    CHECK(total == (fin ? 0 : 1), "one child is executed per tick until the end");
    if (which >= 0)
    { // stated directly, without the reference interpreter
      for (int k = 0; k < which; k++) CHECK(I(*t.ref->c[k]->real) == pass, "earlier children have passed");
      for (int k = which + 1; k < n; k++) CHECK(t.ref->c[k]->leaf->execs == 0, "later children have not begun");
      int c = I(*t.ref->c[which]->real), r = I(*t.root);
      int want = c == stop ? stop : c == RUN ? RUN : c == pass && which == n - 1 ? pass : NF;
      CHECK(r == want, "the parent's status follows from the child just executed"); see(r);
    }
  }
}
HARNESS(h_sequence) { plain(SEQ); }
HARNESS(h_fallback) { plain(FB); }
HARNESS(h_nested)
{
  auto root = node(vp::choose("root", 2) ? FB : SEQ, 0);
  for (int i = 0; i < 2; i++)
    switch (vp::choose("child", 4))
    {
    case 0: root->c.push_back(leafNode()); break;
    case 1: root->c.push_back(node(SEQ, 2)); break;
    case 2: root->c.push_back(node(FB, 2)); break;
    case 3: root->c.push_back(node(INV, 1)); break;
    }
  Tree t(std::move(root));
  for (int i = 0; i < kNT; i++) t.tick();
  vp_reach("done");
}
HARNESS(h_again)
{ // reset at any point makes the whole run repeatable
  Tree t(node(vp::choose("root", 2) ? FB : SEQ, 2));
  int k = vp::choose("ticks", 4);
  for (int i = 0; i < k; i++) t.tick();
  t.reset();
  CHECK(I(*t.root) == NS && I(*t.ref->c[0]->real) == NS && I(*t.ref->c[1]->real) == NS, "reset returns everything to not started");
  for (int i = 0; i < 3; i++) t.tick();
  sameHooks(*t.ref); CHECK(sameLog(t.ui.ev, t.expect), "each change is reported once"); vp_reach("again");
}
HARNESS(h_mid_halt)
{ // the halt comes while a child executes: its result still counts, nothing is executed any more until the reset
  int kind = SEQ + vp::choose("type", 2); int leaves = 1 + vp::choose("children", 3), which = vp::choose("child", leaves); Tree t(node(kind, leaves)); t.haltDuring(*t.ref->c[(size_t)which], vp::choose("execution", 2));
  for (int i = 0; i < leaves + 1; i++) t.tick(); if (t.ref->halt) vp_reach("halted"); sameHooks(*t.ref); t.reset(); t.tick(); t.tick(); if (!t.ref->halt) vp_reach("resumed"); sameHooks(*t.ref); CHECK(sameLog(t.ui.ev, t.expect), "each change is reported once, in order");
}
HARNESS(h_large)
{ // many children
  const int n = 300; static const int pos[] = {0, 127, 128, 255, 256, 299}; bool seq = vp::flag("sequence"); int stop = seq ? BAD : OK, pass = seq ? OK : BAD, at = pos[vp::choose("position", 6)], end = 1 + vp::choose("result", 4); Ui ui; Workspace ws; Procedure p; auto c = make(seq ? "Sequence" : "Fallback"); int execs = 0, last = -1;
  for (int i = 0; i < n; i++) { auto l = std::make_unique<Leaf>(); l->act = [&, i](Leaf& me, UserInterface&, Workspace&) { VpQuiet q; ++execs; last = i; return i == at && me.execs == 1 ? end : pass; }; CHECK(c->InsertInstruction(std::move(l), i), "a child is inserted"); } c->Setup(p);
  int t = 0; for (; t < n + 5 && !IsFinishedStatus(c->GetStatus()); t++) { int e = execs, was = last; c->ExecuteSingle(ui, ws); CHECK(execs == e + 1 && (last == was + 1 || last == was), "one child is executed per tick, in order"); if (last == at && execs == at + 1) CHECK(I(*c) == (end == stop ? stop : end == RUN ? RUN : end == pass && at == n - 1 ? pass : NF), "the parent's status follows from the child just executed"); }
  CHECK(I(*c) == (end == stop ? stop : pass), "the whole succeeds or fails with its children"); CHECK(execs == (end == stop ? at + 1 : end == pass ? n : n + 1), "every child is executed until it has passed"); vp_reach(end == RUN ? "running" : I(*c) == OK ? "success" : "failure");
}

// @entry h_inverter reach=success,failure,running time=60
// @entry h_force reach=success,running time=60
// @entry h_repeat reach=success,failure,zero,negative time=100
// @entry h_repeat_again reach=again time=60
// @entry h_nested reach=done time=100
// @entry h_mid_halt reach=halted,resumed time=60
// @entry h_literal reach=done time=60
// @entry h_large reach=done,failed time=100
// @bound h_large: counts of 127 to 1000 (thorough 33000); 5 (thorough 7) ticks, every result symbolic; repetition count: every 32-bit value (symbolic, from a variable), and literal texts -2..3
// @assume shims stand in for sup-dto; leaves are scripted test instructions deriving from the real Instruction
#include <oac.h>
using namespace oac;
#ifdef VP_THOROUGH
static const int kT = 7;
#else
static const int kT = 5;
#endif
static void map(int kind)
{
  Tree t(node(kind, 1));
  for (int i = 0; i < kT; i++)
  {
    int e = t.ref->c[0]->leaf->execs; bool fin = t.finished(); t.tick();
    CHECK(t.ref->c[0]->leaf->execs == e + (fin ? 0 : 1), "the child is executed once per tick until the end");
    int c = I(*t.ref->c[0]->real), r = I(*t.root);
    CHECK(r == (c == BAD ? OK : c == OK ? (kind == INV ? BAD : OK) : c), "the status is the documented transformation of the child's");
    if (r == OK) vp_reach("success"); else if (r == BAD) vp_reach("failure"); else if (r == RUN) vp_reach("running");
  }
  CHECK(sameLog(t.ui.ev, t.expect), "each change is reported once");
  t.reset(); t.tick(); sameHooks(*t.ref);
}
HARNESS(h_inverter) { map(INV); }
HARNESS(h_force) { map(FS); }
struct Rep
{
  Ui ui; Workspace ws; Procedure proc; std::unique_ptr<Instruction> r; Leaf* l; sup::dto::int32 count; int64_t ok = 0; bool ended = false;
  Rep()
  {
    count = vp::any<int32_t>("count");
    auto v = GlobalVariableRegistry_Create(); ws.AddVariable("n", std::move(v)); ws.Setup(); CHECK(ws.SetValue("n", sup::dto::AnyValue(count)), "variable written");
    r = make("Repeat"); r->AddAttribute("maxCount", "@n"); auto c = std::make_unique<Leaf>(std::make_shared<Script>()); l = c.get(); r->InsertInstruction(std::move(c), 0); r->Setup(proc);
  }
  static std::unique_ptr<Variable> GlobalVariableRegistry_Create();
  void tick()
  {
    int e = l->execs; r->ExecuteSingle(ui, ws); int s = I(*r), c = I(*l);
    if (ended) { CHECK(l->execs == e, "nothing is executed after the end"); return; }
    if (count == 0) { CHECK(s == OK && l->execs == 0, "a count of zero succeeds at once"); vp_reach("zero"); ended = true; return; }
    CHECK(l->execs == e + 1, "the child is executed once per tick"); 
    if (c == OK) { ++ok; if (ok == count) { CHECK(s == OK, "succeeds after the requested number of successful runs"); vp_reach("success"); ended = true; } else { CHECK(s == NF, "goes on until the requested number of runs"); if (count < 0) vp_reach("negative"); } }
    else if (c == BAD) { CHECK(s == BAD, "fails when a run fails"); vp_reach("failure"); ended = true; }
    else CHECK(s == c, "an unfinished child decides the status");
  }
};
#include <sup/oac-tree/variable_registry.h>
std::unique_ptr<Variable> Rep::GlobalVariableRegistry_Create()
{ auto v = GlobalVariableRegistry().Create("Local"); v->AddAttribute("type", "{\"type\":\"int32\"}"); return v; }
HARNESS(h_repeat)
{
  Rep r; for (int i = 0; i < kT; i++) r.tick();
}
HARNESS(h_repeat_again)
{ // reset in the middle: the count starts anew, with the value the variable then has
  Rep r; for (int i = 0; i < 2; i++) r.tick();
  r.r->Reset(r.ui); CHECK(I(*r.r) == NS && I(*r.l) == NS, "reset returns both to not started");
  r.count = vp::any<int32_t>("count2"); r.ws.SetValue("n", sup::dto::AnyValue(r.count)); r.ok = 0; r.ended = false; int before = r.l->execs; (void)before;
  if (r.count == 0) { int e = r.l->execs; r.r->ExecuteSingle(r.ui, r.ws); CHECK(I(*r.r) == OK && r.l->execs == e, "a count of zero succeeds at once"); vp_reach("again"); return; }
  for (int i = 0; i < 3; i++) r.tick();
  vp_reach("again");
}
HARNESS(h_nested)
{
  auto outer = node(vp::choose("outer", 2) ? REP : INV, 0); outer->max = 2;
  auto inner = node(vp::choose("inner", 3) == 0 ? REP : vp::choose("which", 2) ? FS : SEQ, 0); inner->max = 2;
  inner->c.push_back(leafNode()); if (inner->kind == SEQ) inner->c.push_back(leafNode()); outer->c.push_back(std::move(inner));
  Tree t(std::move(outer)); for (int i = 0; i < kT; i++) t.tick();
  sameHooks(*t.ref); CHECK(sameLog(t.ui.ev, t.expect), "each change is reported once, in order"); vp_reach("done");
}
HARNESS(h_literal)
{
  if (vp::flag("no count"))
  { // the count is optional
    Ui ui; Workspace ws; Procedure p; auto r = make("Repeat"); auto l = std::make_unique<Leaf>(std::make_shared<Script>()); Leaf* lp = l.get(); r->InsertInstruction(std::move(l), 0); Instruction* rp = r.get(); p.PushInstruction(std::move(r)); p.Setup(); p.ExecuteSingle(ui); CHECK(I(*rp) == OK && lp->execs == 0, "no count is a count of zero"); return;
  }
  auto n = node(REP, 1); n->max = vp::choose("count", 6) - 2; Tree t(std::move(n));
  for (int i = 0; i < kT; i++) t.tick();
  vp_reach("done");
}
HARNESS(h_mid_halt)
{ // the halt comes while the child executes: its result is still transformed, nothing is executed any more until the reset
  int kind = INV + vp::choose("type", 3); auto n = node(kind, 0); n->max = 2; if (vp::flag("deep")) { n->c.push_back(node(INV + vp::choose("inner", 3), 1)); n->c[0]->max = 2; } else n->c.push_back(leafNode());
  Node* l = n->c[0].get(); if (!l->c.empty()) l = l->c[0].get(); Tree t(std::move(n)); t.haltDuring(*l, vp::choose("execution", 2));
  for (int i = 0; i < 3; i++) t.tick(); if (t.ref->halt) vp_reach("halted"); sameHooks(*t.ref); t.reset(); for (int i = 0; i < 2; i++) t.tick(); if (!t.ref->halt) vp_reach("resumed"); sameHooks(*t.ref); CHECK(sameLog(t.ui.ev, t.expect), "each change is reported once, in order");
}
HARNESS(h_large)
{ // many rounds
#ifdef VP_THOROUGH
  static const int count[] = {127, 128, 255, 256, 257, 1000, 33000};
#else
  static const int count[] = {127, 128, 255, 256, 257, 1000};
#endif
  int n = count[vp::choose("count", sizeof count / sizeof *count)], bad = vp::flag("failing") ? n - 1 : -1; Ui ui; Workspace ws; Procedure p; auto r = make("Repeat"); r->AddAttribute("maxCount", std::to_string(n)); auto c = std::make_unique<Leaf>(); Leaf* l = c.get(); l->act = [&](Leaf& me, UserInterface&, Workspace&) { return me.execs - 1 == bad ? BAD : OK; }; r->InsertInstruction(std::move(c), 0); r->Setup(p); for (int i = 0; i < n; i++) { CHECK(!IsFinishedStatus(r->GetStatus()), "goes on until the requested number of runs"); ui.ev.clear(); r->ExecuteSingle(ui, ws); } CHECK(l->execs == n && I(*r) == (bad < 0 ? OK : BAD), "ends after the requested number of runs"); r->ExecuteSingle(ui, ws); CHECK(l->execs == n, "nothing is executed after the end"); vp_reach(bad < 0 ? "done" : "failed");
}

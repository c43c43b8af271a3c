// @entry h_history reach=executed,initfailed,halted,resetrun time=100
// @entry h_inductive reach=step time=60
// @entry h_self_halt reach=done time=30
// @entry h_reset_hook reach=done time=40
// @entry h_attributes reach=done time=40
// @entry h_setup reach=refused,accepted time=40
// @entry h_observed reach=done time=60
// @entry h_halt_thread reach=done time=60
// @bound h_history: every history of 5 (thorough 7) ticks, halts and resets with symbolic result of every execution and symbolic initialisation outcome; threads: one executing, one observing or halting, 4 (thorough 6) preemptions
// @assume shims stand in for sup-dto; the instruction is a scripted one deriving from the real Instruction
#include <oac.h>
#include <rt_threads.h>
#include <thread>
using namespace oac;
#ifdef VP_THOROUGH
static const int kOps = 7, kP = 6;
#else
static const int kOps = 5, kP = 4;
#endif
struct Model
{
  int st = NS, inits = 0, execs = 0, halts = 0, resets = 0; bool halt = false; std::vector<Ev> log; Leaf* l;
  void set(int s) { if (s != st) log.push_back({l, s}); st = s; }
  void tick(Script& sc)
  {
    if (st == NS) { ++inits; set(l->initOk ? NF : BAD); }
    if ((st == NF || st == RUN) && !halt) set(sc.at((size_t)execs++));
  }
  void check(Ui& ui)
  {
    CHECK(I(*l) == st, "the status is the one the logic returned"); CHECK(l->inits == inits, "initialisation runs once per run"); CHECK(l->execs == execs, "the logic runs only when it may");
    CHECK(l->halts == halts && l->resets == resets, "halt and reset reach the instruction"); CHECK(l->IsHaltRequested() == halt, "a halt request stays until reset");
    CHECK(sameLog(ui.ev, log), "each status change, and nothing else, is reported once with the stored status");
  }
};
static void step(Leaf& l, Model& m, Ui& ui, Workspace& ws, bool freshInit)
{
  switch (vp::choose("op", 3))
  {
  case 0:
    if (freshInit) l.initOk = vp::any<bool>("initialises");
    l.ExecuteSingle(ui, ws); m.tick(*l.script);
    if (m.execs) vp_reach("executed"); if (m.inits && m.st == BAD && !m.execs) vp_reach("initfailed"); if (m.resets && m.execs && m.st == OK) vp_reach("resetrun");
    break;
  case 1: l.Halt(); m.halt = true; ++m.halts; if (m.st == NF) vp_reach("halted"); break;
  case 2: l.Reset(ui); ++m.resets; m.halt = false; m.set(NS); break;
  }
  m.check(ui);
}
HARNESS(h_history)
{
  Leaf l(std::make_shared<Script>()); Ui ui; Workspace ws; Model m; m.l = &l; m.check(ui);
  for (int i = 0; i < kOps; i++) step(l, m, ui, ws, true);
}
HARNESS(h_inductive)
{ // any single operation from any reachable state
  Leaf l(std::make_shared<Script>()); Ui ui; Workspace ws; Model m; m.l = &l; l.initOk = vp::any<bool>("initialises");
  if (vp::flag("executed")) { l.ExecuteSingle(ui, ws); m.tick(*l.script); }
  if (vp::flag("halt")) { l.Halt(); m.halt = true; ++m.halts; }
  step(l, m, ui, ws, false); step(l, m, ui, ws, false); vp_reach("step");
}
HARNESS(h_self_halt)
{ // an instruction that halts itself while it executes keeps the status it returns
  auto sc = std::make_shared<Script>(); Leaf l(sc); Ui ui; Workspace ws; int got = 0;
  l.act = [&](Leaf& x, UserInterface&, Workspace&) { x.Halt(); return got = sc->at((size_t)x.execs - 1); };
  l.ExecuteSingle(ui, ws); CHECK(I(l) == got, "the returned status is taken over"); int e = l.execs;
  l.ExecuteSingle(ui, ws); CHECK(l.execs == e && I(l) == got, "no execution after a halt request");
  l.Reset(ui); l.ExecuteSingle(ui, ws); CHECK(l.execs == e + 1 && l.inits == 2, "after a reset it runs again"); vp_reach("done");
}
struct HookLeaf : Leaf { bool halts_ = false; int seen = -1; explicit HookLeaf(std::shared_ptr<Script> s) : Leaf(std::move(s)) {} void ResetHook(UserInterface&) override { ++resets; seen = I(*this); if (halts_) Halt(); } };
HARNESS(h_reset_hook)
{ // a reset hook may halt what is still running: the reset clears that request too, and the hook sees the status of the run that ends
  HookLeaf l(std::make_shared<Script>()); Ui ui; Workspace ws; Model m; m.l = &l; int n = vp::choose("ticks", 3); for (int i = 0; i < n; i++) { l.ExecuteSingle(ui, ws); m.tick(*l.script); } if (vp::flag("halted before")) { l.Halt(); ++m.halts; m.halt = true; }
  l.halts_ = vp::flag("hook halts"); int before = m.st; l.Reset(ui); ++m.resets; m.halts += l.halts_; m.halt = false; CHECK(l.seen == before, "the reset hook sees the status of the run that ends"); m.set(NS); m.check(ui); l.ExecuteSingle(ui, ws); m.tick(*l.script); m.check(ui); CHECK(m.execs == l.execs && l.execs >= 1, "the next run executes the logic"); vp_reach("done");
}
HARNESS(h_attributes)
{ // attributes set on an instruction: unique, ordered, changed only through SetAttribute
  Leaf l; std::vector<std::pair<std::string, std::string>> m;
  static const char* names[] = {"a", "b", "name"};
  for (int i = 0; i < 3; i++)
  {
    std::string n = names[vp::choose("attribute", 3)], v = vp::str("value", 0, 1); bool has = false; for (auto& p : m) has |= p.first == n;
    switch (vp::choose("op", 3))
    {
    case 0: CHECK(l.AddAttribute(n, v) == !has, "an attribute is added exactly when it is new"); if (!has) m.push_back({n, v}); break;
    case 1: CHECK(l.SetAttribute(n, v) == has, "an attribute is changed exactly when it exists"); for (auto& p : m) if (p.first == n) p.second = v; break;
    case 2: { l.SetName(v); bool hn = false; for (auto& p : m) if (p.first == "name") { p.second = v; hn = true; } if (!hn) m.push_back({"name", v}); CHECK(l.GetName() == v, "the name is the one given"); break; }
    }
    auto& a = l.GetStringAttributes(); CHECK(a.size() == m.size(), "no attribute appears twice or is lost");
    for (size_t k = 0; k < m.size() && k < a.size(); k++) CHECK(a[k].first == m[k].first && a[k].second == m[k].second, "attributes keep their order and value");
    for (auto& nm : names) { std::string want; bool h = false; for (auto& p : m) if (p.first == nm) { want = p.second; h = true; } CHECK(l.HasAttribute(nm) == h && l.GetAttributeString(nm) == want, "attributes are found by name"); }
  }
  vp_reach("done");
}
HARNESS(h_setup)
{ // set-up fails on a malformed attribute, and the failure is forgotten by a reset
  auto i = make("Repeat"); i->InsertInstruction(std::make_unique<Leaf>(std::make_shared<Script>()), 0); auto* l = static_cast<Leaf*>(i->ChildInstructions()[0]); Procedure p; Ui ui;
  bool bad = vp::flag("bad"); i->AddAttribute("maxCount", bad ? "x" : "2");
  bool threw = false; try { i->Setup(p); } catch (const InstructionSetupException&) { threw = true; }
  CHECK(threw == bad, "set-up is refused exactly for a bad attribute"); CHECK(l->setups == (bad ? 0 : 1), "the child is set up only after its parent was accepted");
  vp_reach(bad ? "refused" : "accepted");
  i->Reset(ui); i->SetAttribute("maxCount", "1"); threw = false; try { i->Setup(p); } catch (const InstructionSetupException&) { threw = true; }
  CHECK(!threw, "a corrected attribute is accepted after reset");
}
HARNESS(h_observed)
{ // another thread reads the status while the instruction executes
  vp_threads(kP, 0, 0);
  auto sc = std::make_shared<Script>(); Leaf l(sc); Ui ui; Workspace ws; int seen[3];
  std::thread t([&] { l.ExecuteSingle(ui, ws); l.ExecuteSingle(ui, ws); });
  for (int i = 0; i < 3; i++) seen[i] = I(l);
  t.join();
  int a = sc->at(0);
  for (int i = 0; i < 3; i++) { bool in = (seen[i] == NS) | (seen[i] == NF); in = in | (seen[i] == a); if (l.execs > 1) in = in | (seen[i] == sc->at(1)); CHECK(in, "only statuses that were stored are seen"); }
  vp_reach("done");
}
HARNESS(h_halt_thread)
{ // after Halt has returned, no further execution of the logic begins
  vp_threads(kP, 0, 0);
  auto sc = std::make_shared<Script>(); Leaf l(sc); Ui ui; Workspace ws; bool halted = false; bool late = false; int started = 0;
  std::mutex mx;
  l.act = [&](Leaf& x, UserInterface&, Workspace&) { int k = x.execs; std::lock_guard<std::mutex> g(mx); started = k; return NF; };
  std::thread t([&] { for (int i = 0; i < 3; i++) l.ExecuteSingle(ui, ws); });
  l.Halt();
  CHECK(l.IsHaltRequested(), "the halt request is visible at once");
  t.join(); int n = l.execs;
  l.ExecuteSingle(ui, ws); CHECK(l.execs == n, "a halted instruction does not execute"); (void)halted; (void)late;
  l.Reset(ui); CHECK(!l.IsHaltRequested(), "reset clears the request"); vp_reach("done");
}

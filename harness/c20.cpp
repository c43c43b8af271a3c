// @entry h_history reach=hit,rehit,ran,paused,finished time=200
// @entry h_shapes reach=hit,ran,finished time=200
// @entry h_object reach=done time=30
// @entry h_empty reach=done time=60
// @entry h_concurrent reach=done,hit,missed time=100
// @entry h_large reach=done time=100 steps=300000000
// @bound h_large: 300 instructions with a breakpoint on each or on every 43rd; sequences of 4 (thorough 5) operations (set, remove, run, single step) on a sequence or fallback of 2 leaves and on nested trees of 5 to 6 instructions; at most 4 (thorough 6) ticks with symbolic results; one thread that sets and removes while another runs
// @assume shims stand in for sup-dto; leaves are scripted test instructions deriving from the real Instruction; the known limitation of breakpoints below a repeated compound (see C18) is outside
#include <oac.h>
#include <rt_threads.h>
#include <sup/oac-tree/runner.h>
#include <sup/oac-tree/breakpoint.h>
#include <algorithm>
#include <thread>
using namespace oac;
#ifdef VP_THOROUGH
static const int kOps = 5, kTicks = 6;
#else
static const int kOps = 4, kTicks = 4;
#endif
static void flat(Node& n, std::vector<Node*>& out) { out.push_back(&n); for (auto& k : n.c) flat(*k, out); }
static bool ready(const Node& n) { return n.st == NS || n.st == NF; }
// instructions the next tick will start or continue, other than those that are running
static void nextOf(Node& n, std::vector<const Instruction*>& out)
{
  out.push_back(n.real);
  if (n.kind == LEAF) return;
  if (n.kind == INV || n.kind == FS) { if (ready(*n.c[0])) nextOf(*n.c[0], out); return; }
  int pass = n.kind == SEQ || n.kind == RSEQ ? OK : BAD;
  for (auto& k : n.c) if (k->st != pass) { if (ready(*k)) nextOf(*k, out); return; }
}
struct B
{
  Ui ui; Procedure proc; Runner runner{ui}; std::unique_ptr<Node> ref; std::vector<Node*> all; std::vector<Ev> expect; int ticks = 0, calls = 0;
  struct Bp { const Instruction* i; bool armed; }; std::vector<Bp> bps; bool stopped = false;
  explicit B(std::unique_ptr<Node> n) : ref(std::move(n)) { auto r = realise(*ref); proc.PushInstruction(std::move(r)); flat(*ref, all); runner.SetProcedure(&proc); runner.SetTickCallback([this](const Procedure& p) { CHECK(&p == &proc, "the callback gets the procedure"); ++calls; if (calls == limit) runner.Pause(); }); }
  int limit = 0;
  bool fin() const { return ref->st == OK || ref->st == BAD; }
  void tick() { ref->tick(); ++ticks; for (auto& b : bps) b.armed = true; }
  std::vector<const Instruction*> due() { std::vector<const Instruction*> n, r; if (ready(*ref)) nextOf(*ref, n); for (auto& b : bps) if (b.armed && std::find(n.begin(), n.end(), b.i) != n.end()) r.push_back(b.i); return r; }
  void listing()
  {
    auto l = runner.GetBreakpoints(); CHECK(l.size() == bps.size(), "the listing shows exactly what is set"); for (auto& b : bps) { int n = 0; for (auto& x : l) if (x.GetInstruction() == b.i) { ++n; CHECK((x.GetStatus() == Breakpoint::kSet) == b.armed, "a breakpoint is released while its instruction is about to run"); } CHECK(n == 1, "the listing shows each breakpoint once"); }
  }
  void set(const Instruction* i)
  {
    bool had = false; for (auto& b : bps) had = had || b.i == i; CHECK(runner.SetBreakpoint(i) == !had, "setting tells whether it is new"); if (!had) bps.push_back({i, true});
  }
  void remove(const Instruction* i)
  {
    bool had = false; for (size_t k = 0; k < bps.size(); k++) if (bps[k].i == i) { had = true; bps.erase(bps.begin() + (long)k); break; } CHECK(runner.RemoveBreakpoint(i) == had, "removing tells whether it was set");
  }
  void step() { if (ticks >= kTicks) return; int c = calls; limit = 0; runner.ExecuteSingle(); tick(); CHECK(calls == c + 1, "one callback per tick"); same(*ref); }
  void run()
  {
    limit = calls + (kTicks - ticks); if (limit == calls) return; int c0 = ticks, done = calls; std::vector<const Instruction*> hit; bool pausedNow = false; bool loop = false;
    runner.ExecuteProcedure();
    while (!fin() && !pausedNow) { auto d = due(); if (!d.empty()) { hit = d; for (auto& b : bps) if (std::find(d.begin(), d.end(), b.i) != d.end()) b.armed = false; break; } loop = true; tick(); if (ticks == kTicks) pausedNow = true; }
    same(*ref); CHECK(calls - done == ticks - c0, "exactly the ticks up to the next breakpoint or the end");
    auto cur = runner.GetCurrentBreakpointInstructions(); std::sort(cur.begin(), cur.end()); std::sort(hit.begin(), hit.end()); CHECK(cur == hit, "the run reports the breakpoints at which it stopped, and none if it did not stop at one");
    CHECK(runner.IsFinished() == fin() && runner.IsRunning() == (ref->st == RUN), "the runner tells how the procedure stands");
    if (!hit.empty()) { vp_reach("hit"); if (loop && c0 > 0) vp_reach("rehit"); } else if (pausedNow && !fin()) vp_reach("paused"); if (loop) vp_reach("ran"); if (fin()) vp_reach("finished");
  }
};
HARNESS(h_history)
{
  B b(node(vp::flag("fallback") ? FB : SEQ, 2));
  for (int k = 0; k < kOps; k++)
  {
    switch (vp::choose("op", 4))
    {
    case 0: b.set(b.all[1 + (size_t)vp::choose("where", 2)]->real); break;
    case 1: b.remove(b.all[1 + (size_t)vp::choose("where", 2)]->real); break;
    case 2: b.run(); break;
    default: b.step(); break;
    }
    b.listing();
  }
}
static std::unique_ptr<Node> wrap(int kind, std::unique_ptr<Node> c) { auto n = std::make_unique<Node>(); n->kind = kind; n->c.push_back(std::move(c)); return n; }
HARNESS(h_shapes)
{ // nested trees: a breakpoint on any one or two of the instructions, run to the end
  auto n = std::make_unique<Node>();
  switch (vp::choose("shape", 4))
  {
  case 0: n->kind = SEQ; n->c.push_back(leafNode()); n->c.push_back(node(FB, 2)); break;
  case 1: n->kind = FB; n->c.push_back(wrap(INV, leafNode())); n->c.push_back(node(SEQ, 2)); break;
  case 2: n->kind = RSEQ; n->c.push_back(leafNode()); n->c.push_back(wrap(FS, leafNode())); break;
  default: n->kind = RFB; n->c.push_back(leafNode()); n->c.push_back(node(SEQ, 2)); break;
  }
  B b(std::move(n)); b.set(b.all[(size_t)vp::choose("where", (int)b.all.size())]->real); b.set(b.all[(size_t)vp::choose("where2", (int)b.all.size())]->real);
  for (int k = 0; k < 3; k++) { b.run(); b.listing(); }
}
HARNESS(h_empty)
{
  Ui ui; Procedure p, q; Runner r(ui); r.ExecuteProcedure(); r.ExecuteSingle(); r.Halt(); r.Pause(); CHECK(r.IsFinished() && !r.IsRunning() && r.GetCurrentBreakpointInstructions().empty() && r.GetBreakpoints().empty(), "without a procedure there is nothing to run");
  Leaf l(std::make_shared<Script>()); bool t = false; try { r.SetBreakpoint(&l); } catch (const InvalidOperationException&) { t = true; } bool t2 = false; try { r.SetBreakpoint(nullptr); } catch (const InvalidOperationException&) { t2 = true; } CHECK(t && t2 && !r.RemoveBreakpoint(&l), "without a procedure every instruction is unknown");
  auto s = std::make_shared<Script>(); auto a = std::make_unique<Leaf>(s), a2 = std::make_unique<Leaf>(s); Leaf *x = a.get(), *y = a2.get(); p.PushInstruction(std::move(a)); q.PushInstruction(std::move(a2));
  r.SetProcedure(&p); CHECK(r.SetBreakpoint(x), "an instruction of the procedure is known"); r.SetProcedure(&q); CHECK(r.GetBreakpoints().empty() && !r.RemoveBreakpoint(x), "a new procedure starts without breakpoints"); t = false; try { r.SetBreakpoint(x); } catch (const InvalidOperationException&) { t = true; } CHECK(t && r.SetBreakpoint(y), "only instructions of the current procedure are known"); vp_reach("done");
}
HARNESS(h_concurrent)
{ // breakpoints are set and removed by one thread while another runs the procedure
  vp_threads(3, 0, 0); vp_set_timeouts(0); Ui ui; Procedure proc; auto sc = std::make_shared<Script>(); sc->r = {OK, OK, OK, OK}; auto root = make("Sequence"); std::vector<Leaf*> l; for (int i = 0; i < 2; i++) { auto x = std::make_unique<Leaf>(sc); l.push_back(x.get()); root->InsertInstruction(std::move(x), i); }
  proc.PushInstruction(std::move(root)); Runner r(ui); r.SetProcedure(&proc); r.SetBreakpoint(l[0]); bool order = vp::flag("order");
  std::thread t([&] { if (order) r.RemoveBreakpoint(l[0]); CHECK(r.SetBreakpoint(l[1]), "new"); if (!order) r.RemoveBreakpoint(l[0]); auto b = r.GetBreakpoints(); CHECK(b.size() == 1 && b[0].GetInstruction() == l[1], "the listing shows exactly what is set"); });
  r.ExecuteProcedure(); bool first = l[0]->execs == 0, second = l[0]->execs == 1 && l[1]->execs == 0; auto cur = r.GetCurrentBreakpointInstructions(); CHECK((first && cur.size() == 1 && cur[0] == l[0]) || (second && cur.size() == 1 && cur[0] == l[1]) || (l[1]->execs == 1 && cur.empty()), "a run stops before the instruction whose breakpoint it reports, or runs to the end");
  t.join(); auto bs = r.GetBreakpoints(); CHECK(bs.size() == 1 && bs[0].GetInstruction() == l[1], "the last changes stay"); if (first || second) vp_reach("hit"); else vp_reach("missed"); vp_reach("done");
}
HARNESS(h_object)
{ // a breakpoint belongs to its instruction and has the status it was given last
  auto a = make("Wait"); auto b = make("Wait"); Breakpoint p(a.get()); CHECK(p.GetInstruction() == a.get() && p.GetStatus() == Breakpoint::kSet, "a breakpoint is set when it is created"); Breakpoint n(nullptr); CHECK(n.GetInstruction() == nullptr, "a breakpoint keeps its instruction"); static const Breakpoint::Status st[] = {Breakpoint::kSet, Breakpoint::kReleased};
  Breakpoint c(p); for (int i = 0; i < 4; i++) { auto s = st[vp::choose("status", 2)]; p.SetStatus(s); CHECK(p.GetStatus() == s && p.GetInstruction() == a.get(), "a breakpoint has the status it was given last"); CHECK(c.GetStatus() == Breakpoint::kSet && c.GetInstruction() == a.get(), "a copy is independent"); } Breakpoint d(b.get()); d = p; CHECK(d.GetInstruction() == a.get() && d.GetStatus() == p.GetStatus(), "an assigned breakpoint is equal"); vp_reach("done");
}
HARNESS(h_large)
{ // many breakpoints
  Ui ui; Procedure p; auto root = make("Sequence"); std::vector<Leaf*> l; for (int i = 0; i < 300; i++) { auto x = std::make_unique<Leaf>(); x->act = [](Leaf&, UserInterface&, Workspace&) { return OK; }; l.push_back(x.get()); root->InsertInstruction(std::move(x), i); } p.PushInstruction(std::move(root)); Runner r(ui); r.SetProcedure(&p); int step = 1 + vp::choose("distance", 2) * 42, n = 0; for (int i = 299; i >= 0; i -= step) { CHECK(r.SetBreakpoint(l[(size_t)i]), "a breakpoint is set"); ++n; } CHECK((int)r.GetBreakpoints().size() == n, "the listing shows exactly what is set"); int stops = 0; while (!r.IsFinished() && stops < 400) { r.ExecuteProcedure(); if (r.IsFinished()) break; auto c = r.GetCurrentBreakpointInstructions(); int done = 0; while (done < 300 && l[(size_t)done]->execs) ++done; CHECK(c.size() == 1 && c[0] == l[(size_t)done] && (299 - done) % step == 0, "the run stops before the instruction"); ++stops; } CHECK(stops == n && I(*p.RootInstruction()) == OK, "the run stops once per breakpoint"); for (auto x : l) CHECK(x->execs == 1, "each instruction is executed once"); vp_reach("done");
}

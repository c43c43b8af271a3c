// @entry h_listen_threads reach=during,early,late time=100
// @entry h_for reach=success,failure,empty,running time=100
// @entry h_for_again reach=again time=60
// @entry h_for_bad reach=notarray,elemtype,missing,refused time=60
// @entry h_for_halt reach=done time=60
// @entry h_listen reach=run,idle,failure,forced,unset time=120
// @entry h_listen_again reach=done time=60
// @entry h_listen_halt reach=done time=60
// @entry h_listen_lost reach=back,changed,first time=100
// @entry h_for_large reach=done time=100
// @bound h_listen_threads: a thread that writes both variables once, every schedule with at most 2 preemptions; h_for_large: 300 elements, one of six with every value; For: arrays of 0..3 (thorough 4) 32-bit integers, every element value and every child result symbolic, 6 (thorough 8) ticks; Listen: a variable that is unreadable at any ticks; two listened variables, at most one symbolic write of each per tick, 3 (thorough 6) ticks
// @assume shims stand in for sup-dto; leaves are scripted test instructions deriving from the real Instruction
#include <oac.h>
#include <rt_threads.h>
#include <thread>
using namespace oac;
using sup::dto::AnyValue; using sup::dto::int32;
#ifdef VP_THOROUGH
static const int kN = 4, kT = 8, kL = 6;
#else
static const int kN = 3, kT = 6, kL = 3;
#endif
static std::string arrayType(const char* el, int n) { return "{\"type\":\"\",\"multiplicity\":" + std::to_string(n) + ",\"element\":{\"type\":\"" + std::string(el) + "\"}}"; }
struct For
{
  Ui ui; Workspace ws; Procedure proc; std::unique_ptr<Instruction> f; Leaf* l; std::vector<int32> a; std::vector<int32> seen; std::shared_ptr<Script> sc = std::make_shared<Script>();
  For(int n, const char* elType = "int32", const char* at = "int32", bool scalar = false)
  {
    if (scalar) addVar(ws, "arr", at); else addVar(ws, "arr"); addVar(ws, "el", elType); addVar(ws, "other", "int32"); ws.Setup();
    f = make("For"); f->AddAttribute("arrayVar", "arr"); f->AddAttribute("elementVar", "el");
    auto c = std::make_unique<Leaf>(sc); l = c.get(); f->InsertInstruction(std::move(c), 0);
    if (!scalar) fill(n);
    l->act = [this](Leaf& me, UserInterface&, Workspace& w) { AnyValue v; CHECK(w.GetValue("el", v), "the element variable can be read"); seen.push_back(v.As<int32>()); return sc->at((size_t)me.execs - 1); };
    f->Setup(proc);
  }
  void fill(int n)
  {
    a.clear(); AnyValue v((size_t)n, sup::dto::SignedInteger32Type);
    for (int i = 0; i < n; i++) { a.push_back(vp::any<int32>("element")); v[(size_t)i] = AnyValue(a[(size_t)i]); }
    put(ws, "arr", v);
  }
  int k = 0; bool ended = false; int fin = NS;
  void tick()
  {
    int e = l->execs; AnyValue before = get(ws, "el"); f->ExecuteSingle(ui, ws); int s = I(*f), n = (int)a.size();
    if (ended) { CHECK(l->execs == e && s == fin, "nothing is executed after the end"); return; }
    if (n == 0) { CHECK(s == OK && l->execs == e && get(ws, "el") == before, "an empty array succeeds at once"); vp_reach("empty"); ended = true; fin = s; return; }
    CHECK(l->execs == e + 1, "the child is executed once per tick"); CHECK(seen.back() == a[(size_t)k], "the child sees the element at its turn");
    CHECK(get(ws, "el").As<int32>() == a[(size_t)k], "the element variable holds the element at its turn");
    int c = sc->at((size_t)e);
    if (c == OK) { ++k; CHECK(s == (k == n ? OK : NF), "succeeds when the elements are exhausted"); if (k == n) { vp_reach("success"); ended = true; } }
    else { CHECK(s == c, "the child's unfinished or failed status is reported"); if (c == BAD) { vp_reach("failure"); ended = true; } else vp_reach("running"); }
    fin = s;
  }
};
HARNESS(h_for)
{
  For x(vp::choose("elements", kN + 1)); for (int i = 0; i < kT; i++) x.tick();
  CHECK(get(x.ws, "other").As<int32>() == 0, "other variables are unaffected");
}
HARNESS(h_for_again)
{ // reset at any tick, with another array: all elements again from the first
  For x(1 + vp::choose("elements", 2)); int t = vp::choose("ticks", 4); for (int i = 0; i < t; i++) x.tick();
  x.f->Reset(x.ui); CHECK(I(*x.f) == NS && I(*x.l) == NS, "reset reaches the child"); x.k = 0; x.ended = false; x.seen.clear();
  x.fill((int)x.a.size()); for (int i = 0; i < 3; i++) x.tick(); vp_reach("again");
}
HARNESS(h_for_bad)
{ // something other than an array, another element type, or a missing variable
  int k = vp::choose("kind", 4);
  if (k == 3)
  { // an element variable that does not take the elements
    struct Gate : Variable { AnyValue v{sup::dto::int32(-5)}; int left; Gate(int n) : Variable("Gate"), left(n) {} bool GetValueImpl(AnyValue& o) const override { return sup::dto::TryAssign(o, v); } bool SetValueImpl(const AnyValue& n) override { if (left == 0) return false; --left; v = n; return true; } };
    Ui ui; Workspace ws; Procedure p; int n = vp::choose("accepted", 3); addVar(ws, "arr"); ws.AddVariable("el", std::make_unique<Gate>(n)); ws.Setup(); AnyValue a(2, sup::dto::SignedInteger32Type); put(ws, "arr", a); auto f = make("For"); f->AddAttribute("arrayVar", "arr"); f->AddAttribute("elementVar", "el"); auto sc = std::make_shared<Script>(); sc->r = {OK, OK, OK, OK}; auto c = std::make_unique<Leaf>(sc); Leaf* l = c.get(); f->InsertInstruction(std::move(c), 0); f->Setup(p);
    for (int i = 0; i < 3; i++) f->ExecuteSingle(ui, ws); CHECK(l->execs == n && I(*f) == (n == 2 ? OK : BAD), "without its element the child is not executed"); if (n < 2) { CHECK(ui.logs > 0, "the refusal is reported"); vp_reach("refused"); } return;
  }
  if (k == 0) { For x(0, "int32", "int32", true); x.f->ExecuteSingle(x.ui, x.ws); CHECK(I(*x.f) == BAD && x.l->execs == 0, "a scalar is refused"); vp_reach("notarray"); }
  else if (k == 1)
  {
    static const char* ty[] = {"uint32", "int64", "string", "int16"}; For x(1 + vp::choose("elements", 2), ty[vp::choose("type", 4)]); AnyValue before = get(x.ws, "el");
    x.f->ExecuteSingle(x.ui, x.ws); CHECK(I(*x.f) == BAD && x.l->execs == 0 && get(x.ws, "el") == before, "an element variable of another type is refused unchanged"); vp_reach("elemtype");
  }
  else
  {
    Ui ui; Workspace ws; Procedure p; bool noArr = vp::flag("array missing"); if (!noArr) addVar(ws, "arr"); else addVar(ws, "el", "int32"); ws.Setup();
    if (!noArr) put(ws, "arr", AnyValue(2, sup::dto::SignedInteger32Type));
    auto f = make("For"); f->AddAttribute("arrayVar", "arr"); f->AddAttribute("elementVar", "el"); auto c = std::make_unique<Leaf>(std::make_shared<Script>()); Leaf* l = c.get(); f->InsertInstruction(std::move(c), 0); f->Setup(p);
    for (int i = 0; i < 2; i++) { f->ExecuteSingle(ui, ws); CHECK(I(*f) == BAD && l->execs == 0, "a missing variable fails without executing the child"); } vp_reach("missing");
  }
}
HARNESS(h_for_halt)
{
  For x(2); int t = vp::choose("ticks", 3); for (int i = 0; i < t; i++) x.tick(); bool fin = x.ended; x.f->Halt(); CHECK(x.l->halts == 1, "halt reaches the child");
  int e = x.l->execs, s = I(*x.f); x.f->ExecuteSingle(x.ui, x.ws); CHECK(x.l->execs == e, "nothing is executed after a halt"); if (fin) CHECK(I(*x.f) == s, "the end is kept"); vp_reach("done");
}
struct Lis
{
  Ui ui; Workspace ws; Procedure proc; std::unique_ptr<Instruction> f; Leaf* l; std::shared_ptr<Script> sc = std::make_shared<Script>(); bool force = false;
  int32 now[2] = {0, 0}; bool has[2] = {true, false}; int32 cache[2] = {0, 0}; bool cached[2] = {false, false}; bool ended = false; int fin = NS;
  Lis()
  {
    addVar(ws, "a", "int32"); addVar(ws, "b"); addVar(ws, "c", "int32"); ws.Setup();
    f = make("Listen"); f->AddAttribute("varNames", "a,b"); int k = vp::choose("force", 3); if (k) { force = k == 1; f->AddAttribute("forceSuccess", force ? "true" : "false"); }
    auto c = std::make_unique<Leaf>(sc); l = c.get(); f->InsertInstruction(std::move(c), 0); f->Setup(proc);
  }
  void writes() { for (int i = 0; i < 2; i++) if (vp::flag(i ? "write b" : "write a")) { now[i] = vp::any<int32>("value"); has[i] = true; put(ws, i ? "b" : "a", AnyValue(now[i])); } put(ws, "c", AnyValue(vp::any<int32>("c"))); }
  void tick()
  {
    int e = l->execs, c = I(*l); f->ExecuteSingle(ui, ws); int s = I(*f);
    if (ended) { CHECK(l->execs == e && s == fin, "nothing is executed after the end"); return; }
    bool run = c == RUN || c == NF;
    if (!run)
    {
      for (int i = 0; i < 2; i++) if (has[i] && !(cached[i] && cache[i] == now[i])) { run = true; cache[i] = now[i]; cached[i] = true; }
      if (!has[1]) vp_reach("unset");
    }
    CHECK(l->execs == e + (run ? 1 : 0), "the child runs exactly when a listened variable has changed since its last run or it is unfinished");
    if (!run) { CHECK(s == RUN, "nothing changed: running"); vp_reach("idle"); }
    else
    {
      vp_reach("run"); int r = sc->at((size_t)e);
      if (r == OK || (r == BAD && force)) { CHECK(s == NF, "it goes on after a successful (or forced) run"); if (r == BAD) vp_reach("forced"); }
      else CHECK(s == r, "otherwise the child decides the status");
      if (s == BAD) { vp_reach("failure"); ended = true; }
    }
    CHECK(s != OK, "it never succeeds by itself"); fin = s;
  }
};
HARNESS(h_listen) { Lis x; for (int i = 0; i < kL; i++) { x.writes(); x.tick(); } }
HARNESS(h_listen_again)
{ // a reset forgets what was seen: the first tick of the next run executes the child
  Lis x; x.writes(); x.tick(); if (vp::flag("second")) { x.writes(); x.tick(); }
  x.f->Reset(x.ui); CHECK(I(*x.f) == NS && I(*x.l) == NS, "reset reaches the child"); x.cached[0] = x.cached[1] = false; x.ended = false;
  int e = x.l->execs; x.tick(); CHECK(x.l->execs == e + 1, "the first tick of a run executes the child"); x.tick(); vp_reach("done");
}
HARNESS(h_listen_lost)
{ // a variable that cannot be read for some ticks is compared with its last value that was read
  struct V : Variable { bool ok = true; int32 v = 0; V() : Variable("V") {} bool GetValueImpl(AnyValue& o) const override { return ok && sup::dto::TryAssign(o, AnyValue(v)); } bool SetValueImpl(const AnyValue&) override { return false; } };
  Ui ui; Workspace ws; Procedure p; auto o = std::make_unique<V>(); V* q = o.get(); ws.AddVariable("a", std::move(o)); addVar(ws, "b", "int32"); ws.Setup();
  auto f = make("Listen"); f->AddAttribute("varNames", vp::flag("order") ? "a,b" : "b,a"); auto sc = std::make_shared<Script>(); auto c = std::make_unique<Leaf>(sc); Leaf* l = c.get(); l->act = [](Leaf&, UserInterface&, Workspace&) { return OK; }; f->InsertInstruction(std::move(c), 0); f->Setup(p);
  bool seen = false, lost = false, first = true; int32 last = 0;
  for (int i = 0; i < kL + 1; i++)
  {
    q->ok = vp::flag("readable"); if (vp::flag("new value")) q->v = vp::any<int32>("value");
    bool run = first || (q->ok && (!seen || q->v != last)); int e = l->execs; if (first && !q->ok) vp_reach("first"); first = false; f->ExecuteSingle(ui, ws);
    CHECK(l->execs == e + (run ? 1 : 0), "a variable that could not be read has changed exactly when it has another value than the last one read"); CHECK(I(*f) == (run ? NF : RUN), "nothing changed: running");
    if (q->ok) { if (lost) { if (run) vp_reach("changed"); else vp_reach("back"); } last = q->v; seen = true; lost = false; } else lost = seen;
  }
}
HARNESS(h_listen_halt)
{
  Lis x; x.tick(); bool fin = x.ended; int s = I(*x.f); x.f->Halt(); CHECK(x.l->halts == 1, "halt reaches the child"); int e = x.l->execs; x.writes();
  x.f->ExecuteSingle(x.ui, x.ws); CHECK(x.l->execs == e, "nothing is executed after a halt"); if (fin) CHECK(I(*x.f) == s, "the end is kept");
  x.f->Reset(x.ui); CHECK(!x.f->IsHaltRequested() && !x.l->IsHaltRequested() && I(*x.f) == NS, "reset clears the halt"); vp_reach("done");
}
HARNESS(h_for_large)
{ // a long array
  const int n = 300; Ui ui; Workspace ws; Procedure p; addVar(ws, "arr"); addVar(ws, "el", "int32"); ws.Setup(); AnyValue a((size_t)n, sup::dto::SignedInteger32Type); static const int pos[] = {0, 127, 128, 255, 256, 299}; int at = pos[vp::choose("position", 6)]; auto x = vp::any<int32>("element"); for (int i = 0; i < n; i++) a[(size_t)i] = AnyValue(i == at ? x : (int32)i); put(ws, "arr", a); auto f = make("For"); f->AddAttribute("arrayVar", "arr"); f->AddAttribute("elementVar", "el"); auto c = std::make_unique<Leaf>(); Leaf* l = c.get(); f->InsertInstruction(std::move(c), 0);
  l->act = [&](Leaf& me, UserInterface&, Workspace& w) { AnyValue v; CHECK(w.GetValue("el", v) && v.As<int32>() == (me.execs - 1 == at ? x : (int32)(me.execs - 1)), "the child sees the element at its turn"); return OK; }; f->Setup(p); for (int i = 0; i < n; i++) { CHECK(!IsFinishedStatus(f->GetStatus()), "goes on until the elements are exhausted"); f->ExecuteSingle(ui, ws); } CHECK(I(*f) == OK && l->execs == n, "the child is executed once per element"); vp_reach("done");
}
HARNESS(h_listen_threads)
{ // values written by another thread meanwhile: the child sees the last one in the end
  vp_threads(2, 0, 0); Ui ui; Workspace ws; Procedure p; addVar(ws, "a", "int32"); addVar(ws, "b", "int32"); ws.Setup(); auto f = make("Listen"); f->AddAttribute("varNames", "a,b"); int32 sawA = -1, sawB = -1; auto c = std::make_unique<Leaf>(); Leaf* l = c.get(); l->act = [&](Leaf&, UserInterface&, Workspace& w) { AnyValue u, v; CHECK(w.GetValue("a", u) && w.GetValue("b", v), "listened variables can be read"); sawA = u.As<int32>(); sawB = v.As<int32>(); return OK; }; f->InsertInstruction(std::move(c), 0); f->Setup(p);
  bool early = vp::flag("early"); if (early) f->ExecuteSingle(ui, ws); int32 x = vp::any<int32>("a"), y = vp::any<int32>("b"); std::thread t([&] { ws.SetValue("a", AnyValue(x)); ws.SetValue("b", AnyValue(y)); }); f->ExecuteSingle(ui, ws); bool during = sawA != 0; t.join(); f->ExecuteSingle(ui, ws);
  CHECK(sawA == x && sawB == y, "no change is missed"); int e = l->execs; f->ExecuteSingle(ui, ws); CHECK(l->execs == e && I(*f) == RUN, "nothing changed: running"); if (during) vp_reach("during"); vp_reach(early ? "early" : "late");
}

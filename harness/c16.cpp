// @entry h_choice reach=success,failure,refused,repeated,empty,unfinished time=150
// @entry h_choice_scalar reach=run,refused time=60
// @entry h_choice_bad reach=refused time=60
// @entry h_choice_again reach=done time=100
// @entry h_choice_next reach=repeated,done time=100
// @entry h_user reach=waiting,selected,refused,success,failure,next time=100
// @entry h_user_request reach=done,unsupported time=60
// @entry h_user_halt reach=done time=60
// @entry h_user_threads reach=done time=60
// @entry h_confirm reach=confirmed,declined,refused,waiting,halted time=60
// @entry h_confirm_threads reach=done time=60
// @entry h_choice_large reach=many,far time=100
// @bound h_choice_large: 300 children, lists of 300 indices; Choice: 2 children, lists of 0..3 32-bit indices (each 0..3 or one of 6 values at the limits of the integer types), 5 (thorough 7) ticks with every result symbolic; scalars of 8 integer types (0..3 and 10 bit patterns at the limits); UserChoice and UserConfirmation: every reply (kind and success flag; choices 0..3, -1, and the limits) arriving at any of 3 polls; every schedule of halt from another thread with at most 3 (thorough 4) preemptions
// @assume shims stand in for sup-dto; leaves are scripted test instructions deriving from the real Instruction; the user interface is scripted
#include <oac.h>
#include <rt_threads.h>
#include <thread>
using namespace oac;
using sup::dto::AnyValue; using sup::dto::int32;
#ifdef VP_THOROUGH
static const int kT = 7, kP = 4;
#else
static const int kT = 5, kP = 3;
#endif
struct Ch
{
  Ui ui; Workspace ws; Procedure proc; std::unique_ptr<Instruction> c; std::vector<Leaf*> l; std::vector<std::shared_ptr<Script>> sc; int n; std::vector<int> order;
  explicit Ch(int kids, const std::string& type = "") : n(kids)
  {
    addVar(ws, "sel", type); ws.Setup(); c = make("Choice"); c->AddAttribute("varName", "sel");
    for (int i = 0; i < n; i++)
    {
      auto s = std::make_shared<Script>(); sc.push_back(s); auto k = std::make_unique<Leaf>(s); l.push_back(k.get()); c->InsertInstruction(std::move(k), i);
      l.back()->act = [this, i](Leaf& me, UserInterface&, Workspace&) { order.push_back(i); return sc[(size_t)i]->at((size_t)me.execs - 1); };
    }
    c->Setup(proc);
  }
  void tick() { c->ExecuteSingle(ui, ws); }
};
// an index near the children, every value; or one of the values around the limits of the integer types
static int32 anyIndex()
{
  if (!vp::flag("far")) return (int32)vp::below("index", 4); static const int32 far[] = {-1, -2147483647 - 1, 2147483647, 256, 65536, -2}; return far[vp::choose("far index", 6)];
}
static void select(Ch& x, std::vector<int32>& idx, int n)
{
  idx.clear(); AnyValue v((size_t)n, sup::dto::SignedInteger32Type);
  for (int i = 0; i < n; i++) { idx.push_back(anyIndex()); v[(size_t)i] = AnyValue(idx.back()); } put(x.ws, "sel", v);
}
// reference: the list is executed in order as a sequence, a repeated index repeats its child
struct Ref
{
  std::vector<int32> idx; size_t pos = 0; bool listed = false, ended = false; int fin = NS;
  void tick(Ch& x)
  {
    size_t e = x.order.size(); std::vector<int> ex; for (auto* l : x.l) ex.push_back(l->execs);
    x.tick(); int s = I(*x.c);
    if (ended) { CHECK(x.order.size() == e && s == fin, "nothing is executed after the end"); return; }
    bool bad = false; for (auto i : idx) bad = bad | (i < 0) | (i >= x.n);
    if (bad) { CHECK(s == BAD && x.order.size() == e, "an index outside the children fails without executing any"); vp_reach("refused"); ended = true; fin = s; return; }
    if (x.order.size() == e)
    { // a tick that only reads the selection
      CHECK(!listed, "every tick before the end executes a child"); listed = true;
      if (idx.empty() && s == OK) { ended = true; fin = s; vp_reach("empty"); return; }
      CHECK(s == NF, "not finished once the selection is read");
      if (idx.empty()) { x.tick(); CHECK(I(*x.c) == OK && x.order.empty(), "an empty selection succeeds"); ended = true; fin = OK; vp_reach("empty"); }
      return;
    }
    CHECK(x.order.size() == e + 1, "at most one child is executed per tick"); CHECK(pos < idx.size(), "no child is executed beyond the selection");
    int k = x.order.back(); CHECK(k == idx[pos], "the selected child is executed at its turn");
    for (size_t i = 0; i < pos; i++) if (idx[i] == k) vp_reach("repeated");
    int r = x.sc[(size_t)k]->at((size_t)ex[(size_t)k]);
    if (r == OK) { ++pos; if (pos == idx.size()) { CHECK(s == OK, "succeeds when all selected children have"); ended = true; vp_reach("success"); } else CHECK(s == NF, "goes on with the next selected child"); }
    else { CHECK(s == r, "an unfinished or failed child decides the status"); if (r == BAD) { ended = true; vp_reach("failure"); } else vp_reach("unfinished"); }
    fin = s;
  }
};
HARNESS(h_choice)
{
  Ch x(2); Ref r; select(x, r.idx, vp::choose("length", 4)); for (int i = 0; i < kT; i++) r.tick(x);
}
HARNESS(h_choice_again)
{ // reset at any tick: a new selection is read and executed from its start
  Ch x(2); Ref r; select(x, r.idx, 2); int t = vp::choose("ticks", 4); for (int i = 0; i < t; i++) r.tick(x);
  x.c->Reset(x.ui); CHECK(I(*x.c) == NS, "reset returns to not started"); for (auto* l : x.l) CHECK(I(*l) == NS, "reset reaches the children");
  Ref r2; x.order.clear(); select(x, r2.idx, 2); for (int i = 0; i < 3; i++) r2.tick(x); vp_reach("done");
}
HARNESS(h_choice_scalar)
{
  static const char* ty[] = {"int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64"}; int k = vp::choose("type", 8); Ch x(2, ty[k]);
  static const uint64_t pats[] = {0xffffffffffffffffull, 0x8000000000000000ull, 0x7fffffffffffffffull, 0x100000000ull, 0x100000001ull, 0x80000000ull, 0x10000ull, 0x100ull, 0x80ull, 2};
  int p = vp::choose("pattern", 11); uint64_t bits = p == 10 ? vp::below("index", 4) : pats[p]; bool out; AnyValue a;
  switch (k)
  {
    case 0: { auto q = (int8_t)bits; out = q < 0 || q > 1; a = AnyValue(q); break; } case 1: { auto q = (uint8_t)bits; out = q > 1; a = AnyValue(q); break; }
    case 2: { auto q = (int16_t)bits; out = q < 0 || q > 1; a = AnyValue(q); break; } case 3: { auto q = (uint16_t)bits; out = q > 1; a = AnyValue(q); break; }
    case 4: { auto q = (int32_t)bits; out = q < 0 || q > 1; a = AnyValue(q); break; } case 5: { auto q = (uint32_t)bits; out = q > 1; a = AnyValue(q); break; }
    case 6: { auto q = (int64_t)bits; out = q < 0 || q > 1; a = AnyValue(q); break; } default: { auto q = (uint64_t)bits; out = q > 1; a = AnyValue(q); break; }
  }
  int64_t v = (int64_t)(bits & 1);
  put(x.ws, "sel", a); for (auto& s : x.sc) vp_assume(s->at(0) == OK);
  x.tick(); if (I(*x.c) == NF && x.order.empty()) x.tick();
  if (out) { CHECK(I(*x.c) == BAD && x.order.empty(), "an index outside the children fails without executing any"); vp_reach("refused"); }
  else { CHECK(I(*x.c) == OK && x.order.size() == 1 && x.order[0] == (int)v, "exactly the selected child is executed"); vp_reach("run"); }
}
HARNESS(h_choice_bad)
{ // selectors that are neither an index nor a list of indices
  int k = vp::choose("kind", 4); Ch x(2);
  if (k == 0) put(x.ws, "sel", AnyValue(std::string(vp::choose("text", 2) ? "0" : "x"))); else if (k == 1) put(x.ws, "sel", AnyValue({{"a", AnyValue((int32)0)}}));
  else if (k == 2) { AnyValue v(2, sup::dto::StringType); v[0] = AnyValue(std::string("0")); put(x.ws, "sel", v); }
  for (int i = 0; i < 2; i++) { x.tick(); CHECK(I(*x.c) == BAD && x.order.empty(), "a selector that denotes no index fails without executing a child"); } vp_reach("refused");
}
HARNESS(h_choice_next)
{ // before each tick, the listed next instruction is the one that is executed
  Ch x(2); std::vector<int32> idx; select(x, idx, 3); for (auto i : idx) vp_assume((i == 0) | (i == 1)); for (auto& s : x.sc) for (size_t i = 0; i < 3; i++) vp_assume((s->at(i) == OK) | (s->at(i) == NF));
  x.tick(); CHECK(x.order.empty() && I(*x.c) == NF, "the first tick reads the selection");
  for (int i = 0; i < 3 && I(*x.c) != OK; i++)
  {
    auto next = x.c->NextInstructions(); size_t e = x.order.size(); x.tick(); CHECK(x.order.size() == e + 1, "a child is executed"); int k = x.order.back();
    CHECK(next.size() == 1 && next[0] == x.l[(size_t)k], "the listed next instruction is the one that is executed"); if (i == 2 && x.order[0] == x.order[1] && x.order[1] == k) vp_reach("repeated");
  }
  vp_reach("done");
}
struct Us
{
  InUi ui; Workspace ws; Procedure proc; std::unique_ptr<Instruction> c; std::vector<Leaf*> l; int n;
  explicit Us(int kids) : n(kids)
  {
    c = make("UserChoice"); c->AddAttribute("description", "pick"); for (int i = 0; i < n; i++) { auto k = std::make_unique<Leaf>(std::make_shared<Script>()); l.push_back(k.get()); k->SetName(i ? "two" : "one"); c->InsertInstruction(std::move(k), i); } c->Setup(proc);
  }
  int execs() { int e = 0; for (auto* x : l) e += x->execs; return e; }
};
static UserInputReply anyReply(int32& choice, bool& valid)
{
  choice = anyIndex(); bool res = vp::flag("result"); int kind = vp::choose("reply", 3); valid = res && kind == 0;
  if (kind == 0) return CreateUserChoiceReply(res, choice); if (kind == 1) return CreateUserValueReply(res, AnyValue(choice)); return UserInputReply{InputRequestType::kUserChoice, res, AnyValue((sup::dto::uint32)choice)};
}
HARNESS(h_user)
{
  Us x(2); int32 choice; bool valid; x.ui.reply = anyReply(choice, valid); x.ui.late = true; bool ended = false, picked = false; int fin = NS;
  for (int i = 0; i < 5; i++)
  {
    { auto nx = x.c->NextInstructions(); if (ended || !picked) CHECK(nx.empty(), "without a selection no child is next"); else { bool ready = ReadyForExecute(x.l[choice]->GetStatus()); CHECK(nx.size() == (ready ? 1u : 0u) && (!ready || nx[0] == x.l[choice]), "the selected child is next while it can go on"); if (ready) vp_reach("next"); } }
    int e[2] = {x.l[0]->execs, x.l[1]->execs}; if (i == 2 && !x.ui.ready) x.ui.ready = true; bool was = x.ui.ready; x.c->ExecuteSingle(x.ui, x.ws); int s = I(*x.c), d = x.execs() - e[0] - e[1];
    if (ended) { CHECK(d == 0 && s == fin, "nothing is executed after the end"); continue; }
    if (!x.ui.ready) { CHECK(s == RUN && d == 0, "running until the user has answered"); vp_reach("waiting"); continue; }
    if (!(valid && choice >= 0 && choice < 2)) { CHECK(s == BAD && d == 0, "an invalid or missing selection fails without executing a child"); vp_reach("refused"); ended = true; fin = s; continue; }
    if (d == 0) { CHECK(!picked && s == NF, "a selection is taken over once"); picked = true; vp_reach("selected"); continue; }
    CHECK(d == 1 && x.l[choice]->execs == e[choice] + 1, "exactly the selected child is executed"); int r = x.l[choice]->script->at((size_t)e[choice]); CHECK(s == r, "the selected child's status is reported");
    picked = true; if (r == OK || r == BAD) { ended = true; vp_reach(r == OK ? "success" : "failure"); } fin = s; (void)was;
  }
  CHECK(x.ui.requests.size() == 1, "one request is made"); x.c->Reset(x.ui); CHECK(x.ui.alive == 0 && I(*x.c) == NS && I(*x.l[0]) == NS && I(*x.l[1]) == NS, "reset drops the request and reaches the children");
  x.ui.ready = false; x.ui.late = false; x.c->ExecuteSingle(x.ui, x.ws); CHECK(I(*x.c) == RUN && x.ui.requests.size() == 2, "the next run asks again");
}
HARNESS(h_user_request)
{ // the request offers each child, in order, and nothing else
  int n = 1 + vp::choose("children", 3); Us x(n); std::vector<std::string> names; static const char* nm[] = {"one", "two", ""}; for (int i = 0; i < n; i++) { names.push_back(nm[vp::choose("name", 3)]); x.l[i]->SetName(names[i]); } x.ui.supported = vp::flag("supported"); x.c->ExecuteSingle(x.ui, x.ws);
  if (!x.ui.supported) { CHECK(I(*x.c) == BAD && x.execs() == 0 && x.ui.alive == 0, "without user input it fails"); vp_reach("unsupported"); return; }
  CHECK(x.ui.requests.size() == 1, "one request"); std::vector<std::string> o; AnyValue m; CHECK(ParseUserChoiceRequest(x.ui.requests[0], o, m), "the request is a choice");
  CHECK((int)o.size() == n, "an option per child"); for (int i = 0; i < n; i++) CHECK(names[i].empty() ? o[i].find("one") != 0 && o[i].find("two") != 0 : o[i].find(names[i]) == 0, "an option per child, in order"); CHECK(GetMainTextFromMetadata(m) == "pick", "with the description"); vp_reach("done");
}
HARNESS(h_user_halt)
{ // halt at any point cancels the request and reaches the children
  Us x(2); x.ui.reply = CreateUserChoiceReply(true, vp::choose("choice", 2)); x.ui.late = true; int t = vp::choose("ticks", 4); for (int i = 0; i < t; i++) x.c->ExecuteSingle(x.ui, x.ws);
  bool fin = IsFinishedStatus(x.c->GetStatus()); int s = I(*x.c), e = x.execs(); x.c->Halt(); CHECK(x.ui.alive == 0, "halt drops the request"); for (auto* l : x.l) CHECK(l->IsHaltRequested() && l->halts == 1, "halt reaches every child");
  x.c->ExecuteSingle(x.ui, x.ws); CHECK(x.execs() == e, "nothing is executed after a halt"); if (fin) CHECK(I(*x.c) == s, "the end is kept"); else CHECK(I(*x.c) != OK, "a halted choice does not succeed");
  x.c->Reset(x.ui); for (auto* l : x.l) CHECK(!l->IsHaltRequested(), "reset clears the halt"); vp_reach("done");
}
HARNESS(h_user_threads)
{ // halt from another thread at any point of a tick
  vp_threads(kP, 0, 0); vp_set_timeouts(0); Us x(2); x.ui.reply = CreateUserChoiceReply(true, 1); x.ui.ready = vp::flag("ready");
  std::thread h([&] { x.c->Halt(); }); for (int i = 0; i < 3; i++) x.c->ExecuteSingle(x.ui, x.ws); h.join(); if (!x.ui.ready) CHECK(x.ui.alive == 0, "a halt withdraws the request");
  CHECK(x.l[0]->execs == 0, "no other child is executed"); x.c->ExecuteSingle(x.ui, x.ws); int e = x.execs(); x.c->ExecuteSingle(x.ui, x.ws); CHECK(x.execs() == e, "nothing is executed after a halt"); x.c->Reset(x.ui); CHECK(x.ui.alive == 0, "no request is left"); vp_reach("done");
}
HARNESS(h_confirm)
{
  InUi ui; Workspace ws; Procedure p; auto c = make("UserConfirmation"); c->AddAttribute("description", "go?"); bool texts = vp::flag("texts"); if (texts) { c->AddAttribute("okText", "yes"); c->AddAttribute("cancelText", "no"); } c->Setup(p);
  int32 choice; bool valid; ui.reply = anyReply(choice, valid); ui.late = true; bool halt = vp::flag("halt");
  for (int i = 0; i < 3; i++)
  {
    bool fin = IsFinishedStatus(c->GetStatus()); int before = I(*c); if (i == 1 && halt) { c->Halt(); CHECK(ui.alive == 0, "halt drops the request"); } c->ExecuteSingle(ui, ws); int s = I(*c);
    if (fin) { CHECK(s == before, "the end is kept"); continue; }
    if (i >= 1 && halt) { CHECK(s != OK, "a halted confirmation does not succeed"); vp_reach("halted"); continue; }
    if (!ui.ready) { CHECK(s == RUN, "running until the user has answered"); vp_reach("waiting"); continue; }
    if (!valid) { CHECK(s == BAD, "an invalid answer fails"); vp_reach("refused"); } else { CHECK(s == (choice == 0 ? OK : BAD), "succeeds exactly when confirmed"); vp_reach(choice == 0 ? "confirmed" : "declined"); }
  }
  std::vector<std::string> o; AnyValue m; CHECK(ui.requests.size() == 1 && ParseUserChoiceRequest(ui.requests[0], o, m) && o.size() == 2 && o[0] == (texts ? "yes" : "Ok") && o[1] == (texts ? "no" : "Cancel"), "the request offers confirmation and refusal"); CHECK(GetMainTextFromMetadata(m) == "go?", "with the description");
  c->Reset(ui); CHECK(ui.alive == 0, "reset drops the request");
}
HARNESS(h_confirm_threads)
{
  vp_threads(kP, 0, 0); vp_set_timeouts(0); InUi ui; Workspace ws; Procedure p; auto c = make("UserConfirmation"); c->AddAttribute("description", "go?"); c->Setup(p); ui.reply = CreateUserChoiceReply(true, 0); ui.ready = vp::flag("ready");
  std::thread h([&] { c->Halt(); }); for (int i = 0; i < 2; i++) c->ExecuteSingle(ui, ws); h.join(); if (!ui.ready) CHECK(ui.alive == 0, "a halt withdraws the request"); if (!ui.ready) CHECK(I(*c) != OK, "not confirmed without an answer"); c->Reset(ui); CHECK(ui.alive == 0, "no request is left"); vp_reach("done");
}
HARNESS(h_choice_large)
{ // many children and a long list
  bool list = vp::flag("long list"); int n = list ? 3 : 300, len = list ? 300 : 6; static const int pos[] = {299, 256, 255, 128, 127, 0}; Ui ui; Workspace ws; Procedure p; addVar(ws, "sel"); ws.Setup(); AnyValue v((size_t)len, sup::dto::SignedInteger32Type); std::vector<int> want, got; for (int i = 0; i < len; i++) { int k = list ? (i * 7 + i / 100) % 3 : pos[i]; want.push_back(k); v[(size_t)i] = AnyValue((int32)k); } put(ws, "sel", v);
  auto c = make("Choice"); c->AddAttribute("varName", "sel"); for (int i = 0; i < n; i++) { auto l = std::make_unique<Leaf>(); l->act = [&, i](Leaf&, UserInterface&, Workspace&) { VpQuiet q; got.push_back(i); return OK; }; c->InsertInstruction(std::move(l), i); } c->Setup(p); for (int i = 0; i < len + 2; i++) c->ExecuteSingle(ui, ws); CHECK(I(*c) == OK && got == want, "the selected children are executed in the order of the list"); vp_reach(list ? "many" : "far");
}

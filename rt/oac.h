// Shared by the harnesses about instructions: scripted leaves, a recording user interface and a reference interpreter of
// behaviour trees written from the documentation.
#ifndef VP_OAC_H
#define VP_OAC_H
#include <vp.h>
#include <functional>
#include <memory>
#include <vector>
#include <sup/oac-tree/instruction.h>
#include <sup/oac-tree/instruction_registry.h>
#include <sup/oac-tree/procedure.h>
#include <sup/oac-tree/user_interface.h>
#include <sup/oac-tree/user_input_request.h>
#include <sup/oac-tree/user_input_reply.h>
#include <sup/oac-tree/i_user_input_future.h>
#include <sup/oac-tree/constants.h>
#include <sup/oac-tree/workspace.h>
#include <sup/oac-tree/exceptions.h>
#include <sup/oac-tree/variable_registry.h>
#include <sup/dto/anyvalue.h>
namespace oac
{
using namespace sup::oac_tree;
enum { NS = 0, NF = 1, RUN = 2, OK = 3, BAD = 4 };
inline ExecutionStatus S(int v) { return static_cast<ExecutionStatus>(v); }
inline int I(const Instruction& i) { return (int)i.GetStatus(); }
struct Ev { const Instruction* i; int st; };
struct Ui : DefaultUserInterface
{
  std::vector<Ev> ev; int logs = 0; int lastSeverity = -1; std::vector<std::string> messages;
  void UpdateInstructionStatus(const Instruction* i) override { int st = I(*i); VpQuiet q; ev.push_back({i, st}); }
  void Log(int s, const std::string&) override { VpQuiet q; ++logs; lastSeverity = s; }
  void Message(const std::string& m) override { VpQuiet q; messages.push_back(m); }
};
// a user interface whose requests are answered by the harness
struct InUi : Ui
{
  std::vector<UserInputRequest> requests; int alive = 0, reads = 0; bool supported = true; UserInputReply reply{}; bool late = false; // late: every poll decides whether the answer has come
  bool ready = false;
  struct Fut : IUserInputFuture
  {
    InUi& u; bool got = false; explicit Fut(InUi& x) : u(x) { VpQuiet q; ++u.alive; } ~Fut() override { VpQuiet q; --u.alive; }
    sup::dto::uint64 GetId() const override { return 1; }
    bool IsValid() const override { return u.supported; }
    bool IsReady() const override { VpQuiet q; if (!u.ready && u.late) u.ready = vp::flag("answered"); return u.ready; }
    bool WaitFor(double) const override { return IsReady(); }
    UserInputReply GetValue() override { VpQuiet q; CHECK(u.ready, "an answer is only read once it is there"); CHECK(!got, "an answer is read once"); got = true; ++u.reads; return u.reply; }
  };
  std::unique_ptr<IUserInputFuture> RequestUserInput(const UserInputRequest& r) override { { VpQuiet q; requests.push_back(r); } return std::unique_ptr<IUserInputFuture>(new Fut(*this)); }
};
// results of the successive executions of one leaf: symbolic, shared between the real leaf and its reference
struct Script
{
  std::vector<int> r; bool withRunning = true; bool concrete = false;
  int at(size_t i)
  {
    VpQuiet q;
    while (r.size() <= i)
    {
      int v = 1 + (concrete ? vp::choose("result", 4) : (int)vp::below("result", 4)); if (!withRunning) vp_assume(v != RUN);
      r.push_back(v);
    }
    return r[i];
  }
};
class Leaf : public Instruction
{
public:
  explicit Leaf(std::shared_ptr<Script> s = {}, const std::string& type = "TestLeaf") : Instruction(type), script(std::move(s)) {}
  std::shared_ptr<Script> script; int execs = 0, inits = 0, halts = 0, resets = 0, setups = 0; bool initOk = true; bool* gone = nullptr;
  std::function<int(Leaf&, UserInterface&, Workspace&)> act; std::function<void(Leaf&)> onHalt;
  ~Leaf() override { if (gone) *gone = true; }
private:
  bool InitHook(UserInterface&, Workspace&) override { VpQuiet q; ++inits; return initOk; }
  ExecutionStatus ExecuteSingleImpl(UserInterface& ui, Workspace& ws) override
  {
    int k; { VpQuiet q; k = execs++; }
    if (act) return S(act(*this, ui, ws));
    return S(script->at((size_t)k));
  }
  void HaltImpl() override { { VpQuiet q; ++halts; } if (onHalt) onHalt(*this); }
  void ResetHook(UserInterface&) override { VpQuiet q; ++resets; }
  void SetupImpl(const Procedure&) override { ++setups; }
};
inline std::unique_ptr<Instruction> make(const std::string& type) { return GlobalInstructionRegistry().Create(type); }

inline std::unique_ptr<Variable> localVar(const std::string& type = "")
{ auto v = GlobalVariableRegistry().Create("Local"); if (!type.empty()) v->AddAttribute("type", type[0] == '{' ? type : "{\"type\":\"" + type + "\"}"); return v; }
inline void addVar(Workspace& ws, const std::string& name, const std::string& type = "") { CHECK(ws.AddVariable(name, localVar(type)), "variable added"); }
inline void put(Workspace& ws, const std::string& name, const sup::dto::AnyValue& v) { CHECK(ws.SetValue(name, v), "variable written"); }
inline sup::dto::AnyValue get(Workspace& ws, const std::string& name) { sup::dto::AnyValue v; CHECK(ws.GetValue(name, v), "variable read"); return v; }

// Reference interpreter
enum Kind { LEAF, SEQ, FB, RSEQ, RFB, INV, FS, REP };
inline const char* typeName(int k) { static const char* n[] = {"", "Sequence", "Fallback", "ReactiveSequence", "ReactiveFallback", "Inverter", "ForceSuccess", "Repeat"}; return n[k]; }
struct Node
{
  int kind = LEAF; Instruction* real = nullptr; Leaf* leaf = nullptr; std::shared_ptr<Script> script; std::vector<std::unique_ptr<Node>> c;
  int st = NS; bool halt = false; int execs = 0, resets = 0, halts = 0; int64_t max = 0, done = 0; size_t cur = 0; std::vector<Ev>* log = nullptr; int haltAt = -1; Node* top = nullptr; // the execution during which a leaf halts the whole tree
  void emit() { if (log) log->push_back({real, st}); }
  void reset()
  {
    ++resets; for (auto& k : c) k->reset();
    cur = 0; done = 0; halt = false; if (st != NS) { st = NS; emit(); }
  }
  void haltAll() { halt = true; ++halts; for (auto& k : c) k->haltAll(); }
  void tick()
  {
    if (st == NS) { st = NF; cur = 0; done = 0; emit(); }
    int before = st;
    if (st != OK && st != BAD && !halt) st = logic();
    if (st != before) emit();
  }
  int logic()
  {
    switch (kind)
    {
    case LEAF: { int k = execs++; if (k == haltAt) top->haltAll(); return script->at((size_t)k); }
    case SEQ: case RSEQ: return list(OK, BAD, kind == RSEQ);
    case FB: case RFB: return list(BAD, OK, kind == RFB);
    case INV: { c[0]->tick(); int s = c[0]->st; return s == OK ? BAD : s == BAD ? OK : s; }
    case FS: { c[0]->tick(); int s = c[0]->st; return s == BAD ? OK : s; }
    case REP:
    {
      if (max == 0) return OK;
      if (c[0]->st == OK) c[0]->reset();
      c[0]->tick(); int s = c[0]->st;
      if (s == OK) { ++done; return done == max ? OK : NF; }
      return s;
    }
    }
    return BAD;
  }
  int list(int pass, int stop, bool reactive)
  { // cur: first child that has not passed
    Node& k = *c[cur]; k.tick(); int s = k.st;
    if (s == stop) return stop;
    if (s == RUN)
    {
      if (reactive) { for (auto& o : c) if (o.get() != &k) o->reset(); if (c.size() > 1 || true) cur = 0; }
      return RUN;
    }
    if (s == pass)
    {
      while (cur < c.size() && c[cur]->st == pass) ++cur;
      if (cur == c.size()) return pass;
      return c[cur]->st == RUN ? RUN : NF;
    }
    return NF;
  }
};
inline std::unique_ptr<Node> leafNode(std::vector<Ev>* log = nullptr) { auto n = std::make_unique<Node>(); n->script = std::make_shared<Script>(); n->log = log; return n; }
// creates the real tree for a reference tree
inline std::unique_ptr<Instruction> realise(Node& n)
{
  std::unique_ptr<Instruction> r;
  if (n.kind == LEAF) { auto l = std::make_unique<Leaf>(n.script); n.leaf = l.get(); r = std::move(l); }
  else
  {
    r = make(typeName(n.kind));
    if (n.kind == REP) r->AddAttribute("maxCount", std::to_string(n.max));
    for (auto& k : n.c) { int at = r->ChildrenCount(); CHECK(r->InsertInstruction(realise(*k), at), "children can be appended"); }
  }
  n.real = r.get(); return r;
}
inline void setLog(Node& n, std::vector<Ev>* log) { n.log = log; for (auto& k : n.c) setLog(*k, log); }
inline void same(const Node& n)
{
  CHECK(I(*n.real) == n.st, "the status is the documented one");
  if (n.leaf) { CHECK(n.leaf->execs == n.execs, "a leaf is executed exactly when documented"); }
  for (auto& k : n.c) same(*k);
}
inline void sameHooks(const Node& n)
{
  if (n.leaf) { CHECK(n.leaf->resets == n.resets, "resets reach exactly the documented instructions"); CHECK(n.leaf->halts == n.halts, "halts reach exactly the documented instructions"); CHECK(n.real->IsHaltRequested() == n.halt, "the halt request is kept until the next reset"); }
  for (auto& k : n.c) sameHooks(*k);
}
inline bool sameLog(const std::vector<Ev>& a, const std::vector<Ev>& b)
{
  if (a.size() != b.size()) return false;
  bool r = true; for (size_t i = 0; i < a.size(); i++) r = r & (a[i].i == b[i].i) & (a[i].st == b[i].st);
  return r;
}
inline std::unique_ptr<Node> node(int kind, int leaves) { auto n = std::make_unique<Node>(); n->kind = kind; for (int i = 0; i < leaves; i++) n->c.push_back(leafNode()); return n; }
struct Tree
{
  std::unique_ptr<Node> ref; std::unique_ptr<Instruction> root; Ui ui; Workspace ws; Procedure proc; std::vector<Ev> expect;
  explicit Tree(std::unique_ptr<Node> n) : ref(std::move(n)) { setLog(*ref, &expect); root = realise(*ref); root->Setup(proc); }
  void haltDuring(Node& l, int k) { l.haltAt = k; l.top = ref.get(); Instruction* r = root.get(); auto sc = l.script; l.leaf->act = [r, sc, k](Leaf& x, UserInterface&, Workspace&) { int n = x.execs - 1; if (n == k) r->Halt(); return sc->at((size_t)n); }; }
  void tick() { root->ExecuteSingle(ui, ws); ref->tick(); same(*ref); }
  void reset() { root->Reset(ui); ref->reset(); same(*ref); }
  void halt() { root->Halt(); ref->haltAll(); same(*ref); }
  bool finished() const { return ref->st == OK || ref->st == BAD; }
};
}
#endif

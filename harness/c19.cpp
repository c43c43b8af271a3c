// @entry h_compound reach=inserted,refused,taken,nothing time=100
// @entry h_decorator reach=inserted,replaced,refused,taken,nothing time=60
// @entry h_leaf reach=refused time=60
// @entry h_setup reach=nochild,child,badchild time=60
// @entry h_hooks reach=done time=100
// @entry h_release reach=done time=60
// @entry h_large reach=done time=100
// @bound h_large: 300 children; histories of 4 (thorough 5) insertions and removals at every 32-bit position, for every compound and decorator type
// @assume shims stand in for sup-dto; children are test instructions deriving from the real Instruction
#include <oac.h>
using namespace oac;
#ifdef VP_THOROUGH
static const int kOps = 5;
#else
static const int kOps = 4;
#endif
static const char* kComp[] = {"Sequence", "Fallback", "ReactiveSequence", "ReactiveFallback", "ParallelSequence", "Choice", "UserChoice"};
static const char* kDeco[] = {"Inverter", "ForceSuccess", "Repeat", "For", "Listen", "Async"};
static void attrs(Instruction& i)
{
  if (i.GetType() == "Choice") i.AddAttribute("varName", "v"); if (i.GetType() == "Listen") i.AddAttribute("varNames", "v");
  if (i.GetType() == "For") { i.AddAttribute("arrayVar", "v"); i.AddAttribute("elementVar", "e"); }
}
static std::unique_ptr<Leaf> leaf(bool* gone = nullptr) { auto l = std::make_unique<Leaf>(std::make_shared<Script>()); l->gone = gone; return l; }
static void same(const Instruction& p, const std::vector<const Instruction*>& m)
{
  CHECK(p.ChildrenCount() == (int)m.size(), "the number of children is kept"); auto c = p.ChildInstructions(); CHECK(c.size() == m.size(), "every child is listed once"); bool eq = true; for (size_t i = 0; i < m.size(); i++) eq = eq & (c[i] == m[i]); CHECK(eq, "the children are listed in order");
  auto& q = const_cast<Instruction&>(p); auto d = q.ChildInstructions(); CHECK(d.size() == m.size(), "both listings agree"); for (size_t i = 0; i < m.size(); i++) CHECK(d[i] == m[i], "both listings agree");
}
HARNESS(h_compound)
{
  auto p = make(kComp[vp::choose("type", 7)]); CHECK(p->GetCategory() == Instruction::kCompound, "a compound is one"); std::vector<const Instruction*> m; bool gone[8] = {}; std::vector<std::pair<std::unique_ptr<Instruction>, int>> held; std::vector<int> ids;
  for (int k = 0; k < kOps; k++)
  {
    int at = vp::any<int32_t>("position");
    if (vp::flag("insert"))
    {
      auto l = leaf(&gone[k]); const Instruction* raw = l.get(); std::unique_ptr<Instruction> u = std::move(l); bool ok = p->InsertInstruction(std::move(u), at);
      if (at >= 0 && at <= (int)m.size()) { CHECK(ok && !u, "a position between 0 and the number of children is accepted"); m.insert(m.begin() + at, raw); ids.insert(ids.begin() + at, k); vp_reach("inserted"); } else { CHECK(!ok && u.get() == raw && !gone[k], "any other position is refused and the instruction stays with its owner"); vp_reach("refused"); u.reset(); }
    }
    else
    {
      auto t = p->TakeInstruction(at);
      if (at >= 0 && at < (int)m.size()) { CHECK(t.get() == m[(size_t)at], "exactly the child at the position is handed over"); int id = ids[(size_t)at]; m.erase(m.begin() + at); ids.erase(ids.begin() + at); CHECK(!gone[id], "ownership is handed over"); held.emplace_back(std::move(t), id); vp_reach("taken"); } else { CHECK(!t, "nothing is taken elsewhere"); vp_reach("nothing"); }
    }
    same(*p, m);
  }
  for (int id : ids) CHECK(!gone[id], "children live as long as their parent"); p.reset(); for (int id : ids) CHECK(gone[id], "children are released with their parent"); for (auto& h : held) CHECK(!gone[h.second], "a child that was taken is not released by its former parent");
}
HARNESS(h_decorator)
{
  auto p = make(kDeco[vp::choose("type", 6)]); CHECK(p->GetCategory() == Instruction::kDecorator, "a decorator is one"); std::vector<const Instruction*> m; bool gone[8] = {}; int cur = -1; std::vector<std::unique_ptr<Instruction>> held;
  for (int k = 0; k < kOps; k++)
  {
    int at = vp::any<int32_t>("position");
    if (vp::flag("insert"))
    {
      auto l = leaf(&gone[k]); const Instruction* raw = l.get(); { std::unique_ptr<Instruction> u = std::move(l); bool ok = p->InsertInstruction(std::move(u), at); CHECK(ok == (at == 0), "only the first position is accepted"); if (!ok) CHECK(u.get() == raw && !gone[k], "a refused instruction stays with its owner"); }
      if (at == 0) { if (cur >= 0) { CHECK(gone[cur], "a replaced child is released"); vp_reach("replaced"); } else vp_reach("inserted"); m.assign(1, raw); cur = k; CHECK(!gone[k], "the child is owned"); } else { vp_reach("refused"); if (cur >= 0) CHECK(!gone[cur], "a refused insertion changes nothing"); }
    }
    else
    {
      auto t = p->TakeInstruction(at); if (at == 0 && cur >= 0) { CHECK(t.get() == m[0] && !gone[cur], "the child is handed over"); m.clear(); cur = -1; held.push_back(std::move(t)); vp_reach("taken"); } else { CHECK(!t, "nothing is taken elsewhere"); vp_reach("nothing"); }
    }
    same(*p, m);
  }
  p.reset(); if (cur >= 0) CHECK(gone[cur], "the child is released with its parent");
}
HARNESS(h_leaf)
{
  static const char* ty[] = {"Succeed", "Fail", "Wait", "Copy", "Equals", "Message"}; auto p = make(ty[vp::choose("type", 6)]); CHECK(p->GetCategory() == Instruction::kAction, "an action is one"); int at = vp::any<int32_t>("position");
  { std::unique_ptr<Instruction> u = leaf(); CHECK(!p->InsertInstruction(std::move(u), at) && u, "an action takes no children"); } CHECK(!p->TakeInstruction(at) && p->ChildrenCount() == 0 && p->ChildInstructions().empty() && p->NextInstructions().empty(), "an action has no children"); vp_reach("refused");
}
HARNESS(h_setup)
{ // set-up needs the children, reaches all of them, and passes on their refusal
  bool deco = vp::flag("decorator"); auto p = make(deco ? kDeco[vp::choose("type", 6)] : kComp[vp::choose("type", 7)]); attrs(*p); Procedure proc; int n = vp::choose("children", deco ? 2 : 3); bool bad = n > 0 && vp::flag("bad"); std::vector<Leaf*> l;
  for (int i = 0; i < n; i++) { auto x = leaf(); l.push_back(x.get()); p->InsertInstruction(std::move(x), i); }
  if (bad) { auto inv = make("Inverter"); if (deco) { p->TakeInstruction(0); l.clear(); } CHECK(p->InsertInstruction(std::move(inv), deco ? 0 : n), "child added"); }
  bool threw = false; try { p->Setup(proc); } catch (const InstructionSetupException&) { threw = true; }
  if (n == 0) { CHECK(threw, "without the required children set-up fails"); vp_reach("nochild"); } else if (bad) { CHECK(threw, "a child that cannot be set up makes set-up fail"); vp_reach("badchild"); }
  else { CHECK(!threw, "set-up succeeds"); for (auto* x : l) CHECK(x->setups == 1, "set-up reaches every child once"); vp_reach("child"); }
}
HARNESS(h_hooks)
{ // halt and reset reach every child, through every type, at any nesting
  int a = vp::choose("outer", 13), b = vp::choose("inner", 13); auto mk = [](int k) { auto i = make(k < 7 ? kComp[k] : kDeco[k - 7]); attrs(*i); return i; };
  auto p = mk(a), q = mk(b); std::vector<Leaf*> l; int n = b < 7 ? 2 : 1; for (int i = 0; i < n; i++) { auto x = leaf(); l.push_back(x.get()); q->InsertInstruction(std::move(x), i); }
  if (a < 7) { auto x = leaf(); l.push_back(x.get()); p->InsertInstruction(std::move(x), 0); } Instruction* in = q.get(); CHECK(p->InsertInstruction(std::move(q), a < 7 ? 1 : 0), "inserted");
  Procedure proc; p->Setup(proc); Ui ui; p->Halt(); CHECK(in->IsHaltRequested(), "halt reaches every child"); for (auto* x : l) CHECK(x->IsHaltRequested() && x->halts >= 1, "halt reaches every child");
  p->Reset(ui); CHECK(!in->IsHaltRequested() && !p->IsHaltRequested(), "reset reaches every child"); for (auto* x : l) CHECK(!x->IsHaltRequested() && x->resets >= 1, "reset reaches every child"); vp_reach("done");
}
HARNESS(h_release)
{ // destroying a tree releases every instruction of it, once (the executor reports double or missing releases)
  bool gone[3] = {}; { auto p = make("Sequence"); auto d = make("Inverter"); d->InsertInstruction(leaf(&gone[0]), 0); p->InsertInstruction(std::move(d), 0); p->InsertInstruction(leaf(&gone[1]), 0); auto t = p->TakeInstruction(vp::choose("take", 2)); p->InsertInstruction(leaf(&gone[2]), 0); }
  CHECK(gone[0] && gone[1] && gone[2], "every instruction is released"); vp_reach("done");
}
HARNESS(h_large)
{ // many children
  static const int pos[] = {0, 127, 128, 255, 256, 300}; auto c = make(kComp[vp::choose("type", 7)]); std::vector<const Instruction*> m; for (int i = 0; i < 300; i++) { auto l = leaf(); m.push_back(l.get()); CHECK(c->InsertInstruction(std::move(l), i), "a child is inserted at the end"); } int at = pos[vp::choose("position", 6)]; auto l = leaf(); auto raw = l.get(); CHECK(c->InsertInstruction(std::move(l), at), "a child is inserted"); m.insert(m.begin() + at, raw); auto kids = c->ChildInstructions(); CHECK(kids.size() == 301 && c->ChildrenCount() == 301 && std::vector<const Instruction*>(kids.begin(), kids.end()) == m, "the other children keep their order"); CHECK(!c->InsertInstruction(leaf(), 302) && !c->TakeInstruction(301), "a position outside is refused"); auto t = c->TakeInstruction(at); CHECK(t.get() == raw && c->ChildrenCount() == 300, "the child at the position is taken"); Ui ui; c->Reset(ui); c->Halt(); for (auto k : c->ChildInstructions()) CHECK(k->IsHaltRequested() && ((const Leaf*)k)->halts >= 1 && ((const Leaf*)k)->resets >= 1, "halt and reset reach every child"); vp_reach("done");
}

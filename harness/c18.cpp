// @entry h_shape reach=done,leaf,deep time=100
// @entry h_null reach=refused time=60
// @entry h_next reach=done,running,none time=200
// @entry h_next_deep reach=done time=100
// @entry h_next_parallel reach=all,unfinished time=60
// @entry h_next_repeat reach=done time=60
// @entry h_large reach=wide,tall time=100
// @bound h_large: a tree of 321 instructions in 3 levels and one of 121 levels; every tree shape of at most 6 (thorough 8) instructions with compounds and decorators; next instructions: every pair of outer and inner type of 7 with 2 leaves each, symbolic results, 4 (thorough 5) ticks
// @assume shims stand in for sup-dto; leaves are scripted test instructions deriving from the real Instruction. An instruction that reports running is polled again without being listed (as the code documents), so those below one are compared in one direction only
#include <oac.h>
#include <rt_threads.h>
#include <sup/oac-tree/instruction_tree.h>
#include <algorithm>
#include <deque>
using namespace oac;
#ifdef VP_THOROUGH
static const int kMax = 8, kT = 5;
#else
static const int kMax = 6, kT = 4;
#endif
static std::unique_ptr<Instruction> shape(int& budget, int depth, bool& deep)
{
  int kinds = budget <= 1 ? 1 : 3; int k = vp::choose("kind", kinds); --budget;
  if (k == 0) return std::make_unique<Leaf>(std::make_shared<Script>());
  if (depth >= 2) deep = true;
  if (k == 1) { auto d = make("Inverter"); d->InsertInstruction(shape(budget, depth + 1, deep), 0); return d; }
  auto c = make("Sequence"); int n = 0; do { c->InsertInstruction(shape(budget, depth + 1, deep), n++); } while (budget > 0 && vp::flag("more")); return c;
}
static void sameTree(const InstructionTree& t, const Instruction* i)
{
  CHECK(t.GetInstruction() == i && !t.IsEmpty(), "each node stands for its instruction"); auto kids = i->ChildInstructions(); auto nodes = t.GetChildren(); auto listed = t.GetChildInstructions();
  CHECK(nodes.size() == kids.size() && listed.size() == kids.size(), "each instruction has one node per child"); for (size_t k = 0; k < kids.size(); k++) { CHECK(listed[k] == kids[k], "children are in order"); sameTree(*nodes[k], kids[k]); }
}
static std::vector<const Instruction*> bfs(const Instruction* root) { std::vector<const Instruction*> r{root}; for (size_t i = 0; i < r.size(); i++) for (auto c : r[i]->ChildInstructions()) r.push_back(c); return r; }
HARNESS(h_shape)
{
  int budget = kMax; bool deep = false; auto root = shape(budget, 0, deep); auto t = CreateFullInstructionTree(root.get()); sameTree(t, root.get());
  auto flat = FlattenBFS(t), ref = bfs(root.get()); CHECK(flat == ref, "the flattening lists every instruction once, breadth first");
  std::vector<const Instruction*> rl; for (auto i : ref) if (i->ChildInstructions().empty()) rl.push_back(i); auto leaves = GetLeaves(t); CHECK(leaves.size() == rl.size(), "the leaves are the nodes without children");
  auto a = leaves, b = rl; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); CHECK(a == b, "the leaves are the nodes without children"); if (ref.size() == 1) vp_reach("leaf"); if (deep) vp_reach("deep"); vp_reach("done");
}
HARNESS(h_null)
{
  int n = 0; try { CreateFullInstructionTree(nullptr); } catch (const InvalidOperationException&) { ++n; } try { CreateNextInstructionTree(nullptr); } catch (const InvalidOperationException&) { ++n; } CHECK(n == 2, "a null instruction is refused");
  InstructionTree e(nullptr); CHECK(e.IsEmpty() && e.GetChildren().empty(), "a tree of nothing is empty"); vp_reach("refused");
}
static void subtree(const InstructionTree& t) { auto kids = t.GetInstruction()->ChildInstructions(); size_t from = 0; for (auto c : t.GetChildren()) { auto it = std::find(kids.begin() + (long)from, kids.end(), c->GetInstruction()); CHECK(it != kids.end(), "next instructions keep the parent-child relations and order"); from = (size_t)(it - kids.begin()) + 1; subtree(*c); } }
static void leavesOf(Node& n, std::vector<Node*>& out) { if (n.kind == LEAF) out.push_back(&n); for (auto& k : n.c) leavesOf(*k, out); }
// a compound does not list a child that is running: it is polled, not started
static void notRunning(Node& n) { if (n.kind >= SEQ && n.kind <= RFB) { auto next = n.real->NextInstructions(); for (auto i : next) CHECK(I(*i) != RUN, "a child that is running is not listed by its compound"); } for (auto& k : n.c) notRunning(*k); }
// the leaf, or an instruction between it and the root, reports running
static bool running(Node& n, Node* l, bool root = true)
{
  if (&n == l) return !root && I(*n.real) == RUN; for (auto& k : n.c) { std::vector<Node*> ls; leavesOf(*k, ls); if (std::find(ls.begin(), ls.end(), l) != ls.end()) return (!root && I(*n.real) == RUN) || running(*k, l, false); } return false;
}
static void ticks(Tree& t, int count)
{
  std::vector<Node*> ls; leavesOf(*t.ref, ls);
  for (int i = 0; i < count && !t.finished(); i++)
  {
    auto tree = CreateNextInstructionTree(t.root.get()); CHECK(tree.GetInstruction() == t.root.get(), "the root is next"); subtree(tree); notRunning(*t.ref); auto next = FlattenBFS(tree);
    std::vector<int> e, st; for (auto* l : ls) { e.push_back(l->leaf->execs); st.push_back(running(*t.ref, l) ? RUN : NF); }
    t.tick(); bool none = true;
    for (size_t k = 0; k < ls.size(); k++)
    {
      bool ran = ls[k]->leaf->execs > e[k], listed = std::find(next.begin(), next.end(), ls[k]->real) != next.end(); if (listed) none = false;
      if (st[k] == RUN) { vp_reach("running"); if (listed) CHECK(ran, "a listed instruction is executed"); continue; }
      CHECK(ran == listed, "the next instructions are exactly those the next tick executes");
    }
    if (none) vp_reach("none");
  }
  vp_reach("done");
}
HARNESS(h_next)
{
  int kind = SEQ + vp::choose("outer", 7); auto n = std::make_unique<Node>(); n->kind = kind; bool one = kind == INV || kind == FS || kind == REP; if (kind == REP) n->max = 2;
  if (one && kind != REP) { int in = vp::choose("inner", 5); n->c.push_back(in ? node(in, 2) : leafNode()); } else if (kind == REP) n->c.push_back(leafNode());
  else { int in = SEQ + vp::choose("inner", 6); bool oneIn = in == INV || in == FS; n->c.push_back(node(in, oneIn ? 1 : 2)); n->c.push_back(leafNode()); }
  Tree t(std::move(n)); ticks(t, kT);
}
HARNESS(h_next_deep)
{ // three levels
  auto n = std::make_unique<Node>(); n->kind = SEQ + vp::choose("outer", 2); auto m = std::make_unique<Node>(); m->kind = INV; m->c.push_back(node(SEQ + vp::choose("inner", 2), 2)); n->c.push_back(std::move(m)); n->c.push_back(leafNode()); Tree t(std::move(n)); ticks(t, kT);
}
HARNESS(h_next_parallel)
{ // a parallel sequence starts all its children, and lists those that are waiting for their next step
  vp_threads(0, 0, 0); Ui ui; Workspace ws; Procedure p; auto s = make("ParallelSequence"); std::vector<Leaf*> l; for (int i = 0; i < 2; i++) { auto x = std::make_unique<Leaf>(std::make_shared<Script>()); l.push_back(x.get()); s->InsertInstruction(std::move(x), i); } s->Setup(p);
  auto next = FlattenBFS(CreateNextInstructionTree(s.get())); CHECK(next.size() == 3 && next[0] == s.get() && next[1] == l[0] && next[2] == l[1], "all children are next"); vp_reach("all");
  s->ExecuteSingle(ui, ws); vp_drain(); s->ExecuteSingle(ui, ws); vp_drain(); if (IsFinishedStatus(s->GetStatus())) { s->Reset(ui); return; }
  int e[2] = {l[0]->execs, l[1]->execs}; next = FlattenBFS(CreateNextInstructionTree(s.get())); s->ExecuteSingle(ui, ws); vp_drain();
  for (int k = 0; k < 2; k++) { bool listed = std::find(next.begin(), next.end(), l[k]) != next.end(); if (listed && !IsFinishedStatus(s->GetStatus())) { CHECK(l[k]->execs == e[k] + 1, "a listed child is executed"); vp_reach("unfinished"); } }
  s->Reset(ui); vp_drain();
}
HARNESS(h_next_repeat)
{ // a compound below Repeat: each round lists what it executes
  auto n = std::make_unique<Node>(); n->kind = REP; n->max = 2; n->c.push_back(node(SEQ, 1)); vp_assume(n->c[0]->c[0]->script->at(0) == OK); Tree t(std::move(n)); ticks(t, 1);
  auto next = FlattenBFS(CreateNextInstructionTree(t.root.get())); t.tick(); CHECK(next.size() >= 2 && next[1] == t.ref->c[0]->real, "the repeated compound is listed before its next round");
  CHECK(next.size() == 3, "the children of a repeated compound are listed before its next round");
}
HARNESS(h_large)
{ // a wide and a tall tree
  bool wide = vp::flag("wide"); std::unique_ptr<Instruction> root; if (wide) { root = make("Sequence"); for (int i = 0; i < 20; i++) { auto f = make("Fallback"); for (int k = 0; k < 15; k++) f->InsertInstruction(make("Succeed"), k); root->InsertInstruction(std::move(f), i); } } else { root = make("Succeed"); for (int i = 0; i < 120; i++) { auto d = make(i % 2 ? "Inverter" : "Sequence"); d->InsertInstruction(std::move(root), 0); root = std::move(d); } }
  auto t = CreateFullInstructionTree(root.get()); sameTree(t, root.get()); auto f = FlattenBFS(t); auto want = bfs(root.get()); CHECK(f == want && f.size() == (wide ? 321u : 121u), "every instruction is listed once, level by level"); auto l = GetLeaves(t); CHECK(l.size() == (wide ? 300u : 1u), "the leaves are those without children"); for (size_t i = 0; i < l.size(); i++) CHECK(l[i] == want[want.size() - l.size() + i], "the leaves are those without children"); vp_reach(wide ? "wide" : "tall");
}

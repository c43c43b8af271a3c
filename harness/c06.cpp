// @repo base/scope_guard.cpp
// @entry h_history reach=ran,moved time=200
// @entry h_large reach=big time=30
// @entry h_unwind reach=thrown,left time=30
// @entry h_chain reach=chain time=30
// @entry h_reentrant reach=re time=20
// @bound every sequence of 5 (thorough 6) operations on 3 guards with up to that many actions, then destruction of all guards; h_chain: one action through 150 guards
#include <vp.h>
#include <memory>
#include <vector>
#include <sup/oac-tree/scope_guard.h>
using namespace sup::oac_tree;
#ifdef VP_THOROUGH
static const int kOps = 6;
#else
static const int kOps = 5;
#endif
static int gRuns[16];
static int gN;
static void invariant(std::unique_ptr<ScopeGuard>* g, const int* holds, const int* expect)
{
  for (int i = 0; i < 3; i++) if (g[i]) CHECK(g[i]->IsValid() == (holds[i] >= 0), "validity says exactly whether the guard holds an action");
  for (int a = 0; a < gN; a++) CHECK(gRuns[a] == expect[a], "an action runs exactly once, when its last holder is destroyed or overwritten, never earlier");
}
HARNESS(h_history)
{
  std::unique_ptr<ScopeGuard> g[3]; int holds[3] = {-1, -1, -1}; int expect[16] = {0};
  for (int i = 0; i < kOps; i++)
  {
    int x = vp::choose("guard", 3);
    switch (vp::choose("op", 6))
    {
    case 0: // new guard with an action (destroys the guard that was there)
    {
      if (holds[x] >= 0) { expect[holds[x]]++; vp_reach("ran"); }
      int a = gN++; g[x].reset(); g[x].reset(new ScopeGuard([a] { gRuns[a]++; })); holds[x] = a; break;
    }
    case 1: if (holds[x] >= 0) expect[holds[x]]++; holds[x] = -1; g[x].reset(); g[x].reset(new ScopeGuard(std::function<void()>{})); break;
    case 2: if (holds[x] >= 0) expect[holds[x]]++; holds[x] = -1; g[x].reset(); break;
    case 3:
    { // move construction
      int y = vp::choose("source", 3); if (y == x || !g[y]) vp_prune();
      if (holds[x] >= 0) expect[holds[x]]++;
      g[x].reset(); g[x].reset(new ScopeGuard(std::move(*g[y]))); holds[x] = holds[y]; holds[y] = -1; vp_reach("moved"); break;
    }
    case 4:
    { // move assignment, self included
      int y = vp::choose("source", 3); if (!g[x] || !g[y]) vp_prune();
      *g[x] = std::move(*g[y]);
      if (x != y) { if (holds[x] >= 0) expect[holds[x]]++; holds[x] = holds[y]; holds[y] = -1; }
      break;
    }
    case 5:
    {
      int y = vp::choose("source", 3); if (!g[x] || !g[y]) vp_prune();
      g[x]->Swap(*g[y]); int t = holds[x]; holds[x] = holds[y]; holds[y] = t; break;
    }
    }
    invariant(g, holds, expect);
  }
  for (int i = 0; i < 3; i++) { g[i].reset(); if (holds[i] >= 0) expect[holds[i]]++; holds[i] = -1; invariant(g, holds, expect); }
  for (int a = 0; a < gN; a++) CHECK(gRuns[a] == 1, "in the end every action has run exactly once");
}
struct Big
{ // action with owned state, larger than what a function object keeps inside
  static int alive; std::string text; long pad[6]; int* runs; int want;
  Big(int* r, int w) : text(40, 'x'), runs(r), want(w) { alive++; }
  Big(const Big& o) : text(o.text), runs(o.runs), want(o.want) { alive++; }
  Big(Big&& o) : text(std::move(o.text)), runs(o.runs), want(o.want) { alive++; }
  ~Big() { alive--; }
  void operator()() { CHECK(text.size() == 40, "the action still owns its state"); *runs += want; }
};
int Big::alive;
HARNESS(h_large)
{
  int runs = 0, k = vp::any<int>("weight");
  {
    ScopeGuard a{Big(&runs, k)}; ScopeGuard b; CHECK(!b.IsValid(), "a default guard holds nothing");
    b = std::move(a); CHECK(!a.IsValid() && b.IsValid(), "moving transfers the action"); CHECK(runs == 0, "moving does not run it");
    ScopeGuard c{std::move(b)}; CHECK(!b.IsValid() && c.IsValid(), "moving transfers the action"); CHECK(runs == 0, "moving does not run it");
    a.Swap(c); CHECK(a.IsValid() && !c.IsValid() && runs == 0, "swapping exchanges the actions");
    if (vp::flag("overwrite")) { a = ScopeGuard{}; CHECK(runs == k, "overwriting runs the action"); CHECK(!a.IsValid(), "and leaves the guard without one"); }
  }
  CHECK(runs == k, "the action ran once"); CHECK(Big::alive == 0, "no copy of the action is left"); vp_reach("big");
}
HARNESS(h_reentrant)
{ // an action that itself creates and destroys guards
  int inner = 0, outer = 0;
  {
    ScopeGuard a{[&] { outer++; ScopeGuard b{[&] { inner++; }}; ScopeGuard c{std::move(b)}; }};
    ScopeGuard d; d.Swap(a); ScopeGuard e{std::move(d)};
    CHECK(outer == 0 && inner == 0, "nothing ran yet");
  }
  CHECK(outer == 1 && inner == 1, "each ran once"); vp_reach("re");
}
HARNESS(h_unwind)
{ // leaving a scope early, by exception or return, runs the action once
  int runs = 0, moved = 0; bool th = vp::flag("throw"); auto f = [&] { ScopeGuard a{[&] { runs++; }}; ScopeGuard b{[&] { moved++; }}; ScopeGuard c; c = std::move(b); if (th) throw 1; CHECK(runs == 0 && moved == 0, "nothing ran yet"); }; try { f(); vp_reach("left"); } catch (int) { vp_reach("thrown"); } CHECK(runs == 1 && moved == 1, "each action has run exactly once");
}
HARNESS(h_chain)
{ // an action handed through many guards, by construction, assignment and swap
  int runs = 0; { std::vector<ScopeGuard> v; v.emplace_back([&] { runs++; }); for (int i = 0; i < 150; i++) { switch (vp::choose("how", i == 7 || i == 123 ? 3 : 1)) { case 0: { ScopeGuard t{std::move(v.back())}; CHECK(!v.back().IsValid(), "moving leaves nothing behind"); v.push_back(std::move(t)); break; } case 1: { ScopeGuard t; t = std::move(v.back()); v.emplace_back(); v.back() = std::move(t); break; } default: { v.emplace_back(); v[v.size() - 1].Swap(v[v.size() - 2]); } } CHECK(runs == 0 && v.back().IsValid(), "moving transfers the action and does not run it"); } for (size_t i = 0; i + 1 < v.size(); i++) CHECK(!v[i].IsValid(), "only one guard holds the action"); } CHECK(runs == 1, "the action has run exactly once"); vp_reach("chain");
}

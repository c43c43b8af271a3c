// @repo base/scope_guard.cpp
// @entry h_history reach=notified,unregistered,refused time=60
// @entry h_names reach=match,nomatch time=40
// @entry h_guards reach=guarded time=40
// @entry h_long_names reach=match,nomatch time=60
// @entry h_throwing reach=thrown time=30
// @entry h_repeat reach=done time=60
// @entry h_many reach=many time=40
// @entry h_strings reach=str time=20
// @bound h_history: every sequence of 5 (thorough 6) registrations and removals over 2 listeners, 2 names and 3 kinds of callback, then a notification of each name; h_names: registered and notified names of 0..4 symbolic characters; h_long_names: names of 5..40 characters that differ in any one character or in length; h_repeat: 100 rounds of registration, notification and removal; h_many: 150 callbacks of 3 listeners
#include <vp.h>
#include <vector>
#include <sup/oac-tree/named_callback_manager.h>
using namespace sup::oac_tree;
#ifdef VP_THOROUGH
static const int kOps = 6;
#else
static const int kOps = 5;
#endif
struct Call { int id; int arg; std::string name; };
static std::vector<Call> gLog;
struct Entry { int id; int listener; bool generic; std::string name; };
static int gL[4];
static void* L(int i) { return i < 0 ? nullptr : &gL[i]; }
typedef NamedCallbackManager<int> Mgr;

static void notify(Mgr& m, const std::vector<Entry>& model, const std::string& name)
{
  int arg = vp::any<int>("arg"); gLog.clear(); m.ExecuteCallbacks(name, arg);
  std::vector<int> want; for (auto& e : model) if (e.generic) want.push_back(e.id);
  for (auto& e : model) if (!e.generic && e.name == name) want.push_back(e.id);
  CHECK(gLog.size() == want.size(), "a notification calls exactly the matching callbacks");
  for (size_t i = 0; i < want.size() && i < gLog.size(); i++)
  {
    CHECK(gLog[i].id == want[i], "generic callbacks first, then those of the name, in registration order");
    CHECK(gLog[i].arg == arg, "callbacks get the arguments"); if (gLog[i].name != "-") CHECK(gLog[i].name == name, "generic callbacks get the name");
  }
  vp_reach("notified");
}
static void reg(Mgr& m, std::vector<Entry>& model, bool generic, const std::string& name, int l, int id)
{
  bool r = generic ? m.RegisterGenericCallback([id](const std::string& n, int a) { gLog.push_back({id, a, n}); }, L(l)) : m.RegisterCallback(name, [id](int a) { gLog.push_back({id, a, "-"}); }, L(l));
  CHECK(r, "a callback is accepted"); model.push_back({id, l, generic, name});
}
static void unreg(Mgr& m, std::vector<Entry>& model, int l)
{
  bool any = false; for (size_t i = 0; i < model.size();) if (model[i].listener == l) { model.erase(model.begin() + (long)i); any = true; } else ++i;
  CHECK(m.UnregisterListener(L(l)) == any, "removal reports whether the listener had callbacks"); vp_reach("unregistered");
}
HARNESS(h_history)
{
  Mgr m; std::vector<Entry> model; static const char* names[] = {"a", "b"};
  for (int i = 0; i < kOps; i++)
  {
    int op = vp::choose("op", 4);
    if (op == 0) reg(m, model, true, "", vp::choose("listener", 2), i);
    else if (op == 1) { int n = vp::choose("name", 2); reg(m, model, false, names[n], vp::choose("listener", 2), i); }
    else if (op == 2) unreg(m, model, vp::choose("listener", 2));
    else
    {
      vp_reach("refused");
      if (vp::flag("generic")) CHECK(!m.RegisterGenericCallback({}, L(0)), "an empty generic callback is refused"); else CHECK(!m.RegisterCallback("a", {}, L(0)), "an empty callback is refused");
    }
  }
  notify(m, model, "a"); notify(m, model, "b"); notify(m, model, "c");
  unreg(m, model, 0); notify(m, model, "a"); unreg(m, model, 1); notify(m, model, "b"); unreg(m, model, 0);
}
HARNESS(h_names)
{
  Mgr m; std::vector<Entry> model; std::string a = vp::str("first", 0, 4), b = vp::str("second", 0, 4), n = vp::str("notified", 0, 4);
  reg(m, model, false, a, 0, 1); reg(m, model, false, b, 1, 2);
  int arg = vp::any<int>("arg"); m.ExecuteCallbacks(n, arg); bool one = false, two = false; int k = 0;
  for (auto& c : gLog) { if (c.id == 1) one = true; if (c.id == 2) two = true; k++; CHECK(c.arg == arg, "callbacks get the arguments"); }
  bool ea = a == n, eb = b == n; if (ea) vp_reach("match"); else vp_reach("nomatch");
  CHECK(one == ea && two == eb && k == (ea ? 1 : 0) + (eb ? 1 : 0), "exactly the callbacks of that very name are called, once each");
}
HARNESS(h_guards)
{
  Mgr m; std::vector<Entry> model; reg(m, model, true, "", 0, 1); reg(m, model, false, "a", 0, 2); reg(m, model, false, "a", 1, 3); reg(m, model, true, "", -1, 4); reg(m, model, false, "a", -1, 5);
  int who = vp::choose("who", 4) - 1; // nobody, 0, 1, or a listener without callbacks
  auto gone = [&](int l) { for (size_t i = 0; i < model.size();) if (model[i].listener == l) model.erase(model.begin() + (long)i); else ++i; };
  {
    auto g = m.GetCallbackGuard(L(who)); notify(m, model, "a");
    ScopeGuard h{std::move(g)}; notify(m, model, "a");
    if (vp::flag("early")) { h = ScopeGuard{}; if (who >= 0) gone(who); notify(m, model, "a"); if (who == 1) reg(m, model, false, "a", 1, 9); }
    else if (who >= 0) { ScopeGuard k{std::move(h)}; }
    if (who >= 0 && !(who == 1 && !model.empty() && model.back().id == 9)) gone(who);
  }
  notify(m, model, "a"); notify(m, model, "b"); vp_reach("guarded");
  unreg(m, model, -1); notify(m, model, "a");
}
static const int kMany = 150;
HARNESS(h_many)
{ // many callbacks, one listener's removed: all of them go, all others stay in order
  Mgr m; std::vector<Entry> model; int n = kMany; static bool mine[kMany]; 
  for (int i = 0; i < n; i++) { int l = i % 3; if (i == vp::choose("odd", 1) ) l = 2; reg(m, model, i % 4 == 1, i % 5 ? "a" : "b", l, i); }
  (void)mine; notify(m, model, "a"); unreg(m, model, vp::choose("listener", 4)); notify(m, model, "a"); notify(m, model, "b"); vp_reach("many");
}
HARNESS(h_strings)
{
  NamedCallbackManager<const std::string&, bool> m; std::string got; int n = 0; bool flag = false; int l = 0; std::string name = vp::str("name", 0, 3), arg = vp::str("arg", 0, 20); bool b = vp::any<bool>("flag");
  CHECK(m.RegisterCallback(name, [&](const std::string& s, bool f) { got = s; flag = f; n++; }, &l), "accepted");
  CHECK(m.RegisterGenericCallback([&](const std::string& nm, const std::string& s, bool f) { CHECK(nm == name && s == arg && f == b, "generic callbacks get name and arguments"); n++; }, &l), "accepted");
  m.ExecuteCallbacks(name, arg, b); CHECK(n == 2 && got == arg && flag == b, "both are called with the arguments"); vp_reach("str");
}
HARNESS(h_long_names)
{
  Mgr m; static const int lens[] = {5, 8, 15, 16, 17, 32, 40}; int n = lens[vp::choose("length", 7)]; std::string a((size_t)n, 'x'), b = a; switch (vp::choose("difference", 4)) { case 0: { int k = vp::choose("position", 3); b[k == 0 ? 0 : k == 1 ? (size_t)n / 2 : (size_t)n - 1] = (char)vp_sym("character", 8); break; } case 1: b += (char)vp_sym("character", 8); break; case 2: b.pop_back(); break; default: b = a + a; }
  int ca = 0, cb = 0, g = 0, l = 0; m.RegisterCallback(a, [&](int) { ca++; }, &l); m.RegisterCallback(b, [&](int) { cb++; }, &l); m.RegisterGenericCallback([&](const std::string& s, int) { CHECK(s == b, "generic callbacks get the name"); g++; }, &l); m.ExecuteCallbacks(b, 1); bool same = a == b; vp_reach(same ? "match" : "nomatch"); CHECK(cb == 1 && ca == (same ? 1 : 0) && g == 1, "exactly the callbacks of that very name are called, once each");
}
HARNESS(h_throwing)
{ // a callback that fails leaves a usable manager
  Mgr m; int l1 = 0, l2 = 0, n = 0; bool fail = true; m.RegisterCallback("a", [&](int) { if (fail) throw 1; }, &l1); m.RegisterCallback("a", [&](int) { n++; }, &l2); bool thrown = false; try { m.ExecuteCallbacks("a", 1); } catch (int) { thrown = true; } int before = n; fail = false; m.ExecuteCallbacks("a", 1); CHECK(n == before + 1, "later notifications reach every callback"); CHECK(m.UnregisterListener(&l1) && !m.UnregisterListener(&l1), "the listener can be removed"); (void)thrown; vp_reach("thrown");
}
HARNESS(h_repeat)
{ // many rounds with one manager
  Mgr m; std::vector<Entry> model; reg(m, model, false, "a", 2, 900); int pick = vp::choose("round", 4) * 32; for (int r = 0; r < 100; r++) { int l = r == pick ? vp::choose("listener", 2) : r % 2; reg(m, model, r % 3 == 0, r % 3 == 1 ? "a" : "b", l, r); notify(m, model, r % 2 ? "a" : "b"); if (r % 4 == 3) unreg(m, model, l); if (r % 10 == 9) { auto g = m.GetCallbackGuard(L(1 - l)); for (size_t i = 0; i < model.size();) if (model[i].listener == 1 - l) model.erase(model.begin() + (long)i); else ++i; } } notify(m, model, "a"); notify(m, model, "b"); vp_reach("done");
}

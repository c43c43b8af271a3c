// @entry h_history reach=shared,down,twice,destroyed time=200
// @entry h_functions reach=only_up,only_down,none time=60
// @entry h_failing reach=variable,action,retry time=100
// @entry h_order reach=done time=30
// @entry h_large reach=done time=60
// @bound h_large: 300 variables with 270 identifiers; h_history: three variables, each with one of three action identifiers (one empty) or none of its own, every sequence of 4 (thorough 5) set-ups, tear-downs and single resets, then destruction; h_functions: two variables with any combination of present and absent functions; h_failing: any variable or any action failing, then a retry, a tear-down or destruction
// @assume shims stand in for sup-dto; variables are test variables deriving from the real Variable
#include <oac.h>
using namespace oac;
#ifdef VP_THOROUGH
static const int kOps = 5;
#else
static const int kOps = 4;
#endif
struct Failed {};
struct Act : Variable
{
  std::function<SetupTeardownActions()> make; std::function<void()> down; Act() : Variable("Act") {}
  bool GetValueImpl(sup::dto::AnyValue&) const override { return false; } bool SetValueImpl(const sup::dto::AnyValue&) override { return false; }
  SetupTeardownActions SetupImpl(const Workspace&) override { return make(); } void TeardownImpl() override { if (down) down(); }
};
static const char* kIds[] = {"", "p", "q"};
HARNESS(h_history)
{
  int up[3] = {}, dn[3] = {}, vars = 0, id[3]; for (int i = 0; i < 3; i++) id[i] = vp::choose("identifier", 3); bool has[3] = {}; for (int i = 0; i < 3; i++) has[id[i]] = true; has[0] = false; if (id[0] == id[1] && id[0]) vp_reach("shared");
  int wantUp = 0, wantDn = 0; bool done = false;
  {
    Workspace ws; for (int i = 0; i < 3; i++) { auto v = std::make_unique<Act>(); int k = id[i]; v->make = [&, k]() -> SetupTeardownActions { ++vars; return {kIds[k], [&, k] { CHECK(vars % 3 == 0 || done, "actions run when every variable is set up"); CHECK(up[k] == dn[k], "an action is set up only when it is torn down"); ++up[k]; }, [&, k] { CHECK(up[k] == dn[k] + 1, "an action is torn down only after it was set up"); ++dn[k]; }}; }; static const char* n[] = {"b", "a", "c"}; ws.AddVariable(n[i], std::move(v)); }
    auto check = [&] { for (int k = 0; k < 3; k++) CHECK(up[k] == (has[k] ? wantUp : 0) && dn[k] == (has[k] ? wantDn : 0), "each distinct action runs once per set-up and once per tear-down"); };
    for (int k = 0; k < kOps; k++)
    {
      switch (vp::choose("operation", 3))
      {
      case 0: if (done) vp_reach("twice"); else { ++wantUp; vars = 0; } ws.Setup(); CHECK(ws.IsSuccessfullySetup(), "the workspace is set up"); done = true; break;
      case 1: ws.Teardown(); if (done) { ++wantDn; vp_reach("down"); } done = false; CHECK(!ws.IsSuccessfullySetup(), "the workspace is torn down"); break;
      default: { bool was = done; done = true; ws.ResetVariable("a"); done = was; vars = 0; }
      }
      check();
    }
  }
  if (done) { ++wantDn; vp_reach("destroyed"); } for (int k = 0; k < 3; k++) CHECK(up[k] == (has[k] ? wantUp : 0) && dn[k] == (has[k] ? wantDn : 0), "destruction tears down what is set up");
}
HARNESS(h_functions)
{ // absent functions
  int up[2] = {}, dn[2] = {}; bool hu[2], hd[2], same = vp::flag("same"); for (int i = 0; i < 2; i++) { hu[i] = vp::flag("setup"); hd[i] = vp::flag("teardown"); }
  { Workspace ws; for (int i = 0; i < 2; i++) { auto v = std::make_unique<Act>(); v->make = [&, i]() -> SetupTeardownActions { SetupTeardownActions r; r.m_identifier = i && !same ? "q" : "p"; if (hu[i]) r.m_setup = [&, i] { ++up[i]; }; if (hd[i]) r.m_teardown = [&, i] { ++dn[i]; }; return r; }; ws.AddVariable(i ? "b" : "a", std::move(v)); } ws.Setup(); }
  if (same) { CHECK(up[0] + up[1] == (hu[0] || hu[1] ? 1 : 0) && dn[0] + dn[1] == (hd[0] || hd[1] ? 1 : 0), "an identifier has one set-up and one tear-down"); CHECK(!hu[0] || up[0] == 1, "the first set-up given is the one"); }
  else for (int i = 0; i < 2; i++) CHECK(up[i] == (hu[i] ? 1 : 0) && dn[i] == (hd[i] ? 1 : 0), "each identifier has its own set-up and tear-down");
  vp_reach(hu[0] && !hd[0] ? "only_up" : hd[0] && !hu[0] ? "only_down" : "none");
}
HARNESS(h_failing)
{
  int up[3] = {}, dn[3] = {}, failVar = vp::choose("failing variable", 4), failAct = failVar == 3 ? vp::choose("failing action", 4) : 3; bool fail = true; 
  {
    Workspace ws; for (int i = 0; i < 3; i++) { auto v = std::make_unique<Act>(); v->make = [&, i]() -> SetupTeardownActions { if (fail && i == failVar) throw Failed(); static const char* ids[] = {"p", "q", "r"}; return {ids[i], [&, i] { if (fail && i == failAct) throw Failed(); ++up[i]; }, [&, i] { ++dn[i]; CHECK(dn[i] <= up[i], "no tear-down without its set-up"); }}; }; static const char* n[] = {"b", "a", "c"}; ws.AddVariable(n[i], std::move(v)); }
    bool thrown = false; try { ws.Setup(); } catch (const Failed&) { thrown = true; } CHECK(thrown == (failVar < 3 || failAct < 3) && ws.IsSuccessfullySetup() == !thrown, "a failure is reported"); if (failVar < 3) { CHECK(up[0] + up[1] + up[2] == 0, "no action runs when a variable fails"); vp_reach("variable"); } else if (thrown) vp_reach("action");
    fail = false; switch (vp::choose("then", 4)) { case 0: break; case 1: ws.Teardown(); for (int i = 0; i < 3; i++) CHECK(up[i] == dn[i], "tear-down undoes what was set up"); break; case 2: ws.Setup(); CHECK(ws.IsSuccessfullySetup() && up[0] && up[1] && up[2], "a retry sets up everything"); vp_reach("retry"); break; default: ws.Teardown(); ws.Setup(); CHECK(up[0] == dn[0] + 1 && up[1] == dn[1] + 1 && up[2] == dn[2] + 1, "a retry sets up everything once"); }
  }
  for (int i = 0; i < 3; i++) CHECK(up[i] == dn[i], "every set-up has its tear-down in the end");
}
HARNESS(h_order)
{ // shared actions are torn down before their variables, and set up after them
  std::vector<int> log; Workspace ws; for (int i = 0; i < 2; i++) { auto v = std::make_unique<Act>(); v->make = [&, i]() -> SetupTeardownActions { log.push_back(i); return {"p", [&] { log.push_back(10); }, [&] { log.push_back(11); }}; }; v->down = [&, i] { log.push_back(20 + i); }; ws.AddVariable(i ? "b" : "a", std::move(v)); }
  ws.Setup(); CHECK(log.size() == 3 && log[2] == 10, "actions run after the variables' set-up"); ws.Teardown(); CHECK(log.size() == 6 && log[3] == 11, "tear-down actions run before the variables' tear-down"); CHECK(log[4] + log[5] == 41, "every variable is torn down once"); vp_reach("done");
}
HARNESS(h_large)
{ // many actions
  int up = 0, down = 0; struct V : Variable { int *u, *d, i; V(int* a, int* b, int k) : Variable("V"), u(a), d(b), i(k) {} bool GetValueImpl(sup::dto::AnyValue&) const override { return false; } bool SetValueImpl(const sup::dto::AnyValue&) override { return false; } SetupTeardownActions SetupImpl(const Workspace&) override { return {"id" + std::to_string(i % 270), [this] { ++*u; }, [this] { ++*d; }}; } }; { Workspace ws; for (int i = 0; i < 300; i++) ws.AddVariable("v" + std::to_string(i), std::make_unique<V>(&up, &down, i)); for (int r = 1; r <= 2; r++) { ws.Setup(); CHECK(up == 270 * r && down == 270 * (r - 1), "each set-up action runs once"); if (r == 1) ws.Teardown(); } } CHECK(up == 540 && down == 540, "each tear-down action runs once"); vp_reach("done");
}

// @entry h_wait reach=running,success,halted,again time=150
// @entry h_wait_type reach=literal,variable,refused time=60
// @entry h_blocking reach=success,halted time=100
// @entry h_blocking_threads reach=halted,ended time=100
// @entry h_variable reach=success,running,failure,halted,again time=300
// @entry h_variable_equal reach=success,running,failure time=200
// @entry h_variables reach=success,running,failure,halted time=200
// @entry h_variables_type reach=literal,variable,none,unknown time=60
// @entry h_again reach=done time=60
// @bound time-outs 0, 1 ns, 0.1, 2.5 and 10^6 s; every clock that advances by up to 3 s (blocking: 20 ms) at each of up to 16 reads; h_wait: 3 (thorough 4) ticks with a halt and a reset anywhere; h_variable, h_variable_equal: 3 (thorough 4) ticks with every history of the variables; h_variables: 2 (thorough 3) variables of two types with every history of availability over 3 ticks; h_blocking_threads: every schedule of a halt with at most 2 preemptions
// @assume shims stand in for sup-dto; time advances at clock reads and sleeps only
#include <oac.h>
#include <rt_threads.h>
#include <sup/oac-tree/variable.h>
#include <sup/oac-tree/constants.h>
#include <thread>
using namespace oac;
namespace dto = sup::dto;
#ifdef VP_THOROUGH
static const int kT = 4, kV = 3;
#else
static const int kT = 3, kV = 2;
#endif
struct To { const char* text; int64_t ns; };
static const To kTo[] = {{"0", 0}, {"1e-9", 1}, {"0.1", 100000000}, {"2.5", 2500000000LL}, {"1e6", 1000000000000000LL}};
// what the clock allows: the start lies within the first tick
struct Clock
{
  int64_t b1 = 0, a1 = 0; bool started = false; Ui& ui; Workspace& ws; Instruction& i; int64_t T; Clock(Ui& u, Workspace& w, Instruction& x, int64_t t) : ui(u), ws(w), i(x), T(t) {}
  int64_t b = 0, a = 0;
  int tick() { b = vp_now(); i.ExecuteSingle(ui, ws); a = vp_now(); if (!started) { b1 = b; a1 = a; started = true; } return I(i); }
  void over() { CHECK(a >= b1 + T, "a wait never ends before its time-out"); }
  void left() { CHECK(b < a1 + T, "a wait ends at the first tick after its time-out"); }
  void again() { started = false; }
};
HARNESS(h_wait)
{
  Ui ui; Workspace ws; ws.Setup(); Procedure p; auto w = make("Wait"); int k = vp::choose("timeout", 6); if (k < 5) w->AddAttribute("timeout", kTo[k].text); w->Setup(p); int64_t T = k < 5 ? kTo[k].ns : 0; vp_clock_symbolic(16, 3000000000LL); Clock c(ui, ws, *w, T); int haltAt = vp::choose("halt", kT + 1), resetAt = 1 + vp::choose("reset", kT); int end = NS, last = NS; bool halted = false;
  for (int t = 0; t < kT; t++)
  {
    if (t == resetAt) { w->Reset(ui); CHECK(I(*w) == NS, "a reset wait has not started"); c.again(); end = NS; halted = false; vp_reach("again"); } if (t == haltAt) { w->Halt(); halted = true; }
    int64_t now = vp_now(); int s = c.tick(); if (end != NS) { CHECK(s == end && vp_now() == now, "a finished wait stays finished"); continue; }
    if (halted) { CHECK(s == (t == haltAt && (t == 0 || t == resetAt) ? NF : last), "a halted wait is not executed any more"); last = s; vp_reach("halted"); continue; } last = s; CHECK(s == OK || s == RUN, "a wait runs or succeeds"); if (s == OK) { c.over(); vp_reach("success"); end = s; } else { c.left(); vp_reach("running"); }
  }
}
HARNESS(h_wait_type)
{ // where the time-out comes from
  Ui ui; Workspace ws; addVar(ws, "f", "float64"); addVar(ws, "s", "string"); addVar(ws, "b", "bool"); ws.Setup(); put(ws, "f", dto::AnyValue(dto::float64(2.5))); put(ws, "b", dto::AnyValue(dto::boolean(false))); put(ws, "s", dto::AnyValue(std::string("x"))); static const To e[] = {{"2.5", 1}, {"@f", 1}, {"-1", 0}, {"1e11", 0}, {"@s", 0}, {"@none", 0}, {"@b", 2}}; static const To bl[] = {{nullptr, 1}, {"false", 1}, {"@b", 1}, {"@s", 3}, {"@none", 0}}; auto& x = e[vp::choose("timeout", 7)]; auto& y = bl[vp::choose("blocking", 5)]; static const char* types[] = {"Wait", "WaitForVariable", "WaitForVariables"}; int ty = vp::choose("instruction", 3); vp_assume(ty == 0 || !y.text); vp_assume(x.ns != 2 && y.ns != 3);
  auto w = make(types[ty]); w->AddAttribute("timeout", x.text); if (y.text) w->AddAttribute("blocking", y.text); if (ty == 1) w->AddAttribute("varName", "none"); if (ty == 2) w->AddAttribute("varType", "Local"); addVar(ws, "empty"); Procedure p; w->Setup(p); Clock c(ui, ws, *w, 2500000000LL); int s = c.tick(); if (x.ns && y.ns) { CHECK(s == RUN, "a valid time-out is waited for"); vp_advance(2499999999LL); CHECK(c.tick() == RUN, "the wait is not over a nanosecond before"); vp_advance(1); CHECK(c.tick() == (ty == 0 ? OK : BAD), "the wait is over at its time-out"); vp_reach(x.text[0] == '@' ? "variable" : "literal"); } else { CHECK(s == BAD && ui.logs > 0, "an invalid time-out fails"); vp_reach("refused"); }
}
static Instruction* haltInSleep = nullptr; static int haltAfter = 0;
extern "C" void vp_slept(int64_t) { if (haltInSleep && haltAfter-- == 0) haltInSleep->Halt(); }
HARNESS(h_blocking)
{
  Ui ui; Workspace ws; ws.Setup(); Procedure p; p.AddAttribute("timingAccuracy", "0.05"); auto w = make("Wait"); bool none = vp::flag("no timeout"); if (!none) w->AddAttribute("timeout", "0.12"); w->AddAttribute("blocking", "true"); w->Setup(p); int64_t T = none ? 0 : 120000000; vp_clock_symbolic(8, 20000000); Clock c(ui, ws, *w, T); bool halt = vp::flag("halted"); haltAfter = vp::choose("after", 2); haltInSleep = halt ? w.get() : nullptr; int n = haltAfter + 1; int s = c.tick(); haltInSleep = nullptr;
  if (halt && s == BAD) { CHECK(c.a - c.b <= 50000000 * n + 8 * 20000000LL, "a halt ends a blocking wait within the timing accuracy"); vp_reach("halted"); return; } CHECK(s == OK, "a blocking wait ends in one tick"); CHECK(!halt || none || haltAfter >= 0, "a halted wait does not succeed"); c.over(); CHECK(c.a <= c.b1 + T + 50000000 + 8 * 20000000LL, "a blocking wait ends within the timing accuracy"); vp_reach("success");
}
HARNESS(h_blocking_threads)
{
  vp_threads(2, 0, 4000); Ui ui; Workspace ws; ws.Setup(); Procedure p; p.AddAttribute("timingAccuracy", "0.05"); auto w = make("Wait"); w->AddAttribute("timeout", "0.12"); w->AddAttribute("blocking", "true"); w->Setup(p); vp_clock_symbolic(0, 0); int64_t t0 = vp_now(), th = -1; std::thread t([&] { w->ExecuteSingle(ui, ws); }); if (vp::flag("later")) std::this_thread::sleep_for(std::chrono::milliseconds(60)); w->Halt(); th = vp_now(); t.join(); int s = I(*w); CHECK(s == OK || s == BAD || s == NF, "a blocking wait ends, if it began"); if (s == OK) { CHECK(vp_now() >= t0 + 120000000, "a wait never ends before its time-out"); vp_reach("ended"); } else { CHECK(vp_now() <= th + 50000000, "a halt ends a blocking wait within the timing accuracy"); vp_reach("halted"); }
}
HARNESS(h_variable)
{ // the variable gets a value, or not
  Ui ui; Workspace ws; addVar(ws, "v"); ws.Setup(); Procedure p; auto w = make("WaitForVariable"); int k = 1 + vp::choose("timeout", 4); w->AddAttribute("timeout", kTo[k].text); bool field = vp::flag("field"); w->AddAttribute("varName", field ? "v.a" : "v"); w->Setup(p); vp_clock_symbolic(16, 3000000000LL); Clock c(ui, ws, *w, kTo[k].ns); int haltAt = vp::choose("halt", kT + 1), resetAt = 1 + vp::choose("reset", kT); int end = NS, last = NS; bool halted = false, have = false;
  for (int t = 0; t < kT; t++)
  {
    if (t == resetAt) { w->Reset(ui); c.again(); end = NS; halted = false; vp_reach("again"); } if (t == haltAt) { w->Halt(); halted = true; } if (!have && vp::flag("set")) { have = true; put(ws, "v", dto::AnyValue({{"a", dto::AnyValue(dto::int32(1))}})); }
    int s = c.tick(); if (end != NS) { CHECK(s == end, "a finished wait stays finished"); continue; }
    if (halted) { CHECK(s == (t == haltAt && (t == 0 || t == resetAt) ? NF : last), "a halted wait is not executed any more"); last = s; vp_reach("halted"); continue; } last = s; if (have) { CHECK(s == OK, "a wait succeeds when its condition holds"); end = s; vp_reach("success"); continue; } CHECK(s == RUN || s == BAD, "a wait runs or fails while its condition does not hold"); if (s == RUN) { c.left(); vp_reach("running"); } else { c.over(); end = s; vp_reach("failure"); }
  }
}
HARNESS(h_variable_equal)
{ // two variables have to agree
  Ui ui; Workspace ws; addVar(ws, "v", "int32"); addVar(ws, "e"); if (vp::flag("third")) addVar(ws, "other", "int32"); ws.Setup(); Procedure p; auto w = make("WaitForVariable"); int k = 1 + vp::choose("timeout", 3); w->AddAttribute("timeout", kTo[k].text); w->AddAttribute("varName", "v"); w->AddAttribute("equalsVar", "e"); w->Setup(p); vp_clock_symbolic(12, 3000000000LL); Clock c(ui, ws, *w, kTo[k].ns); int32_t v = 0, e = 0; bool have = false; int end = NS;
  for (int t = 0; t < kT; t++)
  {
    switch (vp::choose("change", 3)) { case 0: break; case 1: v = vp::any<int32_t>("v"); put(ws, "v", dto::AnyValue(dto::int32(v))); break; default: e = vp::any<int32_t>("e"); have = true; put(ws, "e", dto::AnyValue(dto::int32(e))); } int s = c.tick(); if (end != NS) { CHECK(s == end, "a finished wait stays finished"); continue; }
    if (have && v == e) { CHECK(s == OK, "a wait succeeds when its variables are equal"); end = s; vp_reach("success"); } else { CHECK(s == RUN || s == BAD, "a wait does not succeed while its variables differ"); if (s == RUN) { c.left(); vp_reach("running"); } else { c.over(); end = s; vp_reach("failure"); } }
  }
}
struct TV : Variable
{
  bool avail = false; explicit TV(const std::string& t) : Variable(t) {}
  bool GetValueImpl(dto::AnyValue& v) const override { v = dto::AnyValue(dto::int32(1)); return avail; } bool SetValueImpl(const dto::AnyValue&) override { return true; } bool IsAvailableImpl() const override { return avail; }
};
HARNESS(h_variables)
{
  Ui ui; Workspace ws; TV* v[3]; bool mine[3], in[3] = {}; static const char* n[] = {"x", "b", "y"}; for (int i = 0; i < kV; i++) { mine[i] = i == 0 || vp::flag("waited for"); auto q = std::make_unique<TV>(mine[i] ? "A" : "B"); v[i] = q.get(); ws.AddVariable(n[i], std::move(q)); } ws.Setup(); Procedure p; auto w = make("WaitForVariables"); int k = 1 + vp::choose("timeout", 3); w->AddAttribute("timeout", kTo[k].text); w->AddAttribute("varType", "A"); w->Setup(p); vp_clock_symbolic(12, 3000000000LL); Clock c(ui, ws, *w, kTo[k].ns); int end = NS, last = NS, haltAt = vp::choose("halt", 4); bool halted = false;
  for (int t = 0; t < 3; t++)
  {
    if (t == haltAt) { w->Halt(); halted = true; } bool all = true; for (int i = 0; i < kV; i++) { v[i]->avail = vp::flag("available"); if (mine[i]) all = all && v[i]->avail; } int s = c.tick(); if (end != NS) { CHECK(s == end, "a finished wait stays finished"); continue; }
    if (halted) { CHECK(s == (t == haltAt && t == 0 ? NF : last), "a halted wait is not executed any more"); last = s; vp_reach("halted"); continue; } last = s; if (all) { CHECK(s == OK, "a wait succeeds when all of its variables are available"); end = s; vp_reach("success"); } else { CHECK(s == RUN || s == BAD, "a wait does not succeed while a variable is not available"); if (s == RUN) { c.left(); vp_reach("running"); } else { c.over(); end = s; CHECK(ui.logs == 1, "the missing variables are logged"); vp_reach("failure"); } }
  }
}
HARNESS(h_variables_type)
{ // the type may be given by a variable
  Ui ui; Workspace ws; addVar(ws, "t", "string"); auto q = std::make_unique<TV>("A"); auto* v = q.get(); ws.AddVariable("x", std::move(q)); ws.Setup(); put(ws, "t", dto::AnyValue(std::string(vp::flag("other") ? "B" : "A"))); bool other = get(ws, "t").As<std::string>() == "B"; int k = vp::choose("type", 4); auto w = make("WaitForVariables"); w->AddAttribute("timeout", "1"); w->AddAttribute("varType", k == 0 ? "A" : k == 1 ? "B" : k == 2 ? "@t" : "@gone"); Procedure p; w->Setup(p); if (k == 3) { v->avail = vp::flag("available"); w->ExecuteSingle(ui, ws); CHECK(I(*w) == BAD && ui.logs > 0, "a type that cannot be read fails"); vp_reach("unknown"); return; } bool waits = k == 0 || (k == 2 && !other); w->ExecuteSingle(ui, ws); CHECK(I(*w) == (waits ? RUN : OK), "exactly the variables of the given type are waited for"); v->avail = true; w->ExecuteSingle(ui, ws); CHECK(I(*w) == OK, "a wait succeeds when all of its variables are available"); vp_reach(k == 2 ? "variable" : waits ? "literal" : "none");
}
HARNESS(h_again)
{ // variables added later take part after a reset
  Ui ui; Workspace ws; ws.Setup(); Procedure p; auto w = make("WaitForVariables"); w->AddAttribute("timeout", "1"); w->AddAttribute("varType", "A"); w->Setup(p); w->ExecuteSingle(ui, ws); CHECK(I(*w) == OK, "nothing to wait for succeeds"); ws.AddVariable("x", std::make_unique<TV>("A")); w->Reset(ui); w->ExecuteSingle(ui, ws); CHECK(I(*w) == RUN, "a reset wait looks at the variables anew"); vp_advance(1000000000); w->ExecuteSingle(ui, ws); CHECK(I(*w) == BAD, "the time is over"); w->Reset(ui); w->ExecuteSingle(ui, ws); CHECK(I(*w) == RUN, "a reset wait starts its time anew"); vp_reach("done");
}

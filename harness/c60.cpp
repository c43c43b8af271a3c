// @entry h_convert reach=converted,refused,zero time=300
// @entry h_exact_ms reach=done time=200
// @entry h_edges reach=done time=60
// @entry h_attribute reach=literal,variable,absent,missing,range,type time=100
// @entry h_attribute_value reach=converted,refused time=300
// @entry h_tick_wait reach=waited,none time=60
// @entry h_job reach=waited,none time=60
// @entry h_tick reach=default,given,refused time=60
// @bound h_convert, h_attribute_value: all 2^64 double values; h_exact_ms: every whole number of milliseconds up to 2^16
// @assume shims stand in for sup-dto; floating point is IEEE 754 binary64, round to nearest even
#include <oac.h>
#include <sup/oac-tree/instruction_utils.h>
#include <sup/oac-tree/constants.h>
#include <sup/oac-tree/runner.h>
#include <sup/oac-tree/async_runner.h>
#include <rt_threads.h>
#include <cmath>
using namespace oac;
namespace dto = sup::dto;
using instruction_utils::ConvertToTimeoutNanoseconds;
static const double kMax = 9.2e9;
static double anyDouble(const char* n) { uint64_t u = vp::any<uint64_t>(n); double d; __builtin_memcpy(&d, &u, 8); return d; }
static void nearest(double t, int64_t ns)
{ // 2^52: below it half a nanosecond is representable, above it every double is whole
  double p = t * 1e9; CHECK(ns >= 0 && ns <= 9200000000000000000LL, "the time-out is in range"); if (p < 4503599627370496.0) { double d = (double)ns - p; CHECK(d <= 0.5 && d >= -0.5, "the time-out is the nearest nanosecond"); } else CHECK((double)ns == p, "the time-out is exact");
}
HARNESS(h_convert)
{
  double t = anyDouble("seconds"); int64_t before = -7, ns = before; bool ok = ConvertToTimeoutNanoseconds(t, ns); CHECK(ok == (t >= 0.0 && t <= kMax), "exactly the numbers from zero to the limit are accepted"); if (!ok) { CHECK(ns == before, "a refused time-out changes nothing"); vp_reach("refused"); return; } vp_reach("converted"); nearest(t, ns); if (t == 0.0) { CHECK(ns == 0, "no time is no time"); vp_reach("zero"); }
}
HARNESS(h_exact_ms)
{
  uint64_t ms = vp::below("milliseconds", 1 << 16); double t = (double)ms / 1000.0; int64_t ns = -1; CHECK(ConvertToTimeoutNanoseconds(t, ns), "a time-out is accepted"); CHECK(ns == (int64_t)ms * 1000000, "whole milliseconds convert exactly"); vp_reach("done");
}
HARNESS(h_edges)
{
  struct { double t; int64_t ns; } e[] = {{0.0, 0}, {-0.0, 0}, {1.0, 1000000000}, {0.1, 100000000}, {1e-9, 1}, {5e-10, 1}, {4.9e-10, 0}, {1e-300, 0}, {5e-324, 0}, {0.3, 300000000}, {123.456789012, 123456789012LL}, {kMax, 9200000000000000000LL}, {9200000000.000002, -1}, {-5e-324, -1}, {-1.0, -1}, {INFINITY, -1}, {-INFINITY, -1}, {NAN, -1}, {-NAN, -1}, {1e300, -1}, {9199999999.999998, 9199999999999998093LL}};
  for (auto& x : e) { int64_t ns = -1; bool ok = ConvertToTimeoutNanoseconds(x.t, ns); CHECK(ok == (x.ns >= 0), "limits are respected"); if (x.t < 1e9 || x.ns < 0 || x.t == kMax) CHECK(ns == x.ns, "edge values convert exactly"); else nearest(x.t, ns); } vp_reach("done");
}
struct TI : Instruction { TI() : Instruction("TI") { AddAttributeDefinition("timeout", dto::Float64Type).SetCategory(AttributeCategory::kBoth); } ExecutionStatus ExecuteSingleImpl(UserInterface&, Workspace&) override { return ExecutionStatus::SUCCESS; } };
HARNESS(h_attribute)
{
  Ui ui; Workspace ws; addVar(ws, "f", "float64"); addVar(ws, "i", "int32"); addVar(ws, "s", "string"); ws.Setup(); put(ws, "f", dto::AnyValue(dto::float64(1.25))); put(ws, "i", dto::AnyValue(dto::int32(3))); put(ws, "s", dto::AnyValue(std::string("x"))); struct { const char* text; int kind; int64_t ns; } e[] = {{nullptr, 0, 77}, {"0", 1, 0}, {"0.5", 1, 500000000}, {"2", 1, 2000000000}, {"9.2e9", 1, 9200000000000000000LL}, {"-1", 2, 77}, {"9.3e9", 2, 77}, {"@f", 3, 1250000000}, {"@i", 3, 3000000000LL}, {"@s", 4, 77}, {"@none", 5, 77}, {"@f.x", 5, 77}};
  auto& x = e[vp::choose("attribute", 12)]; TI t; Procedure p; if (x.text) t.AddAttribute("timeout", x.text); t.Setup(p); int64_t ns = 77; bool ok = instruction_utils::GetVariableTimeoutAttribute(t, ui, ws, "timeout", ns); CHECK(ok == (x.kind == 0 || x.kind == 1 || x.kind == 3), "exactly the valid time-outs are accepted"); CHECK(ns == x.ns, "a time-out attribute is its value in nanoseconds, absent or refused ones change nothing"); CHECK((ui.logs > 0) == !ok, "a refused time-out is logged"); static const char* r[] = {"absent", "literal", "range", "variable", "type", "missing"}; vp_reach(r[x.kind]);
}
HARNESS(h_attribute_value)
{ // the value of a variable
  Ui ui; Workspace ws; addVar(ws, "f", "float64"); ws.Setup(); double t = anyDouble("seconds"); put(ws, "f", dto::AnyValue(dto::float64(t))); TI x; Procedure p; x.AddAttribute("timeout", "@f"); x.Setup(p); int64_t ns = 77; vp_assume(!(t < -1e6 || t > 1e10) || t != t); bool ok = instruction_utils::GetVariableTimeoutAttribute(x, ui, ws, "timeout", ns); CHECK(ok == (t >= 0 && t <= kMax), "exactly the values in range are accepted"); if (ok) { int64_t want = -1; ConvertToTimeoutNanoseconds(t, want); CHECK(ns == want, "the value is converted"); vp_reach("converted"); } else { CHECK(ns == 77 && ui.logs == 1, "a refused time-out is logged and changes nothing"); vp_reach("refused"); }
}
HARNESS(h_tick)
{
  struct { const char* text; int64_t tick, acc; } e[] = {{nullptr, 100000000, 50000000}, {"0.25", 250000000, 250000000}, {"0", 0, 0}, {"1e-9", 1, 1}, {"-0.1", 100000000, 50000000}, {"1e10", 100000000, 50000000}, {"3", 3000000000LL, 3000000000LL}}; int k = vp::choose("tick", 7), a = vp::choose("accuracy", 7); Procedure p; if (e[k].text) p.AddAttribute(kTickTimeoutAttributeName, e[k].text); if (e[a].text) p.AddAttribute(kTimingAccuracyAttributeName, e[a].text); CHECK(TickTimeoutNs(p) == e[k].tick, "the time between ticks is the attribute or the default"); CHECK(TimingAccuracyNs(p) == e[a].acc, "the timing accuracy is the attribute or the default"); vp_reach(!e[k].text ? "default" : k == 4 || k == 5 ? "refused" : "given");
  Procedure q; q.AddAttribute(vp::flag("which") ? kTickTimeoutAttributeName : kTimingAccuracyAttributeName, "x"); q.PushInstruction(make("Succeed")); bool thrown = false; try { q.Setup(); } catch (const ProcedureSetupException&) { thrown = true; } CHECK(thrown, "a time that is no number fails the set-up");
}
static int64_t slept; static int sleeps;
extern "C" void vp_slept(int64_t ns) { VpQuiet q; slept += ns; ++sleeps; }
HARNESS(h_tick_wait)
{ // the time between ticks is waited for exactly while the procedure is running
  Ui ui; Procedure p; auto sc = std::make_shared<Script>(); int r = 1 + vp::choose("status", 4); bool started = vp::flag("started"); sc->r = {r}; p.PushInstruction(std::make_unique<Leaf>(sc)); p.Setup(); if (started) p.ExecuteSingle(ui); int64_t ns = (int64_t)vp::below("ns", 4000000000u) - 5; if (vp::flag("none")) ns = 0; slept = 0; sleeps = 0; TimeoutWhenRunning t(ns); t(p); bool wait = started && r == RUN && ns > 0; CHECK(slept == (wait ? ns : 0) && sleeps == (wait ? 1 : 0), "the time between ticks is waited for exactly while the procedure is running"); vp_reach(wait ? "waited" : "none");
}
struct JM : JobStateMonitor { std::mutex m; std::condition_variable cv; JobState s = JobState::kInitial; void OnStateChange(JobState x) noexcept override { std::lock_guard<std::mutex> l(m); s = x; cv.notify_all(); } void OnBreakpointChange(const Instruction*, bool) noexcept override {} void OnProcedureTick(const Procedure&) noexcept override {} JobState wait() { std::unique_lock<std::mutex> l(m); cv.wait(l, [this] { return IsFinishedJobState(s); }); return s; } };
HARNESS(h_job)
{ // a job waits its tick time-out between ticks of a running procedure
  vp_threads(0, 0, 0); vp_set_timeouts(0); Ui ui; Procedure p; static const char* text[] = {nullptr, "0.25", "0", "-1"}; static const int64_t want[] = {100000000, 250000000, 0, 100000000}; int k = vp::choose("tick", 4); if (text[k]) p.AddAttribute(kTickTimeoutAttributeName, text[k]); auto sc = std::make_shared<Script>(); int n = 0; for (int i = 0; i < 3; i++) { int r = 1 + vp::choose("status", 2); n += r == RUN; sc->r.push_back(r); } sc->r.push_back(OK); auto leaf = std::make_unique<Leaf>(sc); Leaf* lp = leaf.get(); p.PushInstruction(std::move(leaf)); slept = 0; sleeps = 0;
  { JM m; AsyncRunner r(p, ui, m); r.Start(); CHECK(m.wait() == JobState::kSucceeded, "the job succeeds"); } CHECK(lp->execs == 4, "every tick is made"); CHECK(slept == n * want[k] && sleeps == (want[k] ? n : 0), "a job waits its tick time-out after each tick that leaves its procedure running"); vp_reach(n && want[k] ? "waited" : "none");
}

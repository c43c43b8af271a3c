// @entry h_events reach=heard,refused,removed,setup time=200
// @entry h_stored reach=converted,same time=60
// @entry h_names reach=own,other time=60
// @entry h_guards reach=gone time=60
// @entry h_reenter reach=done time=60
// @entry h_wait reach=ended,expired time=200
// @entry h_wait_unknown reach=done time=30
// @entry h_wait_two reach=done time=100
// @entry h_replace reach=before,after time=60
// @entry h_file reach=heard,refused time=60
// @entry h_wait_reset reach=reset,up time=100
// @bound h_events: every sequence of 4 (thorough 5) operations (write, refused write, field write, set-up, tear-down, reset, registration, removal) with two listeners of one variable each, one generic listener; h_names: every listener name of up to 4 characters, all 256 byte values; h_wait*: every schedule with at most 3 preemptions and 1 spurious wake-up, one or two waiters, one variable that changes availability up to twice
// @assume shims stand in for sup-dto; in the waiting harnesses a test variable changes its availability and notifies; a wait has to see an availability that lasts
#include <oac.h>
#include <rt_threads.h>
#include <atomic>
#include <thread>
using namespace oac;
namespace dto = sup::dto;
#ifdef VP_THOROUGH
static const int kOps = 5;
#else
static const int kOps = 4;
#endif
struct Note { int who; std::string name; dto::AnyValue v; bool conn; };
static bool sameNote(const Note& a, const Note& b) { return a.who == b.who && a.name == b.name && a.conn == b.conn && a.v == b.v; }
HARNESS(h_events)
{
  Workspace ws; addVar(ws, "a", "int32"); addVar(ws, "b", "{\"type\":\"S\",\"attributes\":[{\"x\":{\"type\":\"int32\"}}]}"); std::vector<Note> log, want; int key[3]; bool reg[3] = {false, false, false}; bool up = false;
  auto S = [](int32_t x) { return dto::AnyValue({{"x", dto::AnyValue(dto::int32(x))}}, "S"); };
  auto add = [&](int i) { if (reg[i]) return; reg[i] = true; bool r = i == 2 ? ws.RegisterGenericCallback([&](const std::string& n, const dto::AnyValue& v, bool c) { log.push_back({2, n, v, c}); }, &key[2]) : ws.RegisterCallback(i ? "b" : "a", [&log, i](const dto::AnyValue& v, bool c) { log.push_back({i, "", v, c}); }, &key[i]); CHECK(r, "a listener is accepted"); };
  auto heard = [&](int var, const dto::AnyValue& v) { if (reg[2]) want.push_back({2, var ? "b" : "a", v, true}); if (reg[var]) want.push_back({var, "", v, true}); if (reg[2] || reg[var]) vp_reach("heard"); };
  if (vp::flag("early")) { add(0); add(2); } if (vp::flag("set up")) { ws.Setup(); up = true; heard(0, dto::AnyValue(dto::int32(0))); heard(1, S(0)); }
  for (int k = 0; k < kOps; k++)
  {
    switch (vp::choose("operation", 8))
    {
    case 0: { auto v = vp::any<int32_t>("value"); dto::AnyValue n{dto::int32(v)}; CHECK(ws.SetValue("a", n) == up, "writes need a set-up"); if (up) heard(0, n); else vp_reach("refused"); break; }
    case 1: { bool r = ws.SetValue(vp::flag("unknown") ? "q" : "a", dto::AnyValue(std::string("text"))); CHECK(!r, "a write of another type is refused"); vp_reach("refused"); break; }
    case 2: { auto v = vp::any<int32_t>("value"); CHECK(ws.SetValue("b.x", dto::AnyValue(dto::int32(v))) == up, "writes need a set-up"); if (up) heard(1, S(v)); break; }
    case 3: { CHECK(!ws.SetValue("b.y", dto::AnyValue(dto::int32(1))), "unknown fields are refused"); break; }
    case 4: ws.Setup(); if (!up) { heard(0, dto::AnyValue(dto::int32(0))); heard(1, S(0)); vp_reach("setup"); } up = true; break;
    case 5: ws.Teardown(); up = false; break;
    case 6: add(vp::choose("listener", 3)); break;
    default: { int i = vp::choose("listener", 3); { auto g = ws.GetCallbackGuard(&key[i]); } if (reg[i]) vp_reach("removed"); reg[i] = false; break; }
    }
  }
  CHECK(log.size() == want.size(), "every successful write is heard by exactly the registered listeners, once"); for (size_t i = 0; i < log.size(); i++) CHECK(sameNote(log[i], want[i]), "listeners hear the name and the new value");
}
HARNESS(h_stored)
{ // the value heard is the one stored
  Workspace ws; bool dynamic = vp::flag("dynamic"); auto lv = localVar(dynamic ? "" : "uint8"); if (dynamic) lv->AddAttribute("dynamicType", "true"); ws.AddVariable("a", std::move(lv)); ws.Setup(); dto::AnyValue heard; int n = 0; int me; ws.RegisterCallback("a", [&](const dto::AnyValue& v, bool) { heard = v; ++n; }, &me);
  bool wide = vp::flag("wide"); auto x = vp::any<int32_t>("value"); bool r = wide ? ws.SetValue("a", dto::AnyValue(dto::int32(x))) : ws.SetValue("a", dto::AnyValue(dto::uint8((uint8_t)x))); bool fits = dynamic || !wide || (x >= 0 && x < 256);
  CHECK(r == fits && n == (fits ? 1 : 0), "a write is heard exactly when it is accepted"); if (!fits) return;
  dto::AnyValue now = get(ws, "a"); CHECK(heard.GetType() == now.GetType() && heard == now, "the value heard is the variable's new value"); vp_reach(wide && !dynamic ? "converted" : "same");
}
HARNESS(h_names)
{ // a listener hears exactly the variable of its name, which need not be there yet
  Workspace ws; static const char* vars[] = {"a", "ab", "a.b", "b"}; bool late = vp::flag("late"); int n = 0, m = 0, k1, k2; std::string last; auto name = vp::str("listener", 0, 4); auto reg = [&] { CHECK(ws.RegisterCallback(name, [&](const dto::AnyValue&, bool) { ++n; }, &k1), "a listener is accepted for any name"); ws.RegisterGenericCallback([&](const std::string& s, const dto::AnyValue&, bool) { ++m; last = s; }, &k2); }; if (!late) reg();
  for (auto v : vars) addVar(ws, v, v[0] == 'a' && !v[1] ? "{\"type\":\"S\",\"attributes\":[{\"b\":{\"type\":\"int32\"}}]}" : "int32"); ws.Setup(); if (late) reg(); n = m = 0; int k = vp::choose("variable", 5); const char* w[] = {"a", "ab", "b", "a.b", "none"}; bool ok = ws.SetValue(w[k], k == 0 ? dto::AnyValue({{"b", dto::AnyValue(dto::int32(1))}}, "S") : dto::AnyValue(dto::int32(1))); CHECK(ok == (k < 4), "exactly known variables can be written"); std::string var = k == 3 ? "a" : w[k]; CHECK(m == (ok ? 1 : 0) && (!ok || last == var), "the generic listener hears the name of the variable"); CHECK(n == (ok && name == var ? 1 : 0), "a listener hears exactly the variable of its name"); vp_reach(n ? "own" : "other");
}
HARNESS(h_guards)
{ // guards that outlive, are moved, or belong to nobody
  Workspace ws; addVar(ws, "a", "int32"); ws.Setup(); int n = 0, m = 0; int k1, k2; ws.RegisterCallback("a", [&](const dto::AnyValue&, bool) { ++n; }, &k1); ws.RegisterGenericCallback([&](const std::string&, const dto::AnyValue&, bool) { ++m; }, &k2);
  CHECK(!ws.RegisterCallback("a", {}, &k1) && !ws.RegisterGenericCallback({}, &k2), "an empty listener is refused"); { auto g0 = ws.GetCallbackGuard(nullptr); }
  put(ws, "a", dto::AnyValue(dto::int32(1))); CHECK(n == 1 && m == 1, "every listener hears a write once");
  auto g = ws.GetCallbackGuard(vp::flag("first") ? (void*)&k1 : (void*)&k2); bool first = vp_symbolic_mode() ? true : true; (void)first; { auto h = std::move(g); put(ws, "a", dto::AnyValue(dto::int32(2))); CHECK(n == 2 && m == 2, "a guard that lives keeps its listener"); }
  put(ws, "a", dto::AnyValue(dto::int32(3))); CHECK(n + m == 5, "a destroyed guard removes exactly its listener"); vp_reach("gone");
}
HARNESS(h_reenter)
{ // listeners of several variables; a listener that reads other variables
  Workspace ws; addVar(ws, "a", "int32"); addVar(ws, "b", "int32"); ws.Setup(); int na = 0, nb = 0; int32_t sawB = -1; int k; ws.RegisterCallback("a", [&](const dto::AnyValue&, bool) { ++na; sawB = get(ws, "b").As<dto::int32>(); }, &k); ws.RegisterCallback("b", [&](const dto::AnyValue&, bool) { ++nb; }, &k);
  auto x = vp::any<int32_t>("b"); put(ws, "b", dto::AnyValue(dto::int32(x))); CHECK(na == 0 && nb == 1, "only the variable's own listeners hear a write"); put(ws, "a", dto::AnyValue(dto::int32(1))); CHECK(na == 1 && nb == 1 && sawB == x, "a listener may read other variables");
  ws.ResetVariable("a"); CHECK(na == 2 && nb == 1, "a reset variable tells its listeners"); vp_reach("done");
}
struct Av : Variable
{ // a variable whose availability changes
  std::atomic<bool> avail{false}; Av() : Variable("Av") {}
  bool GetValueImpl(dto::AnyValue&) const override { return false; } bool SetValueImpl(const dto::AnyValue&) override { return false; } bool IsAvailableImpl() const override { return avail; }
  void change(bool on) { avail = on; Notify({}, on); }
};
HARNESS(h_wait)
{
  vp_threads(3, 1, 0); vp_set_timeouts(1); vp_late_timeouts(1); Workspace ws; auto u = std::make_unique<Av>(); Av* a = u.get(); bool start = vp::flag("start"); a->avail = start; ws.AddVariable("v", std::move(u)); ws.Setup(); bool want = vp::flag("wanted"); int n = vp::choose("changes", 3); bool to[2] = {true, true}; for (int i = 0; i < n; i++) to[i] = vp::flag("to");
  bool last = n ? to[n - 1] : start; bool ever = start == want; for (int i = 0; i < n; i++) ever = ever || to[i] == want;
  std::thread t([&] { for (int i = 0; i < n; i++) a->change(to[i]); });
  int64_t t0 = vp_now(); bool r = ws.WaitForVariable("v", 5.0, want); int64_t dt = vp_now() - t0;
  if (last == want) { CHECK(r && dt < 1000000000, "waiting ends as soon as the variable is as wanted"); vp_reach("ended"); }
  else if (!ever) { CHECK(!r && dt >= 5000000000 && dt < 6000000000, "waiting ends with the time-out"); vp_reach("expired"); }
  t.join(); a->change(!a->avail); // nobody is left to hear it
}
HARNESS(h_wait_unknown)
{
  vp_threads(0, 0, 0); vp_set_timeouts(1); vp_late_timeouts(1); Workspace ws; addVar(ws, "a", "int32"); int64_t t0 = vp_now(); CHECK(!ws.WaitForVariable("q", 5.0, vp::flag("wanted")) && vp_now() - t0 < 1000000000, "an unknown variable is not waited for"); CHECK(ws.WaitForVariable("a", 5.0, false) && !ws.WaitForVariable("a", 1.0, true), "a variable is not available before set-up"); vp_set_timeouts(1); ws.Setup(); CHECK(ws.WaitForVariable("a", 5.0, true), "a local variable is available after set-up"); vp_reach("done");
}
HARNESS(h_wait_two)
{
  vp_threads(2, 0, 0); vp_set_timeouts(2); vp_late_timeouts(1); Workspace ws; auto u = std::make_unique<Av>(); Av* a = u.get(); ws.AddVariable("v", std::move(u)); ws.Setup(); bool r1 = false, r2 = false; int64_t t0 = vp_now();
  std::thread t([&] { r1 = ws.WaitForVariable("v", 5.0, true); }); std::thread s([&] { a->change(true); }); r2 = ws.WaitForVariable("v", 5.0, true); t.join(); s.join(); CHECK(r1 && r2 && vp_now() - t0 < 1000000000, "every waiter hears the change"); vp_reach("done");
}
HARNESS(h_wait_reset)
{ // a variable that is reset while another thread waits for it
  vp_threads(3, 0, 0); vp_set_timeouts(1); vp_late_timeouts(1); Workspace ws; addVar(ws, "a", "int32"); bool up = vp::flag("set up"); if (up) ws.Setup(); bool again = vp::flag("again");
  std::thread t([&] { if (up) ws.ResetVariable("a"); else ws.Setup(); if (again) ws.ResetVariable("a"); }); int64_t t0 = vp_now(); bool r = ws.WaitForVariable("a", 5.0, true); int64_t dt = vp_now() - t0; t.join(); CHECK(r && dt < 1000000000, "waiting ends as soon as the variable is set up"); vp_reach(up ? "reset" : "up");
}
HARNESS(h_replace)
{ // the callback of a variable is replaced while another thread notifies
  vp_threads(3, 0, 0); Av v; std::atomic<int> inside{0}; int old = 0, now = 0; bool none = vp::flag("none"); v.SetNotifyCallback([&](const dto::AnyValue&, bool) { inside = 1; ++old; inside = 0; });
  std::thread t([&] { v.change(true); }); if (none) v.SetNotifyCallback({}); else v.SetNotifyCallback([&](const dto::AnyValue&, bool) { ++now; }); CHECK(inside == 0, "a callback that was replaced does not run any more"); int seen = old; t.join(); CHECK(old == seen, "a callback that was replaced is not called again"); CHECK(old + now == 1 || (none && old + now == 0), "an update is heard once"); vp_reach(old ? "before" : "after");
}
HARNESS(h_file)
{ // a variable kept in a file
  Workspace ws("/d/proc.xml"); auto v = GlobalVariableRegistry().Create("File"); v->AddAttribute("file", "v.json"); ws.AddVariable("f", std::move(v)); int n = 0, g = 0, k; dto::AnyValue heard; bool conn = false; std::string name; ws.RegisterCallback("f", [&](const dto::AnyValue& x, bool c) { ++n; heard = x; conn = c; }, &k); ws.RegisterGenericCallback([&](const std::string& s, const dto::AnyValue&, bool) { ++g; name = s; }, &k);
  bool present = vp::flag("present"); auto x = vp::any<int32_t>("stored"), y = vp::any<int32_t>("written"); auto S = [](int32_t i) { return dto::AnyValue({{"x", dto::AnyValue(dto::int32(i))}}); }; if (present) dto::model::PutFile("/d/v.json", S(x)); ws.Setup(); CHECK(n == 1 && g == 1 && conn == present && (!present || heard == S(x)), "set-up tells whether there is a value");
  bool can = vp::flag("writable"); dto::model::SetWritable(can); bool field = vp::flag("field"); bool r = field ? ws.SetValue("f.x", dto::AnyValue(dto::int32(y))) : ws.SetValue("f", S(y)); CHECK(r == (can && (!field || present)), "a file variable is written exactly when that is possible"); CHECK(n == (r ? 2 : 1) && g == n && name == "f", "a write is heard exactly when it is accepted"); if (r) { CHECK(conn && heard == S(y), "listeners hear the new value"); vp_reach("heard"); } else vp_reach("refused");
}

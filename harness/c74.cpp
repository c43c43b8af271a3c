// @entry h_same reach=success,failure,bool,int8,uint8,int16,uint16,int32,uint32,int64,uint64,float32,float64,char8 time=200 qto=20000
// @entry h_mixed reach=success,failure time=300 qto=20000
// @entry h_strings reach=less,equal,greater time=100
// @entry h_structured reach=equal,unequal,unordered time=60
// @entry h_missing reach=left,right,unset time=60
// @entry h_fields reach=done time=60
// @entry h_step reach=incremented,decremented,wrapped time=150 qto=20000
// @entry h_step_other reach=refused time=60
// @entry h_constant reach=done time=60
// @bound h_same: every pair of values of each of the 12 scalar number types (floating point with NaN, infinities and zeros); h_mixed: every pair of values of every two of int8, uint8, int32, uint32, int64, uint64 and float64; h_strings: every pair of texts of up to 2 (thorough 3) characters, all 256 byte values; h_step: every value of every type
// @assume the ordering of values itself is sup-dto's: a stand-in (shims/) compares by mathematical value
#include <oac.h>
#include <cmath>
using namespace oac;
using sup::dto::AnyValue;
#ifdef VP_THOROUGH
static const int kTxt = 3;
#else
static const int kTxt = 2;
#endif
enum Op { EQ, LT, LE, GT, GE }; static const char* kOps[] = {"Equals", "LessThan", "LessThanOrEqual", "GreaterThan", "GreaterThanOrEqual"};
static const char* kTypes[] = {"bool", "char8", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float32", "float64"};
static AnyValue value(int t, const char* n)
{
  using namespace sup::dto;
  switch (t)
  {
    case 0: return AnyValue((boolean)(vp::any<uint8_t>(n) & 1)); case 1: return AnyValue((char8)vp::any<char>(n)); case 2: return AnyValue((int8)vp::any<int8_t>(n)); case 3: return AnyValue((uint8)vp::any<uint8_t>(n)); case 4: return AnyValue((int16)vp::any<int16_t>(n)); case 5: return AnyValue((uint16)vp::any<uint16_t>(n)); case 6: return AnyValue((int32)vp::any<int32_t>(n)); case 7: return AnyValue((uint32)vp::any<uint32_t>(n)); case 8: return AnyValue((int64)vp::any<int64_t>(n)); case 9: return AnyValue((uint64)vp::any<uint64_t>(n)); case 10: return AnyValue((float32)vp::any<float>(n)); default: return AnyValue((float64)vp::any<double>(n));
  }
}
struct Cmp
{ // the five instructions on the same two variables
  Workspace ws; Ui ui; Procedure p; int r[5];
  void run(const std::string& l = "l", const std::string& g = "r") { for (int o = 0; o < 5; o++) { auto i = make(kOps[o]); i->AddAttribute("leftVar", l); i->AddAttribute("rightVar", g); i->Setup(p); i->ExecuteSingle(ui, ws); r[o] = I(*i); CHECK(r[o] == OK || r[o] == BAD, "a comparison ends at once"); } }
  void check(bool eq, bool lt, bool gt) { CHECK((r[EQ] == OK) == eq, "equality"); CHECK((r[LT] == OK) == lt, "less"); CHECK((r[GT] == OK) == gt, "greater"); CHECK((r[LE] == OK) == (lt || eq), "less or equal"); CHECK((r[GE] == OK) == (gt || eq), "greater or equal"); vp_reach(eq || lt ? "success" : "failure"); }
};
template <class T> void same(Cmp& c, const AnyValue& l, const AnyValue& r) { T a = l.As<T>(), b = r.As<T>(); c.check(a == b, a < b, a > b); }
HARNESS(h_same)
{
  int t = vp::choose("type", 12); Cmp c; addVar(c.ws, "l", kTypes[t]); addVar(c.ws, "r", kTypes[t]); c.ws.Setup(); auto l = value(t, "left"), r = value(t, "right"); put(c.ws, "l", l); put(c.ws, "r", r); c.run();
  switch (t) { case 0: same<bool>(c, l, r); break; case 1: same<char>(c, l, r); break; case 2: same<int8_t>(c, l, r); break; case 3: same<uint8_t>(c, l, r); break; case 4: same<int16_t>(c, l, r); break; case 5: same<uint16_t>(c, l, r); break; case 6: same<int32_t>(c, l, r); break; case 7: same<uint32_t>(c, l, r); break; case 8: same<sup::dto::int64>(c, l, r); break; case 9: same<sup::dto::uint64>(c, l, r); break; case 10: same<float>(c, l, r); break; default: same<double>(c, l, r); } vp_reach(kTypes[t]);
  CHECK(get(c.ws, "l").GetType() == l.GetType() && c.ui.logs == 0, "a comparison changes nothing");
}
HARNESS(h_mixed)
{ // values of different types compare by their mathematical value; equality is not claimed across types
  static const int k[] = {2, 3, 6, 7, 8, 9, 11}; int t = k[vp::choose("left type", 7)], u = k[vp::choose("right type", 7)]; vp_assume(t != u); Cmp c; addVar(c.ws, "l", kTypes[t]); addVar(c.ws, "r", kTypes[u]); c.ws.Setup(); auto l = value(t, "left"), r = value(u, "right"); put(c.ws, "l", l); put(c.ws, "r", r); c.run(); bool lt, gt, eq;
  if (t == 11 || u == 11) { vp_assume(t != 8 && t != 9 && u != 8 && u != 9); double a = l.As<double>(), b = r.As<double>(); lt = a < b; gt = a > b; eq = a == b; } else { __int128 a = t & 1 ? (__int128)l.As<sup::dto::uint64>() : (__int128)l.As<sup::dto::int64>(), b = u & 1 ? (__int128)r.As<sup::dto::uint64>() : (__int128)r.As<sup::dto::int64>(); lt = a < b; gt = a > b; eq = a == b; }
  CHECK((c.r[LT] == OK) == lt && (c.r[GT] == OK) == gt, "numbers of different types compare by value"); CHECK((c.r[LE] == OK) == (lt || eq) && (c.r[GE] == OK) == (gt || eq), "or-equal includes equal values"); vp_reach(lt ? "success" : "failure");
}
HARNESS(h_strings)
{
  Cmp c; addVar(c.ws, "l", "string"); addVar(c.ws, "r", "string"); c.ws.Setup(); auto a = vp::str("left", 0, kTxt), b = vp::str("right", 0, kTxt); put(c.ws, "l", AnyValue(a)); put(c.ws, "r", AnyValue(b)); c.run(); int d = 0; for (size_t i = 0; !d; i++) { if (i == a.size() || i == b.size()) { d = a.size() == b.size() ? 0 : a.size() < b.size() ? -1 : 1; break; } d = (unsigned char)a[i] < (unsigned char)b[i] ? -1 : (unsigned char)a[i] > (unsigned char)b[i] ? 1 : 0; } c.check(d == 0, d < 0, d > 0); vp_reach(d < 0 ? "less" : d ? "greater" : "equal");
}
static const char* kS1 = "{\"type\":\"S\",\"attributes\":[{\"a\":{\"type\":\"int32\"}},{\"b\":{\"type\":\"string\"}}]}"; static const char* kS2 = "{\"type\":\"S\",\"attributes\":[{\"a\":{\"type\":\"int32\"}}]}"; static const char* kA1 = "{\"type\":\"\",\"multiplicity\":2,\"element\":{\"type\":\"int32\"}}"; static const char* kA2 = "{\"type\":\"\",\"multiplicity\":1,\"element\":{\"type\":\"int32\"}}";
HARNESS(h_structured)
{ // structures and arrays are equal when type and all fields are, and have no order
  static const char* t[] = {kS1, kS2, kA1, kA2}; int k = vp::choose("left", 4), m = vp::choose("right", 4); Cmp c; addVar(c.ws, "l", t[k]); addVar(c.ws, "r", t[m]); c.ws.Setup(); auto a = vp::any<int32_t>("a"), b = vp::any<int32_t>("b"), d = vp::any<int32_t>("c"), e = vp::any<int32_t>("d"); auto fill = [&](const char* n, int q, int32_t x, int32_t y) { auto f = std::string(n); if (q < 2) put(c.ws, f + ".a", AnyValue(sup::dto::int32(x))); else put(c.ws, f + "[0]", AnyValue(sup::dto::int32(x))); if (q == 2) put(c.ws, f + "[1]", AnyValue(sup::dto::int32(y))); }; fill("l", k, a, b); fill("r", m, d, e);
  c.run(); bool eq = k == m && a == d && (k != 2 || b == e); CHECK((c.r[EQ] == OK) == eq, "structures are equal exactly when all their fields are"); CHECK(c.r[LT] == BAD && c.r[GT] == BAD, "structures have no order"); CHECK(c.r[LE] == BAD && c.r[GE] == BAD, "structures have no order"); vp_reach(eq ? "equal" : "unequal"); vp_reach("unordered");
}
HARNESS(h_missing)
{ // a comparison with a variable that has no value fails
  Cmp c; bool l = vp::flag("left"), r = vp::flag("right"); vp_assume(!l || !r); bool there = vp::flag("unset"); if (l) addVar(c.ws, "l", "uint8"); if (r) addVar(c.ws, "r", "uint8"); c.ws.Setup(); if (there) { if (!l) addVar(c.ws, "l", "uint8"); if (!r) addVar(c.ws, "r", "uint8"); vp_reach("unset"); } c.run(); for (int o = 0; o < 5; o++) CHECK(c.r[o] == BAD, "a comparison without both values fails"); CHECK(c.ui.logs == 5, "a missing value is reported"); if (!l) vp_reach("left"); if (!r) vp_reach("right");
}
HARNESS(h_fields)
{
  Cmp c; addVar(c.ws, "s", kS1); addVar(c.ws, "t", kA1); c.ws.Setup(); auto a = vp::any<int32_t>("a"), b = vp::any<int32_t>("b"); put(c.ws, "s.a", AnyValue(sup::dto::int32(a))); put(c.ws, "t[1]", AnyValue(sup::dto::int32(b))); c.run("s.a", "t[1]"); c.check(a == b, a < b, a > b); c.run("s.a", "s.a"); c.check(true, false, false); c.run("s.x", "s.a"); for (int o = 0; o < 5; o++) CHECK(c.r[o] == BAD, "a field that does not exist has no value"); vp_reach("done");
}
template <class T, class U> void stepped(Workspace& ws, const AnyValue& before, bool inc) { T v = before.As<T>(), w = get(ws, "v").As<T>(); CHECK(get(ws, "v").GetType() == before.GetType(), "the type is kept"); U want = inc ? (U)((U)v + (U)1) : (U)((U)v - (U)1); CHECK((U)w == want, "a step changes the value by exactly one"); if (inc ? w < v : w > v) vp_reach("wrapped"); }
HARNESS(h_step)
{
  int t = 1 + vp::choose("type", 11); Workspace ws; Ui ui; Procedure p; addVar(ws, "v", kTypes[t]); addVar(ws, "o", kTypes[t]); ws.Setup(); auto v = value(t, "value"); put(ws, "v", v); put(ws, "o", v); bool inc = vp::flag("increment"); auto i = make(inc ? "Increment" : "Decrement"); i->AddAttribute("varName", "v"); i->Setup(p); i->ExecuteSingle(ui, ws); CHECK(I(*i) == OK && ui.logs == 0, "a number can be stepped"); vp_reach(inc ? "incremented" : "decremented");
  switch (t) { case 1: stepped<char, uint8_t>(ws, v, inc); break; case 2: stepped<int8_t, uint8_t>(ws, v, inc); break; case 3: stepped<uint8_t, uint8_t>(ws, v, inc); break; case 4: stepped<int16_t, uint16_t>(ws, v, inc); break; case 5: stepped<uint16_t, uint16_t>(ws, v, inc); break; case 6: stepped<int32_t, uint32_t>(ws, v, inc); break; case 7: stepped<uint32_t, uint32_t>(ws, v, inc); break; case 8: stepped<sup::dto::int64, uint64_t>(ws, v, inc); break; case 9: stepped<sup::dto::uint64, uint64_t>(ws, v, inc); break; case 10: { float a = v.As<float>(), b = get(ws, "v").As<float>(); CHECK(a != a ? b != b : b == (inc ? a + 1.0f : a - 1.0f), "a step changes the value by one"); break; } default: { double a = v.As<double>(), b = get(ws, "v").As<double>(); CHECK(a != a ? b != b : b == (inc ? a + 1.0 : a - 1.0), "a step changes the value by one"); } }
  if (t < 10) CHECK(get(ws, "o") == v, "other variables are unchanged"); i->ExecuteSingle(ui, ws); if (t < 10) { auto w = get(ws, "v"); i->ExecuteSingle(ui, ws); CHECK(get(ws, "v") == w, "a step that ended is not repeated"); i->Reset(ui); i->ExecuteSingle(ui, ws); CHECK(get(ws, "v") != w && I(*i) == OK, "a step can be done again after a reset"); }
}
HARNESS(h_step_other)
{ // variables that are no numbers or have no value are refused and unchanged
  static const char* t[] = {"bool", "string", kS1, kA1, "", "?"}; int k = vp::choose("type", 6); Workspace ws; Ui ui; Procedure p; if (k < 5) addVar(ws, "v", t[k]); ws.Setup(); if (k == 0) put(ws, "v", AnyValue((sup::dto::boolean)vp::flag("value"))); AnyValue before; bool has = ws.GetValue("v", before); auto i = make(vp::flag("increment") ? "Increment" : "Decrement"); i->AddAttribute("varName", vp::flag("field") && k == 2 ? "v.b" : "v"); i->Setup(p); i->ExecuteSingle(ui, ws); CHECK(I(*i) == BAD && ui.logs > 0, "only numbers are stepped"); AnyValue after; CHECK(ws.GetValue("v", after) == has && (!has || after == before), "a refused variable is unchanged"); vp_reach("refused");
}
struct Fixed : Variable { AnyValue v; Fixed() : Variable("Fixed"), v(sup::dto::uint8(7)) {} bool GetValueImpl(AnyValue& o) const override { return sup::dto::TryAssign(o, v); } bool SetValueImpl(const AnyValue&) override { return false; } };
HARNESS(h_constant)
{ // a variable that cannot be written makes the step fail
  Workspace ws; Ui ui; Procedure p; auto f = std::make_unique<Fixed>(); auto pf = f.get(); ws.AddVariable("v", std::move(f)); ws.Setup(); auto i = make(vp::flag("increment") ? "Increment" : "Decrement"); i->AddAttribute("varName", "v"); i->Setup(p); i->ExecuteSingle(ui, ws); CHECK(I(*i) == BAD && ui.logs > 0 && pf->v == AnyValue(sup::dto::uint8(7)), "a step that cannot be written fails"); vp_reach("done");
}

// @repo base/generic_utils.cpp
// @flags -Ddlopen=vp_dlopen -Ddlclose=vp_dlclose
// @entry h_copy reach=copied,refused,field time=200
// @entry h_copy_convert reach=copied,refused time=100 qto=20000
// @entry h_element reach=added,refused,nonarray,type,fixed,missing time=100
// @entry h_element_structure reach=added,refused time=60
// @entry h_member reach=added,refused,present,nonstruct,fixed,empty,missing time=100
// @entry h_tests reach=exists,missing,true,false,other time=150
// @entry h_reset reach=reset,missing time=60
// @entry h_procedures reach=from,to,missing time=100
// @entry h_output reach=shown,refused,unknown,described time=60
// @entry h_input reach=waiting,written,refused,wrong,unsupported,missing,halted time=150
// @entry h_input_threads reach=done time=60
// @entry h_messages reach=message,log,severity,refused time=60
// @entry h_refused reach=copy,element,member,input,written,refused time=60
// @bound h_refused: Copy, AddElement, AddMember and Input into a variable that accepts or refuses what is written to it; h_copy: every source and target of 9 variables and fields (scalar, structure, nested, array, untyped, dynamic, unset, missing) with every 32-bit content; h_copy_convert: every value of 6 number types into every other; h_element, h_member: every kind of input and output, member names of up to 2 letters; h_input: every reply, arriving at any of 3 polls; h_input_threads: every schedule of a halt with up to 3 preemptions
// @assume shims stand in for sup-dto and sup-xml; conversions between value types are the stand-in's: a number converts exactly when the target type can hold it
#include <oac.h>
#include <rt_threads.h>
#include <thread>
#include <sup/oac-tree/procedure_context.h>
#include <sup/oac-tree/parser/procedure_parser.h>
#include <sup/oac-tree/log_severity.h>
#include <sup/xml/tree_data.h>
using namespace oac;
using sup::dto::AnyValue; using sup::xml::TreeData;
namespace dto = sup::dto;
namespace sup { namespace xml { namespace model { void PutFile(const std::string&, const TreeData&); } } }
extern "C" void* vp_dlopen(const char*, int) { return nullptr; }
extern "C" int vp_dlclose(void*) { return 0; }
#ifdef VP_THOROUGH
static const int kP = 4;
#else
static const int kP = 3;
#endif
static const char* kS = "{\"type\":\"S\",\"attributes\":[{\"x\":{\"type\":\"int32\"}},{\"n\":{\"type\":\"T\",\"attributes\":[{\"y\":{\"type\":\"int32\"}}]}}]}"; static const char* kA = "{\"type\":\"\",\"multiplicity\":2,\"element\":{\"type\":\"int32\"}}";
static AnyValue i32(int32_t v) { return AnyValue(dto::int32(v)); }
typedef std::vector<std::pair<bool, AnyValue>> Snap;
static const char* kVars[] = {"i", "j", "s", "t", "a", "u", "d", "late"};
struct W
{ // variables of every kind; two of them are structures of the same type
  Workspace ws; Ui ui; Procedure p;
  W()
  {
    addVar(ws, "i", "int32"); addVar(ws, "j", "uint8"); addVar(ws, "s", kS); addVar(ws, "t", kS); addVar(ws, "a", kA); addVar(ws, "u"); auto d = localVar("int32"); d->AddAttribute("dynamicType", "true"); ws.AddVariable("d", std::move(d)); ws.Setup(); addVar(ws, "late", "int32");
    put(ws, "i", i32(vp::any<int32_t>("i"))); put(ws, "s.x", i32(vp::any<int32_t>("s.x"))); put(ws, "s.n.y", i32(7)); put(ws, "t.n.y", i32(vp::any<int32_t>("t.n.y"))); put(ws, "a[1]", i32(vp::any<int32_t>("a[1]"))); put(ws, "j", AnyValue(dto::uint8(vp::any<uint8_t>("j"))));
  }
  Snap snap() { Snap r; for (auto n : kVars) { AnyValue v; bool ok = ws.GetValue(n, v); r.push_back({ok, v}); } return r; }
  void untouched(const Snap& b, int except = -1) { auto n = snap(); for (size_t k = 0; k < b.size(); k++) if ((int)k != except) CHECK(n[k].first == b[k].first && (!n[k].first || n[k].second == b[k].second), "other variables are unchanged"); }
  int run(const std::string& type, const std::vector<std::pair<std::string, std::string>>& a) { auto x = make(type); for (auto& k : a) x->AddAttribute(k.first, k.second); x->Setup(p); x->ExecuteSingle(ui, ws); int s = I(*x); CHECK(s == OK || s == BAD, "an action ends at once"); x->ExecuteSingle(ui, ws); CHECK(I(*x) == s, "an ended action is not repeated"); return s; }
};
static int index(const std::string& n) { auto v = SplitFieldName(n).first; for (int k = 0; k < 8; k++) if (v == kVars[k]) return k; return -1; }
HARNESS(h_copy)
{
  static const char* name[] = {"i", "s", "s.n", "s.n.y", "t", "t.n", "t.x", "a", "a[0]", "u", "d", "late", "none", "s.none", "a[2]"}; enum { K_INT, K_S, K_T, K_A, K_UNSET, K_NONE }; static const int kind[] = {K_INT, K_S, K_T, K_INT, K_S, K_T, K_INT, K_A, K_INT, K_UNSET, K_INT, K_NONE, K_NONE, K_NONE, K_NONE}; int f = vp::choose("from", 15), t = vp::choose("to", 15); W w; auto before = w.snap(); AnyValue v; bool has = w.ws.GetValue(name[f], v); CHECK(has == (kind[f] != K_NONE && kind[f] != K_UNSET), "a value can be read exactly when there is one");
  int r = w.run("Copy", {{"inputVar", name[f]}, {"outputVar", name[t]}}); bool any = t == 9 || t == 10; bool ok = has && kind[t] != K_NONE && (any || kind[f] == kind[t]); CHECK(r == (ok ? OK : BAD), "a copy succeeds exactly when the value is there and fits"); w.untouched(before, ok ? index(name[t]) : -1);
  if (!ok) { CHECK(w.ui.logs > 0, "a refused copy is reported"); vp_reach("refused"); return; } AnyValue n; CHECK(w.ws.GetValue(name[t], n) && n == v, "the target has the value of the source"); vp_reach("copied");
  auto check = [&](const char* fld, int at) { if (t == at || std::string(name[t]).find(fld) == 0) return; AnyValue o = before[(size_t)index(fld)].second, q; std::string sub = SplitFieldName(fld).second; if (std::string(fld).find(name[t]) == 0) return; CHECK(w.ws.GetValue(fld, q) && q == o[sub], "other fields are unchanged"); vp_reach("field"); }; check("s.x", -1); check("s.n.y", 3); check("t.x", 6); check("t.n.y", -1); check("a[0]", 8); check("a[1]", -1);
}
HARNESS(h_copy_convert)
{ // a number is copied into a variable of another number type exactly when it fits
  static const char* type[] = {"int8", "uint8", "int32", "uint32", "int64", "uint64"}; static const dto::int64 lo[] = {-128, 0, INT32_MIN, 0, INT64_MIN, 0}; static const dto::uint64 hi[] = {127, 255, INT32_MAX, UINT32_MAX, INT64_MAX, UINT64_MAX}; int f = vp::choose("from", 6), t = vp::choose("to", 6); Workspace ws; Ui ui; Procedure p; addVar(ws, "f", type[f]); addVar(ws, "t", type[t]); ws.Setup(); uint64_t b = vp::any<uint64_t>("value"); AnyValue v; dto::int64 s = 0; bool neg = false;
  switch (f) { case 0: v = AnyValue(dto::int8((int8_t)b)); s = (int8_t)b; break; case 1: v = AnyValue(dto::uint8((uint8_t)b)); s = (uint8_t)b; break; case 2: v = i32((int32_t)b); s = (int32_t)b; break; case 3: v = AnyValue(dto::uint32((uint32_t)b)); s = (uint32_t)b; break; case 4: v = AnyValue(dto::int64(b)); s = (dto::int64)b; break; default: v = AnyValue(dto::uint64(b)); s = (dto::int64)b; } neg = f != 5 && s < 0; put(ws, "f", v); auto before = get(ws, "t");
  auto x = make("Copy"); x->AddAttribute("inputVar", "f"); x->AddAttribute("outputVar", "t"); x->Setup(p); x->ExecuteSingle(ui, ws); bool fits = neg ? s >= lo[t] : (dto::uint64)s <= hi[t]; CHECK((I(*x) == OK) == fits, "a number is copied exactly when it fits"); auto n = get(ws, "t"); CHECK(n.GetType() == before.GetType() && get(ws, "f") == v, "types and source are unchanged"); if (fits) { CHECK(t == 5 ? n.As<dto::uint64>() == (dto::uint64)s : n.As<dto::int64>() == s, "the copied number has the same value"); vp_reach("copied"); } else { CHECK(n == before, "a number that does not fit changes nothing"); vp_reach("refused"); }
}
HARNESS(h_element)
{
  static const char* out[] = {"arr", "s.arr", "fix", "i", "s", "none", "arr[0]"}; static const char* in[] = {"i", "j", "s", "none", "arr", "arr[0]"}; int o = vp::choose("output", 7), n = vp::choose("input", 6); Workspace ws; Ui ui; Procedure p; auto dyn = [&](const char* name, const char* type) { auto v = localVar(type); v->AddAttribute("dynamicType", "true"); ws.AddVariable(name, std::move(v)); }; int len = 1 + vp::choose("elements", 2); dyn("arr", len == 1 ? "{\"type\":\"\",\"multiplicity\":1,\"element\":{\"type\":\"int32\"}}" : kA); dyn("s", "{\"type\":\"S\",\"attributes\":[{\"arr\":{\"type\":\"\",\"multiplicity\":1,\"element\":{\"type\":\"int32\"}}}]}"); addVar(ws, "fix", kA); addVar(ws, "i", "int32"); addVar(ws, "j", "uint8"); ws.Setup(); auto a = vp::any<int32_t>("element"); put(ws, "i", i32(a)); put(ws, "arr[0]", i32(vp::any<int32_t>("first"))); AnyValue b; bool has = ws.GetValue(out[o], b); auto whole = get(ws, "arr"), ws2 = get(ws, "s"), fx = get(ws, "fix");
  auto x = make("AddElement"); x->AddAttribute("inputVar", in[n]); x->AddAttribute("outputVar", out[o]); x->Setup(p); x->ExecuteSingle(ui, ws); bool fits = n == 0 || n == 5, ok = o == 0 && fits; int r = I(*x); AnyValue after; bool has2 = ws.GetValue(out[o], after); CHECK(has == has2, "the output is not removed");
  if (o != 1) CHECK((r == OK) == ok, "an element is added exactly to an array that can grow"); CHECK(r == OK || r == BAD, "an action ends at once");
  if (r == OK) { CHECK(fits && (o == 0 || o == 1), "an element is only added to arrays of its type"); CHECK(after.NumberOfElements() == b.NumberOfElements() + 1, "one element is added"); for (size_t k = 0; k < b.NumberOfElements(); k++) CHECK(after[k] == b[k], "the other elements are unchanged"); CHECK(after[b.NumberOfElements()] == (n == 5 ? whole[(size_t)0] : i32(a)), "the added element is the input"); if (o == 0) vp_reach("added"); } else { CHECK(!has || after == b, "a refused addition changes nothing"); CHECK(ui.logs > 0, "a refused addition is reported"); vp_reach("refused"); if (o == 2 && fits) vp_reach("fixed"); if (o == 3) vp_reach("nonarray"); if (n == 1 && o == 0) vp_reach("type"); if (n == 3 || o == 5) vp_reach("missing"); }
  if (o != 0 && o != 6) CHECK(get(ws, "arr") == whole, "other variables are unchanged"); if (o != 1) CHECK(get(ws, "s") == ws2, "other variables are unchanged"); CHECK(get(ws, "fix") == fx && get(ws, "i") == i32(a), "other variables are unchanged");
}
HARNESS(h_element_structure)
{ // elements that are structures
  static const char* type[] = {"{\"type\":\"S\",\"attributes\":[{\"x\":{\"type\":\"int32\"}}]}", "{\"type\":\"S\",\"attributes\":[{\"y\":{\"type\":\"int32\"}}]}", "{\"type\":\"S\",\"attributes\":[{\"x\":{\"type\":\"int64\"}}]}", "{\"type\":\"T\",\"attributes\":[{\"x\":{\"type\":\"int32\"}}]}", "{\"type\":\"S\",\"attributes\":[{\"x\":{\"type\":\"int32\"}},{\"y\":{\"type\":\"int32\"}}]}", "int32"}; int n = vp::choose("input", 6); Workspace ws; Ui ui; Procedure p; auto v = localVar(std::string("{\"type\":\"\",\"multiplicity\":1,\"element\":") + type[0] + "}"); v->AddAttribute("dynamicType", "true"); ws.AddVariable("arr", std::move(v)); addVar(ws, "e", type[n]); ws.Setup(); auto x = vp::any<int32_t>("element"); if (n == 0) put(ws, "e.x", i32(x)); auto before = get(ws, "arr"), e = get(ws, "e"); auto i = make("AddElement"); i->AddAttribute("inputVar", "e"); i->AddAttribute("outputVar", "arr"); i->Setup(p);
  bool escaped = false; try { i->ExecuteSingle(ui, ws); } catch (const std::exception&) { escaped = true; } CHECK(!escaped, "an element that does not fit fails the instruction"); CHECK(I(*i) == (n == 0 ? OK : BAD), "an element is only added to an array of its type"); auto after = get(ws, "arr"); if (n == 0) { CHECK(after.NumberOfElements() == 2 && after[(size_t)0] == before[(size_t)0] && after[(size_t)1] == e, "the added element is the input"); vp_reach("added"); } else { CHECK(after == before && ui.logs > 0, "a refused addition changes nothing and is reported"); vp_reach("refused"); }
}
HARNESS(h_member)
{
  static const char* out[] = {"dyn", "fix", "i", "none", "dyn.n"}; int o = vp::choose("output", 5), n = vp::choose("input", 4); static const char* in[] = {"i", "fix", "none", "dyn.xy"}; W w; auto d = localVar("{\"type\":\"S\",\"attributes\":[{\"xy\":{\"type\":\"int32\"}},{\"n\":{\"type\":\"T\",\"attributes\":[{\"y\":{\"type\":\"int32\"}}]}}]}"); d->AddAttribute("dynamicType", "true"); w.ws.AddVariable("dyn", std::move(d)); addVar(w.ws, "fix", kS); w.ws.Teardown(); w.ws.Setup(); put(w.ws, "dyn.xy", i32(vp::any<int32_t>("x"))); auto name = vp::str("member", 0, 2); for (char c : name) vp_assume(c >= 'a' && c <= 'z'); auto before = w.snap(); auto b = get(w.ws, "dyn"), fx = get(w.ws, "fix"); AnyValue src; bool has = w.ws.GetValue(in[n], src);
  int r = w.run("AddMember", {{"inputVar", in[n]}, {"outputVar", out[o]}, {"memberName", name}}); w.untouched(before); CHECK(get(w.ws, "fix") == fx, "other variables are unchanged"); bool ok = has && o == 0 && !name.empty() && name != "xy" && name != "n"; if (o != 4) CHECK((r == OK) == ok, "a member is added exactly to a structure that can grow and does not have it");
  auto a = get(w.ws, "dyn"); if (r == OK) { CHECK(o == 0 || o == 4, "only structures of dynamic type grow"); if (o == 4) { CHECK(has && !name.empty() && name != "y" && a["xy"] == b["xy"] && a["n"]["y"] == b["n"]["y"] && a["n"][name] == src && a["n"].NumberOfMembers() == 2 && a.NumberOfMembers() == 2, "the new member is the input and the others are unchanged"); return; } auto m = a.MemberNames(); CHECK(m.size() == 3 && m[0] == "xy" && m[1] == "n" && m[2] == name, "one member is added after the others"); CHECK(a["xy"] == b["xy"] && a["n"] == b["n"] && a[name] == src, "the new member is the input and the others are unchanged"); vp_reach("added"); return; }
  CHECK(a == b, "a refused addition changes nothing"); CHECK(w.ui.logs > 0, "a refused addition is reported"); vp_reach("refused"); if (name == "xy" && o == 0 && has) vp_reach("present"); if (o == 2 && has) vp_reach("nonstruct"); if (o == 1 && has) vp_reach("fixed"); if (name.empty()) vp_reach("empty"); if (!has || o == 3) vp_reach("missing");
}
HARNESS(h_tests)
{
  W w; addVar(w.ws, "b", "bool"); addVar(w.ws, "txt", "string"); addVar(w.ws, "f", "float64"); w.ws.Teardown(); w.ws.Setup(); auto i = vp::any<int32_t>("i"); auto b = vp::flag("b"); auto f = vp::any<double>("f"); put(w.ws, "i", i32(i)); put(w.ws, "b", AnyValue((dto::boolean)b)); put(w.ws, "f", AnyValue(dto::float64(f))); put(w.ws, "s.n.y", i32(i)); addVar(w.ws, "later", "bool");
  static const char* name[] = {"i", "b", "f", "s.n.y", "s.n", "s", "a", "a[1]", "u", "later", "none", "s.q", "i.q", "a[9]", "txt"}; int k = vp::choose("name", 15); auto before = w.snap(); bool has = k < 8 || k == 14; int r = w.run("VarExists", {{"varName", name[k]}}); CHECK(r == (has ? OK : BAD), "existence is tested"); vp_reach(has ? "exists" : "missing"); int logs = w.ui.logs; r = w.run("Condition", {{"varName", name[k]}}); bool scalar = k < 4; bool truth = k == 1 ? b : k == 2 ? f != 0.0 : i != 0; if (scalar) { CHECK(r == (truth ? OK : BAD), "a condition is the truth of its variable"); CHECK(w.ui.logs == logs, "a condition that is false is no error"); vp_reach(truth ? "true" : "false"); } else if (k != 7) { CHECK(r == BAD && w.ui.logs > logs, "what is no truth value is refused"); vp_reach("other"); } w.untouched(before);
}
HARNESS(h_reset)
{
  W w; auto v = localVar("int32"); v->AddAttribute("value", "42"); w.ws.AddVariable("v", std::move(v)); w.ws.ResetVariable("v"); put(w.ws, "v", i32(vp::any<int32_t>("v"))); auto before = w.snap(); auto vb = get(w.ws, "v"); static const char* name[] = {"v", "i", "none", "v.x", "u"}; int k = vp::choose("name", 5); if (k == 4) { put(w.ws, "u", i32(1)); before = w.snap(); } int r = w.run("ResetVariable", {{"varName", name[k]}}); bool known = k != 2 && k != 3; CHECK(r == (known ? OK : BAD), "exactly a known variable is reset"); w.untouched(before, k == 1 ? 0 : k == 4 ? 5 : -1); CHECK(get(w.ws, "v") == (k == 0 ? i32(42) : vb), "a reset variable has its initial value"); if (k == 1) CHECK(get(w.ws, "i") == i32(0), "a reset variable has its initial value"); AnyValue u; if (k == 4) CHECK(!w.ws.GetValue("u", u), "a reset variable without initial value has none"); vp_reach(known ? "reset" : "missing");
}
HARNESS(h_procedures)
{ // copies from and to the variables of another procedure
  auto el = [](const char* t, const std::vector<std::pair<std::string, std::string>>& a) { TreeData d(t); for (auto& x : a) d.AddAttribute(x.first, x.second); return d; }; bool to = vp::flag("to"), mine = vp::flag("own has it"), other = vp::flag("other has it"); TreeData ws("Workspace"); ws.AddChild(el("Local", {{"name", other ? "o" : "q"}, {"type", "{\"type\":\"int32\"}"}, {"value", "5"}})); TreeData sub("Procedure"); sub.AddChild(ws); sup::xml::model::PutFile("d/sub", sub); Procedure p("d/main"); addVar(p.GetWorkspace(), mine ? "m" : "q", "int32"); auto x = make(to ? "CopyToProcedure" : "CopyFromProcedure"); x->AddAttribute("file", "sub"); x->AddAttribute("inputVar", to ? "m" : "o"); x->AddAttribute("outputVar", to ? "o" : "m"); auto px = x.get(); p.PushInstruction(std::move(x)); p.Setup(); auto& w = p.GetWorkspace(); auto& o = p.GetContext().GetWorkspace("d/sub"); auto v = vp::any<int32_t>("mine"), u = vp::any<int32_t>("other"); put(w, mine ? "m" : "q", i32(v)); bool init = vp::flag("initial"); if (!init) put(o, other ? "o" : "q", i32(u)); else u = 5; Ui ui; p.ExecuteSingle(ui);
  bool ok = mine && other; CHECK(I(*px) == (ok ? OK : BAD), "a copy between procedures succeeds exactly when both variables are there"); CHECK(get(w, mine ? "m" : "q") == i32(ok && !to ? u : v) && get(o, other ? "o" : "q") == i32(ok && to ? v : u), "exactly the output variable changes"); if (!ok) vp_reach("missing"); else vp_reach(to ? "to" : "from"); p.Reset(ui); CHECK(get(o, other ? "o" : "q") == i32(5), "a reset restores the other procedure's variables");
}
struct OutUi : Ui { std::vector<std::pair<AnyValue, std::string>> put; bool accept = true; bool PutValue(const AnyValue& v, const std::string& d) override { put.push_back({v, d}); return accept; } };
HARNESS(h_output)
{
  W w; OutUi ui; ui.accept = vp::flag("accepted"); static const char* name[] = {"i", "s.n", "a", "u", "none"}; int k = vp::choose("name", 5); int d = vp::choose("description", 4); addVar(w.ws, "txt", "string"); w.ws.ResetVariable("txt"); auto text = vp::str("text", 0, 2); put(w.ws, "txt", AnyValue(text)); auto x = make("Output"); x->AddAttribute("fromVar", name[k]); std::string want; if (d == 1) { x->AddAttribute("description", "lit"); want = "lit"; } if (d == 2) { x->AddAttribute("description", "@txt"); want = text; } if (d == 3) x->AddAttribute("description", "@gone"); x->Setup(w.p); auto before = w.snap(); x->ExecuteSingle(ui, w.ws); bool show = k < 3 && d != 3; CHECK(ui.put.size() == (show ? 1u : 0u), "a value is shown once"); CHECK(I(*x) == (show && ui.accept ? OK : BAD), "an output succeeds exactly when its value was shown"); w.untouched(before); if (show) { CHECK(ui.put[0].first == get(w.ws, name[k]) && ui.put[0].second == want, "the value and description are shown"); vp_reach(ui.accept ? "shown" : "refused"); if (d) vp_reach("described"); } else vp_reach("unknown");
}
HARNESS(h_input)
{
  InUi ui; W w; static const char* name[] = {"i", "s.n.y", "u", "none", "j"}; int k = vp::choose("name", 5); int d = vp::choose("description", 3); auto x = make("Input"); x->AddAttribute("outputVar", name[k]); if (d == 1) x->AddAttribute("description", "lit"); if (d == 2) x->AddAttribute("description", "@gone"); x->Setup(w.p); ui.supported = !vp::flag("unsupported"); ui.late = true; int kind = vp::choose("reply", 4); auto v = vp::any<int32_t>("value"); ui.reply = kind == 0 ? CreateUserValueReply(true, i32(v)) : kind == 1 ? CreateUserValueReply(false, i32(v)) : kind == 2 ? CreateUserChoiceReply(true, 0) : CreateUserValueReply(true, AnyValue("text")); auto before = w.snap(); bool can = (k < 2 || k == 4) && d != 2; bool halt = vp::flag("halt");
  for (int t = 0; t < 3; t++)
  {
    bool fin = IsFinishedStatus(x->GetStatus()); int s0 = I(*x); if (t == 1 && halt) { x->Halt(); CHECK(ui.alive == 0, "a halt withdraws the request"); } x->ExecuteSingle(ui, w.ws); int s = I(*x); if (fin) { CHECK(s == s0, "the end is kept"); continue; }
    CHECK(ui.requests.size() == (can ? 1u : 0u), "the value is requested once"); if (!can || !ui.supported) { CHECK(s == BAD, "an input that cannot be asked for fails"); vp_reach(can ? "unsupported" : "missing"); w.untouched(before); continue; }
    if (t >= 1 && halt) { CHECK(s != OK, "a halted input does not succeed"); w.untouched(before); vp_reach("halted"); continue; }
    if (!ui.ready) { CHECK(s == RUN, "an input waits for its answer"); w.untouched(before); vp_reach("waiting"); continue; }
    bool ok = kind == 0 && (k != 4 || (v >= 0 && v <= 255)); CHECK(s == (ok ? OK : BAD), "an input succeeds exactly with a value that fits"); w.untouched(before, ok ? index(name[k]) : -1); if (ok) { CHECK(get(w.ws, name[k]).As<dto::int64>() == v, "the variable has the value"); vp_reach("written"); } else vp_reach(kind == 0 || kind == 3 ? "refused" : "wrong");
  }
  if (can) { CHECK(ui.requests[0].m_request_type == InputRequestType::kUserValue, "a value is requested"); } x->Reset(ui); CHECK(ui.alive == 0 && I(*x) == NS, "no request is left");
}
HARNESS(h_input_threads)
{
  vp_threads(kP, 0, 0); vp_set_timeouts(0); InUi ui; Workspace ws; Procedure p; addVar(ws, "v", "int32"); ws.Setup(); auto c = make("Input"); c->AddAttribute("outputVar", "v"); c->Setup(p); ui.reply = CreateUserValueReply(true, i32(3)); ui.ready = vp::flag("ready"); std::thread h([&] { c->Halt(); }); for (int i = 0; i < 2; i++) c->ExecuteSingle(ui, ws); h.join(); if (!ui.ready) { CHECK(ui.alive == 0, "a halt withdraws the request"); CHECK(I(*c) != OK && get(ws, "v") == i32(0), "no answer is invented"); } else CHECK((I(*c) == OK) == (get(ws, "v") == i32(3)), "the value is written exactly on success"); c->Reset(ui); CHECK(ui.alive == 0, "no request is left"); vp_reach("done");
}
struct LogUi : Ui { std::vector<std::pair<int, std::string>> log; void Log(int s, const std::string& m) override { log.push_back({s, m}); } };
HARNESS(h_messages)
{ // messages and log entries carry exactly the given text
  W w; LogUi ui; addVar(w.ws, "txt", "string"); w.ws.ResetVariable("txt"); auto text = vp::str("text", 0, 2); put(w.ws, "txt", AnyValue(text)); int src = vp::choose("source", 3); bool log = vp::flag("log"); auto x = make(log ? "Log" : "Message"); auto lit = vp::str("literal", 1, 2); vp_assume(lit[0] != '@'); if (log) { x->AddAttribute("message", src == 1 ? "@txt" : src == 2 ? "@gone" : lit); } else x->AddAttribute("text", src == 1 ? "@txt" : src == 2 ? "@gone" : lit); auto want = src == 1 ? text : lit; static const char* sev[] = {"emergency", "alert", "critical", "error", "warning", "notice", "info", "debug", "trace"}; int q = log ? vp::choose("severity", 12) - 1 : -1; if (q >= 0) x->AddAttribute("severity", q < 9 ? sev[q] : q == 9 ? "loud" : "@gone"); int in = log ? vp::choose("input", 3) : 0; std::string shown = want; if (in) { int y = vp::choose("number", 3) * 40; put(w.ws, "i", AnyValue(dto::int32(y))); x->AddAttribute("inputVar", in == 1 ? "i" : "gone"); shown += std::to_string(y); } x->Setup(w.p); x->ExecuteSingle(ui, w.ws); bool ok = src != 2 && (!log || (q < 9 && in != 2)); CHECK(I(*x) == (ok ? OK : BAD), "a text is given out exactly when it is there");
  if (!ok) { CHECK(ui.messages.empty(), "a refused text is not given out"); vp_reach("refused"); return; } if (!log) { CHECK(ui.messages.size() == 1 && ui.messages[0] == want && ui.log.empty(), "the text is shown once"); vp_reach("message"); } else { CHECK(ui.log.size() == 1 && ui.log[0].second == shown && ui.messages.empty(), "the text is logged once, followed by the value"); CHECK(ui.log[0].first == (q < 0 ? 6 : q), "the text is logged with its severity"); vp_reach(q < 0 ? "log" : "severity"); }
}
struct Gate : Variable
{ // a variable that takes any value, or none
  AnyValue v; bool ok; int writes = 0; Gate(const AnyValue& i, bool a) : Variable("Gate"), v(i), ok(a) {}
  bool GetValueImpl(AnyValue& o) const override { return sup::dto::TryAssign(o, v); } bool SetValueImpl(const AnyValue& n) override { if (!ok) return false; ++writes; v = n; return true; }
};
HARNESS(h_refused)
{ // an action whose variable does not take the value fails and leaves no trace
  InUi ui; Workspace ws; Procedure p; bool ok = vp::flag("accepted"); int k = vp::choose("action", 4); static const char* type[] = {"Copy", "AddElement", "AddMember", "Input"}; AnyValue first = k == 1 ? dto::ArrayValue({i32(1)}) : k == 2 ? AnyValue({{"a", i32(1)}}, "S") : i32(1); auto g = std::make_unique<Gate>(first, ok); auto pg = g.get(); ws.AddVariable("g", std::move(g)); addVar(ws, "i", "int32"); ws.Setup(); auto v = vp::any<int32_t>("value"); put(ws, "i", i32(v));
  auto x = make(type[k]); x->AddAttribute("outputVar", "g"); if (k != 3) x->AddAttribute("inputVar", "i"); else { ui.ready = true; ui.reply = CreateUserValueReply(true, i32(v)); } if (k == 2) x->AddAttribute("memberName", "b"); x->Setup(p); for (int t = 0; t < 2; t++) { x->ExecuteSingle(ui, ws); if (k == 3 && I(*x) == RUN) continue; CHECK(I(*x) == (ok ? OK : BAD), "an action ends with what its variable answered"); }
  if (I(*x) == RUN) x->ExecuteSingle(ui, ws); CHECK(I(*x) == (ok ? OK : BAD), "an action ends with what its variable answered"); CHECK(pg->writes == (ok ? 1 : 0), "the value is written once"); auto now = get(ws, "g"); CHECK(get(ws, "i") == i32(v), "the input is unchanged");
  if (!ok) { CHECK(now == first && ui.logs > 0, "a refused value changes nothing and is reported"); vp_reach("refused"); } else { if (k == 0 || k == 3) CHECK(now == i32(v), "the written value is the input"); if (k == 1) CHECK(now.NumberOfElements() == 2 && now[0] == i32(1) && now[1] == i32(v), "the written array has the element"); if (k == 2) CHECK(now.NumberOfMembers() == 2 && now["a"] == i32(1) && now["b"] == i32(v), "the written structure has the member"); vp_reach("written"); }
  static const char* r[] = {"copy", "element", "member", "input"}; vp_reach(r[k]);
}

// @entry h_history reach=written,refused,down,again,field time=250
// @entry h_names reach=dup,added time=60
// @entry h_paths reach=known,unknown time=100
// @entry h_file reach=read,written,missing,refused time=60
// @entry h_types reach=typed,untyped,dynamic,bad time=100
// @entry h_into reach=converted,refused,empty time=60
// @entry h_registry reach=same,other time=30
// @entry h_large reach=done time=100
// @entry h_threads reach=fields,whole,several time=100
// @entry h_reset_threads reach=written,read time=60
// @bound h_large: 300 variables, one of six written with every value; h_history: every sequence of 3 (thorough 4) operations (write a variable or field with symbolic values, set-up, tear-down, reset of one variable) over five variables of kinds scalar, nested structure, array, untyped and dynamic, in a workspace that is set up or not; h_names: 4 additions with names of 0..2 symbolic characters; h_threads, h_reset_threads: two threads, one to three operations each, every schedule with at most 2 (thorough 3) preemptions; h_paths: names of up to 5 symbolic characters
// @assume shims stand in for sup-dto
#include <oac.h>
#include <rt_threads.h>
#include <thread>
using namespace oac;
namespace dto = sup::dto;
#ifdef VP_THOROUGH
static const int kOps = 4;
#else
static const int kOps = 3;
#endif
struct M
{ // reference: five variables
  bool up[5] = {}; int32_t a = 0, bx = 0; uint8_t by = 0; bool hasC = false; int32_t c = 0; int d = 0; int32_t dv = 0; bool db = false; int32_t e[2] = {};
  void init(int v) { switch (v) { case 0: a = 5; break; case 1: bx = 0; by = 0; break; case 2: hasC = false; break; case 3: d = 0; break; case 4: e[0] = e[1] = 0; } }
};
static const char* kNames[] = {"a", "b", "c", "d", "e"};
static bool readI(Workspace& ws, const std::string& n, int32_t& out) { dto::AnyValue v; if (!ws.GetValue(n, v)) { CHECK(dto::IsEmptyValue(v), "a refused read leaves the target alone"); return false; } return v.GetType() == dto::SignedInteger32Type && v.As(out); }
static void compare(Workspace& ws, const M& m)
{
  int32_t x = 0; CHECK(readI(ws, "a", x) == m.up[0], "a variable is readable exactly while it is set up"); if (m.up[0]) CHECK(x == m.a, "a read gives the last written value");
  CHECK(readI(ws, "b.x", x) == m.up[1], "a field is readable exactly while its variable is set up"); if (m.up[1]) CHECK(x == m.bx, "a read gives the last written field");
  dto::AnyValue y; bool r = ws.GetValue("b.s.y", y); CHECK(r == m.up[1], "a nested field is readable exactly while its variable is set up"); if (r) CHECK(y.GetType() == dto::UnsignedInteger8Type && y.As<dto::uint8>() == m.by, "a read gives the last written nested field");
  CHECK(readI(ws, "c", x) == (m.up[2] && m.hasC), "a variable without value cannot be read"); if (m.up[2] && m.hasC) CHECK(x == m.c, "a read gives the last written value");
  dto::AnyValue d; r = ws.GetValue("d", d); CHECK(r == (m.up[3] && m.d != 0), "a variable without value cannot be read"); if (r && m.d == 1) CHECK(d == dto::AnyValue(dto::int32(m.dv)), "a dynamic variable has the type and value last written"); if (r && m.d == 2) CHECK(d == dto::AnyValue(dto::boolean(m.db)), "a dynamic variable has the type and value last written");
  CHECK(readI(ws, "e[0]", x) == m.up[4], "an element is readable exactly while its variable is set up"); if (m.up[4]) CHECK(x == m.e[0], "a read gives the last written element");
  CHECK(readI(ws, "e[1]", x) == m.up[4], "an element is readable exactly while its variable is set up"); if (m.up[4]) CHECK(x == m.e[1], "a read gives the last written element");
}
static void build(Workspace& ws)
{
  auto a = localVar("int32"); a->AddAttribute("value", "5"); ws.AddVariable("a", std::move(a));
  addVar(ws, "d"); ws.GetVariables(); 
  addVar(ws, "b", "{\"type\":\"S\",\"attributes\":[{\"x\":{\"type\":\"int32\"}},{\"s\":{\"type\":\"T\",\"attributes\":[{\"y\":{\"type\":\"uint8\"}}]}}]}");
  addVar(ws, "c"); addVar(ws, "e", "{\"type\":\"\",\"multiplicity\":2,\"element\":{\"type\":\"int32\"}}");
  const_cast<Variable*>(ws.GetVariable("d"))->AddAttribute("dynamicType", "true");
}
static void write(Workspace& ws, M& m)
{
  bool ok = false, r = false; 
  switch (vp::choose("target", 11))
  {
  case 0: { auto v = vp::any<int32_t>("value"); r = ws.SetValue("a", dto::AnyValue(dto::int32(v))); ok = m.up[0]; if (ok) m.a = v; break; }
  case 1: { auto v = vp::any<int64_t>("value"); bool fits = v >= INT32_MIN && v <= INT32_MAX; r = ws.SetValue("a", dto::AnyValue(dto::int64(v))); ok = m.up[0] && fits; if (ok) m.a = (int32_t)v; break; }
  case 2: { auto v = vp::any<int32_t>("value"); r = ws.SetValue("b.x", dto::AnyValue(dto::int32(v))); ok = m.up[1]; if (ok) m.bx = v; break; }
  case 3: { auto v = vp::any<int32_t>("value"); bool fits = v >= 0 && v <= 255; r = ws.SetValue("b.s.y", dto::AnyValue(dto::int32(v))); ok = m.up[1] && fits; if (ok) m.by = (uint8_t)v; break; }
  case 4: { auto v = vp::any<int32_t>("value"); r = ws.SetValue("c", dto::AnyValue(dto::int32(v))); ok = m.up[2]; if (ok) { m.hasC = true; m.c = v; } break; }
  case 5: { auto v = vp::any<int32_t>("value"); r = ws.SetValue("d", dto::AnyValue(dto::int32(v))); ok = m.up[3]; if (ok) { m.d = 1; m.dv = v; } break; }
  case 6: { auto v = vp::any<bool>("value"); r = ws.SetValue("d", dto::AnyValue(dto::boolean(v))); ok = m.up[3]; if (ok) { m.d = 2; m.db = v; } break; }
  case 7: { auto v = vp::any<int32_t>("value"); int i = vp::choose("index", 2); r = ws.SetValue(i ? "e[1]" : "e[0]", dto::AnyValue(dto::int32(v))); ok = m.up[4]; if (ok) m.e[i] = v; break; }
  case 8: { dto::AnyValue whole = {{{"x", {dto::SignedInteger32Type, 0}}, {"s", {{{"y", {dto::UnsignedInteger8Type, 0}}}, "T"}}}, "S"}; auto v = vp::any<int32_t>("value"); whole["x"] = v; whole["s.y"] = dto::uint8(7); r = ws.SetValue("b", whole); ok = m.up[1]; if (ok) { m.bx = v; m.by = 7; } break; }
  case 9:
  { // a field that is a structure
    switch (vp::choose("part", 5))
    {
    case 0: { auto v = vp::any<uint8_t>("value"); dto::AnyValue s = {{{"y", {dto::UnsignedInteger8Type, 0}}}, "T"}; s["y"] = v; r = ws.SetValue("b.s", s); ok = m.up[1]; if (ok) m.by = v; break; }
    case 1: r = ws.SetValue("b.s", dto::AnyValue(dto::uint8(1))); break;
    case 2: r = ws.SetValue("b", dto::AnyValue(dto::int32(1))); break;
    case 3: { dto::AnyValue s = {{{"x", {dto::SignedInteger32Type, 3}}}, "S"}; r = ws.SetValue("b", s); break; }
    default: { dto::AnyValue s = {{{"y", {dto::UnsignedInteger8Type, 3}}}, "T"}; r = ws.SetValue(vp::flag("scalar") ? "a" : "b.x", s); }
    }
    break;
  }
  default: { static const char* bad[] = {"x", "", "b.q", "a.x", "e[2]", "b.s.z", "A", "a ", ".a", "e."}; int i = vp::choose("name", 9); r = ws.SetValue(bad[i], dto::AnyValue(dto::int32(1))); ok = false; break; }
  }
  CHECK(r == ok, "a write is accepted exactly when its target exists, is set up and can hold the value"); vp_reach(ok ? "written" : "refused");
}
HARNESS(h_history)
{
  Workspace ws; M m; build(ws); bool done = false; for (int v = 0; v < 5; v++) m.init(v);
  auto setup = [&] { ws.Setup(); if (!done) for (int v = 0; v < 5; v++) { m.up[v] = true; m.init(v); } done = true; };
  if (vp::flag("set up")) setup();
  for (int k = 0; k < kOps; k++)
  {
    switch (vp::choose("operation", 4))
    {
    case 0: write(ws, m); break;
    case 1: setup(); break;
    case 2: ws.Teardown(); for (int v = 0; v < 5; v++) m.up[v] = false; done = false; vp_reach("down"); break;
    default: { int v = vp::choose("variable", 6); bool r = ws.ResetVariable(v == 5 ? "zz" : kNames[v]); CHECK(r == (v < 5), "only known variables can be reset"); if (v < 5) { m.init(v); m.up[v] = true; } vp_reach("again"); }
    }
    compare(ws, m); CHECK(ws.IsSuccessfullySetup() == done, "the workspace tells whether it is set up");
  }
  auto n = ws.VariableNames(); CHECK(n.size() == 5 && n[0] == "a" && n[1] == "d" && n[2] == "b" && n[3] == "c" && n[4] == "e", "names are listed in insertion order"); vp_reach("field");
}
HARNESS(h_names)
{ // names stay unique and in order
  Workspace ws; std::vector<std::string> names; std::vector<const Variable*> vars;
  for (int i = 0; i < 4; i++)
  {
    std::string n = vp::str("name", i % 2, 1 + i % 2); auto v = localVar(); const Variable* p = v.get(); bool dup = false; size_t at = 0; for (size_t k = 0; k < names.size(); k++) if (names[k] == n) { dup = true; at = k; }
    CHECK(ws.HasVariable(n) == dup, "a name is known exactly after it was added"); bool refused = false;
    try { ws.AddVariable(n, std::move(v)); } catch (const InvalidOperationException&) { refused = true; }
    CHECK(refused == dup, "a name is accepted once"); if (!refused) { names.push_back(n); vars.push_back(p); at = names.size() - 1; vp_reach("added"); } else vp_reach("dup");
    CHECK(ws.HasVariable(n) && ws.GetVariable(n) == vars[at], "a name belongs to the variable that was added first"); CHECK(ws.VariableNames() == names && ws.GetVariables() == vars, "names and variables are listed in insertion order");
  }
  CHECK(!ws.HasVariable("long") && ws.GetVariable("long") == nullptr, "other names are unknown");
}
HARNESS(h_paths)
{ // every short text as the name of a read and a write
  Workspace ws; addVar(ws, "a", "int32"); addVar(ws, "b", "{\"type\":\"S\",\"attributes\":[{\"x\":{\"type\":\"int32\"}}]}"); addVar(ws, "e", "{\"type\":\"\",\"multiplicity\":2,\"element\":{\"type\":\"int32\"}}"); ws.Setup();
#ifdef VP_THOROUGH
  std::string n = vp::strOf("name", 0, 5, "abex.[10] ");
#else
  std::string n = vp::strOf("name", 0, 4, "abex.[1]");
#endif
  bool whole = n == "a" || n == "b" || n == "e" || n == "a." || n == "b." || n == "e."; bool part = n == "b.x" || n == "e[0]" || n == "e[1]" || n == "e.[0]" || n == "e.[1]";
  dto::AnyValue v; bool r = ws.GetValue(n, v); CHECK(r == (whole || part), "exactly the existing variables and fields can be read"); vp_reach(r ? "known" : "unknown");
  if (!whole || n == "a" || n == "a.") { bool w = ws.SetValue(n, dto::AnyValue(dto::int32(9))); CHECK(w == r, "exactly the existing variables and fields can be written"); }
  int changed = (get(ws, "a").As<dto::int32>() == 9) + (get(ws, "b.x").As<dto::int32>() == 9) + (get(ws, "e[0]").As<dto::int32>() == 9) + (get(ws, "e[1]").As<dto::int32>() == 9);
  CHECK(changed == (part || n == "a" || n == "a."), "a write changes what it names and nothing else");
}
HARNESS(h_file)
{ // file variables
  Workspace ws("/d/proc.xml"); auto v = GlobalVariableRegistry().Create("File"); v->AddAttribute("file", "v.json"); bool pretty = vp::flag("pretty"); if (pretty) v->AddAttribute("pretty", "true"); ws.AddVariable("f", std::move(v)); int x = vp::any<int>("stored"); bool present = vp::flag("present"); dto::AnyValue s = {{"x", dto::AnyValue(dto::int32(x))}};
  if (present) dto::model::PutFile("/d/v.json", s);
  dto::AnyValue r; CHECK(!ws.GetValue("f", r), "a variable is not readable before set-up"); ws.Setup(); CHECK(ws.GetVariable("f")->IsAvailable() == present, "a file variable is available exactly when its file is"); CHECK(ws.GetValue("f.x", r) == present, "a file variable is readable exactly when its file is"); if (present) { CHECK(r == dto::AnyValue(dto::int32(x)), "a file variable has the value of its file"); vp_reach("read"); } else vp_reach("missing");
  if (vp::flag("readonly")) dto::model::SetWritable(false); else dto::model::SetWritable(true);
  bool ro = false; { dto::AnyValue t(dto::int32(1)); try { dto::AnyValueToJSONFile(t, "/other"); } catch (const dto::SerializeException&) { ro = true; } }
  int y = vp::any<int>("written"); bool field = vp::flag("field"); bool w = field ? ws.SetValue("f.x", dto::AnyValue(dto::int32(y))) : ws.SetValue("f", dto::AnyValue({{"x", dto::AnyValue(dto::int32(y))}})); bool can = !ro && (!field || present); CHECK(w == can, "a file variable is written exactly when that is possible"); dto::AnyValue q; bool now = ws.GetValue("f.x", q); CHECK(now == (present || w), "a refused write changes nothing"); if (now) CHECK(q.As<int>() == (w ? y : x), "a read gives the last written value"); vp_reach(w ? "written" : "refused");
  ws.Teardown(); dto::AnyValue z; CHECK(!ws.GetValue("f", z) && !ws.SetValue("f", s), "a variable is not accessible after tear-down");
}
HARNESS(h_types)
{ // typed, untyped and dynamic variables
  Workspace ws; int kind = vp::choose("kind", 3); ws.AddVariable("v", localVar(kind == 0 ? "uint16" : "")); if (kind == 2) const_cast<Variable*>(ws.GetVariable("v"))->AddAttribute("dynamicType", "true"); ws.Setup();
  bool has = kind == 0; int type = 0; uint16_t cur = 0; std::string str; // type: 0 uint16 1 string
  for (int i = 0; i < 2; i++)
  {
    bool r, ok; if (vp::flag("text")) { r = ws.SetValue("v", dto::AnyValue(std::string("hi"))); ok = kind == 2 || !has || type == 1; if (ok) { type = 1; has = true; } }
    else { auto x = vp::any<uint16_t>("value"); r = ws.SetValue("v", dto::AnyValue(dto::uint16(x))); ok = kind == 2 || !has || type == 0; if (ok) { type = 0; cur = x; has = true; } }
    CHECK(r == ok, "a variable keeps its type unless it is dynamic"); if (!ok) vp_reach("bad");
    dto::AnyValue v; CHECK(ws.GetValue("v", v) == has, "a variable is readable once it has a value"); if (has) CHECK(type ? v == dto::AnyValue(std::string("hi")) : v == dto::AnyValue(dto::uint16(cur)), "a read gives the last written value");
    dto::AnyValue into(dto::int64(-1)); bool c = ws.GetValue("v", into); CHECK(c == (has && type == 0), "reading into a value converts, or is refused"); CHECK(into == dto::AnyValue(dto::int64(c ? (int64_t)cur : -1)), "reading into a value keeps its type");
    vp_reach(kind == 0 ? "typed" : kind == 1 ? "untyped" : "dynamic");
  }
  // set-up with attributes that do not fit
  Workspace w2; auto b = GlobalVariableRegistry().Create("Local"); int what = vp::choose("attributes", 3); if (what == 0) b->AddAttribute("value", "3"); if (what == 1) { b->AddAttribute("type", "{\"type\":\"uint8\"}"); b->AddAttribute("value", "300"); } if (what == 2) b->AddAttribute("type", "uint8");
  w2.AddVariable("v", std::move(b)); bool thrown = false; try { w2.Setup(); } catch (const VariableSetupException&) { thrown = true; } CHECK(thrown, "a variable whose attributes do not fit is refused"); dto::AnyValue v; CHECK(!w2.GetValue("v", v) && !w2.SetValue("v", dto::AnyValue(dto::uint8(1))) && !w2.IsSuccessfullySetup(), "access before set-up is refused");
}
HARNESS(h_into)
{ // reading a variable or a field into a value that has a type
  Workspace ws; build(ws); ws.Setup(); auto x = vp::any<int32_t>("value"); static const char* n[] = {"a", "b.x", "e[1]"}; const char* name = n[vp::choose("source", 3)]; CHECK(ws.SetValue(name, dto::AnyValue(dto::int32(x))), "an existing field can be written");
  dto::AnyValue same; CHECK(ws.GetValue(name, same) && same == dto::AnyValue(dto::int32(x)), "reading into an empty value gives type and value"); vp_reach("empty");
  switch (vp::choose("into", 4))
  {
  case 0: { dto::AnyValue v(dto::int64(-7)); CHECK(ws.GetValue(name, v) && v == dto::AnyValue(dto::int64(x)), "reading into a value keeps its type"); vp_reach("converted"); break; }
  case 1: { dto::AnyValue v(dto::uint8(7)); bool r = ws.GetValue(name, v), fits = x >= 0 && x <= 255; CHECK(r == fits && v == dto::AnyValue(dto::uint8(fits ? x : 7)), "reading into a value that cannot hold it is refused without effect"); vp_reach(r ? "converted" : "refused"); break; }
  case 2: { dto::AnyValue v = {{{"q", {dto::SignedInteger32Type, 3}}}, "Q"}, was = v; CHECK(!ws.GetValue(name, v) && v == was, "reading into a value of another kind is refused without effect"); vp_reach("refused"); break; }
  default: { dto::AnyValue v = {{{"x", {dto::SignedInteger64Type, 0}}, {"s", {{{"y", {dto::UnsignedInteger16Type, 0}}}, "T"}}}, "S"}; CHECK(ws.GetValue("b", v), "a structure is read into one with the same fields"); CHECK(v["x"].GetType() == dto::SignedInteger64Type && v["s.y"].GetType() == dto::UnsignedInteger16Type, "reading into a structure keeps its type"); int64_t gx = v["x"].As<int64_t>(); CHECK(gx == (name[0] == 'b' ? (int64_t)x : 0), "reading into a structure gives its fields"); vp_reach("converted"); }
  }
}
HARNESS(h_registry)
{ // types registered with a workspace
  Workspace ws; dto::AnyType s = {{{"x", dto::SignedInteger32Type}}, "S"}, t = {{{"x", dto::Float64Type}}, "S"}; CHECK(ws.RegisterType(s), "a type is registered"); bool same = vp::flag("same"); CHECK(ws.RegisterType(same ? s : t) == same, "a name stands for one type"); vp_reach(same ? "same" : "other"); CHECK(ws.GetTypeRegistry().HasType("S") && ws.GetTypeRegistry().GetType("S") == s, "a refused registration changes nothing");
  ws.AddVariable("v", localVar("S")); ws.Setup(); auto x = vp::any<int>("value"); CHECK(ws.SetValue("v.x", dto::AnyValue(dto::int32(x))) && get(ws, "v.x") == dto::AnyValue(dto::int32(x)), "a variable has the registered type");
}
HARNESS(h_large)
{ // many variables
  Workspace ws; const int n = 300; static const int pos[] = {0, 127, 128, 255, 256, 299}; auto nm = [](int i) { return "v" + std::to_string((i * 37) % 300); }; std::vector<std::string> want; for (int i = 0; i < n; i++) { want.push_back(nm(i)); addVar(ws, nm(i), "int32"); } ws.Setup(); CHECK(ws.VariableNames() == want && ws.GetVariables().size() == (size_t)n, "names are listed in insertion order"); for (int i = 0; i < n; i++) put(ws, nm(i), dto::AnyValue(dto::int32(i))); int at = pos[vp::choose("position", 6)]; auto x = vp::any<int32_t>("value"); put(ws, nm(at), dto::AnyValue(dto::int32(x))); for (int i = 0; i < n; i++) CHECK(get(ws, nm(i)) == dto::AnyValue(dto::int32(i == at ? x : i)) && ws.GetVariable(nm(i)) != nullptr && ws.HasVariable(nm(i)), "each variable has what was last written there"); ws.Teardown(); dto::AnyValue v; CHECK(!ws.GetValue(nm(299), v), "after tear-down there is no access"); vp_reach("done");
}
HARNESS(h_threads)
{ // writes of one structure and of several variables from two threads at once
#ifdef VP_THOROUGH
  vp_threads(3, 0, 0);
#else
  vp_threads(2, 0, 0);
#endif
  Workspace ws; build(ws); ws.Setup(); int kind = vp::choose("kind", 3); auto x = vp::any<int32_t>("x"); auto y = vp::any<uint8_t>("y"); auto z = vp::any<int32_t>("z");
  auto S = [](int32_t a, uint8_t b) { dto::AnyValue whole = {{{"x", {dto::SignedInteger32Type, 0}}, {"s", {{{"y", {dto::UnsignedInteger8Type, 0}}}, "T"}}}, "S"}; whole["x"] = a; whole["s.y"] = b; return whole; };
  if (kind == 0)
  { // two fields of one variable
    bool r1 = false; std::thread t([&] { r1 = ws.SetValue("b.x", dto::AnyValue(dto::int32(x))); }); bool r2 = ws.SetValue("b.s.y", dto::AnyValue(dto::uint8(y))); t.join();
    CHECK(r1 && r2, "writes of existing fields are accepted"); CHECK(get(ws, "b") == S(x, y), "writes of different fields do not undo each other"); vp_reach("fields");
  }
  else if (kind == 1)
  { // a whole write against two reads
    bool r1 = false; std::thread t([&] { r1 = ws.SetValue("b", S(x, y)); }); dto::AnyValue v1, v2; bool g1 = ws.GetValue("b", v1), g2 = ws.GetValue("b", v2); t.join();
    CHECK(r1 && g1 && g2, "reads and writes of a variable that is set up are accepted"); bool old1 = v1 == S(0, 0), new1 = v1 == S(x, y), old2 = v2 == S(0, 0), new2 = v2 == S(x, y); CHECK((old1 && old2) || (old1 && new2) || (new1 && new2), "a read gives a value that was written as a whole, and never an older one than before"); CHECK(get(ws, "b") == S(x, y), "a read gives the last written value"); vp_reach("whole");
  }
  else
  { // different variables; availability is asked meanwhile
    bool r1 = false; std::thread t([&] { r1 = ws.SetValue("c", dto::AnyValue(dto::int32(x))); }); bool r2 = ws.SetValue("d", dto::AnyValue(dto::int32(z))); dto::AnyValue v; bool g = ws.GetValue("c", v); bool av = ws.GetVariable("c")->IsAvailable(); t.join();
    CHECK(r1 && r2 && av, "writes of different variables are accepted"); CHECK(!g || v == dto::AnyValue(dto::int32(x)), "a variable has no value before it is written"); CHECK(get(ws, "c") == dto::AnyValue(dto::int32(x)) && get(ws, "d") == dto::AnyValue(dto::int32(z)), "a read gives the last written value"); vp_reach("several");
  }
}
HARNESS(h_reset_threads)
{ // a reset of a variable that another thread reads or writes
#ifdef VP_THOROUGH
  vp_threads(3, 0, 0);
#else
  vp_threads(2, 0, 0);
#endif
  Workspace ws; build(ws); ws.Setup(); auto x = vp::any<int32_t>("x"); CHECK(ws.SetValue("a", dto::AnyValue(dto::int32(x))), "a variable can be written"); bool write = vp::flag("write");
  bool r1 = false; std::thread t([&] { r1 = ws.ResetVariable("a"); });
  if (write) { auto y = vp::any<int32_t>("y"); bool w = ws.SetValue("a", dto::AnyValue(dto::int32(y))); t.join(); int32_t now = get(ws, "a").As<dto::int32>(); CHECK(now == 5 || (w && now == y), "after a reset a variable has its initial value or a later written one"); vp_reach("written"); }
  else { dto::AnyValue v; bool g = ws.GetValue("a", v); ws.GetVariable("a")->IsAvailable(); t.join(); CHECK(!g || v == dto::AnyValue(dto::int32(5)) || v == dto::AnyValue(dto::int32(x)), "a read gives the written or the initial value, or is refused while the variable is down"); CHECK(get(ws, "a").As<dto::int32>() == 5, "a reset variable has its initial value"); vp_reach("read"); }
  CHECK(r1, "a known variable can be reset");
}

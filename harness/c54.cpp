// @repo base/generic_utils.cpp
// @flags -Ddlopen=vp_dlopen -Ddlclose=vp_dlclose
// @entry h_types reach=ready,refused,again,file time=200
// @entry h_use reach=declared,unknown,nested time=60
// @entry h_included reach=ready,refused,private time=100
// @entry h_directory reach=done time=60
// @bound h_types: every list of 0..3 (thorough 4) declarations out of 7 (two types of one name, a type using another, an array of that, a scalar, no type, no name for a type), each as text or from an existing or missing file; h_use: a typed variable of each declared or undeclared type after every list of 0..2 (thorough 3) declarations; h_included: every list of 0..2 (thorough 3) declarations in the including and the included procedure; h_directory: procedure file and declared file names of up to 3 (thorough 4) characters of 'a' and '/'
// @assume shims stand in for sup-dto and sup-xml (the type texts are parsed by the stand-in); files are tables from names to texts
#include <oac.h>
#include <sup/oac-tree/procedure_context.h>
#include <sup/oac-tree/procedure_preamble.h>
#include <sup/oac-tree/sequence_parser.h>
#include <sup/xml/tree_data.h>
using namespace oac;
namespace dto = sup::dto;
using sup::xml::TreeData; using dto::AnyType; using dto::AnyValue;
namespace sup { namespace xml { namespace model { void PutFile(const std::string&, const TreeData&); } } }
#ifdef VP_THOROUGH
static const int kN = 4, kM = 3, kLen = 4;
#else
static const int kN = 3, kM = 2, kLen = 3;
#endif
extern "C" void* vp_dlopen(const char*, int) { return nullptr; }
extern "C" int vp_dlclose(void*) { return 0; }
enum { A1, A2, B, C, U8, BAD_TEXT, NO_NAME, KINDS };
static const char* kText[] = {"{\"type\":\"A\",\"attributes\":[{\"x\":{\"type\":\"int32\"}}]}", "{\"type\":\"A\",\"attributes\":[{\"x\":{\"type\":\"uint8\"}}]}", "{\"type\":\"B\",\"attributes\":[{\"a\":{\"type\":\"A\"}}]}",
  "{\"type\":\"C\",\"multiplicity\":2,\"element\":{\"type\":\"B\"}}", "{\"type\":\"uint8\"}", "{\"type\":", "{\"type\":\"Q\"}"};
static AnyType a1() { return AnyType({{"x", dto::SignedInteger32Type}}, "A"); }
static AnyType a2() { return AnyType({{"x", dto::UnsignedInteger8Type}}, "A"); }
// the types known so far
struct Known
{
  int a = -1; bool b = false, c = false;
  AnyType typeA() const { return a == A1 ? a1() : a2(); }
  AnyType typeB() const { return AnyType({{"a", typeA()}}, "B"); }
  bool add(int k)
  {
    switch (k)
    {
    case A1: case A2: if (a >= 0 && a != k) return false; a = k; return true;
    case B: if (a < 0) return false; b = true; return true;
    case C: if (!b) return false; c = true; return true;
    case U8: return true;
    default: return false;
    }
  }
  void check(const dto::AnyTypeRegistry& r) const
  {
    CHECK(r.HasType("A") == (a >= 0) && r.HasType("B") == b && r.HasType("C") == c && !r.HasType("Q"), "exactly the declared types are known");
    if (a >= 0) CHECK(r.GetType("A") == typeA(), "a name stands for the type first declared with it");
    if (b) CHECK(r.GetType("B") == typeB(), "a declaration may use earlier ones");
    if (c) CHECK(r.GetType("C") == AnyType(2, typeB(), "C"), "a declaration may use earlier ones");
  }
};
struct Decl { int kind; int from; }; // from: 0 text, 1 file beside the procedure, 2 file with a full path, 3 missing file
static std::string file(int i) { return "t" + std::to_string(i) + ".json"; }
static TypeRegistrationInfo info(Decl d, int i)
{
  if (!d.from) return TypeRegistrationInfo(TypeRegistrationInfo::kJSONString, kText[d.kind]);
  if (d.from == 1) dto::model::PutTextFile("/d/" + file(i), kText[d.kind]); if (d.from == 2) dto::model::PutTextFile("/e/" + file(i), kText[d.kind]); if (d.from == 3) dto::model::PutTextFile(file(i), kText[d.kind]);
  return TypeRegistrationInfo(TypeRegistrationInfo::kJSONFile, d.from == 2 ? "/e/" + file(i) : file(i));
}
static bool apply(Known& k, Decl d) { return d.from != 3 && k.add(d.kind); }
static std::vector<Decl> decls(int max, bool files) { std::vector<Decl> r; int n = vp::choose("declarations", max + 1); for (int i = 0; i < n; i++) { int k = vp::choose("declaration", KINDS); r.push_back({k, files ? vp::choose("source", 4) : 0}); } return r; }
static int outcome(const std::function<void()>& f) { try { f(); } catch (const ProcedureSetupException&) { return 1; } catch (const VariableSetupException&) { return 2; } catch (const MessageException&) { return 3; } return 0; }
static void root(Procedure& p) { p.PushInstruction(make("Succeed")); }
HARNESS(h_types)
{
  dto::model::ClearFiles(); Procedure p("/d/p.xml"); root(p); auto ds = decls(kN, true); Known k; bool ok = true, anyFile = false;
  for (size_t i = 0; i < ds.size(); i++) { p.GetPreamble().AddTypeRegistration(info(ds[i], (int)i)); if (ok) ok = apply(k, ds[i]); if (ds[i].from == 1 || ds[i].from == 2) anyFile = true; }
  int o = outcome([&] { p.Setup(); }); CHECK(o == (ok ? 0 : 1), "set-up succeeds exactly when every declaration denotes a type that fits the earlier ones"); k.check(p.GetWorkspace().GetTypeRegistry()); k.check(p.GetTypeRegistry());
  if (!ok) { CHECK(!p.GetWorkspace().IsSuccessfullySetup(), "nothing is set up after a bad declaration"); vp_reach("refused"); return; }
  vp_reach("ready"); if (anyFile) vp_reach("file"); Ui ui; p.ExecuteSingle(ui); CHECK(p.GetStatus() == ExecutionStatus::SUCCESS, "the procedure runs"); p.Reset(ui); CHECK(outcome([&] { p.Setup(); }) == 0, "the procedure can be set up again"); k.check(p.GetTypeRegistry()); vp_reach("again");
}
HARNESS(h_use)
{ // variables use the declared types
  Procedure p; root(p); auto ds = decls(kM, false); Known k; for (auto d : ds) { vp_assume(apply(k, d)); p.GetPreamble().AddTypeRegistration(info(d, 0)); }
  static const char* names[] = {"A", "B", "C", "Q"}; int v = vp::choose("type", 4); auto x = localVar(names[v]); bool value = v == 0 && vp::flag("value"); int n = 0; if (value) { n = 7; x->AddAttribute("value", "{\"x\":7}"); } p.AddVariable("v", std::move(x));
  bool known = v == 0 ? k.a >= 0 : v == 1 ? k.b : v == 2 ? k.c : false; int o = outcome([&] { p.Setup(); }); CHECK(o == (known ? 0 : 2), "a variable can have exactly the declared types"); AnyValue r; bool got = p.GetWorkspace().GetValue("v", r);
  if (!known) { CHECK(!got, "no other type is used instead"); vp_reach("unknown"); return; }
  vp_reach(v ? "nested" : "declared"); AnyType t = v == 0 ? k.typeA() : v == 1 ? k.typeB() : AnyType(2, k.typeB(), "C"); CHECK(got && r.GetType() == t, "a variable has the declared type"); if (v == 0) CHECK(r["x"].As<int>() == n, "and its own value"); int y = vp::any<uint8_t>("new"); std::string f = v == 0 ? "v.x" : v == 1 ? "v.a.x" : "v[1].a.x"; if (v == 2) return;
  CHECK(p.GetWorkspace().SetValue(f, k.a == A1 ? AnyValue(dto::int32(y)) : AnyValue(dto::uint8(y))) && p.GetWorkspace().GetValue(f, r = AnyValue()) && r.As<int>() == y, "fields of a declared type are accessible"); 
}
static TreeData el(const std::string& type, const std::vector<std::pair<std::string, std::string>>& a = {}) { TreeData d(type); for (auto& x : a) d.AddAttribute(x.first, x.second); return d; }
HARNESS(h_included)
{ // an included procedure has its own types
  dto::model::ClearFiles(); Procedure p("/m/main.xml"); root(p); auto ds = decls(1, false); Known k; for (auto d : ds) { vp_assume(apply(k, d)); p.GetPreamble().AddTypeRegistration(info(d, 0)); }
  auto sub = decls(kM, true); TreeData t = el("Procedure"); Known s; bool ok = true; for (size_t i = 0; i < sub.size(); i++) { auto r = info(sub[i], (int)i); t.AddChild(el("RegisterType", {{r.GetRegistrationMode() == TypeRegistrationInfo::kJSONString ? "jsontype" : "jsonfile", r.GetString()}})); if (ok) ok = apply(s, sub[i]); } t.AddChild(el("Succeed")); sup::xml::model::PutFile("/d/sub.xml", t);
  CHECK(outcome([&] { p.Setup(); }) == 0, "the including procedure is set up"); const Procedure* q = nullptr; int o = outcome([&] { q = &p.GetContext().GetProcedure("/d/sub.xml"); }); CHECK(o == (ok ? 0 : 1), "a procedure is loaded exactly when its declarations are good"); k.check(p.GetTypeRegistry()); const Procedure* q2 = nullptr; CHECK(outcome([&] { q2 = &p.GetContext().GetProcedure("/d/sub.xml"); }) == o && q == q2, "a second attempt ends as the first"); k.check(p.GetTypeRegistry());
  if (!ok) { vp_reach("refused"); return; } s.check(q->GetTypeRegistry()); vp_reach("ready"); if (s.a >= 0 && k.a < 0) vp_reach("private");
}
static std::string name(const char* what) { std::string s; int n = vp::choose(what, kLen + 1); for (int i = 0; i < n; i++) s += vp::flag("slash") ? '/' : 'a'; return s; }
HARNESS(h_directory)
{ // a file is looked up in the directory of the procedure's file, unless its path is full
  dto::model::ClearFiles(); std::string pf = name("procedure"), tf = name("file"); size_t cut = pf.rfind('/'); std::string full = tf.empty() || tf[0] == '/' || cut == std::string::npos ? tf : pf.substr(0, cut + 1) + tf; bool present = vp::flag("present");
  if (present) dto::model::PutTextFile(full, kText[A1]); else for (auto& o : {tf, pf + tf, pf + "/" + tf}) if (o != full) dto::model::PutTextFile(o, kText[A1]);
  Procedure p(pf); root(p); p.GetPreamble().AddTypeRegistration(TypeRegistrationInfo(TypeRegistrationInfo::kJSONFile, tf)); int o = outcome([&] { p.Setup(); }); CHECK(o == (present ? 0 : 1), "exactly the named file is read"); CHECK(p.GetTypeRegistry().HasType("A") == present, "its type is known"); vp_reach("done");
}

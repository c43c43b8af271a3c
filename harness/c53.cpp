// @repo base/generic_utils.cpp
// @flags -Ddlopen=vp_dlopen -Ddlclose=vp_dlclose
// @entry h_instructions reach=parsed,unregistered,children time=150
// @entry h_roundtrip reach=done time=150
// @entry h_procedure reach=done time=100
// @entry h_built reach=done time=60
// @entry h_variables reach=parsed,unregistered,unnamed,duplicate time=100
// @entry h_preamble reach=parsed,both,neither,plugin,empty time=100
// @entry h_large reach=done time=60
// @entry h_root reach=accepted,refused time=30
// @entry h_text reach=done,refused time=60
// @entry h_files reach=done,refused time=30
// @bound h_instructions: every tree of up to 4 (thorough 5) nodes of 5 types (2 leaves, decorator, compound, unregistered); h_roundtrip: the same trees with attributes of symbolic names and texts (up to 2 characters, all 256 byte values), set up or not; h_variables: up to 3 variables in up to 2 workspaces of 3 types with any of 4 names; h_large: 5 or 12 plugins, types, variables (with the name of their workspace, another one or none) and instructions at once; h_preamble: up to 3 (thorough 4) preamble elements of 5 kinds between the instructions
// @assume shims stand in for sup-xml (the text form is a key of the tree it was made from) and sup-dto; loading of plugins is a stub with any result
#include <oac.h>
#include <sup/oac-tree/parser/procedure_parser.h>
#include <sup/oac-tree/parser/procedure_to_treedata_utils.h>
#include <sup/oac-tree/parser/instruction_parser.h>
#include <sup/oac-tree/parser/variable_parser.h>
#include <sup/oac-tree/sequence_parser.h>
#include <sup/oac-tree/constants.h>
#include <sup/oac-tree/instruction_tree.h>
#include <sup/xml/tree_data.h>
#include <sup/xml/tree_data_parser.h>
#include <sup/xml/tree_data_serialize.h>
using namespace oac;
using sup::xml::TreeData;
namespace sup { namespace xml { namespace model { void PutFile(const std::string&, const TreeData&); int Reads(const std::string&); } } }
#ifdef VP_THOROUGH
static const int kN = 5, kPre = 4;
#else
static const int kN = 4, kPre = 3;
#endif
static std::vector<std::string> loaded; static bool loadable = true; static int dummy;
extern "C" void* vp_dlopen(const char* n, int) { loaded.push_back(n); return loadable ? (void*)&dummy : nullptr; }
extern "C" int vp_dlclose(void*) { return 0; }
enum { PARSED, PARSE, OTHER };
static int outcome(const std::function<void()>& f) { try { f(); } catch (const ParseException&) { return PARSE; } catch (const MessageException&) { return OTHER; } return PARSED; }
static const char* kTypes[] = {"Succeed", "Wait", "Inverter", "Sequence", "Nothing"};
struct T
{ // a tree of nodes given by their parents, in any order of types
  int n, parent[6], type[6], kids[6] = {}; std::vector<std::pair<std::string, std::string>> attr[6];
  T(bool any, bool attrs)
  {
    n = 1 + vp::choose("nodes", kN); for (int i = 1; i < n; i++) { parent[i] = vp::choose("parent", i); ++kids[parent[i]]; } for (int i = 0; i < n; i++) type[i] = any ? vp::choose("type", 5) : kids[i] == 0 ? i % 2 : kids[i] == 1 ? 2 : 3;
    if (attrs) for (int i = 0; i < n; i++) { attr[i].push_back({"name", std::string(1, (char)('a' + i))}); if (i == n - 1) { auto s = vp::str("attribute", 1, 2); vp_assume(s != "name"); attr[i].push_back({s, vp::str("text", 0, 2)}); } else if (i % 2) attr[i].push_back({"timeout", "@x"}); }
  }
  TreeData data(int i = 0) const { TreeData d(kTypes[type[i]]); for (auto& [a, v] : attr[i]) d.AddAttribute(a, v); for (int k = i + 1; k < n; k++) if (parent[k] == i) d.AddChild(data(k)); return d; }
  void same(const Instruction* x, int i = 0) const
  {
    CHECK(x && x->GetType() == kTypes[type[i]], "an instruction has the type of its element"); CHECK(x->GetStringAttributes() == attr[i], "an instruction has the attributes of its element, in order"); auto c = x->ChildInstructions(); CHECK((int)c.size() == kids[i], "an instruction has the children of its element"); size_t q = 0; for (int k = i + 1; k < n; k++) if (parent[k] == i) same(c[q++], k);
  }
};
HARNESS(h_instructions)
{
  T t(true, false); bool unknown = false, kids = false; for (int i = 0; i < t.n; i++) { unknown = unknown || t.type[i] == 4; if (t.type[i] < 2 && t.kids[i] > 0) kids = true; if (t.type[i] == 2 && t.kids[i] > 1) kids = true; }
  std::unique_ptr<Instruction> x; int o = outcome([&] { x = ParseInstruction(t.data()); }); CHECK(o == (unknown || kids ? PARSE : PARSED), "exactly the well-formed instruction trees are accepted"); if (o == PARSED) { t.same(x.get()); vp_reach("parsed"); } if (unknown) vp_reach("unregistered"); if (kids) vp_reach("children");
  TreeData d("Procedure"); if (vp::flag("second")) d.AddChild(TreeData("Succeed")); d.AddChild(t.data()); std::unique_ptr<Procedure> p; o = outcome([&] { p = ParseProcedure(d, "f"); }); CHECK(o == (unknown || kids ? PARSE : PARSED), "exactly the procedures of well-formed instruction trees are accepted"); if (p) { CHECK(p->GetInstructionCount() == (int)d.GetNumberOfChildren(), "a procedure is complete"); t.same(p->GetTopInstructions().back()); }
}
HARNESS(h_roundtrip)
{
  T t(false, true); auto x = ParseInstruction(t.data()); t.same(x.get()); auto d = ToTreeData(*x); CHECK(*d == t.data(), "an instruction is written as it was read"); auto y = ParseInstruction(*d); t.same(y.get()); for (auto* a : FlattenBFS(CreateFullInstructionTree(x.get()))) for (auto* b : FlattenBFS(CreateFullInstructionTree(y.get()))) CHECK(a != b, "reading makes new instructions"); vp_reach("done");
}
static TreeData var(const char* type, const std::string& name) { TreeData v(type); if (!name.empty()) v.AddAttribute("name", name); return v; }
static void sameProc(const Procedure& p, const TreeData& d)
{ // the procedure is what its tree says
  std::vector<TreeData> ins, vars, types; std::vector<std::string> plug; for (auto& c : d.Children()) { if (c.GetNodeName() == "Workspace") { for (auto& v : c.Children()) vars.push_back(v); } else if (c.GetNodeName() == "Plugin") plug.push_back(c.GetContent()); else if (c.GetNodeName() == "RegisterType") types.push_back(c); else ins.push_back(c); }
  auto top = p.GetTopInstructions(); CHECK(top.size() == ins.size(), "a procedure has all of its instructions"); for (size_t i = 0; i < ins.size(); i++) CHECK(*ToTreeData(*top[i]) == ins[i], "a procedure has its instructions in order"); auto v = p.GetWorkspace().GetVariables(); auto names = p.VariableNames(); CHECK(v.size() == vars.size() && names.size() == vars.size(), "a procedure has all of its variables"); for (size_t i = 0; i < vars.size(); i++) { CHECK(names[i] == vars[i].GetAttribute("name") && v[i]->GetName() == names[i], "a procedure has its variables in order"); CHECK(v[i]->GetType() == vars[i].GetNodeName() && v[i]->GetStringAttributes() == vars[i].Attributes(), "a variable has its type and attributes"); CHECK(p.GetWorkspace().GetVariable(names[i]) == v[i], "a variable is found by its name"); }
  auto& pre = p.GetPreamble(); CHECK(pre.GetPluginPaths() == plug, "a procedure has its plugins in order"); CHECK(pre.GetTypeRegistrations().size() == types.size(), "a procedure has all of its types"); for (size_t i = 0; i < types.size(); i++) { bool f = types[i].HasAttribute("jsonfile"); auto r = pre.GetTypeRegistrations()[i]; CHECK(r.GetRegistrationMode() == (f ? TypeRegistrationInfo::kJSONFile : TypeRegistrationInfo::kJSONString) && r.GetString() == types[i].GetAttribute(f ? "jsonfile" : "jsontype"), "a procedure has its types in order"); }
  for (auto& [a, t] : d.Attributes()) CHECK(p.HasAttribute(a) && p.GetAttributeString(a) == t, "a procedure has its own attributes");
}
HARNESS(h_procedure)
{ // whole procedures: parse, write, parse again
  TreeData d("Procedure"); std::string s = vp::str("text", 0, 2); int na = vp::choose("attributes", 3); if (na > 0) d.AddAttribute("name", s); if (na > 1) d.AddAttribute("tickTimeout", "0.5"); int pre = vp::choose("preamble", 4); if (pre & 1) { TreeData r("RegisterType"); r.AddAttribute("jsonfile", "types.json"); d.AddChild(r); } if (pre & 2) { TreeData r("RegisterType"); r.AddAttribute("jsontype", s); d.AddChild(r); TreeData q("Plugin"); q.SetContent("lib.so"); d.AddChild(q); }
  int k = vp::choose("instructions", 3); for (int i = 0; i < k; i++) { TreeData x(i ? "Succeed" : "Sequence"); x.AddAttribute("name", s); if (!i) { x.AddChild(TreeData("Fail")); x.AddChild(TreeData("Wait")); } else x.AddAttribute("isRoot", "true"); d.AddChild(x); } int m = vp::choose("variables", 3); TreeData w("Workspace"); static const char* names[] = {"z", "a"}; for (int i = 0; i < m; i++) { auto v = var(i ? "File" : "Local", names[i]); v.AddAttribute(i ? "file" : "value", s); w.AddChild(v); } d.AddChild(w);
  auto p = ParseProcedure(d, "dir/f.xml"); CHECK(p->GetFilename() == "dir/f.xml", "a procedure knows its file"); sameProc(*p, d); auto e = ToTreeData(*p); auto q = ParseProcedure(*e, "dir/f.xml"); sameProc(*q, d); CHECK(GetProcedureName(*q) == (na > 0 ? s : "dir/f.xml"), "a procedure keeps its name"); CHECK(*ToTreeData(*q) == *e, "a procedure read again is written the same"); vp_reach("done");
}
HARNESS(h_built)
{ // a procedure that was built by hand
  Procedure p; p.AddAttribute("name", "n"); auto s = vp::str("value", 0, 2); int n = 1 + vp::choose("count", 2); for (int i = 0; i < n; i++) { auto v = GlobalVariableRegistry().Create("Local"); std::string nm = i ? "a" : "b"; v->AddAttribute("name", nm); v->AddAttribute("value", s); p.AddVariable(nm, std::move(v)); auto x = make("Inverter"); x->AddAttribute("name", s); auto y = make("Fail"); y->AddAttribute("name", "k"); x->InsertInstruction(std::move(y), 0); p.PushInstruction(std::move(x)); } p.GetPreamble().AddPluginPath("plug"); p.GetPreamble().AddTypeRegistration({TypeRegistrationInfo::kJSONFile, s}); p.GetPreamble().AddTypeRegistration({TypeRegistrationInfo::kJSONString, "t"});
  if (n == 1 && vp::flag("set up")) { vp_reach("done"); } auto d = ToTreeData(p); sameProc(p, *d); auto q = ParseProcedure(*d); sameProc(*q, *d); CHECK(q->GetInstructionCount() == n && q->VariableNames() == p.VariableNames() && GetProcedureName(*q) == "n", "nothing is lost"); CHECK(q->GetPreamble().GetPluginPaths().size() == 1 && q->GetPreamble().GetTypeRegistrations().size() == 2, "the preamble is kept"); vp_reach("done");
}
HARNESS(h_variables)
{
  TreeData d("Procedure"); d.AddChild(TreeData("Succeed")); TreeData w1("Workspace"), w2("Workspace"); int n = vp::choose("variables", 4); bool unknown = false, unnamed = false, dup = false; std::vector<std::string> order; static const char* types[] = {"Local", "File", "Nothing"}; static const char* names[] = {"b", "a", "c", ""}; std::vector<std::pair<int, TreeData>> all; bool two = vp::flag("two workspaces");
  for (int i = 0; i < n; i++) { int ty = vp::choose("type", 3), nm = vp::choose("name", 4); auto v = var(types[ty], names[nm]); bool empty = nm == 3 && vp::flag("empty"); if (empty) v.AddAttribute("name", ""); unknown = unknown || ty == 2; unnamed = unnamed || nm == 3; for (auto& o : order) dup = dup || (nm < 3 && o == names[nm]); order.push_back(names[nm]); (two && i == 0 ? w1 : w2).AddChild(v); } if (two) d.AddChild(w1); d.AddChild(w2);
  std::unique_ptr<Procedure> p; int o = outcome([&] { p = ParseProcedure(d); }); CHECK((o == PARSED) == !(unknown || unnamed || dup), "exactly named variables of known types with different names are accepted"); if (!dup && o != PARSED) CHECK(o == PARSE, "malformed variables are parse errors"); if (p) { CHECK(p->VariableNames() == order, "variables keep their order"); sameProc(*p, d); vp_reach("parsed"); } if (unknown) vp_reach("unregistered"); if (unnamed) vp_reach("unnamed"); if (dup) vp_reach("duplicate");
}
HARNESS(h_large)
{
  Procedure p; p.AddAttribute("name", "n"); int n = vp::choose("many", 2) ? 12 : 5, own = vp::choose("own names", 3); loadable = true; loaded.clear();
  for (int i = 0; i < n; i++) { std::string s = "x" + std::to_string(i); p.GetPreamble().AddPluginPath(s); p.GetPreamble().AddTypeRegistration(TypeRegistrationInfo(i % 2 ? TypeRegistrationInfo::kJSONString : TypeRegistrationInfo::kJSONFile, s)); auto v = localVar("int32"); if (own) v->AddAttribute("name", own == 1 ? "own" + s : s); CHECK(p.AddVariable(s, std::move(v)), "added"); }
  int at = vp::choose("deep", 2); auto top = make("Sequence"); for (int i = 0; i < n; i++) { auto l = make(i % 3 ? "Succeed" : "Message"); l->SetName("l" + std::to_string(i)); if (at) top->InsertInstruction(std::move(l), i); else p.PushInstruction(std::move(l)); } if (at) p.PushInstruction(std::move(top));
  auto d = ToTreeData(p); auto q = ParseProcedure(*d); sameProc(*q, *d); CHECK(q->GetPreamble().GetPluginPaths() == p.GetPreamble().GetPluginPaths() && (int)loaded.size() == n, "all plugins are kept"); auto a = p.GetPreamble().GetTypeRegistrations(), b = q->GetPreamble().GetTypeRegistrations(); CHECK(a.size() == b.size(), "all types are kept"); for (size_t i = 0; i < a.size(); i++) CHECK(a[i].GetRegistrationMode() == b[i].GetRegistrationMode() && a[i].GetString() == b[i].GetString(), "all types are kept");
  CHECK(q->VariableNames() == p.VariableNames(), "all variables are kept"); for (auto& s : p.VariableNames()) { auto* v = q->GetWorkspace().GetVariable(s); CHECK(v && v->GetName() == s && v->GetType() == "Local" && v->GetAttributeString("type") == p.GetWorkspace().GetVariable(s)->GetAttributeString("type"), "a variable keeps the name it has in its workspace, and its attributes"); } CHECK(*ToTreeData(*q) == *d, "a procedure read again is written the same"); auto x = p.GetTopInstructions(), y = q->GetTopInstructions(); CHECK(x.size() == y.size(), "all instructions are kept"); auto cx = at ? x[0]->ChildInstructions() : x; auto cy = at ? y[0]->ChildInstructions() : y; CHECK(cx.size() == cy.size() && (int)cx.size() == n, "all instructions are kept"); for (int i = 0; i < n; i++) CHECK(cx[i]->GetType() == cy[i]->GetType() && cx[i]->GetName() == cy[i]->GetName(), "all instructions are kept"); vp_reach("done");
}
HARNESS(h_preamble)
{
  TreeData d("Procedure"); int n = vp::choose("elements", kPre + 1); bool bad = false, at = vp::flag("instruction first"); if (at) d.AddChild(TreeData("Succeed")); loadable = !vp::flag("no plugin"); bool plug = false, empty = false;
  for (int i = 0; i < n; i++) { int k = vp::choose("kind", 6); std::string s = std::string(1, (char)('a' + i)); if (k < 4) { TreeData r("RegisterType"); if (k & 1) r.AddAttribute("jsontype", s); if (k & 2) r.AddAttribute("jsonfile", s); bad = bad || k == 0 || k == 3; if (k == 3) vp_reach("both"); if (k == 0) vp_reach("neither"); d.AddChild(r); } else { TreeData q("Plugin"); if (k == 4) q.SetContent(s); else empty = true; plug = plug || k == 4; d.AddChild(q); } } if (!at) d.AddChild(TreeData("Succeed"));
  std::unique_ptr<Procedure> p; loaded.clear(); int o = outcome([&] { p = ParseProcedure(d); }); bool fail = bad || empty || (plug && !loadable); CHECK((o == PARSED) == !fail, "exactly well-formed preambles whose plugins load are accepted"); if (p) { sameProc(*p, d); CHECK(loaded == p->GetPreamble().GetPluginPaths(), "each plugin is loaded, once, in order"); CHECK(p->GetInstructionCount() == 1, "the preamble holds no instructions"); auto q = ParseProcedure(*ToTreeData(*p)); CHECK(q->GetPreamble().GetPluginPaths() == p->GetPreamble().GetPluginPaths() && q->GetPreamble().GetTypeRegistrations().size() == p->GetPreamble().GetTypeRegistrations().size(), "the preamble survives writing and reading"); for (size_t i = 0; i < q->GetPreamble().GetTypeRegistrations().size(); i++) { auto a = q->GetPreamble().GetTypeRegistrations()[i], b = p->GetPreamble().GetTypeRegistrations()[i]; CHECK(a.GetRegistrationMode() == b.GetRegistrationMode() && a.GetString() == b.GetString(), "the types survive writing and reading"); } vp_reach("parsed"); } if (plug) vp_reach("plugin"); if (empty) vp_reach("empty");
}
HARNESS(h_root)
{
  bool good = vp::flag("good"); std::string name = good ? "Procedure" : vp::str("root", 0, 10); vp_assume(good || name != "Procedure"); TreeData d(name); if (vp::flag("child")) d.AddChild(TreeData("Succeed")); int o = outcome([&] { auto p = ParseProcedure(d); }); CHECK(o == (good ? PARSED : PARSE), "only a procedure element is a procedure"); vp_reach(good ? "accepted" : "refused");
}
HARNESS(h_text)
{ // the text form
  TreeData d("Procedure"); d.AddChild(TreeData("Fail")); std::string s = vp::str("name", 1, 2); TreeData w("Workspace"); w.AddChild(var("Local", s)); d.AddChild(w); auto p = ParseProcedureString(sup::xml::TreeDataToString(d)); CHECK(p->GetFilename().empty(), "a text has no file"); sameProc(*p, d); auto q = ParseProcedureString(GetXMLString(*p)); sameProc(*q, d); vp_reach("done"); int o = outcome([] { ParseProcedureString("no tree"); }); CHECK(o == PARSE, "text that is no tree is refused"); o = outcome([] { TreeData b("Nothing"); ParseProcedureString(sup::xml::TreeDataToString(b)); }); CHECK(o == PARSE, "text that is no procedure is refused"); vp_reach("refused");
}
HARNESS(h_files)
{
  TreeData d("Procedure"); d.AddChild(TreeData("Fail")); sup::xml::model::PutFile("/d/p.xml", d); auto p = ParseProcedureFile("/d/p.xml"); CHECK(p->GetFilename() == "/d/p.xml", "a procedure knows its file"); sameProc(*p, d); vp_reach("done"); int o = outcome([] { ParseProcedureFile("/d/q.xml"); }); CHECK(o == PARSE, "a missing file is refused"); vp_reach("refused");
}

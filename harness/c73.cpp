// @repo base/generic_utils.cpp
// @flags -Ddlopen=vp_dlopen -Ddlclose=vp_dlclose
// @entry h_load reach=loaded,again,self,missing,bad time=100
// @entry h_find reach=found,notfound,deep time=200
// @entry h_include reach=same,file,missing,unresolved,resolved,procedure time=150
// @entry h_tree reach=resolved,unresolved,deep time=100
// @entry h_directories reach=done time=60
// @entry h_nested reach=forwarded,own time=60
// @entry h_own reach=root,path,file time=60
// @entry h_procedure reach=root,path,noroot,missing time=60
// @entry h_workspaces reach=done,shared time=60
// @entry h_status reach=done time=100
// @entry h_destroy reach=gone,reset time=150
// @bound h_load: every 4 (thorough 5) loads of 6 files (the procedure itself, two files, a missing, a malformed and one with a preamble that is refused); h_find: every tree of up to 4 (thorough 5) instructions without a name or named 'a' or 'b', in every shape, every path of up to 3 (thorough 4) of the names 'a', 'b', 'ab'; h_include: every presence of the file, the path, the placeholder and the substitution, texts of up to 2 characters, all 256 byte values; h_tree: an included tree of up to 4 (thorough 5) instructions in every shape, each with no attribute, a literal or one of two placeholders, either of which may be given; h_destroy: every schedule with up to 2 preemptions of an included procedure that runs in a parallel branch while its procedure is reset or destroyed
// @assume shims stand in for sup-dto and sup-xml; files are tables from names to trees; a procedure that includes itself without end is outside
#include <oac.h>
#include <rt_threads.h>
#include <sup/oac-tree/procedure/procedure_store.h>
#include <sup/oac-tree/procedure_context.h>
#include <sup/oac-tree/instructions/instruction_helper.h>
#include <sup/oac-tree/parser/procedure_parser.h>
#include <sup/oac-tree/sequence_parser.h>
#include <sup/oac-tree/decorator_instruction.h>
#include <sup/xml/tree_data.h>
using namespace oac;
using sup::xml::TreeData;
namespace sup { namespace xml { namespace model { void PutFile(const std::string&, const TreeData&); int Reads(const std::string&); } } }
using sup::xml::model::PutFile;
using sup::xml::model::Reads;
#ifdef VP_THOROUGH
static const int kLoads = 5, kTree = 5, kPath = 4;
#else
static const int kLoads = 4, kTree = 4, kPath = 3;
#endif
extern "C" void* vp_dlopen(const char*, int) { return nullptr; }
extern "C" int vp_dlclose(void*) { return 0; }
typedef std::vector<std::pair<std::string, std::string>> At;
static TreeData el(const std::string& type, const At& a = {}, const std::vector<TreeData>& c = {}) { TreeData d(type); for (auto& x : a) d.AddAttribute(x.first, x.second); for (auto& x : c) d.AddChild(x); return d; }
static TreeData var(const std::string& name, const std::string& value) { return el("Local", {{"name", name}, {"type", "{\"type\":\"uint8\"}"}, {"value", value}}); }
struct Rec { std::string v; const Workspace* ws; const Instruction* i; }; static std::vector<Rec> rec; static int result = OK;
struct Probe : Instruction
{ // records its attribute and the workspace it is executed in
  Probe() : Instruction("Probe") {}
  ExecutionStatus ExecuteSingleImpl(UserInterface&, Workspace& ws) override { rec.push_back({HasAttribute("v") ? GetAttributeString("v") : "?", &ws, this}); return S(result); }
};
static void probe() { rec.clear(); result = OK; GlobalInstructionRegistry().RegisterInstruction("Probe", [] { return static_cast<Instruction*>(new Probe); }); }
static int outcome(const std::function<void()>& f) { try { f(); } catch (const InstructionSetupException&) { return 1; } catch (const ParseException&) { return 2; } catch (const ProcedureSetupException&) { return 3; } catch (const MessageException&) { return 4; } return 0; }
HARNESS(h_load)
{
  static const char* names[] = {"d/p", "d/a", "d/b", "none", "bad", "types"}; PutFile("d/a", el("Procedure", {}, {el("Succeed")})); PutFile("d/b", el("Procedure")); PutFile("bad", el("Nothing")); PutFile("types", el("Procedure", {}, {el("RegisterType", {{"jsontype", "{"}})})); PutFile("d/p", el("Procedure"));
  Procedure p("d/p"); auto c = p.GetContext(); const Procedure* seen[6] = {}; int tries[6] = {};
  for (int k = 0; k < kLoads; k++)
  {
    int f = vp::choose("file", 6); bool viaWs = k == 1 && vp::flag("workspace"); const Procedure* q = nullptr; int o = outcome([&] { if (viaWs) { Workspace* w = &c.GetWorkspace(names[f]); q = &c.GetProcedure(names[f]); CHECK(w == &q->GetWorkspace(), "the workspace of a file is that of its procedure"); } else q = &c.GetProcedure(names[f]); }); ++tries[f];
    CHECK(o == (f < 3 ? 0 : f == 5 ? 3 : 2), "exactly the procedures that can be read are loaded"); if (!f) { CHECK(q == &p, "a procedure's own file is the procedure itself"); vp_reach("self"); } else if (f < 3) { CHECK(q && q != &p && q->GetFilename() == names[f], "a file is loaded as its own procedure"); if (seen[f]) { CHECK(q == seen[f], "a file is always the same procedure"); vp_reach("again"); } else vp_reach("loaded"); seen[f] = q; } else vp_reach(f == 3 ? "missing" : "bad");
  }
  CHECK(!seen[1] || seen[1] != seen[2], "different files are different procedures"); CHECK(Reads("d/p") == 0, "a procedure's own file is not read again"); for (int f = 1; f < 3; f++) CHECK(Reads(names[f]) == (tries[f] ? 1 : 0), "each file is read at most once");
  if (seen[1]) { auto c2 = seen[1]->GetContext(); CHECK(c2.GetFilename() == "d/a" && &c2.GetProcedure("d/b") == &c.GetProcedure("d/b") && &c2.GetProcedure("d/p") == &p && &c2.GetProcedure("d/a") == seen[1], "included procedures share the files of the including one"); }
  Ui ui; p.Reset(ui); if (seen[1]) CHECK(&c.GetProcedure("d/a") == seen[1] && Reads("d/a") == 1, "a reset keeps the loaded files");
}
// name trees
static const Instruction* lookup(const std::vector<const Instruction*>& l, const std::vector<std::string>& p, size_t k) { for (auto i : l) { if (i->GetName() != p[k]) continue; return k + 1 == p.size() ? i : lookup(i->ChildInstructions(), p, k + 1); } return nullptr; }
HARNESS(h_find)
{
  Procedure p; int n = 1 + vp::choose("instructions", kTree), par[6]; std::vector<Instruction*> in;
  for (int i = 0; i < n; i++)
  { // a parent that is one of the earlier instructions, or none
    par[i] = vp::choose("parent", i + 1) - 1; auto x = make("Sequence"); in.push_back(x.get()); std::string name; int k = vp::choose("name", 3); if (k == 1) name = "a"; else if (k == 2) name = "b"; if (k) x->SetName(name); if (par[i] < 0) p.PushInstruction(std::move(x)); else AppendChildInstruction(*in[(size_t)par[i]], std::move(x));
  }
  std::string path; std::vector<std::string> parts; int len = 1 + vp::choose("length", kPath); static const char* part[] = {"a", "b", "ab"}; for (int i = 0; i < len; i++) { parts.push_back(part[vp::choose("part", 3)]); path += (i ? "." : "") + parts.back(); }
  auto want = lookup(p.GetTopInstructions(), parts, 0); auto got = InstructionHelper::FindInstruction(p.GetTopInstructions(), path); CHECK(got == want, "a path denotes the instruction whose ancestors have its names, and no other"); vp_reach(!want ? "notfound" : parts.size() > 1 ? "deep" : "found");
  auto clone = p.GetContext().CloneInstructionPath("", path); CHECK((clone != nullptr) == (want != nullptr), "exactly an instruction that is found is copied"); if (clone) { auto owned = p.GetTopInstructions(); CHECK(clone.get() != want && clone->GetName() == want->GetName() && clone->ChildInstructions().size() == want->ChildInstructions().size(), "the copy looks like the original"); for (auto k : static_cast<const Instruction&>(*clone).ChildInstructions()) for (auto i : in) CHECK(k != i, "the copy shares nothing with the original"); }
}
HARNESS(h_include)
{ // all combinations of file, path, placeholder and substitution
  probe(); bool file = vp::flag("file"), found = vp::flag("found"), proc = file && vp::flag("procedure"); const char* type = proc ? "IncludeProcedure" : "Include"; int ph = vp::choose("attribute", 3); bool given = vp::flag("given"); auto text = vp::str("text", 0, 2); vp_assume(text.empty() || (text[0] != '$' && text[0] != '@')); At pa = {{"name", "P"}}; if (ph == 1) pa.push_back({"v", "$x"}); if (ph == 2) pa.push_back({"v", "lit"});
  TreeData target = el("Sequence", {{"name", "T"}}, {el("Probe", pa)}); At ia = {{"path", found ? "T.P" : "T.Q"}}; if (file) ia.push_back({"file", "sub"}); if (given) ia.push_back({"x", text}); ia.push_back({"isRoot", "true"}); std::vector<TreeData> main = {el(type, ia)}, sub; (file ? sub : main).push_back(target); if (vp::flag("again")) { At other = {{"path", "T.P"}, {"x", "other"}}; if (file) other.push_back({"file", "sub"}); main[0] = el("Sequence", {{"isRoot", "true"}}, {main[0], el(type, other)}); }
  PutFile("dir/sub", el("Procedure", {}, sub)); auto p = ParseProcedure(el("Procedure", {}, main), "dir/main"); int o = outcome([&] { p->Setup(); }); int want = !found || (ph == 1 && !given) ? 1 : 0; CHECK(o == want, "an include is set up exactly when its target exists and all placeholders are given"); vp_reach(file ? "file" : "same"); if (!found) vp_reach("missing"); else if (o) vp_reach("unresolved"); if (o) return;
  auto s = ph == 1 ? text : ph == 2 ? std::string("lit") : std::string("?"); Ui ui; for (int i = 0; i < 3 && p->GetStatus() != ExecutionStatus::SUCCESS; i++) p->ExecuteSingle(ui); bool twice = main[0].GetNodeName() == "Sequence"; CHECK(p->GetStatus() == ExecutionStatus::SUCCESS, "an include succeeds as its target does"); CHECK(rec.size() == (twice ? 2u : 1u), "each include executes its own copy"); CHECK(rec[0].v == s, "placeholders are replaced by the including instruction's attributes"); if (twice) CHECK(rec[1].v == (ph == 1 ? std::string("other") : s) && rec[0].i != rec[1].i, "each include has its own attributes"); for (auto& r : rec) CHECK(r.ws == &(proc ? p->GetContext().GetProcedure("dir/sub") : *p).GetWorkspace(), "an include works on the procedure's workspace, an included procedure on its own"); if (proc) vp_reach("procedure"); vp_reach("resolved");
  auto q = p->GetContext().CloneInstructionPath(file ? "dir/sub" : "dir/main", "T.P"); CHECK(q && q->GetStringAttributes() == pa, "the included instruction itself is unchanged"); auto top = (file ? p->GetContext().GetProcedure("dir/sub") : *p).GetTopInstructions(); for (auto t : top) if (t->GetName() == "T") for (auto k : t->ChildInstructions()) { CHECK(I(*k) == NS, "the included instruction itself is not executed"); for (auto& r : rec) CHECK(r.i != k, "a copy is executed"); } if (file) CHECK(Reads("dir/sub") == 1, "an included file is read once");
}
static void same(const Instruction& got, const Instruction& want, const At& given, int depth)
{
  CHECK(got.GetType() == want.GetType() && &got != &want, "a copy has the type of the original"); At a; for (auto& x : want.GetStringAttributes()) { auto v = x.second; for (auto& g : given) if (v == "$" + g.first) { v = g.second; if (depth > 1) vp_reach("deep"); } a.push_back({x.first, v}); } CHECK(got.GetStringAttributes() == a, "a copy has the attributes of the original, with every placeholder replaced");
  auto g = got.ChildInstructions(), w = want.ChildInstructions(); CHECK(g.size() == w.size(), "a copy has the children of the original"); for (size_t k = 0; k < g.size(); k++) same(*g[k], *w[k], given, depth + 1);
}
HARNESS(h_tree)
{ // the whole included tree is a copy in which every placeholder is replaced
  Procedure p("d/p"); int n = 1 + vp::choose("instructions", kTree); std::vector<Instruction*> in; bool useX = false, useY = false; static const char* at[] = {"", "lit", "$x", "$y"};
  probe(); int pars[6]; bool inner[6] = {}; for (int i = 1; i < n; i++) { pars[i] = vp::choose("parent", i); inner[pars[i]] = true; }
  for (int i = 0; i < n; i++) { auto x = make(inner[i] ? "Sequence" : "Probe"); if (!i) x->SetName("T"); int k = vp::choose("attribute", 4); if (k) x->AddAttribute("v", at[k]); useX |= k == 2; useY |= k == 3; in.push_back(x.get()); if (!i) p.PushInstruction(std::move(x)); else AppendChildInstruction(*in[(size_t)pars[i]], std::move(x)); }
  auto inc = make("Include"); inc->AddAttribute("path", "T"); At given; if (vp::flag("x")) given.push_back({"x", "1"}); if (vp::flag("y")) given.push_back({"y", "2"}); bool gx = false, gy = false; for (auto& g : given) { inc->AddAttribute(g.first, g.second); (g.first == "x" ? gx : gy) = true; } inc->AddAttribute("isRoot", "true"); auto* i = inc.get(); p.PushInstruction(std::move(inc));
  int o = outcome([&] { p.Setup(); }); CHECK(o == ((useX && !gx) || (useY && !gy) ? 1 : 0), "an include is set up exactly when every placeholder in its tree is given"); if (o) { vp_reach("unresolved"); return; } auto c = i->ChildInstructions(); CHECK(c.size() == 1, "the included tree is the include's child"); same(*c[0], *in[0], given, 0); vp_reach("resolved");
}
HARNESS(h_directories)
{ // a file is taken from the directory of the procedure that names it
  probe(); static const char* main[] = {"main", "x/main", "/r/main"}; static const char* dir[] = {"", "x/", "/r/"}; int m = vp::choose("main", 3); bool abs = vp::flag("absolute"); bool proc = vp::flag("procedure"); std::string mid = abs ? "/y/mid" : "y/mid", full = abs ? mid : dir[m] + mid, leaf = abs ? "/y/leaf" : std::string(dir[m]) + "y/leaf"; const char* type = proc ? "IncludeProcedure" : "Include";
  PutFile(full, el("Procedure", {}, {el(type, {{"file", "leaf"}, {"path", "L"}, {"name", "M"}})})); PutFile(leaf, el("Procedure", {}, {el("Probe", {{"name", "L"}, {"v", "there"}})})); PutFile("leaf", el("Procedure", {}, {el("Probe", {{"name", "L"}, {"v", "wrong"}})})); auto p = ParseProcedure(el("Procedure", {}, {el(type, {{"file", mid}, {"path", "M"}})}), main[m]); p->Setup(); Ui ui; p->ExecuteSingle(ui); CHECK(rec.size() == 1 && rec[0].v == "there", "a file is relative to the file that includes it"); CHECK(Reads(leaf) == 1 && Reads(full) == 1 && Reads("leaf") == 0, "exactly the included files are read"); if (proc) CHECK(rec[0].ws == &p->GetContext().GetWorkspace(leaf), "an included procedure works on its own workspace"); vp_reach("done");
}
HARNESS(h_nested)
{ // an include forwards the attributes it is given to the includes below it
  probe(); int mode = vp::choose("mode", 3); At inner = {{"path", "T"}}; if (mode == 1) inner.push_back({"x", "own"}); if (mode == 2) inner.push_back({"x", "$y"}); bool proc = vp::flag("procedure"); if (proc) inner.push_back({"file", "main"}); At outer = {{"path", "M"}, {"x", "given"}, {"y", "renamed"}, {"isRoot", "true"}};
  auto p = ParseProcedure(el("Procedure", {}, {el("Probe", {{"name", "T"}, {"v", "$x"}}), el("Sequence", {{"name", "M"}}, {el(proc ? "IncludeProcedure" : "Include", inner)}), el("Include", outer)}), "main"); p->Setup(); Ui ui; p->ExecuteSingle(ui); CHECK(rec.size() == 1 && rec[0].v == (mode == 0 ? "given" : mode == 1 ? "own" : "renamed"), "an attribute comes from the nearest include that has it"); CHECK(rec[0].ws == &p->GetWorkspace(), "the procedure includes itself with its own workspace"); vp_reach(mode == 1 ? "own" : "forwarded");
}
HARNESS(h_own)
{ // the file and path of an include are its own: an include below it does not take them
  probe(); bool outer = vp::flag("outer procedure"), inner = vp::flag("inner procedure"); bool path = !inner || vp::flag("path"), file = inner || vp::flag("file"), deep = vp::flag("deep"); At a = {{"name", "X"}}; if (file) a.push_back({"file", "leaf"}); if (path) a.push_back({"path", "Y"}); TreeData x = el(inner ? "IncludeProcedure" : "Include", a); if (deep) { x = el(inner ? "IncludeProcedure" : "Include", At(a.begin() + 1, a.end())); x = el("Sequence", {{"name", "X"}}, {x}); }
  PutFile("y/mid", el("Procedure", {}, {x, el("Probe", {{"name", "Y"}, {"v", "mid"}})})); PutFile("y/leaf", el("Procedure", {}, {el("Probe", {{"name", "X"}, {"v", "taken"}}), el("Probe", {{"name", "Y"}, {"v", "leaf"}}), el("Probe", {{"name", "R"}, {"v", "root"}, {"isRoot", "true"}})})); auto p = ParseProcedure(el("Procedure", {}, {el(outer ? "IncludeProcedure" : "Include", {{"file", "y/mid"}, {"path", "X"}})}), "main");
  CHECK(outcome([&] { p->Setup(); }) == 0, "an include with all it needs is set up"); Ui ui; p->ExecuteSingle(ui); CHECK(rec.size() == 1 && rec[0].v == (!path ? "root" : file ? "leaf" : "mid"), "an include uses its own file and path"); vp_reach(!path ? "root" : file ? "file" : "path");
}
HARNESS(h_procedure)
{
  probe(); bool path = vp::flag("path"); int tops = vp::choose("instructions", 3), root = tops ? vp::choose("root", tops + 1) - 1 : -1, named = tops ? vp::choose("named", tops + 1) - 1 : -1; std::vector<TreeData> sub; for (int i = 0; i < tops; i++) { At a = {{"v", std::string(1, (char)('0' + i))}}; if (i == root) a.push_back({"isRoot", "yes"}); if (i == named) a.push_back({"name", "N"}); sub.push_back(el("Probe", a)); } PutFile("sub", el("Procedure", {}, sub)); At a = {{"file", "sub"}}; if (path) a.push_back({"path", "N"}); auto p = ParseProcedure(el("Procedure", {}, {el("IncludeProcedure", a)}), "main"); int target = path ? named : tops == 1 ? 0 : root; int o = outcome([&] { p->Setup(); }); CHECK(o == (target < 0 ? 1 : 0), "an included procedure is set up exactly when it has the instruction"); if (o) { vp_reach(path ? "missing" : "noroot"); return; } Ui ui; p->ExecuteSingle(ui); CHECK(rec.size() == 1 && rec[0].v == std::string(1, (char)('0' + target)), "the named instruction, or else the root, is executed"); CHECK(rec[0].ws == &p->GetContext().GetWorkspace("sub") && rec[0].ws != &p->GetWorkspace(), "an included procedure works on its own workspace"); vp_reach(path ? "path" : "root");
}
static sup::dto::AnyValue u8(unsigned v) { return sup::dto::AnyValue(sup::dto::uint8(v)); }
HARNESS(h_workspaces)
{ // variables of the included procedure and of the main one are different; includes of one file share them; a reset restores them
  PutFile("sub", el("Procedure", {}, {el("Increment", {{"varName", "v"}, {"name", "inc"}}), el("Workspace", {}, {var("v", "7")})})); int n = 1 + vp::choose("includes", 2); bool decoy = vp::flag("decoy"); std::vector<TreeData> inc; for (int i = 0; i < n; i++) inc.push_back(el("IncludeProcedure", i ? At{{"file", "sub"}, {"path", "inc"}} : At{{"file", "sub"}})); auto p = ParseProcedure(el("Procedure", {}, {el("Sequence", {}, inc), el("Workspace", {}, {var(decoy ? "v" : "w", "50")})}), "main"); const_cast<Instruction*>(p->GetTopInstructions()[0])->AddAttribute("isRoot", "true");
  p->Setup(); auto c = p->GetContext(); auto& w = c.GetWorkspace("sub"); Ui ui;
  for (int round = 0; round < 2; round++) { sup::dto::AnyValue v; CHECK(w.GetValue("v", v) && v == u8(7), "the included procedure's variables have their initial values"); for (int i = 0; i < n; i++) p->ExecuteSingle(ui); CHECK(p->GetStatus() == ExecutionStatus::SUCCESS, "the included procedure finds its variables"); CHECK(w.GetValue("v", v) && v == u8(7u + (unsigned)n), "includes of one file share its variables"); CHECK(p->GetVariableValue(decoy ? "v" : "w", v) && v == u8(50), "the procedure's own variables are untouched"); p->Reset(ui); } vp_reach(n > 1 ? "shared" : "done");
}
HARNESS(h_status)
{ // an include reports exactly what its child does
  probe(); bool proc = vp::flag("procedure"); PutFile("sub", el("Procedure", {}, {el("Probe", {{"name", "P"}})})); auto p = ParseProcedure(el("Procedure", {}, {el(proc ? "IncludeProcedure" : "Include", {{"file", "sub"}, {"path", "P"}})}), "main"); p->Setup(); Ui ui; int st = NS, n = 0; bool halt = false; auto root = p->RootInstruction();
  for (int k = 0; k < 5; k++) { int op = vp::choose("operation", 4); if (op < 2) { result = vp::choose("result", 4) + 1; p->ExecuteSingle(ui); if (st == NS) st = NF; if (st != OK && st != BAD && !halt) { ++n; st = result; } } else if (op == 2) { p->Halt(); halt = true; } else { p->Reset(ui); st = NS; halt = false; } CHECK(I(*root) == st && (int)rec.size() == n, "an include has the status of its child"); auto c = root->ChildInstructions(); CHECK(c.size() == 1 && (I(*c[0]) == st || halt), "the child is part of the tree"); } vp_reach("done");
}
static int reads; struct Slow : Instruction { Slow() : Instruction("Slow") {} ExecutionStatus ExecuteSingleImpl(UserInterface&, Workspace& ws) override { sup::dto::AnyValue v; ws.GetValue("v", v); { VpQuiet q; ++reads; } return reads > 2 || IsHaltRequested() ? ExecutionStatus::SUCCESS : ExecutionStatus::RUNNING; } };
HARNESS(h_destroy)
{ // the procedure goes away while an included one runs in a parallel branch
  { VpQuiet q; reads = 0; GlobalInstructionRegistry().RegisterInstruction("Slow", [] { return static_cast<Instruction*>(new Slow); }); PutFile("sub", el("Procedure", {}, {el("Slow"), el("Workspace", {}, {var("v", "7")})})); }
  vp_threads(2, 0, 400); Ui ui; auto p = ParseProcedure(el("Procedure", {}, {el("Async", {}, {el("IncludeProcedure", {{"file", "sub"}})})}), "main"); p->Setup(); p->ExecuteSingle(ui); bool destroy = vp::flag("destroy"); if (destroy) p.reset(); else p->Reset(ui); int n = reads; vp_drain(); CHECK(n == reads, "no branch runs on"); vp_reach(destroy ? "gone" : "reset");
}

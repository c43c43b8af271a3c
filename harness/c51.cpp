// @entry h_map reach=foreign,empty time=60
// @entry h_workspace reach=done time=100
// @entry h_add reach=refused,accepted time=100
// @entry h_wire reach=accepted,refused time=100
// @entry h_malformed reach=refused,accepted time=100
// @entry h_equal reach=same,different time=60
// @entry h_jobvars reach=done time=60
// @entry h_large reach=done time=100
// @entry h_compare reach=same,different time=100
// @bound h_compare: two jobs with one variable and four instructions that differ in any one of 8 parts, in two exchanged indices or in types and names of up to 1 symbolic character; h_large: 300 variables; h_map, h_workspace, h_jobvars: every workspace of up to 4 (thorough 5) variables with names in any order; h_add: histories of 3 (thorough 4) additions with symbolic 32-bit indices and any of 3 names; h_wire: 3 (thorough 4) transported variables with symbolic indices; h_malformed: a valid value of 2 variables with any two of 10 defects
// @assume shims stand in for sup-dto (structures keep the order of their members)
#include <oac.h>
#include <sup/oac-tree/instruction_info.h>
#include <sup/oac-tree/job_info.h>
#include <sup/oac-tree/variable_map.h>
#include <sup/oac-tree/variable_info.h>
#include <sup/oac-tree/workspace_info.h>
#include <sup/oac-tree/variable_utils.h>
#include <sup/dto/anyvalue_helper.h>
using namespace oac;
namespace dto = sup::dto;
#ifdef VP_THOROUGH
static const int kVars = 5, kIdx = 4;
#else
static const int kVars = 4, kIdx = 3;
#endif
static const char* kNames[] = {"b", "a", "d", "ab", "c"};
static bool refused(const std::function<void()>& f) { try { f(); } catch (const InvalidOperationException&) { return true; } return false; }
struct W
{ // a workspace with variables in any order of names
  Workspace ws; int n; std::string name[5]; bool file[5]; Variable* at[5];
  W()
  {
    n = vp::choose("variables", kVars + 1); bool used[5] = {};
    for (int i = 0; i < n; i++) { int k = vp::choose("name", kVars); vp_assume(!used[k]); used[k] = true; name[i] = kNames[k]; file[i] = i == 1; auto v = GlobalVariableRegistry().Create(file[i] ? "File" : "Local"); v->AddAttribute("name", name[i]); if (file[i]) v->AddAttribute("file", "/f"); if (i % 2 == 0) v->AddAttribute("type", "{\"type\":\"uint8\"}"); at[i] = v.get(); ws.AddVariable(name[i], std::move(v)); }
  }
  int rank(int i) const { int r = 0; for (int j = 0; j < n; j++) r += name[j] < name[i]; return r; }
};
HARNESS(h_map)
{
  W w; VariableMap m(w.ws); auto names = w.ws.VariableNames(); CHECK((int)m.GetNumberOfVariables() == w.n && (int)m.GetVariableIndexMap().size() == w.n && (int)names.size() == w.n, "every variable is numbered"); bool used[5] = {};
  for (int i = 0; i < w.n; i++) { auto x = m.FindVariableIndex(w.name[i]); CHECK(x < (unsigned)w.n && !used[x], "the numbering is a bijection onto 0..n-1"); used[x] = true; CHECK(names[x] == w.name[i], "a variable's number is its place among the workspace's variables"); }
  std::string s = vp::str("name", 0, 2); bool known = false; for (int i = 0; i < w.n; i++) known = known || s == w.name[i]; vp_assume(!known); CHECK(refused([&] { m.FindVariableIndex(s); }), "an unknown variable is refused"); vp_reach("foreign"); if (!w.n) vp_reach("empty");
}
static void describes(const WorkspaceInfo& info, const W& w)
{
  auto names = w.ws.VariableNames(); CHECK((int)info.GetNumberOfVariables() == w.n, "every variable is described"); auto& v = info.GetVariableInfos(); VariableMap m(w.ws);
  for (int k = 0; k < w.n; k++) { CHECK(v[(size_t)k].first == names[(size_t)k] && (int)v[(size_t)k].second.GetIndex() == k && m.FindVariableIndex(v[(size_t)k].first) == (unsigned)k, "descriptions are in the order of the numbers"); auto* p = w.ws.GetVariable(names[(size_t)k]); CHECK(v[(size_t)k].second.GetType() == p->GetType() && v[(size_t)k].second.GetAttributes() == p->GetStringAttributes(), "a description has its variable's type and attributes"); }
}
HARNESS(h_workspace)
{
  W w; auto info = utils::CreateWorkspaceInfo(w.ws); describes(info, w); auto av = utils::ToAnyValue(info); CHECK(utils::ValidateWorkspaceInfoAnyValue(av), "the transport value is valid"); auto back = utils::ToWorkspaceInfo(av); describes(back, w); CHECK(back == info && !(back != info), "a description survives its transport"); CHECK(utils::ToAnyValue(back) == av, "a transported description has the same transport value"); auto names = utils::BuildVariableNameMap(back); CHECK(names == w.ws.VariableNames(), "the names are listed by number");
  WorkspaceInfo c(back); CHECK(c == info, "a copy is equal"); WorkspaceInfo d; d.AddVariableInfo("zz", VariableInfo("T", 0, {})); d = c; CHECK(d == info, "an assigned description is equal"); WorkspaceInfo e(std::move(d)); CHECK(e == info && c == info, "a moved description is equal"); c.AddVariableInfo("new", VariableInfo("T", (uint32_t)w.n, {})); CHECK(c != info && (int)e.GetNumberOfVariables() == w.n, "copies are independent"); vp_reach("done");
}
HARNESS(h_add)
{ // histories of additions
  WorkspaceInfo info; std::vector<std::string> have; for (int k = 0; k < kIdx; k++) { std::string n = kNames[vp::choose("name", 3)]; auto x = vp::any<uint32_t>("index"); bool dup = false; for (auto& h : have) dup = dup || h == n; bool bad = refused([&] { info.AddVariableInfo(n, VariableInfo("T", x, {{"a", n}})); }); CHECK(bad == (dup || x != have.size()), "a description is accepted exactly with a new name and the next number"); if (!bad) { have.push_back(n); vp_reach("accepted"); } else vp_reach("refused"); CHECK(utils::BuildVariableNameMap(info) == have, "a refused description leaves the rest unchanged"); for (size_t i = 0; i < have.size(); i++) CHECK(info.GetVariableInfos()[i].second.GetIndex() == i, "numbers are places"); }
}
static dto::AnyValue var(uint32_t idx) { return utils::ToAnyValue(VariableInfo("Local", idx, {{"name", "n"}, {"type", "t"}})); }
HARNESS(h_wire)
{ // symbolic numbers: accepted exactly if every variable has the number of its place
  dto::AnyValue v = dto::EmptyStruct(); bool good = true; for (int i = 0; i < kIdx; i++) { auto x = vp::any<uint32_t>("index"); good = good && x == (uint32_t)i; v.AddMember(kNames[i], var(x)); } bool bad = refused([&] { auto w = utils::ToWorkspaceInfo(v); for (int i = 0; i < kIdx; i++) CHECK((int)w.GetVariableInfos()[(size_t)i].second.GetIndex() == i && w.GetVariableInfos()[(size_t)i].first == kNames[i], "an accepted description is complete"); }); CHECK(bad == !good, "a description is accepted exactly when the numbers are the places"); vp_reach(bad ? "refused" : "accepted");
}
HARNESS(h_malformed)
{
  int d1 = vp::choose("defect", 11), d2 = vp::choose("second", 11); auto has = [&](int d) { return d1 == d || d2 == d; }; if (has(6) && has(7)) d2 = d1; // 6 replaces what 7 extends
  auto one = [&](int i, int o) { auto v = var((uint32_t)i); if (has(o + 1)) v["type"] = dto::AnyValue(dto::int32(1)); if (has(o + 2)) v["type"] = dto::AnyValue(std::string()); if (has(o + 3)) v["index"] = i ? dto::AnyValue(dto::int32(i)) : dto::AnyValue(dto::uint64(i)); return v; };
  auto a = one(0, 0), b = one(1, 3); if (has(7)) a["attributes"].AddMember("bad", dto::AnyValue(dto::int32(1))); if (has(8)) b["attributes"] = dto::AnyValue(std::string("none")); if (has(9)) b = dto::AnyValue({{"type", dto::AnyValue(std::string("T"))}, {"index", dto::AnyValue(dto::uint32(1))}});
  dto::AnyValue v = dto::EmptyStruct(); v.AddMember("x", a); v.AddMember("y", b); if (has(10)) v = vp::flag("scalar") ? dto::AnyValue(dto::int32(1)) : dto::AnyValue(); bool bad = d1 > 0 || d2 > 0; CHECK(utils::ValidateWorkspaceInfoAnyValue(v) == !bad, "malformed values are not valid"); CHECK(refused([&] { utils::ToWorkspaceInfo(v); }) == bad, "malformed transport values are refused"); vp_reach(bad ? "refused" : "accepted");
  bool abad = has(1) || has(2) || has(3) || has(7); CHECK(utils::ValidateVariableInfoAnyValue(a) == !abad && refused([&] { utils::ToVariableInfo(a); }) == abad, "malformed descriptions of a variable are refused");
}
HARNESS(h_equal)
{
  auto x = vp::any<uint32_t>("index"), y = vp::any<uint32_t>("index"); std::string t = vp::str("type", 1, 2), u = vp::str("type", 1, 2), an = vp::flag("attr") ? "p" : "q", av = vp::str("value", 0, 1); VariableInfo a(t, x, {{"p", "v"}}), b(u, y, {{an, av}}); bool same = t == u && x == y && an == "p" && av == "v"; CHECK((a == b) == same && (a != b) == !same, "descriptions are equal exactly when type, number and attributes are"); vp_reach(same ? "same" : "different");
  VariableInfo c(b); CHECK(c == b && c.GetType() == u && c.GetIndex() == y && c.GetAttributes() == b.GetAttributes(), "a copy is equal"); auto w = utils::ToVariableInfo(utils::ToAnyValue(b)); CHECK(w == b, "a description survives its transport"); a = w; CHECK(a == b, "an assigned description is equal"); CHECK(refused([&] { utils::CreateVariableInfo(nullptr, 0); }), "no variable is refused");
}
HARNESS(h_jobvars)
{ // updates carry the number of the variable that changed
  W w; for (int i = 0; i < w.n; i++) { auto v = w.at[i]; auto info = utils::CreateVariableInfo(v, (uint32_t)w.rank(i)); CHECK(info.GetType() == (w.file[i] ? "File" : "Local") && (int)info.GetIndex() == w.rank(i), "a variable's description has its type and number"); CHECK(info.GetAttributes().size() == 1u + (w.file[i] ? 1 : 0) + (i % 2 == 0 ? 1 : 0), "a variable's description has its attributes"); } vp_reach("done");
}
HARNESS(h_large)
{ // many variables
  Workspace ws; const int n = 300; auto nm = [](int i) { return "v" + std::to_string((i * 37) % 300); }; for (int i = 0; i < n; i++) ws.AddVariable(nm(i), GlobalVariableRegistry().Create("Local")); VariableMap m(ws); auto names = ws.VariableNames(); CHECK((int)names.size() == n && (int)m.GetNumberOfVariables() == n, "every variable is numbered"); for (int i = 0; i < n; i++) CHECK(m.FindVariableIndex(names[(size_t)i]) == (unsigned)i, "a variable's number is its place among the workspace's variables"); auto info = utils::CreateWorkspaceInfo(ws); auto back = utils::ToWorkspaceInfo(utils::ToAnyValue(info)); CHECK(back == info && (int)back.GetNumberOfVariables() == n, "a description survives its transport"); for (int i = 0; i < n; i++) CHECK(back.GetVariableInfos()[(size_t)i].first == names[(size_t)i] && (int)back.GetVariableInfos()[(size_t)i].second.GetIndex() == i, "descriptions are in the order of the numbers"); vp_reach("done");
}
HARNESS(h_compare)
{ // descriptions of jobs are equal exactly when they describe the same job
  bool ex = vp::flag("exchanged"); std::string t = vp::str("type", 1, 1), u = vp::str("type", 1, 1), nm = vp::str("name", 0, 1), nn = vp::str("name", 0, 1); int d = vp::choose("difference", 9); bool deep = vp::flag("deep");
  auto job = [&](bool second) { int k = second ? d : 0; WorkspaceInfo w; w.AddVariableInfo(k == 1 ? "w" : "v", VariableInfo(k == 2 ? "File" : "Local", 0, {{"type", k == 3 ? "b" : "a"}})); if (k == 4) w.AddVariableInfo("more", VariableInfo("Local", 1, {}));
    auto leaf = [&](bool here, unsigned index) { return std::make_unique<InstructionInfo>(here && k == 5 ? "Other" : second ? u : t, here && k == 6 ? Instruction::kDecorator : Instruction::kAction, index, std::vector<AttributeInfo>{{"p", here && k == 7 ? "2" : "1"}}); };
    auto root = std::make_unique<InstructionInfo>("Sequence", Instruction::kCompound, 0, std::vector<AttributeInfo>{}); root->AppendChild(leaf(!deep, second && ex ? 3 : 1)); auto* m = root->AppendChild(std::make_unique<InstructionInfo>("Inverter", Instruction::kDecorator, 2, std::vector<AttributeInfo>{})); m->AppendChild(leaf(deep, second && ex ? 1 : 3)); if (k == 8) (deep ? root->AppendChild(std::make_unique<InstructionInfo>("Sequence", Instruction::kCompound, 5, std::vector<AttributeInfo>{})) : root.get())->AppendChild(leaf(false, 4)); return JobInfo(second ? nn : nm, w, std::move(root)); };
  JobInfo a = job(false), b = job(true); bool same = d == 0 && !ex && t == u && nm == nn; CHECK((a == b) == same && (b == a) == same && (a != b) == !same, "job descriptions are equal exactly when all their parts are"); CHECK((a.GetWorkspaceInfo() == b.GetWorkspaceInfo()) == (d == 0 || d > 4), "workspace descriptions are equal exactly when their variables are"); CHECK((*a.GetRootInstructionInfo() == *b.GetRootInstructionInfo()) == (d < 5 && !ex && t == u), "instruction descriptions are equal exactly when their trees are");
  if (same || d == 8) { JobInfo c(b); CHECK(c == b && c.GetNumberOfInstructions() == b.GetNumberOfInstructions() && c.GetNumberOfVariables() == b.GetNumberOfVariables(), "a copy is equal"); a = c; CHECK(a == b && c == b, "an assigned description is equal"); JobInfo e(std::move(c)); CHECK(e == b && e.GetNumberOfInstructions() == (unsigned)(d == 8 ? deep ? 6 : 5 : 4), "a moved description is equal"); }
  vp_reach(same ? "same" : "different");
}

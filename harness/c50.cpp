// @entry h_map reach=deep,wide,foreign time=150
// @entry h_reverse reach=bijection,refused time=60
// @entry h_roundtrip reach=done time=200
// @entry h_copy reach=done time=60
// @entry h_malformed reach=refused,accepted time=200
// @entry h_indices reach=accepted,refused time=100
// @entry h_append reach=done time=30
// @entry h_state reach=valid,invalid time=60
// @entry h_job reach=done,refused time=60
// @entry h_trees reach=done time=100
// @entry h_large reach=done time=100
// @entry h_compare reach=same,different time=100
// @bound h_compare: two jobs with one variable and four instructions that differ in any one of 8 parts, in two exchanged indices or in types and names of up to 1 symbolic character; h_large: 301 instructions; h_map, h_roundtrip, h_trees: every tree of up to 6 (thorough 8) instructions of compounds, decorators and actions; h_reverse, h_indices: maps and trees of 3 (thorough 4) nodes with symbolic 32-bit indices; h_malformed: a valid transport value of 3 nodes with any one or two of 14 defects
// @assume shims stand in for sup-dto (references to members of a structure value stay valid while members are added)
#include <oac.h>
#include <sup/oac-tree/workspace_info.h>
#include <sup/oac-tree/job_info.h>
#include <sup/oac-tree/instruction_map.h>
#include <sup/oac-tree/instruction_tree.h>
#include <sup/oac-tree/instruction_info.h>
#include <sup/oac-tree/instruction_info_utils.h>
#include <sup/oac-tree/instruction_state.h>
#include <sup/oac-tree/job_info_utils.h>
#include <sup/dto/anyvalue_helper.h>
using namespace oac;
namespace dto = sup::dto;
#ifdef VP_THOROUGH
static const int kNodes = 8, kIdx = 4;
#else
static const int kNodes = 6, kIdx = 3;
#endif
struct T
{ // a tree of instructions given by the parents of its nodes
  int n, parent[8], cat[8], kids[8]; Instruction* at[8]; std::unique_ptr<Instruction> root; std::vector<int> bfs;
  explicit T(int lo = 1)
  {
    n = lo + vp::choose("instructions", kNodes - lo + 1); for (int i = 0; i < n; i++) kids[i] = 0; for (int i = 1; i < n; i++) { parent[i] = vp::choose("parent", i); ++kids[parent[i]]; }
    std::vector<std::unique_ptr<Instruction>> u; for (int i = 0; i < n; i++) { cat[i] = kids[i] == 0 ? 0 : kids[i] == 1 ? 1 : 2; u.push_back(make(cat[i] == 0 ? "Succeed" : cat[i] == 1 ? "Inverter" : "Sequence")); at[i] = u.back().get(); at[i]->AddAttribute("name", std::string(1, (char)('a' + i))); if (i % 2) at[i]->AddAttribute("extra", "v"); }
    for (int i = n - 1; i >= 1; i--) at[parent[i]]->InsertInstruction(std::move(u[i]), 0); root = std::move(u[0]);
    bfs.push_back(0); for (size_t q = 0; q < bfs.size(); q++) for (int i = 1; i < n; i++) if (parent[i] == bfs[q]) bfs.push_back(i);
  }
  int index(int node) const { for (size_t q = 0; q < bfs.size(); q++) if (bfs[q] == node) return (int)q; return -1; }
};
HARNESS(h_map)
{
  T t; InstructionMap m(t.root.get()); CHECK((int)m.GetNumberOfInstructions() == t.n && (int)m.GetInstructionIndexMap().size() == t.n, "every instruction is numbered"); CHECK(m.FindInstructionIndex(t.root.get()) == 0, "the root comes first"); bool used[8] = {};
  for (int i = 0; i < t.n; i++) { auto x = m.FindInstructionIndex(t.at[i]); CHECK(x < (unsigned)t.n && !used[x], "the numbering is a bijection onto 0..n-1"); used[x] = true; CHECK((int)x == t.index(i), "instructions are numbered level by level"); }
  auto r = GetReverseMap(m.GetInstructionIndexMap()); CHECK((int)r.size() == t.n, "the reverse map is complete"); for (int i = 0; i < t.n; i++) CHECK(r[m.FindInstructionIndex(t.at[i])] == t.at[i], "the reverse map inverts the numbering");
  auto other = make("Succeed"); for (const Instruction* f : {(const Instruction*)other.get(), (const Instruction*)nullptr}) { bool thrown = false; try { m.FindInstructionIndex(f); } catch (const InvalidOperationException&) { thrown = true; } CHECK(thrown, "an unknown instruction is refused"); } InstructionMap none(nullptr); CHECK(none.GetNumberOfInstructions() == 0, "no instruction has no numbers"); vp_reach("foreign"); if (t.kids[0] > 2) vp_reach("wide"); if (t.n > 3 && t.kids[0] == 1) vp_reach("deep");
}
HARNESS(h_reverse)
{
  std::vector<std::unique_ptr<Instruction>> u; InstructionMap::InstructionIndexMap m; uint32_t x[4]; for (int i = 0; i < kIdx; i++) { u.push_back(make("Succeed")); x[i] = vp::any<uint32_t>("index"); m[u[i].get()] = x[i]; } bool bij = true; for (int i = 0; i < kIdx; i++) { if (x[i] >= (uint32_t)kIdx) bij = false; for (int j = 0; j < i; j++) if (x[i] == x[j]) bij = false; }
  bool ok = true; std::vector<const Instruction*> r; try { r = GetReverseMap(m); } catch (const InvalidOperationException&) { ok = false; } CHECK(ok == bij, "exactly the bijections can be reversed"); if (ok) for (int i = 0; i < kIdx; i++) CHECK(r[x[i]] == u[i].get(), "the reverse map inverts the numbering"); vp_reach(ok ? "bijection" : "refused");
  m.clear(); CHECK(GetReverseMap(m).empty(), "no instruction has no numbers"); m[nullptr] = 0; ok = true; try { GetReverseMap(m); } catch (const InvalidOperationException&) { ok = false; } CHECK(!ok, "a missing instruction is refused");
}
static void describes(const InstructionInfo& i, const T& t, int node)
{
  CHECK(i.GetType() == t.at[node]->GetType() && (int)i.GetCategory() == t.cat[node] && (int)i.GetIndex() == t.index(node), "a description has its instruction's type, category and index"); CHECK(i.GetAttributes() == t.at[node]->GetStringAttributes(), "a description has its instruction's attributes"); auto c = i.Children(); CHECK((int)c.size() == t.kids[node], "a description has its instruction's children"); size_t k = 0; for (int q = node + 1; q < t.n; q++) if (t.parent[q] == node) describes(*c[k++], t, q);
}
HARNESS(h_roundtrip)
{
  T t; InstructionMap m(t.root.get()); auto info = utils::CreateInstructionInfoTree(*t.root, m); describes(*info, t, 0); auto av = utils::ToAnyValueTree(*info); auto back = utils::ToInstructionInfoTree(av); describes(*back, t, 0); CHECK(*back == *info && !(*back != *info), "a description survives its transport"); CHECK(utils::ToAnyValueTree(*back) == av, "a transported description has the same transport value");
  auto o = utils::CreateOrderedInstructionInfo(*back); CHECK((int)o.size() == t.n, "every description has its place"); for (int i = 0; i < t.n; i++) CHECK((int)o[(size_t)i]->GetIndex() == i, "descriptions are found by their index"); vp_reach("done");
}
HARNESS(h_copy)
{
  T t; InstructionMap m(t.root.get()); auto info = utils::CreateInstructionInfoTree(*t.root, m); InstructionInfo c(*info); describes(c, t, 0); CHECK(c == *info, "a copy is equal"); InstructionInfo d("x", Instruction::kCompound, 7, {}); d.AppendChild(std::make_unique<InstructionInfo>("y", Instruction::kAction, 8, std::vector<AttributeInfo>{})); d = c; describes(d, t, 0); InstructionInfo e(std::move(d)); describes(e, t, 0); for (auto* p : Flatten(e)) for (auto* q : Flatten(c)) CHECK(p != q, "a copy is independent"); d = std::move(e); describes(d, t, 0);
  int node = vp::choose("changed", t.n); const InstructionInfo* p = nullptr; for (auto* q : Flatten(d)) if ((int)q->GetIndex() == t.index(node)) p = q; InstructionInfo& x = *const_cast<InstructionInfo*>(p); auto kids = x.Children(); InstructionInfo y(vp::flag("type") ? x.GetType() : x.GetType() + "x", vp::flag("category") ? x.GetCategory() : Instruction::kCompound, vp::flag("index") ? x.GetIndex() : 99, vp::flag("attributes") ? x.GetAttributes() : std::vector<AttributeInfo>{{"other", "1"}}); for (auto* k : kids) y.AppendChild(std::make_unique<InstructionInfo>(*k)); bool same = y.GetType() == x.GetType() && y.GetCategory() == x.GetCategory() && y.GetIndex() == x.GetIndex() && y.GetAttributes() == x.GetAttributes(); x = y; CHECK((d == c) == same && (d != c) == !same, "descriptions are equal exactly when all of them agrees"); vp_reach("done");
}
static dto::AnyValue nodeAv(const char* type, uint32_t cat, uint32_t idx) { InstructionInfo i(type, (Instruction::Category)cat, idx, {{"name", "n"}}); return utils::ToAnyValueNode(i); }
HARNESS(h_malformed)
{
  int d1 = vp::choose("defect", 16), d2 = vp::choose("second", 16); if ((d1 | 1) == 7 && (d2 | 1) == 7 && d1 != d2) d2 = d1; // one replacement per field
  if (d1 == 4 && d2 == 5) d2 = 4; if (d1 == 5 && d2 == 4) d1 = 4; auto has = [&](int d) { return d1 == d || d2 == d; };
  auto child = [&](int i) { auto v = nodeAv("Succeed", 0, (uint32_t)i); if (i == 1 && has(1)) v["type"] = dto::AnyValue(dto::int32(1)); if (i == 1 && has(2)) v["category"] = dto::AnyValue(dto::int32(0)); if (i == 1 && has(3)) v["index"] = dto::AnyValue(std::string("1")); if (i == 1 && has(4)) v["attributes"] = dto::AnyValue(std::string("none")); if (i == 1 && has(5)) v["attributes"].AddMember("bad", dto::AnyValue(dto::int32(1))); if (i == 2 && has(6)) v.AddMember("children", dto::AnyValue(dto::int32(1))); if (i == 2 && has(7)) { v.AddMember("children", dto::EmptyStruct()); v["children"].AddMember("child_0", nodeAv("Succeed", 0, 3)); } return v; };
  uint32_t rootCat = has(8) ? 0 : has(9) ? 1 : 2; dto::AnyValue root = nodeAv("Sequence", rootCat, 0); root.AddMember("children", dto::EmptyStruct()); auto& c = root["children"]; if (has(15)) c.AddMember("child_1", child(2)); c.AddMember(has(10) ? "kid_0" : "child_0", child(1)); if (!has(15)) c.AddMember(has(11) ? "child_2" : "child_1", has(12) ? dto::AnyValue(dto::int32(7)) : has(13) ? dto::EmptyStruct() : child(2));
  if (has(14)) root = vp::flag("scalar") ? dto::AnyValue(dto::int32(1)) : dto::AnyValue();
  bool bad = false; for (int d = 1; d <= 15; d++) bad = bad || has(d);
  bool thrown = false; try { auto r = utils::ToInstructionInfoTree(root); CHECK(r->Children().size() == 2, "an accepted value is complete"); } catch (const InvalidOperationException&) { thrown = true; } CHECK(thrown == bad, "malformed transport values are refused"); vp_reach(thrown ? "refused" : "accepted");
}
HARNESS(h_indices)
{ // symbolic indices: accepted exactly if they are a bijection
  uint32_t x[4]; for (int i = 0; i < kIdx; i++) x[i] = vp::any<uint32_t>("index"); auto root = nodeAv("Sequence", 2, x[0]); root.AddMember("children", dto::EmptyStruct()); for (int i = 1; i < kIdx; i++) root["children"].AddMember("child_" + std::to_string(i - 1), nodeAv("Succeed", 0, x[i])); bool bij = true; for (int i = 0; i < kIdx; i++) { if (x[i] >= (uint32_t)kIdx) bij = false; for (int j = 0; j < i; j++) if (x[i] == x[j]) bij = false; }
  bool ok = true; try { auto r = utils::ToInstructionInfoTree(root); } catch (const InvalidOperationException&) { ok = false; } CHECK(ok == bij, "a description is accepted exactly when its indices are a bijection"); vp_reach(ok ? "accepted" : "refused");
  InstructionInfo i("Sequence", Instruction::kCompound, x[0], {}); for (int k = 1; k < kIdx; k++) i.AppendChild(std::make_unique<InstructionInfo>("Succeed", Instruction::kAction, x[k], std::vector<AttributeInfo>{})); bool ord = true; try { auto o = utils::CreateOrderedInstructionInfo(i); for (size_t k = 0; k < o.size(); k++) CHECK(o[k]->GetIndex() == k, "descriptions are found by their index"); } catch (const InvalidOperationException&) { ord = false; } CHECK(ord == bij, "descriptions are ordered exactly when their indices are a bijection");
}
HARNESS(h_append)
{ // only decorators (one) and compounds have children
  int cat = vp::choose("category", 3), n = 0; InstructionInfo i("t", (Instruction::Category)cat, 0, {}); for (int k = 0; k < 3; k++) { bool ok = true; try { auto* p = i.AppendChild(std::make_unique<InstructionInfo>("c", Instruction::kAction, (uint32_t)k, std::vector<AttributeInfo>{})); CHECK(p == i.Children().back() && (int)p->GetIndex() == k, "the child is appended"); } catch (const InvalidOperationException&) { ok = false; } CHECK(ok == (cat == 2 || (cat == 1 && n == 0)), "children are accepted as the category allows"); if (ok) ++n; CHECK((int)i.Children().size() == n, "a refused child leaves the description unchanged"); }
  InstructionInfo q("t", Instruction::kCompound, 0, {}); q.AppendChild(std::make_unique<InstructionInfo>("c", Instruction::kAction, 1, std::vector<AttributeInfo>{})); auto refused = [&] { int k = 0; try { Flatten(q); } catch (const InvalidOperationException&) { ++k; } try { ValidateInstructionInfoTree(q); } catch (const InvalidOperationException&) { ++k; } try { utils::CreateOrderedInstructionInfo(q); } catch (const InvalidOperationException&) { ++k; } return k; }; CHECK(refused() == 0, "a complete description is accepted"); q.AppendChild({}); CHECK(refused() == 3, "a description with a hole is refused"); vp_reach("done");
}
HARNESS(h_state)
{ // instruction states
  InstructionState s; s.m_breakpoint_set = vp::flag("breakpoint"); s.m_execution_status = oac::S(vp::choose("status", 5)); auto av = ToAnyValue(s); CHECK(ToInstructionState(av) == s, "a state survives its transport"); InstructionState o; o.m_breakpoint_set = vp::flag("breakpoint"); o.m_execution_status = oac::S(vp::choose("status", 5)); CHECK((s == o) == (s.m_breakpoint_set == o.m_breakpoint_set && s.m_execution_status == o.m_execution_status) && (s != o) == !(s == o), "states are equal exactly when both parts are");
  int d = vp::choose("defect", 5); dto::AnyValue v = av; if (d == 1) v["exec_status"] = dto::AnyValue(dto::int32(1)); if (d == 2) v["breakpoint"] = dto::AnyValue(std::string("x")); if (d == 3) v = dto::AnyValue(); if (d == 4) v = dto::AnyValue({{"exec_status", dto::AnyValue(dto::uint16(1))}}); bool thrown = false; try { ToInstructionState(v); } catch (const InvalidOperationException&) { thrown = true; } CHECK(thrown == (d > 0), "a malformed state is refused"); vp_reach(thrown ? "invalid" : "valid");
}
HARNESS(h_job)
{ // the description of a whole procedure
  Procedure p("file.xml"); if (vp::flag("named")) p.AddAttribute("name", "job"); addVar(p.GetWorkspace(), "v", "int32"); addVar(p.GetWorkspace(), "a"); T t(2); int n = t.n; const Instruction* r = t.root.get(); bool none = vp::flag("empty"); if (!none) p.PushInstruction(std::move(t.root)); InstructionMap m(none ? nullptr : r); bool thrown = false;
  try { JobInfo j = utils::CreateJobInfo(p, m); CHECK(j.GetProcedureName() == (p.HasAttribute("name") ? "job" : "file.xml") && j.GetNumberOfVariables() == 2 && (int)j.GetNumberOfInstructions() == n, "a job's description is complete"); auto av = utils::ToAnyValue(j); auto k = utils::ToJobInfo(av); CHECK(k == j && !(k != j), "a job's description survives its transport"); JobInfo c(k); CHECK(c == j && c.GetRootInstructionInfo() != k.GetRootInstructionInfo(), "a copy is equal and independent"); c = j; JobInfo e(std::move(c)); CHECK(e == j, "a moved description is equal"); describes(*e.GetRootInstructionInfo(), t, 0);
    int d = vp::choose("defect", 6); if (d == 1) av["full_name"] = dto::AnyValue(dto::int32(1)); if (d == 2) av["ws_info"] = dto::AnyValue(dto::int32(1)); if (d == 3) av["instr_tree_info"] = dto::AnyValue(dto::int32(1)); if (d == 4) av = dto::AnyValue({{"full_name", dto::AnyValue(std::string("x"))}}); if (d == 5) av = dto::AnyValue(); bool bad = false; try { utils::ToJobInfo(av); } catch (const InvalidOperationException&) { bad = true; } CHECK(bad == (d > 0), "a malformed description is refused"); vp_reach("done"); }
  catch (const InvalidOperationException&) { thrown = true; vp_reach("refused"); } CHECK(thrown == none, "a procedure is described exactly when it has a root");
}
HARNESS(h_trees)
{ // instruction trees: levels, leaves, children
  T t; auto tree = CreateFullInstructionTree(t.root.get()); CHECK(!tree.IsEmpty() && tree.GetInstruction() == t.root.get(), "the tree starts at the root"); auto f = FlattenBFS(tree); CHECK((int)f.size() == t.n, "the tree is complete"); for (int i = 0; i < t.n; i++) CHECK(f[(size_t)i] == t.at[t.bfs[(size_t)i]], "the tree is listed level by level"); auto l = GetLeaves(tree); size_t q = 0; for (int x : t.bfs) if (t.kids[x] == 0) { CHECK(q < l.size() && l[q] == t.at[x], "the leaves are those without children, level by level"); ++q; } CHECK(q == l.size(), "the leaves are complete"); CHECK((int)tree.GetChildInstructions().size() == t.kids[0], "children are listed");
  bool thrown = false; try { CreateFullInstructionTree(nullptr); } catch (const InvalidOperationException&) { thrown = true; } CHECK(thrown, "no root is refused"); vp_reach("done");
}
HARNESS(h_large)
{ // many instructions
  auto root = make("Sequence"); std::vector<const Instruction*> want{root.get()}, second; for (int i = 0; i < 20; i++) { auto f = make("Fallback"); f->AddAttribute("name", "f" + std::to_string(i)); want.push_back(f.get()); for (int k = 0; k < 14; k++) { auto s = make("Succeed"); second.push_back(s.get()); f->InsertInstruction(std::move(s), k); } root->InsertInstruction(std::move(f), i); } want.insert(want.end(), second.begin(), second.end()); InstructionMap m(root.get()); int n = (int)want.size(); CHECK((int)m.GetNumberOfInstructions() == n, "every instruction is numbered"); for (int i = 0; i < n; i++) CHECK(m.FindInstructionIndex(want[(size_t)i]) == (unsigned)i, "instructions are numbered level by level"); auto r = GetReverseMap(m.GetInstructionIndexMap()); CHECK(r == want, "the reverse map inverts the numbering");
  auto info = utils::CreateInstructionInfoTree(*root, m); auto back = utils::ToInstructionInfoTree(utils::ToAnyValueTree(*info)); CHECK(*back == *info, "a description survives its transport"); auto o = utils::CreateOrderedInstructionInfo(*back); CHECK((int)o.size() == n, "every description has its place"); for (int i = 0; i < n; i++) CHECK((int)o[(size_t)i]->GetIndex() == i && o[(size_t)i]->GetType() == want[(size_t)i]->GetType() && o[(size_t)i]->GetAttributes() == want[(size_t)i]->GetStringAttributes(), "descriptions are found by their index"); vp_reach("done");
}
HARNESS(h_compare)
{ // descriptions of jobs are equal exactly when they describe the same job
  bool ex = vp::flag("exchanged"); std::string t = vp::str("type", 1, 1), u = vp::str("type", 1, 1), nm = vp::str("name", 0, 1), nn = vp::str("name", 0, 1); int d = vp::choose("difference", 9); bool deep = vp::flag("deep");
  auto job = [&](bool second) { int k = second ? d : 0; WorkspaceInfo w; w.AddVariableInfo(k == 1 ? "w" : "v", VariableInfo(k == 2 ? "File" : "Local", 0, {{"type", k == 3 ? "b" : "a"}})); if (k == 4) w.AddVariableInfo("more", VariableInfo("Local", 1, {}));
    auto leaf = [&](bool here, unsigned index) { return std::make_unique<InstructionInfo>(here && k == 5 ? "Other" : second ? u : t, here && k == 6 ? Instruction::kDecorator : Instruction::kAction, index, std::vector<AttributeInfo>{{"p", here && k == 7 ? "2" : "1"}}); };
    auto root = std::make_unique<InstructionInfo>("Sequence", Instruction::kCompound, 0, std::vector<AttributeInfo>{}); root->AppendChild(leaf(!deep, second && ex ? 3 : 1)); auto* m = root->AppendChild(std::make_unique<InstructionInfo>("Inverter", Instruction::kDecorator, 2, std::vector<AttributeInfo>{})); m->AppendChild(leaf(deep, second && ex ? 1 : 3)); if (k == 8) (deep ? root->AppendChild(std::make_unique<InstructionInfo>("Sequence", Instruction::kCompound, 5, std::vector<AttributeInfo>{})) : root.get())->AppendChild(leaf(false, 4)); return JobInfo(second ? nn : nm, w, std::move(root)); };
  JobInfo a = job(false), b = job(true); bool same = d == 0 && !ex && t == u && nm == nn; CHECK((a == b) == same && (b == a) == same && (a != b) == !same, "job descriptions are equal exactly when all their parts are"); CHECK((a.GetWorkspaceInfo() == b.GetWorkspaceInfo()) == (d == 0 || d > 4), "workspace descriptions are equal exactly when their variables are"); CHECK((*a.GetRootInstructionInfo() == *b.GetRootInstructionInfo()) == (d < 5 && !ex && t == u), "instruction descriptions are equal exactly when their trees are");
  if (same || d == 8) { JobInfo c(b); CHECK(c == b && c.GetNumberOfInstructions() == b.GetNumberOfInstructions() && c.GetNumberOfVariables() == b.GetNumberOfVariables(), "a copy is equal"); a = c; CHECK(a == b && c == b, "an assigned description is equal"); JobInfo e(std::move(c)); CHECK(e == b && e.GetNumberOfInstructions() == (unsigned)(d == 8 ? deep ? 6 : 5 : 4), "a moved description is equal"); }
  vp_reach(same ? "same" : "different");
}

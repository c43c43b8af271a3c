// @entry h_validate reach=accepted,missing,type,constraint time=150
// @entry h_instruction reach=accepted,refused time=100
// @entry h_names reach=added,dup,set time=60
// @entry h_value reach=converted,refused,text time=60
// @entry h_truth reach=yes,no time=60
// @entry h_several reach=all,some time=60
// @entry h_info reach=literal,variable,escaped,unknown time=60
// @entry h_placeholders reach=replaced,missing,kept time=150
// @entry h_tree reach=done,refused time=60
// @entry h_pair reach=parsed,type,value,named,default time=60
// @entry h_write reach=written,refused,field time=60
// @entry h_definitions reach=done time=30
// @entry h_corrected reach=corrected,complete time=60
// @bound h_corrected: an instruction, a variable and a procedure set up while incomplete 0..2 times, completed and set up again; h_pair: every two of 7 type and 9 value texts for instructions and variables; h_write: every target of 6, accepting or not, with every 32-bit value; h_validate: five declared attributes of every category (mandatory or not, three types) each absent or with one of 6 texts, in any of 2 orders, an undeclared one, and two constraints; h_names: histories of 4 additions and replacements with names of 0..1 symbolic characters; h_placeholders: an attribute value of up to 3 symbolic characters and up to 2 source attributes with names of up to 2 symbolic characters
// @assume shims stand in for sup-dto (its text parser decides which texts denote a value)
#include <oac.h>
#include <sup/oac-tree/attribute_handler.h>
#include <sup/oac-tree/concrete_constraints.h>
#include <sup/oac-tree/instructions/instruction_helper.h>
using namespace oac;
namespace dto = sup::dto;
static const char* kTexts[] = {"7", "x", "@7", "300", "", "@"};
static bool isU8(int t) { return t == 0; }   // of kTexts
HARNESS(h_validate)
{
  AttributeHandler h; bool mand[5]; for (int i = 0; i < 5; i++) mand[i] = i < 2 ? vp::flag("mandatory") : i == 3; static const char* n[] = {"lit", "both", "var", "bool", "str"};
  for (int i = 0; i < 5; i++) { auto& d = h.AddAttributeDefinition(n[i], i < 3 ? dto::UnsignedInteger8Type : i == 3 ? dto::BooleanType : dto::StringType); if (mand[i]) d.SetMandatory(); if (i == 1) d.SetCategory(AttributeCategory::kBoth); if (i == 2) d.SetCategory(AttributeCategory::kVariableName); }
  h.AddConstraint(MakeConstraint<Or>(MakeConstraint<Exists>("str"), MakeConstraint<Not>(MakeConstraint<Exists>("extra")))); h.AddConstraint(MakeConstraint<FixedType>("extra", dto::StringType));
  int v[5]; bool has[5], extra = vp::flag("extra"); for (int i = 0; i < 5; i++) { int c = i < 2 ? vp::choose("text", 7) : i == 2 ? 1 + vp::choose("text", 2) : vp::choose("there", 2); has[i] = c > 0; v[i] = c - 1; }
  bool rev = vp::flag("reversed"); for (int k = 0; k < 5; k++) { int i = rev ? 4 - k : k; if (has[i]) CHECK(h.AddStringAttribute(n[i], kTexts[v[i]]), "a new name is accepted"); if (i == 2 && extra) h.AddStringAttribute("extra", "e"); }
  int bad = 0; for (int i = 0; i < 5; i++) if (mand[i] && !has[i]) { ++bad; vp_reach("missing"); } int types = 0; if (has[0] && !isU8(v[0])) ++types; if (has[1] && !isU8(v[1]) && v[1] != 2 && v[1] != 5) ++types; if (types) vp_reach("type"); int cons = 0; if (extra && !has[4]) ++cons; if (!extra) ++cons; if (cons) vp_reach("constraint");
  bool ok = h.ValidateAttributes(); auto f = h.GetFailedConstraints(); CHECK(ok == (bad + types + cons == 0), "attributes are accepted exactly when every rule holds"); CHECK((int)f.size() == bad + types + cons, "every failed rule is named once");
  for (int i = 0; i < 5; i++) { std::string e = std::string("Exists(") + n[i] + ")"; int c = 0; for (auto& s : f) c += s == e; CHECK(c == (mand[i] && !has[i] ? 1 : 0), "a missing mandatory attribute is named"); }
  if (ok) vp_reach("accepted"); auto all = FormatFailedConstraints(f, "|"); size_t len = 0; for (auto& s : f) len += s.size() + 1; CHECK(all.size() == len, "the report lists the failed rules"); if (!extra) { h.ClearFailedConstraints(); CHECK(h.GetFailedConstraints().empty(), "failed rules can be forgotten"); }
  // repaired attributes are accepted afterwards
  if (!ok) { for (int i = 0; i < 5; i++) h.SetStringAttribute(n[i], "7"); h.SetStringAttribute("extra", "e"); CHECK(h.ValidateAttributes() && h.GetFailedConstraints().empty(), "a new validation starts afresh"); }
}
struct Decl : Instruction
{
  Decl() : Instruction("Decl") { AddAttributeDefinition("m", dto::UnsignedInteger8Type).SetMandatory().SetCategory(AttributeCategory::kBoth); AddAttributeDefinition("v").SetCategory(AttributeCategory::kVariableName); AddConstraint(MakeConstraint<Xor>(MakeConstraint<Exists>("v"), MakeConstraint<Exists>("w"))); }
  ExecutionStatus ExecuteSingleImpl(UserInterface&, Workspace&) override { return ExecutionStatus::SUCCESS; } int setups = 0; void SetupImpl(const Procedure&) override { ++setups; }
};
HARNESS(h_instruction)
{ // set-up of an instruction; attributes read as values
  Decl d; Procedure p; Workspace ws; addVar(ws, "q", "uint8"); ws.Setup(); Ui ui; int m = vp::choose("m", 6); bool v = vp::flag("v"), w = vp::flag("w"), root = vp::flag("isRoot"); static const char* ms[] = {"7", "x", "@q", "300", "@none"}; if (m < 5) d.AddAttribute("m", ms[m]); if (v) d.AddAttribute("v", "q"); if (w) d.AddAttribute("w", "z"); if (root) d.AddAttribute("isRoot", "yes");
  bool ok = (m == 0 || m == 2 || m == 4) && v != w, thrown = false; try { d.Setup(p); } catch (const InstructionSetupException& e) { thrown = true; CHECK(__builtin_strlen(e.what()) > 10, "the failure is described"); } CHECK(thrown == !ok, "an instruction is set up exactly when every rule holds"); CHECK(d.setups == (ok ? 1 : 0), "nothing is set up after a failed rule"); vp_reach(ok ? "accepted" : "refused");
  if (!ok) return; auto x = vp::any<uint8_t>("q"); put(ws, "q", dto::AnyValue(dto::uint8(x))); uint8_t r = 99; bool got = d.GetAttributeValueAs("m", ws, ui, r); CHECK(got == (m != 4), "an attribute is read exactly when its variable exists"); if (got) CHECK(r == (m == 0 ? 7 : x), "an attribute is its literal or the value of its variable"); CHECK((ui.logs > 0) == !got, "a failed read is logged");
  dto::AnyValue vv; CHECK(d.GetAttributeValue("v", ws, ui, vv) == true, "an absent or variable attribute is read"); CHECK(v ? vv == dto::AnyValue(dto::uint8(x)) : dto::IsEmptyValue(vv), "an absent attribute leaves the value alone");
}
HARNESS(h_names)
{
  AttributeHandler h; StringAttributeList m; 
  for (int k = 0; k < 4; k++)
  {
    std::string n = vp::str("name", k & 1, 1), v = vp::str("value", 1, 1); bool set = vp::flag("set"); size_t at = m.size(); for (size_t i = 0; i < m.size(); i++) if (m[i].first == n) { at = i; break; }
    CHECK(h.HasStringAttribute(n) == (at < m.size()), "a name is known exactly after it was added"); if (set) { h.SetStringAttribute(n, v); if (at < m.size()) m[at].second = v; else m.push_back({n, v}); vp_reach("set"); }
    else { bool r = h.AddStringAttribute(n, v); CHECK(r == (at == m.size()), "a name is accepted once"); if (r) { m.push_back({n, v}); vp_reach("added"); } else vp_reach("dup"); }
CHECK(h.GetStringAttributes() == m, "names stay unique and in order, and values are kept"); std::string mv; for (auto& x : m) if (x.first == n) mv = x.second; CHECK(GetStringAttributeValue(h.GetStringAttributes(), n) == mv, "a value is found by its name");
  }
  CHECK(GetStringAttributeValue(m, "none").empty(), "an unknown name has no value"); bool twice = false; AttributeHandler g; g.AddAttributeDefinition("a", dto::StringType); try { g.AddAttributeDefinition("a", dto::StringType); } catch (const InvalidOperationException&) { twice = true; } CHECK(twice && g.GetAttributeDefinitions().size() == 1, "a name is declared once");
}
HARNESS(h_value)
{ // values of attributes
  AttributeHandler h; h.AddAttributeDefinition("i", dto::SignedInteger16Type); h.AddAttributeDefinition("s", dto::StringType); std::string t = vp::strOf("text", 1, 3, "0123-x"); h.AddStringAttribute("i", t); h.AddStringAttribute("s", t); h.AddStringAttribute("u", t);
  bool neg = t[0] == '-'; size_t d = neg ? 1 : 0; int v = 0; bool num = t.size() > d; for (size_t i = d; i < t.size(); i++) { if (t[i] < '0' || t[i] > '9') { num = false; break; } v = 10 * v + (t[i] - '0'); } if (num && t.size() > d + 1 && t[d] == '0') num = false; if (neg) v = -v;
  dto::AnyValue r; bool got = h.GetValue("i", r); CHECK(got == num, "a declared attribute has a value exactly when its text denotes one"); if (got) { CHECK(r.GetType() == dto::SignedInteger16Type && r.As<int>() == v, "its value is the one its text denotes"); vp_reach("converted"); dto::uint8 u = 9; bool f = h.GetValueAs("i", u); CHECK(f == (v >= 0 && v < 256) && u == (f ? v : 9), "a value is given exactly if it fits"); } else { CHECK(dto::IsEmptyValue(r), "a refused read leaves the target alone"); vp_reach("refused"); }
  std::string s; CHECK(h.GetValueAs("s", s) && s == t, "a text attribute is its own value"); s.clear(); CHECK(h.GetValueAs("u", s) && s == t, "an undeclared attribute is text"); CHECK(!h.GetValueAs("none", s), "an absent attribute has no value"); vp_reach("text");
}
HARNESS(h_truth)
{ // truth values may be written in any case
  AttributeHandler h; h.AddAttributeDefinition("b", dto::BooleanType); std::string s = vp::str("text", 0, 5); h.AddStringAttribute("b", s); auto is = [&](const char* t) { size_t n = __builtin_strlen(t); if (s.size() != n) return false; bool m = true; for (size_t i = 0; i < n; i++) m = m & ((s[i] == t[i]) | (s[i] == t[i] - 32)); return m; };
  bool yes = is("true") || is("yes") || is("on"); bool v = !yes; CHECK(h.ValidateAttributes(), "every text is a truth value"); CHECK(h.GetValueAs("b", v) && v == yes, "true, yes and on in any case are true, and nothing else"); vp_reach(yes ? "yes" : "no");
}
HARNESS(h_several)
{ // several attributes added at once
  static const char* n[] = {"a", "b", "c"}; bool had[3]; StringAttributeList l; for (int i = 0; i < 3; i++) { had[i] = vp::flag("had"); if (vp::flag("given")) l.push_back({n[i], "new"}); } int kind = vp::choose("what", 3); Procedure p; auto in = std::make_unique<Leaf>(); auto va = localVar("int32"); auto add = [&](const char* k, const char* x) { return kind == 0 ? p.AddAttribute(k, x) : kind == 1 ? in->AddAttribute(k, x) : va->AddAttribute(k, x); };
  for (int i = 0; i < 3; i++) if (had[i]) CHECK(add(n[i], "old"), "a new name is accepted"); bool r = kind == 0 ? p.AddAttributes(l) : kind == 1 ? in->AddAttributes(l) : va->AddAttributes(l); bool all = true; for (int i = 0; i < 3; i++) { bool given = false; for (auto& x : l) given = given || x.first == n[i]; if (given && had[i]) all = false; std::string v = kind == 0 ? p.GetAttributeString(n[i]) : kind == 1 ? in->GetAttributeString(n[i]) : va->GetAttributeString(n[i]); bool has = kind == 0 ? p.HasAttribute(n[i]) : kind == 1 ? in->HasAttribute(n[i]) : va->HasAttribute(n[i]); CHECK(has == (given || had[i]) && v == (had[i] ? "old" : given ? "new" : ""), "every attribute whose name is new is added, the others keep their values"); }
  CHECK(r == all, "adding several attributes tells whether all of them were new"); vp_reach(all ? "all" : "some");
}
HARNESS(h_info)
{ // where an attribute's value comes from
  std::vector<AttributeDefinition> defs; defs.emplace_back("l", dto::StringType); defs.emplace_back("v", dto::StringType); defs.back().SetCategory(AttributeCategory::kVariableName); defs.emplace_back("b", dto::StringType); defs.back().SetCategory(AttributeCategory::kBoth);
  int k = vp::choose("attribute", 5); static const char* n[] = {"l", "v", "b", "u", "none"}; std::string t = vp::str("value", 0, 3); StringAttributeList a; if (k != 4) { a.push_back({"other", "@z"}); a.push_back({n[k], t}); }
  if (k == 4) { bool thrown = false; try { GetAttributeValueInfo(a, defs, "none"); } catch (const RuntimeException&) { thrown = true; } CHECK(thrown, "an absent attribute has no source"); vp_reach("unknown"); return; }
  auto i = GetAttributeValueInfo(a, defs, n[k]); bool at = !t.empty() && t[0] == '@'; bool var = k == 1 || (k == 2 && at); CHECK(i.m_is_varname == var, "an attribute refers to a variable exactly as declared"); CHECK(i.m_value == (k == 2 && at ? t.substr(1) : t), "the rest of the text is the name or the literal"); vp_reach(var ? (k == 1 ? "variable" : "escaped") : "literal");
}
HARNESS(h_placeholders)
{
  AttributeHandler h; std::string v = vp::str("value", 0, 3); h.AddStringAttribute("a", v); h.AddStringAttribute("b", "$k"); h.AddStringAttribute("c", "k$k"); StringAttributeList src; int n = vp::choose("sources", 3); for (int i = 0; i < n; i++) src.push_back({vp::str("source", i, i + 1), i ? "$k" : "second"}); src.push_back({"k", "key"});
  bool ph = !v.empty() && v[0] == '$'; std::string want = v; bool found = true, foundB = false; std::string wantB = "$k"; if (ph) { found = false; for (auto& s : src) if (!found && v.substr(1) == s.first) { found = true; want = s.second; } } for (auto& s : src) if (!foundB && s.first == "k") { foundB = true; wantB = s.second; }
  bool r = InstructionHelper::InitialisePlaceholderAttributes(h, src); CHECK(r == found, "replacing succeeds exactly when every placeholder has a value"); CHECK(GetStringAttributeValue(h.GetStringAttributes(), "a") == want, "exactly the values that start with the sign and are given are replaced"); CHECK(GetStringAttributeValue(h.GetStringAttributes(), "b") == wantB, "a placeholder takes the given value"); CHECK(GetStringAttributeValue(h.GetStringAttributes(), "c") == "k$k", "other values are kept");
  auto l = h.GetStringAttributes(); CHECK(l.size() == 3 && l[0].first == "a" && l[1].first == "b" && l[2].first == "c", "names and order are kept"); vp_reach(!found ? "missing" : ph ? "replaced" : "kept");
}
HARNESS(h_tree)
{ // placeholders in a tree of instructions: every placeholder is replaced, missing ones are reported
  auto s = make("Sequence"); auto inner = make("Inverter"); auto l = std::make_unique<Leaf>(); Instruction* il = l.get(); Instruction* ii = inner.get(); bool m1 = vp::flag("missing"), m2 = vp::flag("missing"); s->AddAttribute("x", m1 ? "$q" : "$k"); inner->AddAttribute("y", "$k"); l->AddAttribute("z", m2 ? "$q" : "$k"); l->AddAttribute("w", "$k"); inner->InsertInstruction(std::move(l), 0); s->InsertInstruction(std::move(inner), 0);
  bool r = InstructionHelper::InitialisePlaceholderAttributes(*s, {{"k", "7"}}); CHECK(r == (!m1 && !m2), "a missing value anywhere is reported"); CHECK(s->GetAttributeString("x") == (m1 ? "$q" : "7") && ii->GetAttributeString("y") == "7" && il->GetAttributeString("z") == (m2 ? "$q" : "7") && il->GetAttributeString("w") == "7", "every placeholder with a value is replaced"); vp_reach(r ? "done" : "refused");
}
HARNESS(h_corrected)
{ // a refused set-up is judged anew once the attributes are complete
  int kind = vp::choose("what", 3); bool first = vp::flag("refused before"), again = vp::flag("twice"); Workspace ws; Procedure p;
  if (kind == 0) { Decl d; d.AddAttribute("v", "q"); auto ready = [&] { try { d.Setup(p); return true; } catch (const InstructionSetupException&) { return false; } }; if (first) CHECK(!ready(), "an instruction without its mandatory attribute is refused"); if (first && again) CHECK(!ready(), "a refused instruction stays refused"); d.AddAttribute("m", "7"); CHECK(ready() && d.setups == 1, "a completed instruction is set up"); if (again) CHECK(ready() && d.setups == 2, "and set up again"); }
  if (kind == 1) { auto v = GlobalVariableRegistry().Create("Local"); v->AddAttribute("value", "7"); auto ready = [&] { try { v->Setup(ws); return true; } catch (const VariableSetupException&) { return false; } }; if (first) CHECK(!ready(), "a variable with a value and no type is refused"); if (first && again) CHECK(!ready(), "a refused variable stays refused"); v->AddAttribute("type", "{\"type\":\"uint8\"}"); CHECK(ready(), "a completed variable is set up"); dto::AnyValue x; CHECK(v->GetValue(x) && x == dto::AnyValue(dto::uint8(7)), "a completed variable has its value"); if (again) { v->Teardown(); CHECK(ready(), "and set up again"); } }
  if (kind == 2) { auto l = std::make_unique<Decl>(); Decl* d = l.get(); d->AddAttribute("v", "q"); p.PushInstruction(std::move(l)); auto ready = [&] { try { p.Setup(); return true; } catch (const InstructionSetupException&) { return false; } }; if (first) CHECK(!ready(), "a procedure with an incomplete instruction is refused"); if (first && again) CHECK(!ready(), "a refused procedure stays refused"); d->AddAttribute("m", "7"); CHECK(ready() && d->setups == 1, "a procedure is set up once it is complete"); }
  vp_reach(first ? "corrected" : "complete");
}
struct Bare : Instruction { Bare() : Instruction("Bare") {} ExecutionStatus ExecuteSingleImpl(UserInterface&, Workspace&) override { return ExecutionStatus::SUCCESS; } };
HARNESS(h_pair)
{ // a type and a value given as text
  static const char* ty[] = {"{\"type\":\"uint8\"}", "{\"type\":\"string\"}", "{\"type\":\"S\",\"attributes\":[{\"x\":{\"type\":\"uint8\"}}]}", "{\"type\":\"mine\"}", "{\"type\":\"gone\"}", "nonsense", ""}; static const char* va[] = {"7", "300", "\"t\"", "{\"x\":7}", "{\"y\":7}", "{\"x\":300}", "{", "", "{\"x\":7,\"y\":1}"};
  int t = vp::choose("type", 7), v = vp::choose("value", 9); bool variable = vp::flag("variable"); Workspace ws; Ui ui; CHECK(ws.RegisterType(dto::AnyType({{"x", dto::UnsignedInteger8Type}}, "mine")), "a type is registered"); bool type = t < 4, ok = t == 0 ? v == 0 : t == 1 ? v == 2 : (t == 2 || t == 3) && v == 3; dto::AnyValue r;
  if (variable) { auto x = localVar(""); x->AddAttribute("type", ty[t]); x->AddAttribute("value", va[v]); bool thrown = false; try { r = ParseAnyValueAttributePair(*x, "type", "value", ws.GetTypeRegistry()); } catch (const VariableSetupException& e) { thrown = true; CHECK(__builtin_strlen(e.what()) > 10, "the failure is described"); } CHECK(thrown == !ok, "exactly a refused text is reported"); if (v == 0) { auto y = localVar(""); CHECK(dto::IsEmptyValue(ParseAnyValueAttributePair(*y, "type", "value", ws.GetTypeRegistry())), "without a type there is no value"); y->AddAttribute("type", ty[t]); if (type) { auto q = ParseAnyValueAttributePair(*y, "type", "value", ws.GetTypeRegistry()); CHECK(t == 0 ? q == dto::AnyValue(dto::uint8(0)) : t == 1 ? q == dto::AnyValue(std::string()) : q["x"] == dto::AnyValue(dto::uint8(0)), "without a value the type's default is taken"); vp_reach("default"); } } } else { Bare x; x.AddAttribute("type", ty[t]); x.AddAttribute("value", va[v]); r = ParseAnyValueAttributePair(x, ws, ui, "type", "value"); CHECK((ui.logs > 0) == !ok, "exactly a refused text is reported"); }
  if (!ok) { CHECK(dto::IsEmptyValue(r), "a refused text gives no value"); vp_reach(type ? "value" : "type"); return; } vp_reach(t == 3 ? "named" : "parsed"); CHECK(r.GetTypeName() == (t == 0 ? "uint8" : t == 1 ? "string" : t == 2 ? "S" : "mine"), "the value has the given type"); if (t == 0) CHECK(r == dto::AnyValue(dto::uint8(7)), "the value is the given one"); if (t == 1) CHECK(r.As<std::string>() == "t", "the value is the given one"); if (t > 1) CHECK(r.NumberOfMembers() == 1 && r["x"] == dto::AnyValue(dto::uint8(7)), "the value is the given one");
}
struct Gate : Variable { dto::AnyValue v; bool ok; Gate(const dto::AnyValue& i, bool a) : Variable("Gate"), v(i), ok(a) {} bool GetValueImpl(dto::AnyValue& o) const override { return dto::TryAssign(o, v); } bool SetValueImpl(const dto::AnyValue& n) override { if (!ok) return false; v = n; return true; } };
HARNESS(h_write)
{ // the variable an attribute names is written
  static const char* to[] = {"g", "s.x", "s.none", "none", "", "s"}; int k = vp::choose("target", 6); bool acc = vp::flag("accepted"), there = k != 4 || vp::flag("attribute"); Workspace ws; Ui ui; auto i = dto::AnyValue(dto::int32(-1)); ws.AddVariable("g", std::make_unique<Gate>(i, acc)); dto::AnyValue st({{"x", i}, {"y", i}}, "S"); ws.AddVariable("s", std::make_unique<Gate>(st, acc)); ws.Setup(); auto n = vp::any<int32_t>("value"); dto::AnyValue nv(dto::int32{n}); dto::AnyValue w = k == 5 ? dto::AnyValue({{"x", nv}, {"y", nv}}, "S") : nv;
  Bare x; x.AddAttribute("q", "g"); if (there) x.AddAttribute("o", to[k]); bool r = SetValueFromAttributeName(x, ws, ui, "o", w); bool ok = acc && (k < 2 || k == 5); CHECK(r == ok, "a value is written exactly when the variable is there and takes it"); CHECK((ui.logs > 0) == !ok, "exactly a failed write is reported"); auto g = get(ws, "g"), s = get(ws, "s"); CHECK(g == (ok && k == 0 ? nv : i), "only the named variable changes"); CHECK(s["x"] == (ok && k != 0 ? nv : i) && s["y"] == (ok && k == 5 ? nv : i), "only the named field changes"); vp_reach(!ok ? "refused" : k == 1 ? "field" : "written");
}
HARNESS(h_definitions)
{ // copies of a declaration are equal and independent
  auto same = [](const AttributeDefinition& a, const char* n, const dto::AnyType& t, bool m, AttributeCategory c) { return a.GetName() == n && a.GetType() == t && a.IsMandatory() == m && a.GetCategory() == c; }; bool m = vp::flag("mandatory"); auto c = (AttributeCategory)vp::choose("category", 3); AttributeDefinition a("a", dto::UnsignedInteger8Type); CHECK(same(a, "a", dto::UnsignedInteger8Type, false, AttributeCategory::kLiteral), "a declaration is optional and literal by default"); CHECK(&a.SetMandatory(m) == &a && &a.SetCategory(c) == &a, "calls can be chained");
  AttributeDefinition b(a), d("d", dto::StringType); d = b; CHECK(same(b, "a", dto::UnsignedInteger8Type, m, c) && same(d, "a", dto::UnsignedInteger8Type, m, c), "a copy is the same declaration"); b.SetMandatory(!m).SetCategory(AttributeCategory::kBoth); CHECK(same(a, "a", dto::UnsignedInteger8Type, m, c) && same(d, "a", dto::UnsignedInteger8Type, m, c) && same(b, "a", dto::UnsignedInteger8Type, !m, AttributeCategory::kBoth), "a change of one copy does not change the others"); AttributeDefinition e(std::move(d)); AttributeDefinition f("f", dto::StringType); f = std::move(b); CHECK(same(e, "a", dto::UnsignedInteger8Type, m, c) && same(f, "a", dto::UnsignedInteger8Type, !m, AttributeCategory::kBoth), "a moved declaration is the same"); f = e; CHECK(same(f, "a", dto::UnsignedInteger8Type, m, c), "a copy is the same declaration"); vp_reach("done");
}

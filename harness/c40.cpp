// @entry h_formula reach=true,false time=200
// @entry h_copies reach=done time=60
// @entry h_empty reach=done time=40
// @entry h_types reach=parsed,refused time=100
// @entry h_bool reach=yes,no time=60
// @bound h_formula: every formula of depth up to 3 (thorough 4) over existence and type constraints of three attributes, each absent, well-typed or ill-typed, listed in any order; h_types: every scalar attribute type with texts of up to 3 characters; h_bool: texts of up to 4 characters, all byte values; h_copies: every history of 3 (thorough 4) copies, moves and assignments of two constraints
// @assume shims stand in for sup-dto (its text parser decides which texts denote a value)
#include <oac.h>
#include <sup/oac-tree/concrete_constraints.h>
#include <sup/oac-tree/attribute_utils.h>
using namespace oac;
namespace dto = sup::dto;
#ifdef VP_THOROUGH
static const int kDepth = 4, kOps = 4, kLeaves = 4;
#else
static const int kDepth = 3, kOps = 3, kLeaves = 3;
#endif
// which attributes are there: bit 2i present, bit 2i+1 well-typed as uint8
static const char* kN[] = {"a", "b", "c"};
struct F { Constraint c; std::function<bool(const int*)> value; std::string text; };
static int gLeaves;
static F formula(int depth)
{
  int k = depth == 0 || gLeaves >= kLeaves ? vp::choose("leaf", 2) : vp::choose("kind", 6);
  if (k == 0) { ++gLeaves; int i = vp::choose("attribute", 3); return {MakeConstraint<Exists>(kN[i]), [i](const int* s) { return s[i] != 0; }, std::string("Exists(") + kN[i] + ")"}; }
  if (k == 1) { ++gLeaves; int i = vp::choose("attribute", 3); return {MakeConstraint<FixedType>(kN[i], dto::UnsignedInteger8Type), [i](const int* s) { return s[i] == 2; }, std::string("Type of (") + kN[i] + ") must be (" + dto::AnyTypeToJSONString(dto::UnsignedInteger8Type) + ")"}; }
  F l = formula(depth - 1); auto lv = l.value;
  if (k == 2) return {MakeConstraint<Not>(std::move(l.c)), [lv](const int* s) { return !lv(s); }, "Not (" + l.text + ")"};
  F r = formula(depth - 1 > 1 ? 1 : depth - 1); auto rv = r.value;
  if (k == 3) return {MakeConstraint<And>(std::move(l.c), std::move(r.c)), [lv, rv](const int* s) { return lv(s) && rv(s); }, "(" + l.text + ") AND (" + r.text + ")"};
  if (k == 4) return {MakeConstraint<Or>(std::move(l.c), std::move(r.c)), [lv, rv](const int* s) { return lv(s) || rv(s); }, "(" + l.text + ") OR (" + r.text + ")"};
  return {MakeConstraint<Xor>(std::move(l.c), std::move(r.c)), [lv, rv](const int* s) { return lv(s) != rv(s); }, "(" + l.text + ") XOR (" + r.text + ")"};
}
HARNESS(h_formula)
{
  gLeaves = 0; F f = formula(kDepth - 1);
  for (int st = 0; st < 27; st++)
  { // all assignments: absent, ill-typed, well-typed
    int s[3] = {st % 3, st / 3 % 3, st / 9}; StringAttributeList l; for (int i = 2; i >= 0; i--) { if (s[i]) l.push_back({kN[i], s[i] == 1 ? "x" : "7"}); if (st % 2) l.push_back({"other", "1"}); }
    bool r = f.c.Validate(l), w = f.value(s); CHECK(r == w, "a constraint is the formula it was built from"); if (st % 5 == 0) { Constraint copy = f.c; CHECK(copy.Validate(l) == w, "a copy means the same"); } vp_reach(w ? "true" : "false");
  }
  CHECK(f.c.GetRepresentation() == f.text, "a constraint describes its formula");
}
HARNESS(h_copies)
{ // histories of copies and moves; -1: moved from
  int m[3] = {0, 1, 2}; std::vector<Constraint> c; c.push_back(MakeConstraint<Exists>("a")); c.push_back(MakeConstraint<Not>(MakeConstraint<Exists>("a"))); c.push_back(MakeConstraint<Or>(MakeConstraint<Exists>("a"), MakeConstraint<Exists>("b")));
  for (int k = 0; k < kOps; k++)
  {
    int i = vp::choose("target", 3), j = vp::choose("source", 3); switch (vp::choose("operation", 4)) { case 0: c[i] = c[j]; m[i] = m[j]; break; case 1: { Constraint t(c[j]); CHECK(t.GetRepresentation() == c[j].GetRepresentation(), "a copy describes itself the same"); c[i] = std::move(t); m[i] = m[j]; break; }
    case 2: { Constraint t(std::move(c[j])); int was = m[j]; m[j] = -1; CHECK(!c[j].Validate({{"a", "1"}}), "an empty constraint always fails"); c[i] = t; m[i] = was; break; } default: { if (i == j) break; c[i] = std::move(c[j]); m[i] = m[j]; m[j] = -2; } }
    for (int q = 0; q < 3; q++) if (m[q] != -2) { bool a = c[q].Validate({{"a", "1"}}), n = c[q].Validate({}), b = c[q].Validate({{"b", "1"}}); CHECK(a == (m[q] == 0 || m[q] == 2) && n == (m[q] == 1) && b == (m[q] == 1 || m[q] == 2), "copying and moving keep a constraint's meaning"); CHECK(!c[q].GetRepresentation().empty(), "a constraint describes itself"); }
  }
  vp_reach("done");
}
HARNESS(h_empty)
{ // constraints without content fail, also inside others, and can be copied
  Constraint e{std::unique_ptr<IConstraint>{}}; CHECK(!e.Validate({{"a", "1"}}) && e.GetRepresentation() == kConstraintEmpty, "an empty constraint always fails"); Constraint f(e); CHECK(!f.Validate({}) && f.GetRepresentation() == kConstraintEmpty, "an empty constraint can be copied"); Constraint g = MakeConstraint<Not>(std::move(e)); CHECK(g.Validate({}), "an empty constraint always fails"); Constraint h(g); CHECK(h.Validate({}) && !h.GetRepresentation().empty(), "a constraint with an empty part can be copied"); f = g; CHECK(f.Validate({}), "an empty constraint can be assigned"); vp_reach("done");
}
HARNESS(h_types)
{ // which texts a type accepts
  int k = vp::choose("type", 11); static const dto::AnyType* ts[] = {&dto::SignedInteger8Type, &dto::UnsignedInteger8Type, &dto::SignedInteger16Type, &dto::UnsignedInteger16Type, &dto::SignedInteger32Type, &dto::UnsignedInteger32Type, &dto::SignedInteger64Type, &dto::UnsignedInteger64Type, &dto::StringType, &dto::EmptyType}; dto::AnyType st = {{{"x", dto::SignedInteger8Type}}}; const dto::AnyType& t = k == 10 ? st : *ts[k];
  std::string s = vp::strOf("text", 0, 3, "0129-x"); auto r = utils::ParseAttributeString(t, s); bool neg = !s.empty() && s[0] == '-'; size_t d = neg ? 1 : 0; int v = 0; bool num = s.size() > d; for (size_t i = d; i < s.size(); i++) { if (s[i] < '0' || s[i] > '9') { num = false; break; } v = 10 * v + (s[i] - '0'); } if (num && s.size() > d + 1 && s[d] == '0') num = false; if (neg) v = -v;
  bool ok; if (k == 8) ok = true; else if (k >= 9) ok = false; else { bool uns = k & 1; ok = num && (!uns || v >= 0) && (k > 1 || (uns ? v <= 255 : v <= 127)); if (num && neg && v == 0 && uns) return; }
  CHECK(r.first == ok, "a text is accepted exactly when it denotes a value of the type"); CHECK(MakeConstraint<FixedType>("a", t).Validate({{"a", s}}) == ok && !MakeConstraint<FixedType>("b", t).Validate({{"a", s}}), "a type constraint holds exactly when the attribute is there and has the type"); vp_reach(ok ? "parsed" : "refused");
  if (ok) { CHECK(r.second.GetType() == t, "the value has the type"); if (k == 8) CHECK(r.second.As<std::string>() == s, "a text attribute is its own value"); else { dto::int64 x = 0; CHECK(r.second.As(x) && x == v, "the value is the one the text denotes"); auto back = utils::CreateAttributeString(r.second); CHECK(back.first && utils::ParseAttributeString(t, back.second).second == r.second, "a value written as text is read back"); } }
}
HARNESS(h_bool)
{ // truth values in any case
  std::string s = vp::str("text", 0, 4); auto r = utils::ParseAttributeString(dto::BooleanType, s); auto low = [&](const char* t) { size_t n = __builtin_strlen(t); if (s.size() != n) return false; bool m = true; for (size_t i = 0; i < n; i++) m = m & ((s[i] == t[i]) | (s[i] == t[i] - 32)); return m; };
  bool yes = low("true") || low("yes") || low("on"); CHECK(r.first && r.second.GetType() == dto::BooleanType && r.second.As<bool>() == yes, "true, yes and on in any case are true, and nothing else"); vp_reach(yes ? "yes" : "no");
  auto b = utils::CreateAttributeString(dto::AnyValue(dto::boolean(yes))); CHECK(b.first && utils::ParseAttributeString(dto::BooleanType, b.second).second.As<bool>() == yes, "a truth value written as text is read back");
}

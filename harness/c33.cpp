// @entry h_split reach=dot,bracket,none time=100
// @entry h_long reach=done time=60
// @entry h_instruction reach=done time=30
// @bound h_split: every text of up to 5 (thorough 7) characters, all 256 byte values each; h_long: 12 characters with the separators anywhere
// @assume shims stand in for sup-dto
#include <oac.h>
using namespace oac;
#ifdef VP_THOROUGH
static const int kLen = 7;
#else
static const int kLen = 5;
#endif
static void check(const std::string& s)
{ // one pass over the characters is the specification
  auto [var, field] = SplitFieldName(s); size_t p = 0; while (p < s.size() && s[p] != '.' && s[p] != '[') ++p;
  CHECK(var.size() == p, "the variable name ends at the first separator"); for (size_t i = 0; i < p; i++) CHECK(var[i] == s[i], "the variable name keeps its characters");
  if (p == s.size()) { CHECK(field.empty(), "without separator there is no field"); vp_reach("none"); return; }
  size_t f = s[p] == '.' ? p + 1 : p; CHECK(field.size() == s.size() - f, "the field name is all that follows"); for (size_t i = f; i < s.size(); i++) CHECK(field[i - f] == s[i], "the field name keeps its characters");
  CHECK(var + (s[p] == '.' ? "." : "") + field == s, "the parts recompose to the full name"); vp_reach(s[p] == '.' ? "dot" : "bracket");
}
HARNESS(h_split) { check(vp::str("name", 0, kLen)); }
HARNESS(h_long) { std::string s = "abcdefghijkl"; int n = vp::choose("separators", 3); for (int i = 0; i < n; i++) s[vp::below("at", 12)] = vp::flag("dot") ? '.' : '['; check(s); vp_reach("done"); }
HARNESS(h_instruction)
{ // the same split is used by every access of the workspace
  Workspace ws; addVar(ws, "v", "{\"type\":\"S\",\"attributes\":[{\"x\":{\"type\":\"int32\"}},{\"y\":{\"type\":\"\",\"multiplicity\":2,\"element\":{\"type\":\"int32\"}}}]}"); addVar(ws, "w", "{\"type\":\"\",\"multiplicity\":2,\"element\":{\"type\":\"int32\"}}"); ws.Setup(); auto a = vp::any<int32_t>("a"), b = vp::any<int32_t>("b"), c = vp::any<int32_t>("c");
  put(ws, "v.x", sup::dto::AnyValue(sup::dto::int32(a))); put(ws, "v.y[1]", sup::dto::AnyValue(sup::dto::int32(b))); put(ws, "w[0]", sup::dto::AnyValue(sup::dto::int32(c)));
  CHECK(get(ws, "v.x").As<int>() == a && get(ws, "v.y[1]").As<int>() == b && get(ws, "v.y[0]").As<int>() == 0 && get(ws, "w[0]").As<int>() == c && get(ws, "w[1]").As<int>() == 0, "a field name reaches exactly its field"); vp_reach("done");
}

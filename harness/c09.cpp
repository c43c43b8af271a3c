// @repo base/exceptions.cpp procedure/procedure_preamble.cpp
// @entry h_exceptions reach=caught time=60
// @entry h_kinds reach=kinds time=20
// @entry h_preamble reach=preamble time=60
// @entry h_many reach=many time=30
// @entry h_preamble_copy reach=copied time=30
// @bound messages and strings of 0..20, 64 and 300 symbolic characters (messages without NUL); 0..4 (thorough 0..6) registrations and paths in any order, both modes; h_many: 210 registrations and paths, some equal
#include <vp.h>
#include <cstring>
#include <sup/oac-tree/exceptions.h>
#include <sup/oac-tree/procedure_preamble.h>
using namespace sup::oac_tree;
#ifdef VP_THOROUGH
static const int kN = 6;
#else
static const int kN = 4;
#endif
static std::string anyText(const char* name, bool nonul)
{
  int k = vp::choose("length", 23); int n = k < 21 ? k : k == 21 ? 64 : 300; std::string s((size_t)n, '\0');
  for (int i = 0; i < n; i++) { s[(size_t)i] = (char)vp_sym(name, 8); if (nonul) vp_assume(s[(size_t)i] != 0); }
  return s;
}
static bool same(const char* w, const std::string& s) { return std::memcmp(w, s.c_str(), s.size() + 1) == 0; }
template <class T> static void one(const std::string& msg)
{
  T e(msg); CHECK(same(e.what(), msg), "an exception carries its message"); T c(e); CHECK(same(c.what(), msg) && same(e.what(), msg), "and keeps it when copied"); T d("other"); d = e; CHECK(same(d.what(), msg), "and when assigned");
  bool own = false, base = false, std_ = false;
  try { throw T(msg); } catch (const T& x) { own = same(x.what(), msg); }
  try { throw e; } catch (const MessageException& x) { base = same(x.what(), msg); try { throw; } catch (T x2) { own = own && same(x2.what(), msg); } }
  try { throw T(msg); } catch (const std::exception& x) { std_ = same(x.what(), msg); }
  CHECK(own && base && std_, "it is caught as its own kind, as the base kind and as a standard exception, with its message");
  vp_reach("caught");
}
HARNESS(h_exceptions)
{
  std::string m = anyText("message", true);
  switch (vp::choose("kind", 7))
  {
  case 0: one<RuntimeException>(m); break; case 1: one<InvalidOperationException>(m); break; case 2: one<ParseException>(m); break; case 3: one<ProcedureSetupException>(m); break;
  case 4: one<InstructionSetupException>(m); break; case 5: one<VariableSetupException>(m); break; case 6: one<MessageException>(m); break;
  }
}
template <class T> static int kindOf()
{
  try { throw T("x"); }
  catch (const RuntimeException&) { return 0; } catch (const InvalidOperationException&) { return 1; } catch (const ParseException&) { return 2; }
  catch (const ProcedureSetupException&) { return 3; } catch (const InstructionSetupException&) { return 4; } catch (const VariableSetupException&) { return 5; }
  catch (const MessageException&) { return 6; } catch (...) { return 7; }
}
template <class T> static int kindOfReverse()
{
  try { throw T("x"); }
  catch (const VariableSetupException&) { return 5; } catch (const InstructionSetupException&) { return 4; } catch (const ProcedureSetupException&) { return 3; }
  catch (const ParseException&) { return 2; } catch (const InvalidOperationException&) { return 1; } catch (const RuntimeException&) { return 0; }
  catch (const MessageException&) { return 6; } catch (...) { return 7; }
}
HARNESS(h_kinds)
{
  CHECK(kindOf<RuntimeException>() == 0 && kindOf<InvalidOperationException>() == 1 && kindOf<ParseException>() == 2 && kindOf<ProcedureSetupException>() == 3 && kindOf<InstructionSetupException>() == 4 && kindOf<VariableSetupException>() == 5 && kindOf<MessageException>() == 6, "no kind is caught as a sibling kind");
  CHECK(kindOfReverse<RuntimeException>() == 0 && kindOfReverse<InvalidOperationException>() == 1 && kindOfReverse<ParseException>() == 2 && kindOfReverse<ProcedureSetupException>() == 3 && kindOfReverse<InstructionSetupException>() == 4 && kindOfReverse<VariableSetupException>() == 5, "no kind is caught as a sibling kind");
  vp_reach("kinds");
}
struct Reg { int mode; std::string s; };
static void matches(const ProcedurePreamble& p, const std::vector<Reg>& regs, const std::vector<std::string>& paths)
{
  auto r = p.GetTypeRegistrations(); auto q = p.GetPluginPaths();
  CHECK(r.size() == regs.size() && q.size() == paths.size(), "every registration and path is kept");
  for (size_t i = 0; i < regs.size() && i < r.size(); i++) { CHECK((int)r[i].GetRegistrationMode() == regs[i].mode, "a registration keeps its mode"); CHECK(r[i].GetString() == regs[i].s, "a registration keeps its text, in order"); }
  for (size_t i = 0; i < paths.size() && i < q.size(); i++) CHECK(q[i] == paths[i], "plugin paths are returned unchanged and in order");
}
HARNESS(h_preamble)
{
  ProcedurePreamble p; std::vector<Reg> regs; std::vector<std::string> paths; matches(p, regs, paths);
  for (int i = 0, n = vp::choose("count", kN + 1); i < n; i++)
  {
    std::string s = vp::str("text", 0, 2);
    if (vp::flag("path")) { p.AddPluginPath(s); paths.push_back(s); }
    else { int mode = (int)vp::below("mode", 2); p.AddTypeRegistration(TypeRegistrationInfo(static_cast<TypeRegistrationInfo::RegistrationMode>(mode), s)); regs.push_back({mode, s}); }
  }
  matches(p, regs, paths); vp_reach("preamble");
}
HARNESS(h_preamble_copy)
{
  std::string a = anyText("a", false); int mode = (int)vp::below("mode", 2); auto t = TypeRegistrationInfo(static_cast<TypeRegistrationInfo::RegistrationMode>(mode), a);
  CHECK((int)t.GetRegistrationMode() == mode && t.GetString() == a, "a registration keeps mode and text"); TypeRegistrationInfo u(t); CHECK((int)u.GetRegistrationMode() == mode && u.GetString() == a, "also when copied");
  ProcedurePreamble p; p.AddTypeRegistration(t); p.AddPluginPath(a); p.AddPluginPath("x"); p.AddPluginPath(a); ProcedurePreamble q(p); q.AddPluginPath("y");
  matches(p, {{mode, a}}, {a, "x", a}); matches(q, {{mode, a}}, {a, "x", a, "y"}); vp_reach("copied");
}
HARNESS(h_many)
{
  ProcedurePreamble p; std::vector<Reg> regs; std::vector<std::string> paths; int sym = vp::choose("round", 3) * 100; for (int i = 0; i < 210; i++) { std::string s = i == sym ? vp::str("text", 0, 2) : std::string((size_t)(i % 20), (char)('a' + i % 3)); int mode = i == sym ? (int)vp::below("mode", 2) : i % 2; p.AddPluginPath(s); paths.push_back(s); p.AddTypeRegistration(TypeRegistrationInfo(static_cast<TypeRegistrationInfo::RegistrationMode>(mode), s)); regs.push_back({mode, s}); if (i % 7 == 3) { p.AddPluginPath(s); paths.push_back(s); } }
  matches(p, regs, paths); ProcedurePreamble q(std::move(p)); matches(q, regs, paths); ProcedurePreamble r; r.AddPluginPath("old"); r = q; matches(r, regs, paths); matches(q, regs, paths); vp_reach("many");
}

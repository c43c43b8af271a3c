// @entry h_instructions reach=duplicate,unknown,created,refused time=200
// @entry h_variables reach=duplicate,unknown,created,refused time=200
// @entry h_templates reach=done time=30
// @entry h_builtin reach=done time=60
// @entry h_other reach=known,unknown time=100
// @entry h_plugged reach=parsed,refused time=60
// @bound h_instructions, h_variables: every history of up to 3 (thorough 4) registrations with names of up to 2 characters, all 256 byte values, and creations and look-ups of every name of up to 2 characters after each; h_other: every name of up to 4 (thorough 6) characters, all byte values, in the global registries
// @assume shims stand in for sup-dto and sup-xml; registrations happen before the threads that use the registry
#include <oac.h>
#include <sup/oac-tree/variable.h>
#include <sup/oac-tree/parser/instruction_parser.h>
#include <sup/oac-tree/parser/variable_parser.h>
#include <sup/xml/tree_data.h>
using namespace oac;
#ifdef VP_THOROUGH
static const int kN = 4, kName = 6;
#else
static const int kN = 3, kName = 4;
#endif
static int made, gone;
struct TI : Instruction { int kind; explicit TI(int k) : Instruction("T"), kind(k) { ++made; } ~TI() override { ++gone; } ExecutionStatus ExecuteSingleImpl(UserInterface&, Workspace&) override { return ExecutionStatus::SUCCESS; } };
struct TV : Variable { int kind; explicit TV(int k) : Variable("T"), kind(k) { ++made; } ~TV() override { ++gone; } bool GetValueImpl(sup::dto::AnyValue&) const override { return false; } bool SetValueImpl(const sup::dto::AnyValue&) override { return false; } };
template <class B, class T, int K> B* construct() { return new T(K); }
static InstructionRegistry::InstructionConstructor kI[] = {construct<Instruction, TI, 0>, construct<Instruction, TI, 1>, construct<Instruction, TI, 2>, construct<Instruction, TI, 3>, construct<Instruction, TI, 4>};
static VariableRegistry::VariableConstructor kV[] = {construct<Variable, TV, 0>, construct<Variable, TV, 1>, construct<Variable, TV, 2>, construct<Variable, TV, 3>, construct<Variable, TV, 4>};
struct IR { InstructionRegistry r; using T = TI; bool reg(const std::string& n, int k) { return r.RegisterInstruction(n, kI[k]); } std::vector<std::string> names() const { return r.RegisteredInstructionNames(); } bool is(const std::string& n) const { return r.IsRegisteredInstructionName(n); } };
struct VR { VariableRegistry r; using T = TV; bool reg(const std::string& n, int k) { return r.RegisterVariable(n, kV[k]); } std::vector<std::string> names() const { return r.RegisteredVariableNames(); } bool is(const std::string& n) const { return r.IsRegisteredVariableName(n); } };
template <class R> void history()
{
  R reg; std::vector<std::pair<std::string, int>> ref; made = gone = 0;
  auto find = [&](const std::string& n) { for (auto& e : ref) if (e.first == n) return e.second; return -1; };
  auto check = [&](const std::string& n)
  {
    int k = find(n); CHECK(reg.is(n) == (k >= 0), "exactly the registered names are registered"); bool thrown = false; int m = made;
    try
    {
      auto a = reg.r.Create(n), b = reg.r.Create(n); CHECK(k >= 0 && a && b && a.get() != b.get(), "a registered type is created anew each time"); auto x = dynamic_cast<typename R::T*>(a.get()); auto y = dynamic_cast<typename R::T*>(b.get()); CHECK(x && y && x->kind == k && y->kind == k, "the registered type is created"); CHECK(made == m + 2, "nothing else is created"); vp_reach("created");
    }
    catch (const InvalidOperationException&) { thrown = true; }
    CHECK(thrown == (k < 0), "an unregistered name is refused"); if (thrown) { CHECK(made == m, "a refused name creates nothing"); vp_reach("unknown"); } CHECK(made == gone, "the creator owns what it created");
  };
  int n = vp::choose("registrations", kN + 1);
  for (int i = 0; i < n; i++)
  {
    auto s = vp::str("name", 0, 2); int old = find(s); bool thrown = false, ok = false; try { ok = reg.reg(s, i); } catch (const InvalidOperationException&) { thrown = true; }
    CHECK(thrown == (old >= 0) && ok == !thrown, "a name is registered once"); if (old < 0) ref.push_back({s, i}); else vp_reach("duplicate");
  }
  auto l = reg.names(); CHECK(l.size() == ref.size(), "exactly the registered names are listed"); for (auto& e : ref) { int c = 0; for (auto& x : l) if (x == e.first) ++c; CHECK(c == 1, "each registered name is listed once"); }
  if (n < kN || vp::flag("known")) { for (auto& e : ref) check(e.first); check(""); } else { auto q = vp::str("query", 0, 2); if (find(q) < 0) vp_reach("refused"); check(q); }
  auto after = reg.names(); CHECK(after == l, "creation leaves the registry as it is");
}
HARNESS(h_instructions) { history<IR>(); }
HARNESS(h_variables) { history<VR>(); }
struct Own : Instruction { static const std::string Type; Own() : Instruction(Type) {} ExecutionStatus ExecuteSingleImpl(UserInterface&, Workspace&) override { return ExecutionStatus::SUCCESS; } };
struct Own2 : Own { static const std::string Type; };
const std::string Own::Type = "Own"; const std::string Own2::Type = "Own2";
struct OwnV : Variable { static const std::string Type; OwnV() : Variable(Type) {} bool GetValueImpl(sup::dto::AnyValue&) const override { return false; } bool SetValueImpl(const sup::dto::AnyValue&) override { return false; } };
const std::string OwnV::Type = "OwnV";
HARNESS(h_templates)
{
  InstructionRegistry r; int first = vp::choose("first", 2); if (first) RegisterInstruction<Own2>(r); CHECK(RegisterInstruction<Own>(r), "a type is registered under its name"); if (!first) RegisterInstruction<Own2>(r); auto a = r.Create("Own"), b = r.Create("Own2"); CHECK(dynamic_cast<Own*>(a.get()) && !dynamic_cast<Own2*>(a.get()) && dynamic_cast<Own2*>(b.get()), "each name creates its type"); auto n = r.RegisteredInstructionNames(); CHECK(n.size() == 2, "each type is listed once");
  VariableRegistry v; CHECK(RegisterVariable<OwnV>(v), "a type is registered under its name"); auto x = v.Create("OwnV"); CHECK(dynamic_cast<OwnV*>(x.get()), "the name creates its type"); bool thrown = false; try { RegisterVariable<OwnV>(v); } catch (const InvalidOperationException&) { thrown = true; } CHECK(thrown && v.RegisteredVariableNames().size() == 1, "a type is registered once"); CHECK(!GlobalInstructionRegistry().IsRegisteredInstructionName("Own") && !GlobalVariableRegistry().IsRegisteredVariableName("OwnV"), "registries are independent"); vp_reach("done");
}
static const char* kBuiltin[] = {"Choice", "Fallback", "ParallelSequence", "ReactiveFallback", "ReactiveSequence", "Sequence", "UserChoice", "Async", "For", "ForceSuccess", "Include", "IncludeProcedure", "Inverter", "Listen", "Repeat", "AddElement", "AddMember", "Condition", "CopyFromProcedure", "CopyToProcedure", "Copy", "Decrement", "Equals", "Fail", "GreaterThan", "GreaterThanOrEqual", "Increment", "Input", "LessThan", "LessThanOrEqual", "Log", "Message", "Output", "ResetVariable", "Succeed", "UserConfirmation", "VarExists", "Wait", "WaitForVariable", "WaitForVariables"};
static const int kCat[] = {2, 2, 2, 2, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1}; // compound, decorator, then leaves
HARNESS(h_builtin)
{
  auto& r = GlobalInstructionRegistry(); CHECK(&r == &GlobalInstructionRegistry(), "there is one registry"); int n = (int)(sizeof kBuiltin / sizeof *kBuiltin); int i = vp::choose("type", n); CHECK(r.IsRegisteredInstructionName(kBuiltin[i]), "the documented instructions are available"); auto a = r.Create(kBuiltin[i]); CHECK(a && a->GetType() == kBuiltin[i], "a name creates the instruction of that type"); CHECK(I(*a) == NS && a->ChildInstructions().empty() && a->GetStringAttributes().empty() && a->GetName().empty(), "a created instruction is new"); int cat = i < 15 ? kCat[i] : 0; CHECK((int)a->GetCategory() == (cat == 2 ? (int)Instruction::kCompound : cat == 1 ? (int)Instruction::kDecorator : (int)Instruction::kAction), "an instruction is of its documented kind");
  auto l = r.RegisteredInstructionNames(); CHECK((int)l.size() == n, "exactly the documented instructions are registered"); auto& v = GlobalVariableRegistry(); CHECK(v.RegisteredVariableNames() == (std::vector<std::string>{"File", "Local"}), "exactly the documented variables are registered"); for (auto t : {"File", "Local"}) { auto x = v.Create(t); CHECK(x && x->GetType() == t && x->GetStringAttributes().empty(), "a name creates the variable of that type"); } vp_reach("done");
}
HARNESS(h_other)
{
  auto s = vp::str("name", 0, kName); auto& r = GlobalInstructionRegistry(); auto& v = GlobalVariableRegistry(); bool k = false; for (auto n : kBuiltin) k = k || s == n; bool kv = s == "File" || s == "Local"; CHECK(r.IsRegisteredInstructionName(s) == k && v.IsRegisteredVariableName(s) == kv, "exactly the documented names are known"); bool t = false; try { auto a = r.Create(s); CHECK(a->GetType() == s, "a name creates its type"); } catch (const InvalidOperationException&) { t = true; } CHECK(t == !k, "other names are refused"); t = false; try { auto a = v.Create(s); CHECK(a->GetType() == s, "a name creates its type"); } catch (const InvalidOperationException&) { t = true; } CHECK(t == !kv, "other names are refused"); vp_reach(k || kv ? "known" : "unknown");
}
HARNESS(h_plugged)
{ // a type registered by a plugin is available like the others
  struct P : Instruction { P() : Instruction("Plug") {} ExecutionStatus ExecuteSingleImpl(UserInterface&, Workspace&) override { return ExecutionStatus::SUCCESS; } };
  bool reg = vp::flag("registered"); if (reg) GlobalInstructionRegistry().RegisterInstruction("Plug", [] { return static_cast<Instruction*>(new P); }); sup::xml::TreeData d("Plug"); bool refused = false; try { auto x = ParseInstruction(d); CHECK(dynamic_cast<P*>(x.get()), "a registered type is parsed"); auto y = CloneInstructionTree(*x); CHECK(dynamic_cast<P*>(y.get()), "a registered type is cloned"); vp_reach("parsed"); } catch (const ParseException&) { refused = true; vp_reach("refused"); } CHECK(refused == !reg, "a type is known once it is registered");
}

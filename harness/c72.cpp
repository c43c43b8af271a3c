// @entry h_container reach=inserted,refused,taken,nothing,pushed,null time=200
// @entry h_root reach=only,marked,none,empty time=100
// @entry h_execution reach=ticked,halted,reset,norooted time=100
// @entry h_setup reach=ready,noroot,attribute,child time=60
// @entry h_workspace reach=reset,restored time=60
// @entry h_timing reach=default,given,refused time=60 qto=20000
// @entry h_name reach=named,file time=30
// @entry h_reset_running reach=reset time=150
// @entry h_destroy_running reach=gone time=150
// @entry h_large reach=done time=60
// @bound h_large: 300 top-level instructions; h_container: every history of up to 4 (thorough 6) pushes, insertions and removals, all positions (-2..6, and every 32-bit position for a refusal); h_root: up to 4 (thorough 5) instructions, each unmarked or marked with a text of up to 2 characters or a valid boolean; h_execution: every 4 (thorough 5) ticks, halts and resets with every result; h_timing: every double as text of an attribute; h_reset_running, h_destroy_running: every schedule with up to 2 preemptions of a parallel branch that reads a variable while its procedure is reset or destroyed
// @assume shims stand in for sup-dto
#include <oac.h>
#include <rt_threads.h>
#include <sup/oac-tree/instruction_tree.h>
using namespace oac;
#ifdef VP_THOROUGH
static const int kN = 6, kTop = 5, kOps = 5;
#else
static const int kN = 4, kTop = 4, kOps = 4;
#endif
static bool gone[16];
static std::unique_ptr<Instruction> leaf(int i) { auto l = std::make_unique<Leaf>(std::make_shared<Script>()); gone[i] = false; l->gone = &gone[i]; return l; }
HARNESS(h_container)
{
  std::vector<const Instruction*> ref; auto p = std::make_unique<Procedure>(); std::vector<std::unique_ptr<Instruction>> out; int n = 0;
  for (int k = 0; k < kN; k++)
  {
    int op = vp::choose("operation", 4); bool end = k == kN - 1;
    if (op == 0) { auto l = leaf(n++); auto raw = l.get(); p->PushInstruction(std::move(l)); ref.push_back(raw); vp_reach("pushed"); }
    else if (op == 1 || op == 2)
    {
      int pos; if (end) { pos = (int)vp::below("position", 1ull << 32); bool in = pos >= 0 && pos <= (int)ref.size(); if (in) { int q = 0; while (q != pos) ++q; pos = q; } } else pos = vp::choose("position", (int)ref.size() + 3) - 1;
      if (op == 1)
      {
        auto l = leaf(n++); auto raw = l.get(); bool ok = p->InsertInstruction(std::move(l), pos); bool can = pos >= 0 && pos <= (int)ref.size(); CHECK(ok == can, "an instruction is inserted exactly at a valid position"); if (can) { ref.insert(ref.begin() + pos, raw); vp_reach("inserted"); } else { vp_reach("refused"); CHECK(!gone[n - 1] && l, "a refused instruction stays with its owner"); }
      }
      else
      {
        auto t = p->TakeInstruction(pos); bool can = pos >= 0 && pos < (int)ref.size(); CHECK((t != nullptr) == can, "an instruction is taken exactly from a valid position"); if (can) { CHECK(t.get() == ref[(size_t)pos], "the instruction at the position is taken"); ref.erase(ref.begin() + pos); out.push_back(std::move(t)); vp_reach("taken"); } else vp_reach("nothing");
      }
    }
    else { std::unique_ptr<Instruction> none; bool thrown = false; try { p->PushInstruction(std::move(none)); } catch (const InvalidOperationException&) { thrown = true; } CHECK(thrown, "no instruction is refused"); vp_reach("null"); }
    CHECK(p->GetInstructionCount() == (int)ref.size() && p->GetTopInstructions() == ref, "the instructions keep their order");
  }
  std::vector<const Instruction*> mine; for (auto& o : out) mine.push_back(o.get()); CHECK(p->RootInstruction() == (ref.size() == 1 ? ref[0] : nullptr), "the only instruction is the root"); int before = 0, after = 0; for (int i = 0; i < n; i++) before += !gone[i]; CHECK(before == (int)(ref.size() + out.size()) || before == n, "no instruction is lost"); p.reset(); for (int i = 0; i < n; i++) after += !gone[i]; CHECK(after == (int)out.size(), "a procedure owns exactly its instructions");
}
static const char* kTrue[] = {"true", "yes", "on", "True", "TRUE"};
HARNESS(h_root)
{
  Procedure p; int n = vp::choose("instructions", kTop + 1); int root = -1;
  for (int i = 0; i < n; i++) { auto l = leaf(i); int m = vp::choose("mark", 4); if (m == 1) { int v = vp::choose("text", 3); l->AddAttribute("isRoot", kTrue[v]); if (root < 0) root = i; } else if (m == 2) { l->AddAttribute("isRoot", "false"); } else if (m == 3) { auto s = i == n - 1 ? vp::str("text", 0, 2) : std::string("x"); bool on = s.size() == 2 && (s[0] == 'o' || s[0] == 'O') && (s[1] == 'n' || s[1] == 'N'); l->AddAttribute("isRoot", s); if (on && root < 0) root = i; } p.PushInstruction(std::move(l)); }
  auto top = p.GetTopInstructions(); const Instruction* want = n == 0 ? nullptr : n == 1 ? top[0] : root >= 0 ? top[(size_t)root] : nullptr; CHECK(p.RootInstruction() == want && static_cast<const Procedure&>(p).RootInstruction() == want, "the root is the only instruction or the first marked one"); vp_reach(n == 0 ? "empty" : n == 1 ? "only" : want ? "marked" : "none");
}
HARNESS(h_execution)
{
  Procedure p; auto s0 = std::make_shared<Script>(), s1 = std::make_shared<Script>(); auto a = std::make_unique<Leaf>(s0), b = std::make_unique<Leaf>(s1); Leaf *pa = a.get(), *pb = b.get(); int marks = vp::choose("marked", 3); if (marks) (marks == 1 ? a : b)->AddAttribute("isRoot", "true"); p.PushInstruction(std::move(a)); p.PushInstruction(std::move(b)); Ui ui;
  if (!marks) { p.ExecuteSingle(ui); p.Halt(); p.Reset(ui); CHECK(pa->execs + pb->execs + pa->halts + pb->halts + pa->resets + pb->resets == 0 && p.GetStatus() == ExecutionStatus::SUCCESS, "without root nothing is executed"); CHECK(p.GetNextInstructionTree().IsEmpty(), "without root nothing is next"); vp_reach("norooted"); return; }
  Leaf* r = marks == 1 ? pa : pb; Leaf* o = marks == 1 ? pb : pa; auto sc = marks == 1 ? s0 : s1; p.Setup(); CHECK(r->setups == 1 && o->setups == 0, "the root is set up"); int st = NS, ex = 0; bool halt = false;
  for (int k = 0; k < kOps; k++)
  {
    int op = vp::choose("operation", 3); if (op == 0) { p.ExecuteSingle(ui); if (st == NS) st = NF; if (st != OK && st != BAD && !halt) st = sc->at((size_t)ex++); vp_reach("ticked"); } else if (op == 1) { p.Halt(); halt = true; vp_reach("halted"); } else { p.Reset(ui); st = NS; halt = false; vp_reach("reset"); }
    CHECK((int)p.GetStatus() == st && I(*r) == st, "the procedure has the status of its root"); CHECK(r->execs == ex && o->execs == 0 && o->halts == 0 && o->resets == 0, "only the root is executed, halted and reset"); CHECK(p.GetNextInstructionTree().IsEmpty() == (st == OK || st == BAD || st == RUN), "the next instruction is the root unless it has ended or is running"); CHECK(GetNextLeaves(p).size() == (st == OK || st == BAD || st == RUN ? 0u : 1u), "the next leaf is the root");
  }
}
HARNESS(h_setup)
{
  Procedure p; int n = vp::choose("instructions", 3); bool attr = vp::flag("bad attribute"), bad = vp::flag("bad child"); if (attr) p.AddAttribute("tickTimeout", "soon"); for (int i = 0; i < n; i++) { if (bad && i == 0) p.PushInstruction(make("Inverter")); else p.PushInstruction(leaf(i)); if (n == 2 && i == 0 && vp::flag("marked")) const_cast<Instruction*>(p.GetTopInstructions()[0])->AddAttribute("isRoot", "true"); }
  auto r = p.RootInstruction(); int o = 0; try { p.Setup(); } catch (const ProcedureSetupException&) { o = 1; } catch (const InstructionSetupException&) { o = 2; } int want = attr ? 1 : !r ? 1 : r->GetType() == "Inverter" ? 2 : 0; CHECK(o == want, "a procedure is set up exactly when it can be executed"); vp_reach(attr ? "attribute" : !r ? "noroot" : o == 2 ? "child" : "ready");
}
HARNESS(h_workspace)
{ // variables of a procedure are reachable through it and a reset restores them
  Procedure p; p.PushInstruction(leaf(0)); auto v = localVar("uint8"); v->AddAttribute("value", "7"); CHECK(p.AddVariable("v", std::move(v)), "a variable is added"); sup::dto::AnyValue x; CHECK(!p.GetVariableValue("v", x) && !p.GetVariableValue("w", x), "a variable has no value before set-up"); p.Setup(); CHECK(p.VariableNames() == std::vector<std::string>{"v"}, "the variable is listed"); CHECK(p.GetVariableValue("v", x) && x == sup::dto::AnyValue(sup::dto::uint8(7)), "a variable has its initial value"); auto w = (sup::dto::uint8)vp::below("value", 256); put(p.GetWorkspace(), "v", sup::dto::AnyValue(w)); CHECK(p.GetVariableValue("v", x) && x == sup::dto::AnyValue(w), "the value is that of the workspace"); Ui ui; if (vp::flag("ticked")) p.ExecuteSingle(ui); p.Reset(ui); vp_reach("reset"); CHECK(p.GetVariableValue("v", x) && x == sup::dto::AnyValue(sup::dto::uint8(7)), "a reset restores the initial value"); CHECK(p.GetStatus() == ExecutionStatus::NOT_STARTED, "a reset procedure has not started"); vp_reach("restored"); bool dup = false; try { p.AddVariable("v", localVar("uint8")); } catch (const InvalidOperationException&) { dup = true; } CHECK(dup && p.VariableNames().size() == 1, "a name is given once");
}
HARNESS(h_timing)
{
  Procedure p; bool tick = vp::flag("tick"); static const char* text[] = {"", "0.0", "0.25", "-1.0", "1e30", "1e-3"}; static const long long ns[] = {-1, 0, 250000000, -1, -1, 1000000}; int k = vp::choose("text", 6); if (k) p.AddAttribute(tick ? "tickTimeout" : "timingAccuracy", text[k]); long long d[2] = {100000000, 50000000}; if (ns[k] >= 0) d[tick ? 0 : 1] = ns[k]; CHECK(TickTimeoutNs(p) == d[0], "the tick time-out is the given or the default one"); CHECK(TimingAccuracyNs(p) == d[1], "the accuracy is the given or the default one"); vp_reach(!k ? "default" : ns[k] >= 0 ? "given" : "refused");
}
HARNESS(h_name)
{
  auto f = vp::str("file", 0, 2); Procedure p(f); CHECK(p.GetFilename() == f && p.GetWorkspace().GetFilename() == f && p.GetContext().GetFilename() == f, "a procedure knows its file"); if (vp::flag("named")) { auto n = vp::str("name", 0, 2); CHECK(p.AddAttribute("name", n) && !p.AddAttribute("name", "x"), "an attribute is given once"); CHECK(p.HasAttribute("name") && p.GetAttributeString("name") == n && GetProcedureName(p) == n, "the name of a procedure is its name attribute"); vp_reach("named"); } else { CHECK(GetProcedureName(p) == f, "the name of an unnamed procedure is its file"); vp_reach("file"); }
}
static int reads; struct Reader { int operator()(Leaf& l, UserInterface&, Workspace& ws) { sup::dto::AnyValue v; bool ok = ws.GetValue("v", v); { VpQuiet q; ++reads; } (void)ok; return l.IsHaltRequested() || reads > 2 ? OK : RUN; } };
static void running(bool destroy)
{
  int execs; { VpQuiet q; reads = 0; }  vp_threads(2, 0, 400); bool dead = false; Ui ui; auto p = std::make_unique<Procedure>(); p->AddVariable("v", [] { auto v = localVar("uint8"); v->AddAttribute("value", "7"); return v; }()); auto root = make("ParallelSequence"); auto l = std::make_unique<Leaf>(std::make_shared<Script>()); l->gone = &dead; l->act = Reader(); auto pl = l.get(); AppendChildInstruction(*root, std::move(l)); p->PushInstruction(std::move(root)); p->Setup(); p->ExecuteSingle(ui); if (vp::flag("halted")) p->Halt();
  if (destroy) { p.reset(); execs = reads; CHECK(dead, "the instructions are gone"); vp_reach("gone"); } else { p->Reset(ui); execs = reads; CHECK(I(*pl) == NS && p->GetStatus() == ExecutionStatus::NOT_STARTED, "a reset waits for the parallel branches"); sup::dto::AnyValue v; CHECK(p->GetVariableValue("v", v) && v == sup::dto::AnyValue(sup::dto::uint8(7)), "a reset restores the variables"); vp_reach("reset"); } vp_drain(); CHECK(execs == reads, "no branch runs on");
}
HARNESS(h_reset_running) { running(false); }
HARNESS(h_destroy_running) { running(true); }
HARNESS(h_large)
{ // many top-level instructions
  static const int pos[] = {0, 127, 128, 255, 256, 299}; int at = pos[vp::choose("root", 6)]; Procedure p; std::vector<const Instruction*> ref; Leaf* r = nullptr; for (int i = 0; i < 300; i++) { auto l = std::make_unique<Leaf>(); l->act = [](Leaf&, UserInterface&, Workspace&) { return OK; }; if (i >= at && (i == at || i % 50 == 0)) l->AddAttribute("isRoot", "true"); if (i == at) r = l.get(); ref.push_back(l.get()); p.PushInstruction(std::move(l)); } CHECK(p.GetTopInstructions() == ref && p.GetInstructionCount() == 300 && p.RootInstruction() == r, "the first marked instruction is the root"); Ui ui; p.Setup(); p.ExecuteSingle(ui); int execs = 0; for (auto i : ref) execs += ((const Leaf*)i)->execs; CHECK(execs == 1 && r->execs == 1 && p.GetStatus() == S(OK), "exactly the root is executed"); auto t = p.TakeInstruction(at); CHECK(t.get() == r && p.GetInstructionCount() == 299, "the instruction at the position is taken"); CHECK(p.InsertInstruction(std::move(t), 299) && p.GetTopInstructions().back() == r, "an instruction is inserted exactly at a valid position"); vp_reach("done");
}

// @entry h_map reach=done,vars,single time=150
// @entry h_uninitialised reach=done time=30
// @entry h_adapter reach=status,breakpoint,variable,tick,other,unknown time=150
// @entry h_input reach=value,choice,refused,invalid time=60
// @entry h_job reach=known,unknown,paused,finished time=150
// @entry h_info reach=done time=60
// @entry h_assign reach=running,idle time=60
// @entry h_concurrent reach=done time=100
// @entry h_large reach=done time=100 steps=300000000
// @bound h_large: a job of 301 instructions and 260 variables; every tree shape of at most 5 (thorough 7) instructions, at most 3 variables; sequences of 2 (thorough 3) notifications, on trees of at most 3 instructions; every 32-bit instruction index; one controller thread beside the job's at up to 3 preemptions
// @assume shims stand in for sup-dto; leaves are scripted test instructions deriving from the real Instruction
#include <oac.h>
#include <rt_threads.h>
#include <sup/oac-tree/job_map.h>
#include <sup/oac-tree/job_info.h>
#include <sup/oac-tree/job_interface_adapter.h>
#include <sup/oac-tree/local_job.h>
#include <sup/oac-tree/instruction_info.h>
#include <algorithm>
#include <map>
#include <thread>
using namespace oac;
#ifdef VP_THOROUGH
static const int kMax = 7, kOps = 3;
#else
static const int kMax = 5, kOps = 2;
#endif
static std::unique_ptr<Instruction> shape(int& budget)
{
  int k = vp::choose("kind", budget <= 1 ? 1 : 3); --budget;
  if (k == 0) return std::make_unique<Leaf>(std::make_shared<Script>());
  if (k == 1) { auto d = make("Inverter"); d->InsertInstruction(shape(budget), 0); return d; }
  auto c = make("Sequence"); int n = 0; do { c->InsertInstruction(shape(budget), n++); } while (budget > 0 && vp::flag("more")); return c;
}
static std::vector<const Instruction*> bfs(const Instruction* root) { std::vector<const Instruction*> r{root}; for (size_t i = 0; i < r.size(); i++) for (auto c : r[i]->ChildInstructions()) r.push_back(c); return r; }
static const char* kVar[] = {"b", "a", "c"};
struct Io : IJobInfoIO
{
  struct E { char k; uint32_t i; int a, b; std::string s; }; std::vector<E> ev; std::vector<std::vector<uint32_t>> next; sup::dto::AnyValue last; bool valueOk = true; int choice = 0; std::vector<std::string> options; std::vector<uint64_t> ids;
  void add(char k, uint32_t i, int a = 0, int b = 0, const std::string& s = "") { VpQuiet q; ev.push_back({k, i, a, b, s}); }
  void InitNumberOfInstructions(sup::dto::uint32 n) override { add('n', n); }
  void InstructionStateUpdated(sup::dto::uint32 i, InstructionState s) override { add('i', i, (int)s.m_execution_status, s.m_breakpoint_set); }
  void VariableUpdated(sup::dto::uint32 i, const sup::dto::AnyValue& v, bool c) override { VpQuiet q; last = v; add('v', i, c); }
  void JobStateUpdated(JobState s) override { add('s', 0, (int)s); }
  void PutValue(const sup::dto::AnyValue& v, const std::string& d) override { VpQuiet q; last = v; add('p', 0, 0, 0, d); }
  bool GetUserValue(sup::dto::uint64 id, sup::dto::AnyValue& v, const std::string& d) override { VpQuiet q; ids.push_back(id); add('u', 0, 0, 0, d); if (valueOk) v = sup::dto::AnyValue(sup::dto::int32(77)); return valueOk; }
  int GetUserChoice(sup::dto::uint64 id, const std::vector<std::string>& o, const sup::dto::AnyValue&) override { VpQuiet q; ids.push_back(id); options = o; add('c', 0); return choice; }
  void Interrupt(sup::dto::uint64) override { add('x', 0); }
  void Message(const std::string& m) override { add('m', 0, 0, 0, m); }
  void Log(int s, const std::string& m) override { add('l', 0, s, 0, m); }
  void NextInstructionsUpdated(const std::vector<sup::dto::uint32>& v) override { VpQuiet q; next.push_back(v); add('t', 0); }
};
struct P
{
  Procedure* proc; std::unique_ptr<Procedure> own; std::vector<const Instruction*> all; int vars;
  explicit P(int maxVars = 3, int budget = kMax) : own(new Procedure) { proc = own.get(); auto r = shape(budget); proc->PushInstruction(std::move(r)); all = bfs(proc->RootInstruction()); vars = vp::choose("vars", maxVars + 1); for (int i = 0; i < vars; i++) CHECK(proc->AddVariable(kVar[i], localVar()), "variable added"); }
};
template <class F> static bool refuses(F f) { try { f(); } catch (const InvalidOperationException&) { return true; } return false; }
HARNESS(h_map)
{
  P p; JobMap m(*p.proc); m.InitializeInstructionTree(p.proc->RootInstruction()); size_t n = p.all.size(); CHECK(m.GetNumberOfInstructions() == n && m.GetNumberOfVariables() == (size_t)p.vars, "every instruction and variable has an index");
  auto order = m.GetOrderedInstructions(); CHECK(order == p.all, "instructions are numbered breadth first"); for (size_t i = 0; i < n; i++) CHECK(m.GetInstructionIndex(p.all[i]) == i, "each instruction has the one index");
  auto names = p.proc->VariableNames(); std::vector<bool> used((size_t)p.vars, false); for (auto& v : names) { auto k = m.GetVariableIndex(v); CHECK(k < (size_t)p.vars && !used[k], "each variable has its own index"); used[k] = true; CHECK(names[k] == v, "variables are numbered in the order they are listed"); }
  Leaf stranger(std::make_shared<Script>()); CHECK(refuses([&] { m.GetInstructionIndex(&stranger); }) && refuses([&] { m.GetInstructionIndex(nullptr); }) && refuses([&] { m.GetVariableIndex("zz"); }) && refuses([&] { m.GetVariableIndex(""); }), "an unknown instruction or variable is refused");
  auto& map = m.GetInstructionMap().GetInstructionIndexMap(); CHECK(map.size() == n, "one entry per instruction"); if (p.vars) vp_reach("vars"); if (n == 1) vp_reach("single"); vp_reach("done");
}
HARNESS(h_uninitialised)
{
  Procedure proc; Leaf l(std::make_shared<Script>()); JobMap m(proc); CHECK(m.GetNumberOfInstructions() == 0 && refuses([&] { m.GetInstructionIndex(&l); }) && refuses([&] { m.GetInstructionMap(); }) && refuses([&] { m.GetOrderedInstructions(); }), "without a tree there are no instructions");
  m.InitializeInstructionTree(nullptr); CHECK(m.GetNumberOfInstructions() == 0 && m.GetOrderedInstructions().empty() && refuses([&] { m.GetInstructionIndex(&l); }), "an empty tree has no instructions"); vp_reach("done");
}
HARNESS(h_adapter)
{
  vp_threads(0, 0, 0); vp_fixed_order(1); vp_race_off(); P p(2, 3); Io io; Workspace ws; Ui ui;
  { JobInterfaceAdapter a(*p.proc, io); a.InitializeInstructionTree(p.proc->RootInstruction()); CHECK(io.ev.size() == 1 && io.ev[0].k == 'n' && io.ev[0].i == p.all.size(), "the number of instructions is announced"); std::vector<bool> bp(p.all.size(), false); std::vector<int> st(p.all.size(), NS); size_t n = p.all.size();
  for (int k = 0; k < kOps; k++)
  {
    size_t before = io.ev.size(); size_t i = (size_t)vp::choose("which", (int)n); auto* instr = const_cast<Instruction*>(p.all[i]);
    switch (vp::choose("op", 5))
    {
    case 0: if (instr->GetCategory() == Instruction::kAction) { if (instr->GetStatus() == S(NS)) static_cast<Leaf*>(instr)->script->r = {OK}; instr->ExecuteSingle(ui, ws); } st[i] = I(*instr); a.UpdateInstructionStatus(instr); CHECK(io.ev.back().k == 'i' && io.ev.back().i == i && io.ev.back().a == st[i] && io.ev.back().b == bp[i], "a status is reported for its instruction, with the breakpoint it has"); vp_reach("status"); break;
    case 1: bp[i] = vp::flag("set"); a.OnBreakpointChange(instr, bp[i]); CHECK(io.ev.back().k == 'i' && io.ev.back().i == i && io.ev.back().b == bp[i] && io.ev.back().a == st[i], "a breakpoint is reported for its instruction, with the status it has"); vp_reach("breakpoint"); break;
    case 2: if (p.vars) { int v = vp::choose("var", p.vars); bool c = vp::flag("connected"); auto names = p.proc->VariableNames(); a.VariableUpdated(names[(size_t)v], sup::dto::AnyValue(sup::dto::int32(k)), c); CHECK(io.ev.back().k == 'v' && io.ev.back().i == (uint32_t)v && io.ev.back().a == c && io.last == sup::dto::AnyValue(sup::dto::int32(k)), "a variable is reported with its index, value and connection"); vp_reach("variable"); }
      else { CHECK(refuses([&] { a.VariableUpdated("zz", {}, true); }), "an unknown variable is refused"); continue; } break;
    case 3: { a.OnProcedureTick(*p.proc); CHECK(io.ev.back().k == 't', "the next instructions are reported"); auto ref = GetNextLeaves(*p.proc); CHECK(io.next.back().size() == ref.size(), "the next instructions are reported by index"); for (size_t j = 0; j < ref.size(); j++) CHECK(p.all[io.next.back()[j]] == ref[j], "the next instructions are reported by index"); vp_reach("tick"); break; }
    default: switch (vp::choose("other", 5))
      {
      case 0: a.Message("hi"); CHECK(io.ev.back().k == 'm' && io.ev.back().s == "hi", "messages are passed on"); break;
      case 1: a.Log(3, "lo"); CHECK(io.ev.back().k == 'l' && io.ev.back().a == 3 && io.ev.back().s == "lo", "logs are passed on"); break;
      case 2: CHECK(a.PutValue(sup::dto::AnyValue(sup::dto::int32(5)), "d"), "values are passed on"); CHECK(io.ev.back().k == 'p' && io.ev.back().s == "d" && io.last == sup::dto::AnyValue(sup::dto::int32(5)), "values are passed on"); break;
      case 3: a.OnStateChange(JobState::kPaused); CHECK(io.ev.back().k == 's' && io.ev.back().a == 1, "states are passed on"); break;
      default: { Leaf l(std::make_shared<Script>()); CHECK(refuses([&] { a.UpdateInstructionStatus(&l); }) && io.ev.size() == before, "an unknown instruction is refused"); vp_reach("unknown"); continue; }
      }
      vp_reach("other");
    }
    CHECK(io.ev.size() == before + 1, "one report per notification");
  } }
}
HARNESS(h_input)
{
  vp_threads(0, 0, 0); vp_fixed_order(1); vp_race_off(); Procedure proc; Io io; JobInterfaceAdapter a(proc, io);
  switch (vp::choose("kind", 3))
  {
  case 0: { io.valueOk = vp::flag("ok"); auto f = a.RequestUserInput(CreateUserValueRequest(sup::dto::AnyValue(sup::dto::int32(1)), "desc")); CHECK(f && f->IsValid(), "the request is taken"); vp_drain(); CHECK(f->IsReady(), "the request is answered"); auto id = f->GetId(); auto r = f->GetValue(); auto pr = ParseUserValueReply(r); CHECK(io.ev.size() == 1 && io.ev[0].k == 'u' && io.ev[0].s == "desc" && io.ids[0] == id, "the request is passed on with its number"); CHECK(pr.first == io.valueOk && (!pr.first || pr.second == sup::dto::AnyValue(sup::dto::int32(77))), "the answer is the user's"); vp_reach(io.valueOk ? "value" : "refused"); break; }
  case 1: { io.choice = vp::any<int>("choice"); std::vector<std::string> o{"x", "y"}; auto f = a.RequestUserInput(CreateUserChoiceRequest(o, CreateUserChoiceMetadata())); vp_drain(); CHECK(f->IsReady(), "the request is answered"); auto pr = ParseUserChoiceReply(f->GetValue()); CHECK(io.ev.size() == 1 && io.ev[0].k == 'c' && io.options == o, "the request is passed on"); if (io.choice < 0) { CHECK(!pr.first, "a negative choice is no answer"); vp_reach("refused"); } else { CHECK(pr.first && pr.second == io.choice, "the answer is the user's"); vp_reach("choice"); } break; }
  default: { UserInputRequest r = CreateUserValueRequest(sup::dto::AnyValue(sup::dto::int32(1)), "d"); if (vp::flag("type")) r.m_request_type = static_cast<InputRequestType>(vp::choose("code", 2) ? 99 : 0); else r.m_meta_data = sup::dto::AnyValue(sup::dto::int32(3)); auto f = a.RequestUserInput(r); vp_drain(); CHECK(f->IsReady(), "the request is answered"); auto x = f->GetValue(); CHECK(!ParseUserValueReply(x).first && !ParseUserChoiceReply(x).first && io.ev.empty(), "a malformed request reaches no user and has no answer"); vp_reach("invalid"); }
  }
}
HARNESS(h_job)
{
  vp_threads(0, 0, 0); vp_fixed_order(1); vp_race_off(); Io io; auto own = std::make_unique<Procedure>(); Procedure* proc = own.get(); own->AddAttribute("tickTimeout", "0"); auto root = make("Sequence"); auto sc = std::make_shared<Script>(); sc->r = {OK, OK, OK, OK}; std::vector<Leaf*> l; for (int i = 0; i < 2; i++) { auto x = std::make_unique<Leaf>(sc); l.push_back(x.get()); root->InsertInstruction(std::move(x), i); } own->PushInstruction(std::move(root)); CHECK(own->AddVariable("v", localVar("int32")), "added");
  auto all = bfs(proc->RootInstruction());
  {
  LocalJob first(std::move(own), io); LocalJob job(std::move(first)); vp_drain(); auto count = [&](char k) { int n = 0; for (auto& e : io.ev) n += e.k == k; return n; }; CHECK(count('n') == 1 && count('s') == 1, "the job announces its instructions and its initial state"); CHECK(job.GetInfo().GetNumberOfInstructions() == 3 && job.GetInfo().GetNumberOfVariables() == 1, "the job describes its procedure");
  uint32_t idx = vp::any<uint32_t>("index"); size_t before = io.ev.size(); job.SetBreakpoint(idx);
  if (idx >= 3) { CHECK(io.ev.size() == before, "an unknown index has no effect"); job.RemoveBreakpoint(idx); CHECK(io.ev.size() == before, "an unknown index has no effect"); vp_reach("unknown"); job.SetBreakpoint(2); before = io.ev.size(); job.RemoveBreakpoint(idx); CHECK(io.ev.size() == before, "removing a breakpoint of an unknown instruction reports nothing"); job.Start(); vp_drain(); CHECK(l[0]->execs == 1 && l[1]->execs == 0, "the job stops at the breakpoint it has"); job.RemoveBreakpoint(2); job.Start(); vp_drain(); CHECK(l[1]->execs == 1 && io.ev.back().k == 't', "the job runs"); }
  else
  {
    uint32_t c = (uint32_t)vp_concretize(idx); CHECK(io.ev.size() == before + 1 && io.ev.back().k == 'i' && io.ev.back().i == c && io.ev.back().b == 1 && io.ev.back().a == NS, "a breakpoint is reported for its index"); vp_reach("known"); before = io.ev.size(); job.SetBreakpoint(c); CHECK(io.ev.size() == before, "setting it again changes nothing");
    if (vp::flag("remove")) { job.RemoveBreakpoint(c); CHECK(io.ev.size() == before + 1 && io.ev.back().b == 0 && io.ev.back().i == c, "removing is reported for its index"); job.Start(); vp_drain(); CHECK(l[1]->execs == 1, "the job runs"); vp_reach("finished"); }
    else { job.Start(); vp_drain(); int s = -1; for (auto& e : io.ev) if (e.k == 's') s = e.a; CHECK(s == 1, "the job stops at the breakpoint"); CHECK(l[0]->execs == (c == 2) && l[1]->execs == 0, "the job stops at the instruction with the index"); vp_reach("paused"); if (vp::flag("halt")) { job.Halt(); vp_drain(); job.Reset(); vp_drain(); s = -1; for (auto& e : io.ev) if (e.k == 's') s = e.a; CHECK(s == 0, "the job is reset"); } else { job.Step(); vp_drain(); CHECK(l[0]->execs + l[1]->execs == (c == 2) + 1, "one step"); job.Pause(); } }
  }
  // the last reported state of each instruction is the one it has
  for (size_t i = 0; i < 3; i++) { int st = NS; for (auto& e : io.ev) if (e.k == 'i' && e.i == i) st = e.a; CHECK(st == I(*all[i]), "each instruction's status is reported for its index"); }
  }
}
HARNESS(h_assign)
{ // a job that takes the place of another one
  vp_threads(0, 0, 0); vp_fixed_order(1); vp_race_off(); Io a, b; auto mk = [](Io& io, int n, std::vector<Leaf*>& l) { auto own = std::make_unique<Procedure>(); own->AddAttribute("tickTimeout", "0"); auto root = make("Sequence"); auto sc = std::make_shared<Script>(); sc->r = {OK, OK, OK}; for (int i = 0; i < n; i++) { auto x = std::make_unique<Leaf>(sc); l.push_back(x.get()); root->InsertInstruction(std::move(x), i); } own->PushInstruction(std::move(root)); return LocalJob(std::move(own), io); };
  std::vector<Leaf*> la, lb; LocalJob x = mk(a, 1, la), y = mk(b, 2, lb); vp_drain(); bool stopped = vp::flag("first at a breakpoint"), second = vp::flag("second at a breakpoint"); if (stopped) { x.SetBreakpoint(1); x.Start(); vp_drain(); CHECK(la[0]->execs == 0, "the job stops at its breakpoint"); } if (second) { y.SetBreakpoint(2); y.Start(); vp_drain(); CHECK(lb[0]->execs == 1 && lb[1]->execs == 0, "the job stops at its breakpoint"); }
  x = std::move(y); vp_drain(); size_t ev = a.ev.size(); CHECK(x.GetInfo().GetNumberOfInstructions() == 3, "the description is that of the new job"); x.Start(); vp_drain(); if (second) CHECK(lb[0]->execs == 1 && lb[1]->execs == 1, "the job goes on where it was"); else CHECK(lb[0]->execs == 1 && lb[1]->execs == 1, "the job runs"); CHECK(a.ev.size() == ev, "the replaced job reports nothing any more"); int s = -1; for (auto& e : b.ev) if (e.k == 's') s = e.a; CHECK(s == 4, "the job has succeeded"); vp_reach(second ? "running" : "idle");
}
HARNESS(h_info)
{
  vp_threads(0, 0, 0); vp_fixed_order(1); vp_race_off(); P p(2); auto all = p.all; auto names = p.proc->VariableNames(); Io io; p.proc->AddAttribute("name", "the job"); std::string name = "the job"; LocalJob job(std::move(p.own), io); auto& info = job.GetInfo(); CHECK(info.GetNumberOfInstructions() == all.size() && info.GetNumberOfVariables() == names.size(), "the description has every instruction and variable");
  CHECK(info.GetProcedureName() == name, "the description has the name"); auto* root = info.GetRootInstructionInfo(); std::vector<const InstructionInfo*> q{root}; for (size_t i = 0; i < q.size(); i++) { CHECK(q[i]->GetIndex() == i && q[i]->GetType() == all[i]->GetType() && q[i]->GetCategory() == all[i]->GetCategory(), "the description numbers instructions as the job does"); for (auto* c : q[i]->Children()) q.push_back(c); } CHECK(q.size() == all.size(), "the description has every instruction");
  auto& vs = info.GetWorkspaceInfo().GetVariableInfos(); for (size_t i = 0; i < names.size(); i++) CHECK(vs[i].first == names[i] && vs[i].second.GetIndex() == i && vs[i].second.GetType() == "Local", "the description numbers variables as the job does");
  JobInfo copy(info); CHECK(copy == info && copy.GetRootInstructionInfo() != root, "a copied description is equal and separate"); JobInfo moved(std::move(copy)); CHECK(moved == info, "a moved description is equal"); vp_reach("done");
}
HARNESS(h_concurrent)
{ // breakpoints are changed while the job reports statuses
  vp_threads(3, 0, 0); vp_set_timeouts(0); Io io; auto own = std::make_unique<Procedure>(); own->AddAttribute("tickTimeout", "0"); auto sc = std::make_shared<Script>(); sc->r = {OK}; auto x = std::make_unique<Leaf>(sc); Leaf* l = x.get(); own->PushInstruction(std::move(x));
  { LocalJob job(std::move(own), io); job.Start(); job.SetBreakpoint(0); job.RemoveBreakpoint(0); vp_drain(); VpQuiet q; int s = -1; for (auto& e : io.ev) if (e.k == 's') s = e.a; CHECK(s == 1 || s == 4, "the job runs or stops at the breakpoint"); int st = -1, bp = -1; for (auto& e : io.ev) if (e.k == 'i') { st = e.a; bp = e.b; } CHECK(st == I(*l), "the last report has the instruction's status"); CHECK(bp == 0, "the last report has the instruction's breakpoint"); vp_reach("done"); }
}
HARNESS(h_large)
{ // many instructions and variables
  vp_threads(0, 0, 0); vp_max_steps(1000000); vp_fixed_order(1); vp_race_off(); Io io; auto own = std::make_unique<Procedure>(); own->AddAttribute("tickTimeout", "0"); auto root = make("Sequence"); std::vector<Leaf*> l; for (int i = 0; i < 300; i++) { auto x = std::make_unique<Leaf>(); x->act = [](Leaf&, UserInterface&, Workspace&) { return OK; }; l.push_back(x.get()); root->InsertInstruction(std::move(x), i); } own->PushInstruction(std::move(root)); for (int i = 0; i < 260; i++) CHECK(own->AddVariable("v" + std::to_string(i), localVar("int32")), "added"); auto* proc = own.get(); auto names = proc->VariableNames();
  LocalJob job(std::move(own), io); vp_drain(); static const uint32_t pos[] = {1, 128, 256, 257, 300}; uint32_t at = pos[vp::choose("breakpoint", 5)]; job.SetBreakpoint(at); CHECK(io.ev.back().k == 'i' && io.ev.back().i == at && io.ev.back().b == 1, "a breakpoint is reported for its index"); job.Start(); vp_drain(); for (uint32_t i = 0; i < 300; i++) CHECK(l[i]->execs == (i + 1 < at ? 1 : 0), "the job stops at the instruction with the index");
  std::vector<int> st(301, NS); for (auto& e : io.ev) if (e.k == 'i') { CHECK(e.i <= 300, "an index is known"); st[e.i] = e.a; } for (uint32_t i = 0; i < 300; i++) CHECK(st[i + 1] == I(*l[i]), "each instruction's status is reported for its index"); for (uint32_t k : {0u, 127u, 128u, 255u, 256u, 259u}) { put(proc->GetWorkspace(), names[k], sup::dto::AnyValue(sup::dto::int32((int)k + 1))); CHECK(io.ev.back().k == 'v' && io.ev.back().i == k && io.last == sup::dto::AnyValue(sup::dto::int32((int)k + 1)), "a value is reported for its index"); } vp_reach("done");
}

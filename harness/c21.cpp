// @entry h_history reach=started,stepped,paused,halted,succeeded,failed,reset,busy time=300
// @entry h_breakpoint reach=hit,resumed,rerun,finished time=200
// @entry h_refused reach=done time=60
// @bound 4 (thorough 5) commands given while the job is idle and at most one (thorough two) given from within a tick, on a single instruction or a sequence of two; at most 2 executions of the single instruction, 1 of each in the sequence, with symbolic results before they succeed; one thread order (see C22 for the others)
// @assume shims stand in for sup-dto; leaves are scripted test instructions deriving from the real Instruction; the job's thread completes what it can between two commands
#include <oac.h>
#include <rt_threads.h>
#include <sup/oac-tree/async_runner.h>
#include <algorithm>
#include <deque>
using namespace oac;
#ifdef VP_THOROUGH
static const int kOps = 5, kInner = 2;
#else
static const int kOps = 4, kInner = 1;
#endif
enum Cmd { START, STEP, PAUSE, RESET, HALT };
enum St { INIT, PAUSED, STEPPING, RUNNING, SUCCESS, FAILED, HALTED };
struct Event { int kind; const Instruction* i; int v; bool operator==(const Event& o) const { return kind == o.kind && i == o.i && v == o.v; } }; // 0 state, 1 breakpoint, 2 tick
struct Monitor : JobStateMonitor
{
  std::vector<Event> ev; const Procedure* proc = nullptr;
  void OnStateChange(JobState s) noexcept override { ev.push_back({0, nullptr, (int)s}); }
  void OnBreakpointChange(const Instruction* i, bool set) noexcept override { ev.push_back({1, i, set}); }
  void OnProcedureTick(const Procedure& p) override { CHECK(proc == &p, "ticks are reported with the job's procedure"); ev.push_back({2, nullptr, 0}); }
};
static std::vector<Event> only(const std::vector<Event>& v, bool ticks) { std::vector<Event> r; for (auto& e : v) if ((e.kind == 2) == ticks) r.push_back(e); return r; }
struct Job
{
  Ui ui; Monitor mon; Procedure proc; std::unique_ptr<Node> ref; std::vector<Node*> leaves; std::vector<Event> expect; std::unique_ptr<AsyncRunner> run;
  std::vector<int> inner; int innerLeft = 0; // commands given from within the k-th leaf execution
  int st = -1, execs = 0; std::deque<int> q; bool stop = false; struct Bp { const Instruction* i; bool armed; }; std::vector<Bp> bps;
  explicit Job(int leafCount, int innerBudget) : innerLeft(innerBudget)
  {
    ref = leafCount == 1 ? leafNode() : node(SEQ, leafCount); auto r = realise(*ref); if (leafCount == 1) leaves.push_back(ref.get()); else for (auto& k : ref->c) leaves.push_back(k.get());
    for (auto* l : leaves) l->leaf->act = [this, l](Leaf& me, UserInterface&, Workspace&) { int c = -1; if (innerLeft > 0 && vp::flag("inner")) { --innerLeft; c = vp::choose("innerCommand", 5); give(c); vp_reach("busy"); } inner.push_back(c); return result(*l, me.execs - 1); };
    proc.AddAttribute("tickTimeout", "0"); proc.PushInstruction(std::move(r)); mon.proc = &proc; run = std::make_unique<AsyncRunner>(proc, ui, mon); set(INIT); settle();
  }
  int result(Node& l, int k) { if (k >= (int)(3 - leaves.size())) return OK; return l.script->at((size_t)k); }
  void give(int c) { switch (c) { case START: run->Start(); break; case STEP: run->Step(); break; case PAUSE: run->Pause(); break; case RESET: run->Reset(); break; default: run->Halt(); } }
  void settle() { vp_drain(); compare(); }
  void compare()
  {
    CHECK(only(mon.ev, false) == only(expect, false), "the reported states are those of the documented state machine, each once and in order"); CHECK(only(mon.ev, true).size() == only(expect, true).size(), "every tick is reported once"); same(*ref); int e = 0; for (auto* l : leaves) e += l->leaf->execs; CHECK(e == execs, "instructions are executed exactly when documented");
  }
  // reference: documented behaviour
  void set(int s) { st = s; expect.push_back({0, nullptr, s}); }
  bool fin() const { return ref->st == OK || ref->st == BAD; }
  void push(int c) { if (c == HALT) { if (q.empty() || q.front() != HALT) { q.push_front(HALT); ref->haltAll(); stop = true; } } else q.push_back(c); }
  void tickRef(Node& n)
  {
    if (n.st == NS) { n.st = NF; n.cur = 0; }
    if (n.st == OK || n.st == BAD || n.halt) return;
    if (n.kind == LEAF) { int c = inner[(size_t)execs++]; if (c >= 0) push(c); n.st = result(n, n.execs++); return; }
    Node& k = *n.c[n.cur]; tickRef(k); int s = k.st; if (s == BAD) { n.st = BAD; return; } if (s == RUN) { n.st = RUN; return; }
    if (s == OK) { ++n.cur; if (n.cur == n.c.size()) { n.st = OK; return; } n.st = NF; return; }
    n.st = NF;
  }
  void tick() { tickRef(*ref); for (auto& b : bps) b.armed = true; }
  bool finishedState() { if (!fin()) return false; set(ref->st == OK ? SUCCESS : FAILED); return true; }
  std::vector<const Instruction*> next() { std::vector<const Instruction*> n; if (ref->st != NS && ref->st != NF) return n; n.push_back(ref->real); if (ref->kind != LEAF) for (auto& k : ref->c) if (k->st != OK) { if (k->st == NS || k->st == NF) n.push_back(k->real); break; } return n; }
  void loop()
  {
    stop = false; set(RUNNING); vp_reach("started");
    while (!fin() && !ref->halt && !stop)
    {
      auto n = next(); bool hit = false; for (auto& b : bps) if (b.armed && std::find(n.begin(), n.end(), b.i) != n.end()) { hit = true; b.armed = false; }
      if (hit) { set(PAUSED); vp_reach("hit"); return; }
      tick();
      if (!finishedState()) { if (!q.empty()) { int c = q.front(); q.pop_front(); if (c == HALT) set(HALTED); else if (c == STEP || c == PAUSE) { stop = true; set(PAUSED); vp_reach("paused"); } } }
      expect.push_back({2, nullptr, 0});
    }
  }
  void serve()
  {
    while (!q.empty())
    {
      int c = q.front(); q.pop_front(); bool over = st == SUCCESS || st == FAILED || st == HALTED;
      if (over) { if (c == RESET) { ref->reset(); for (auto& b : bps) b.armed = true; set(INIT); vp_reach("reset"); } continue; }
      if (st == RUNNING) { if (c == HALT) set(HALTED); else if (c == STEP || c == PAUSE) set(PAUSED); continue; } // the run ended because of the command
      if (c == START) loop();
      else if (c == STEP) { set(STEPPING); vp_reach("stepped"); stop = false; tick(); expect.push_back({2, nullptr, 0}); if (!finishedState()) set(PAUSED); }
      else if (c == HALT) { set(HALTED); vp_reach("halted"); }
    }
  }
  void command(int c) { give(c); vp_drain(); push(c); serve(); if (st == SUCCESS) vp_reach("succeeded"); if (st == FAILED) vp_reach("failed"); compare(); }
  void breakpoint(const Instruction* i, bool on)
  {
    bool had = false; for (size_t k = 0; k < bps.size(); k++) if (bps[k].i == i) { had = true; if (!on) bps.erase(bps.begin() + (long)k); break; }
    if (on) { run->SetBreakpoint(i); if (!had) { bps.push_back({i, true}); expect.push_back({1, i, true}); } } else { run->RemoveBreakpoint(i); if (had) expect.push_back({1, i, false}); }
    compare();
  }
  void end() { run.reset(); compare(); CHECK(vp_threads_alive() == 1, "the job's thread has ended"); }
};
HARNESS(h_history)
{
  vp_threads(0, 0, 0); vp_fixed_order(1); vp_race_off(); Job j(1 + vp::choose("leaves", 2), kInner);
  for (int i = 0; i < kOps; i++) j.command(vp::choose("command", 5));
  j.end();
}
HARNESS(h_breakpoint)
{ // breakpoint, command, ...: stopped once before the instruction, also after a reset
  vp_threads(0, 0, 0); vp_fixed_order(1); vp_race_off(); Job j(2, 0); auto* where = j.leaves[(size_t)vp::choose("where", 2)]->real; j.breakpoint(where, true);
  int resets = 0;
  for (int i = 0; i < kOps + 1; i++)
  {
    int c = vp::choose("command", 6); bool was = j.st == PAUSED; if (c == 5) j.breakpoint(where, false); else { int s = j.st; j.command(c); if (c == RESET && s >= SUCCESS) ++resets; if (c == START && was) vp_reach("resumed"); }
    if (resets && j.st == PAUSED) vp_reach("rerun"); if (j.st == SUCCESS) vp_reach("finished");
  }
  j.end();
}
HARNESS(h_refused)
{
  vp_threads(0, 0, 0); vp_fixed_order(1); vp_race_off(); Job j(1, 0); Leaf stranger(std::make_shared<Script>()); j.run->SetBreakpoint(&stranger); j.run->SetBreakpoint(nullptr); j.run->RemoveBreakpoint(&stranger); j.compare();
  auto* w = j.leaves[0]->real; j.breakpoint(w, true); j.breakpoint(w, true); j.breakpoint(w, false); j.breakpoint(w, false); j.end(); vp_reach("done");
}

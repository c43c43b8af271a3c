// @repo base/generic_utils.cpp base/application_utils.cpp
// @flags -Ddlopen=vp_dlopen -Ddlclose=vp_dlclose -Dmkdir=vp_mkdir
// @entry h_load reach=loaded,missing,bad time=60
// @entry h_runner reach=ready,refused time=60
// @entry h_monitor reach=finished,waiting time=100
// @entry h_wait_state reach=reached,timeout time=100
// @entry h_wait_final reach=done time=100
// @entry h_cli reach=succeeded,failed,validated,notloaded,usage time=150
// @entry h_daemon reach=succeeded,failed,notloaded,usage time=100
// @entry h_cli_schedules reach=done time=150
// @entry h_daemon_ui reach=logged,silent,unsupported time=60
// @bound h_load: 5 kinds of file; h_monitor, h_wait_state: every history of up to 4 (thorough 5) state changes by another thread, every awaited state, schedules with at most 2 (thorough 3) preemptions, any time-out; h_cli, h_daemon: every combination of 4 kinds of file, 5 log levels, validation, 1..2 leaves with every sequence of up to 3 (thorough 5) results; h_cli_schedules: at most 2 (thorough 3) preemptions
// @assume shims stand in for sup-dto, sup-xml, sup-log, sup-cli and the streams; files are tables from names to trees
#include <oac.h>
#include <rt_threads.h>
#include <sup/oac-tree/application_utils.h>
#include <sup/oac-tree/sequence_parser.h>
#include <sup/oac-tree/job_states.h>
#include <oac-tree-cli/cl_interface.cpp>
#include <oac-tree-daemon/daemon_interface.cpp>
#define main cli_main
#include <oac-tree-cli/main.cpp>
#undef main
#define main daemon_main
#include <oac-tree-daemon/main.cpp>
#undef main
#undef cin
#undef cout
#include <sup/xml/tree_data.h>
#include <thread>
using namespace oac;
using sup::xml::TreeData;
namespace sup { namespace xml { namespace model { void PutFile(const std::string&, const TreeData&); } } }
using sup::xml::model::PutFile;
#ifdef VP_THOROUGH
static const int kP = 3, kStates = 5, kTicks = 4;
#else
static const int kP = 2, kStates = 4, kTicks = 2;
#endif
extern "C" void* vp_dlopen(const char*, int) { return nullptr; }
extern "C" int vp_dlclose(void*) { return 0; }
extern "C" int vp_mkdir(const char*, unsigned) { return -1; }
static std::vector<std::string> files;
extern "C" bool vp_file_exists(const char* n) { for (auto& f : files) if (f == n) return true; return false; }
typedef std::vector<std::pair<std::string, std::string>> At;
static TreeData el(const std::string& type, const At& a = {}, const std::vector<TreeData>& c = {}) { TreeData d(type); for (auto& x : a) d.AddAttribute(x.first, x.second); for (auto& x : c) d.AddChild(x); return d; }
static std::shared_ptr<Script> scripts[2]; static int execs[2], made;
struct Probe : Instruction
{
  int k = -1; Probe() : Instruction("Probe") {}
  ExecutionStatus ExecuteSingleImpl(UserInterface&, Workspace&) override { VpQuiet q; int i = GetName() == "b"; int n = execs[i]++; return S(scripts[i]->at((size_t)n)); }
};
static void put(const std::string& name, const TreeData& d) { files.push_back(name); PutFile(name, d); }
static void world(int leaves)
{
  GlobalInstructionRegistry().RegisterInstruction("Probe", [] { return static_cast<Instruction*>(new Probe); }); files.clear(); for (int i = 0; i < 2; i++) { scripts[i] = std::make_shared<Script>(); scripts[i]->withRunning = false; execs[i] = 0; }
  std::vector<TreeData> c; c.push_back(el("Probe", {{"name", "a"}})); if (leaves > 1) c.push_back(el("Probe", {{"name", "b"}})); put("good", el("Procedure", {{"tickTimeout", "0"}}, {leaves > 1 ? el("Sequence", {}, c) : c[0]}));
  put("noparse", el("Nothing")); put("nosetup", el("Procedure", {}, {el("Inverter")})); put("badvar", el("Procedure", {}, {el("Sequence"), el("Workspace", {}, {el("Local", {{"name", "v"}, {"type", "{"}})})}));
}
HARNESS(h_load)
{
  world(1); static const char* names[] = {"good", "none", "noparse", "nosetup", "badvar"}; int k = vp::choose("file", 5); std::string err = "old"; auto p = utils::SafeParseProcedure(names[k], err);
  if (k == 1 || k == 2) { CHECK(!p, "a file that cannot be read gives no procedure"); CHECK(!err.empty(), "the reason is reported"); if (k == 1) CHECK(err.find("none") != std::string::npos, "the missing file is named"); vp_reach(k == 1 ? "missing" : "bad"); }
  else { CHECK(p && err.empty(), "a file that can be read gives its procedure"); CHECK(p->GetFilename() == names[k] && p->RootInstruction(), "a file that can be read gives its procedure"); vp_reach("loaded"); }
}
struct Mon : JobStateMonitor { std::vector<JobState> s; void OnStateChange(JobState x) noexcept override { VpQuiet q; s.push_back(x); } void OnBreakpointChange(const Instruction*, bool) noexcept override {} void OnProcedureTick(const Procedure&) override {} };
HARNESS(h_runner)
{
  world(1); vp_threads(0, 0, 0); vp_race_off(); static const char* names[] = {"good", "nosetup", "badvar"}; int k = vp::choose("file", 3); std::string err; auto p = utils::SafeParseProcedure(names[k], err); CHECK(p != nullptr, "the file can be read"); Ui ui; Mon m; err = "old"; auto r = utils::CreateAsyncRunner(*p, ui, m, err);
  CHECK((r != nullptr) == (k == 0), "exactly a procedure that can be set up gets a runner"); CHECK(err.empty() == (k == 0), "the reason is reported"); CHECK(execs[0] == 0, "nothing is executed before the start"); if (r) CHECK(m.s.size() == 1 && m.s[0] == JobState::kInitial, "a runner begins as initial"); vp_reach(r ? "ready" : "refused"); r.reset(); CHECK(vp_threads_alive() == 1, "no thread is left");
}
static bool fin(JobState s) { return s == JobState::kSucceeded || s == JobState::kFailed || s == JobState::kHalted; }
static std::vector<JobState> history() { std::vector<JobState> h; int n = vp::choose("changes", kStates + 1); for (int i = 0; i < n; i++) h.push_back((JobState)vp::choose("state", 7)); return h; }
HARNESS(h_monitor)
{ // sequential: the current state is the last one reported; waiting for the end of a job that has ended returns at once with its state
  vp_threads(0, 0, 0); vp_race_off(); utils::SimpleJobStateMonitor m; CHECK(m.GetCurrentState() == JobState::kInitial, "a job begins as initial"); JobState last = JobState::kInitial; Procedure p;
  for (auto s : history()) { m.OnStateChange(s); last = s; m.OnProcedureTick(p); m.OnBreakpointChange(nullptr, true); CHECK(m.GetCurrentState() == last, "the state is the last one reported"); }
  if (fin(last)) { CHECK(m.WaitForFinished() == last, "a finished job reports how it ended"); vp_reach("finished"); } else vp_reach("waiting");
  auto s = (JobState)vp::choose("awaited", 7); if (s == last) CHECK(m.WaitForState(s, 0.0), "a state that is there need not be awaited"); else CHECK(!m.WaitForState(s, 0.0), "a state that is not there is not reported");
}
HARNESS(h_wait_state)
{ // another thread reports states; the wait sees the last one
  vp_threads(kP, 1, 0); bool lasting = vp::flag("lasting"); vp_set_timeouts(lasting ? 0 : 1); utils::SimpleJobStateMonitor m; int a = vp::choose("first", 3), b = vp::choose("second", 3); static const JobState st[] = {JobState::kRunning, JobState::kPaused, JobState::kSucceeded}; auto want = st[vp::choose("awaited", 3)]; bool done = false;
  std::thread t([&] { m.OnStateChange(st[a]); m.OnStateChange(st[b]); }); int64_t w0 = vp_now(); bool r = m.WaitForState(want, 1.0); int64_t dt = vp_now() - w0; t.join(); if (lasting && want == st[b]) CHECK(r && dt < 500000000, "a lasting state is seen at once"); if (r) { CHECK(want == st[a] || want == st[b], "only a reported state is seen"); vp_reach("reached"); } else vp_reach("timeout"); CHECK(r || vp_now() - w0 >= 1000000000, "waiting fails only when the time is over"); CHECK(m.GetCurrentState() == st[b], "the state is the last one reported"); (void)done;
}
HARNESS(h_wait_final)
{
  vp_threads(kP, 1, 0); vp_set_timeouts(0); utils::SimpleJobStateMonitor m; auto end = (JobState)(4 + vp::choose("end", 3)); std::thread t([&] { m.OnStateChange(JobState::kRunning); m.OnStateChange(end); }); JobState s{}; int64_t t0 = vp_now(); std::thread w([&] { CHECK(m.WaitForState(end, 1e6) && vp_now() - t0 < 1000000000, "a lasting state is seen at once"); }); s = m.WaitForFinished(); CHECK(s == end, "a finished job reports how it ended"); t.join(); w.join(); vp_reach("done");
}
// the outcome of the procedure "good" for what the leaves return
static int outcome(int leaves)
{
  for (int i = 0; i < leaves; i++) { auto& r = scripts[i]->r; int s = NF; for (size_t k = 0; k < r.size() && s == NF; k++) s = r[k]; if (s != OK) return BAD; } return OK;
}
static int expectedExecs(int i) { auto& r = scripts[i]->r; for (size_t k = 0; k < r.size(); k++) if (r[k] != NF) return (int)k + 1; return (int)r.size(); }
static void run(bool cli)
{
  vp_threads(0, 0, 0); vp_race_off(); int usage = vp::choose("arguments", 3); /* 1: no file, 2: help */ static const char* names[] = {"good", "none", "noparse", "nosetup"}; int k = vp::choose("file", 4); int leaves = usage || k ? 1 : 1 + vp::choose("leaves", 2); bool validate = cli && vp::flag("validate");
  world(leaves); for (auto& s : scripts) { for (int q = 0; q < kTicks; q++) s->at((size_t)q); int last = vp::below("ok", 2) ? OK : BAD; s->r.push_back(last); }
  std::vector<std::string> a{"oac-tree"}; if (usage != 1) { a.push_back(vp::flag("long") ? "--file" : "-f"); a.push_back(names[k]); } if (validate) a.push_back(vp::flag("long") ? "--validate" : "-V"); if (usage == 2) a.push_back("--help"); static const char* lv[] = {"", "INFO", "ERROR", "TRACE", "xx"}; int l = vp::choose("level", 5); if (l) { a.push_back("-v"); a.push_back(lv[l]); }
  std::vector<char*> v; for (auto& s : a) v.push_back(s.data()); v.push_back(nullptr); auto& out = std::vp_cout.m_buf; out.clear(); int rc = cli ? cli_main((int)a.size(), v.data()) : daemon_main((int)a.size(), v.data());
  CHECK(vp_threads_alive() == 1, "no thread is left"); int total = execs[0] + execs[1]; if (usage) { CHECK(total == 0 && out == "usage", "wrong use shows the usage and executes nothing"); vp_reach("usage"); return; }
  CHECK((rc != 0) == (k != 0), "exactly a procedure that cannot be loaded is an error"); if (k) { CHECK(total == 0, "nothing is executed unless the procedure is set up"); vp_reach("notloaded"); return; }
  if (validate) { CHECK(total == 0 && out.find("Procedure ended") == std::string::npos, "validation executes nothing"); vp_reach("validated"); return; }
  int want = outcome(leaves); for (int i = 0; i < leaves; i++) { bool reached = i == 0; if (i == 1) { auto& r = scripts[0]->r; int s = NF; for (size_t q = 0; q < r.size() && s == NF; q++) s = r[q]; reached = s == OK; } CHECK(execs[i] == (reached ? expectedExecs(i) : 0), "the procedure is executed to its end"); }
  if (cli) CHECK(out.find(std::string("Procedure ended with state: ") + ToString(want == OK ? JobState::kSucceeded : JobState::kFailed) + "\n") != std::string::npos, "the final state is reported"); vp_reach(want == OK ? "succeeded" : "failed");
}
HARNESS(h_cli) { run(true); }
HARNESS(h_daemon) { run(false); }
HARNESS(h_cli_schedules)
{
  vp_threads(kP, 0, 0); vp_set_timeouts(0); { VpQuiet q; world(2); scripts[0]->r = {NF, OK}; scripts[1]->r = {vp::flag("ok") ? OK : BAD}; } std::string a[] = {"oac-tree", "-f", "good"}; std::vector<char*> v; for (auto& s : a) v.push_back(s.data()); v.push_back(nullptr); auto& out = std::vp_cout.m_buf; out.clear(); int rc = cli_main(3, v.data()); CHECK(rc == 0 && execs[0] == 2 && execs[1] == 1, "the procedure is executed to its end"); CHECK(out.find(ToString(scripts[1]->r[0] == OK ? JobState::kSucceeded : JobState::kFailed)) != std::string::npos, "the final state is reported"); CHECK(vp_threads_alive() == 1, "no thread is left"); vp_reach("done");
}
HARNESS(h_daemon_ui)
{
  std::vector<std::pair<int, std::string>> got; int max = vp::choose("severity", 9); DaemonInterface d(sup::log::DefaultLogger(sup::log::BasicLogger([&](int s, const std::string&, const std::string& m) { got.push_back({s, m}); }, "d", max))); int s = vp::choose("level", 11) - 1; auto m = vp::str("text", 0, 2); d.Log(s, m); bool in = s >= 0 && s <= 8 && s <= max; CHECK(got.size() == (in ? 1u : 0u), "exactly the messages at least as severe as asked for are logged"); if (in) { CHECK(got[0].first == s && got[0].second == m, "a logged message keeps its text and severity"); vp_reach("logged"); } else vp_reach("silent");
  got.clear(); d.Message(m); CHECK(got.size() == (max >= 6 ? 1u : 0u) && (got.empty() || got[0].second == m), "messages are informational"); auto r = GetBlockingUserChoice(d, {"a"}, sup::dto::AnyValue()); CHECK(!r.first && r.second == -1, "a daemon never answers"); CHECK(!GetBlockingUserValue(d, sup::dto::AnyValue(sup::dto::int32(1)), "").first, "a daemon never answers"); vp_reach("unsupported");
}

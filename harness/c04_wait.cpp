// @entry h_finished reach=before,waited,other time=100
// @entry h_state reach=reached,expired,passed time=100
// @entry h_two_waiters reach=done time=100
// @entry h_runner reach=done time=100
// @bound waiting: sequences of at most 3 reported states over all seven, every schedule with at most 3 preemptions and 1 spurious wake-up, one reporter, one or two waiters
// @assume a wait has to see a state that lasts; one that is left again before the waiter runs may be missed
#include <oac.h>
#include <rt_threads.h>
#include <thread>
#include <sup/oac-tree/application_utils.h>
using namespace oac;
static JobState J(int v) { return static_cast<JobState>(v); }
static bool fin(int v) { return v >= 4; }
HARNESS(h_finished)
{
  vp_threads(3, 1, 0); utils::SimpleJobStateMonitor m; int s[3], n = 1 + vp::choose("reports", 3); for (int i = 0; i < n; i++) s[i] = vp::choose("state", 7); vp_assume(fin(s[n - 1])); int seen = 0; CHECK(m.GetCurrentState() == JobState::kInitial, "a job starts as initial");
  std::thread t([&] { for (int i = 0; i < n; i++) { m.OnStateChange(J(s[i])); VpQuiet q; ++seen; } });
  auto r = m.WaitForFinished(); bool was = false; { VpQuiet q; for (int i = 0; i < n; i++) was = was || (fin(s[i]) && (int)r == s[i]); } CHECK(IsFinishedJobState(r) && was, "waiting for the end returns the final state that was reported"); if (seen < n) vp_reach("before"); else vp_reach("waited"); if (n > 1 && !fin(s[0])) vp_reach("other"); t.join(); CHECK((int)m.GetCurrentState() == s[n - 1], "the current state is the last one reported");
}
HARNESS(h_state)
{
  vp_threads(3, 1, 0); vp_set_timeouts(1); utils::SimpleJobStateMonitor m; int s[2], n = 1 + vp::choose("reports", 2); for (int i = 0; i < n; i++) s[i] = vp::choose("state", 7); int want = vp::choose("wanted", 7); bool endless = vp::flag("endless"); int done = 0;
  if (endless) { vp_assume(s[n - 1] == want); vp_set_timeouts(0); } // the time-out then only fires if nothing else can happen
  std::thread t([&] { for (int i = 0; i < n; i++) { m.OnStateChange(J(s[i])); VpQuiet q; ++done; } });
  int64_t t0 = vp_now(); bool r = m.WaitForState(J(want), endless ? 1e6 : 0.5); bool ever = want == 0; for (int i = 0; i < n; i++) ever = ever || s[i] == want;
  if (endless) CHECK(r && vp_now() - t0 < 1000000000, "a lasting state ends the wait at once"); if (r) { CHECK(ever, "waiting succeeds only for a state that was reported"); vp_reach("reached"); } else { CHECK(vp_now() - t0 >= (endless ? (int64_t)1e15 : 500000000), "waiting fails only when the time is over"); vp_reach(ever ? "passed" : "expired"); }
  t.join();
}
HARNESS(h_two_waiters)
{
  vp_threads(3, 0, 0); vp_set_timeouts(0); utils::SimpleJobStateMonitor m; bool r = false; JobState e = JobState::kInitial;
  std::thread a([&] { e = m.WaitForFinished(); }), b([&] { r = m.WaitForState(JobState::kPaused, 1e6); });
  m.OnStateChange(JobState::kPaused); vp_set_preemptions(0); vp_set_timeouts(1); int64_t t0 = vp_now(); b.join(); CHECK(r && vp_now() - t0 < 1000000000, "every waiter whose state is reported goes on"); m.OnStateChange(JobState::kHalted); a.join(); CHECK(e == JobState::kHalted, "every waiter whose state is reported goes on"); vp_reach("done");
}
HARNESS(h_runner)
{ // with a real job
  vp_threads(2, 0, 0); vp_set_timeouts(0); utils::SimpleJobStateMonitor m; Ui ui; Procedure p; auto sc = std::make_shared<Script>(); sc->r = {vp::flag("ok") ? OK : BAD}; p.PushInstruction(std::make_unique<Leaf>(sc)); std::string err = "x"; auto run = utils::CreateAsyncRunner(p, ui, m, err); CHECK(run && err.empty(), "a job is created"); run->Start(); auto r = m.WaitForFinished(); CHECK((int)r == (sc->r[0] == OK ? 4 : 5), "the end of the job is seen");
  Procedure none; std::string err2; auto bad = utils::CreateAsyncRunner(none, ui, m, err2); CHECK(!bad && !err2.empty(), "a procedure that cannot be set up gives a message instead of a job"); vp_reach("done");
}

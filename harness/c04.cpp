// @repo runner/job_states.cpp
// @entry h_jobstate reach=known,unknown time=30
// @bound every 32-bit value of the job state
#include <vp.h>
#include <sup/oac-tree/job_states.h>
using namespace sup::oac_tree;
static const char* kName[] = {"Initial", "Paused", "Stepping", "Running", "Success", "Failure", "Halted"};
HARNESS(h_jobstate)
{
  int v = vp::any<int>("state"), w = vp::any<int>("other"); auto s = static_cast<JobState>(v);
  CHECK((int)JobState::kInitial == 0 && (int)JobState::kPaused == 1 && (int)JobState::kStepping == 2 && (int)JobState::kRunning == 3 && (int)JobState::kSucceeded == 4 && (int)JobState::kFailed == 5 && (int)JobState::kHalted == 6, "the numbering of the job states is fixed");
  bool fin = IsFinishedJobState(s);
  CHECK(fin == ((v == 4) | (v == 5) | (v == 6)), "exactly success, failure and halted are terminal");
  std::string n = ToString(s);
  if (v >= 0 && v < 7) { vp_reach("known"); CHECK(n == kName[vp_concretize((uint64_t)v)], "a job state has its display name"); }
  else
  {
    vp_reach("unknown"); CHECK(!n.empty(), "an unknown job state has a name"); for (auto k : kName) CHECK(n != k, "an unknown job state is not named as a known one");
    if (w < 0 || w > 6) CHECK(ToString(static_cast<JobState>(w)) == n, "all unknown job states are reported alike");
  }
  CHECK(ToString(s) == n && IsFinishedJobState(s) == fin, "the answers are fixed");
}

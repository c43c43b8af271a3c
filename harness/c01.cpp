// @repo procedure/execution_status.cpp
// @entry h_status reach=known,unknown time=30
// @bound every 32-bit value of the status (all 2^32), one call of each predicate
#include <vp.h>
#include <sup/oac-tree/execution_status.h>
using namespace sup::oac_tree;
static const char* kName[] = {"Not started", "Not finished", "Running", "Success", "Failure"};
HARNESS(h_status)
{
  int v = vp::any<int>("status"), w = vp::any<int>("other");
  auto s = static_cast<ExecutionStatus>(v);
  CHECK(static_cast<int>(ExecutionStatus::NOT_STARTED) == 0 && static_cast<int>(ExecutionStatus::NOT_FINISHED) == 1 && static_cast<int>(ExecutionStatus::RUNNING) == 2
        && static_cast<int>(ExecutionStatus::SUCCESS) == 3 && static_cast<int>(ExecutionStatus::FAILURE) == 4, "the numbering of the statuses is fixed");
  bool fin = IsFinishedStatus(s), need = NeedsExecute(s), ready = ReadyForExecute(s), exec = IsExecutingStatus(s);
  CHECK(fin == ((v == 3) | (v == 4)), "finished holds for success and failure only");
  CHECK(need == !fin, "needs execution is the negation of finished");
  CHECK(ready == ((v == 0) | (v == 1)), "ready holds for not-started and not-finished only");
  CHECK(exec == ((v == 1) | (v == 2)), "executing holds for not-finished and running only");
  std::string name = StatusToString(s);
  if (v >= 0 && v < 5)
  {
    vp_reach("known");
    int k = (int)vp_concretize((uint64_t)v);
    CHECK(name == kName[k], "a known status has its display name");
  }
  else
  {
    vp_reach("unknown");
    CHECK(!name.empty(), "an unknown status has a name");
    for (auto n : kName) CHECK(name != n, "an unknown status is not named as a known one");
    if (w < 0 || w > 4) CHECK(StatusToString(static_cast<ExecutionStatus>(w)) == name, "all unknown statuses are reported alike");
  }
  CHECK(StatusToString(s) == name, "the name is fixed");
  CHECK(IsFinishedStatus(s) == fin && NeedsExecute(s) == need && ReadyForExecute(s) == ready && IsExecutingStatus(s) == exec, "the predicates are fixed");
}

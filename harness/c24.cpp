// @entry h_one reach=ready,waited time=100
// @entry h_two reach=done time=150
// @entry h_cancel reach=queued,current,done,kept time=200
// @entry h_destroy reach=idle,busy time=100
// @entry h_destroy_waiting reach=interrupted time=60
// @entry h_history reach=read,cancelled,refused time=150
// @entry h_requesters reach=done time=200
// @entry h_unsupported reach=done time=30
// @entry h_many reach=done time=100
// @bound h_many: 300 requests in one schedule; schedules with at most 3 (thorough 4) preemptions, one input thread, one or two requesters with one or two requests; sequential histories of 5 (thorough 6) operations on up to 3 requests
// @assume shims stand in for sup-dto; the input function is scripted: it answers, or waits until it is interrupted
#include <oac.h>
#include <rt_threads.h>
#include <sup/oac-tree/async_input_adapter.h>
#include <thread>
using namespace oac;
#ifdef VP_THOROUGH
static const int kP = 4, kOps = 6;
#else
static const int kP = 3, kOps = 5;
#endif
static UserInputRequest req(int k) { return CreateUserValueRequest(sup::dto::AnyValue(sup::dto::int32(0)), std::string(1, (char)('a' + k))); }
static int answer(const UserInputReply& r) { auto p = ParseUserValueReply(r); return p.first ? (int)p.second.As<sup::dto::int32>() : -1; }
struct Input
{
  int busy = 0, calls = 0; std::vector<char> served; std::vector<uint64_t> ids, interrupts; int block = -1; int go = 0; bool open = true;
  UserInputReply operator()(const UserInputRequest& r, uint64_t id)
  {
    int k; bool wait; { VpQuiet q; CHECK(open, "nothing is asked after the end"); CHECK(busy == 0, "one request is served at a time"); ++busy; k = calls++; served.push_back(r.m_meta_data.As<std::string>()[0]); ids.push_back(id); wait = block == served[(size_t)k] - 'a'; for (auto x : interrupts) if (x == id) wait = false; }
    if (wait) vp_wait_flag(&go);
    VpQuiet q; --busy; return CreateUserValueReply(true, sup::dto::AnyValue(sup::dto::int32(served[(size_t)k])));
  }
  void interrupt(uint64_t id) { VpQuiet q; CHECK(!ids.empty() && ids.back() == id, "only the request being served is interrupted"); interrupts.push_back(id); go = 1; }
};
struct A
{
  Input in; std::unique_ptr<AsyncInputAdapter> a;
  A() { a = std::make_unique<AsyncInputAdapter>([this](const UserInputRequest& r, uint64_t id) { return in(r, id); }, [this](uint64_t id) { in.interrupt(id); }); }
  std::unique_ptr<IUserInputFuture> ask(int k) { auto f = a->AddUserInputRequest(req(k)); CHECK(f && f->IsValid() && f->GetId() != 0, "a request gets a valid handle"); return f; }
  void end() { a.reset(); CHECK(vp_threads_alive() == 1, "the input thread has ended"); VpQuiet q; in.open = false; }
};
static bool refused(IUserInputFuture& f) { try { f.GetValue(); } catch (const InvalidOperationException&) { return true; } return false; }
#define SCHED(p) vp_threads(p, 1, 0); vp_set_timeouts(0)
HARNESS(h_one)
{
  SCHED(kP); A x; auto f = x.ask(0); bool r = f->IsReady(); if (r) vp_reach("ready"); else { CHECK(f->WaitFor(1e6), "waiting ends when the answer has come"); vp_reach("waited"); } CHECK(f->IsReady(), "an answer that has come stays"); CHECK(answer(f->GetValue()) == 'a', "the answer belongs to the request"); CHECK(!f->IsValid() && !f->IsReady() && !f->WaitFor(1) && refused(*f), "an answer is read once"); x.end();
}
HARNESS(h_two)
{
  SCHED(kP); A x; auto f = x.ask(0), g = x.ask(1); CHECK(f->GetId() != g->GetId(), "handles differ"); bool order = vp::flag("order"); IUserInputFuture &p = order ? *f : *g, &q = order ? *g : *f; CHECK(p.WaitFor(1e6) && answer(p.GetValue()) == (order ? 'a' : 'b'), "the answer belongs to the request"); CHECK(q.WaitFor(1e6) && answer(q.GetValue()) == (order ? 'b' : 'a'), "the answer belongs to the request"); { VpQuiet z; CHECK(x.in.served.size() == 2 && x.in.served[0] == 'a', "requests are served in order"); } x.end(); vp_reach("done");
}
HARNESS(h_cancel)
{ // the first or the second of two requests is cancelled while they are queued, being served or answered
  SCHED(kP); A x; bool first = vp::flag("first"); x.in.block = vp::flag("blocking") ? 0 : -1; auto f = x.ask(0), g = x.ask(1); if (x.in.block == 0 && !first) { VpQuiet q; x.in.block = -1; x.in.go = 1; }
  (first ? f : g).reset(); int calls, ints; { VpQuiet q; calls = (int)x.in.calls; ints = (int)x.in.interrupts.size(); } if (calls == 0) vp_reach("queued"); if (ints) vp_reach("current"); else if (calls == 2) vp_reach("done");
  auto& o = first ? g : f; CHECK(o->WaitFor(1e6), "the other request is answered"); CHECK(answer(o->GetValue()) == (first ? 'b' : 'a'), "the answer belongs to the request"); vp_reach("kept"); x.end();
}
HARNESS(h_destroy)
{
  SCHED(kP); A x; x.in.block = vp::flag("blocking") ? 0 : -1; { auto f = x.ask(0); if (vp::flag("look")) f->IsReady(); VpQuiet q; if (x.in.calls) vp_reach("busy"); else vp_reach("idle"); } x.end();
}
HARNESS(h_destroy_waiting)
{ // the adapter goes away while a request is being served (its requester is gone or keeps a used handle)
  SCHED(kP); A x; x.in.block = 0; auto f = x.ask(0); vp_drain(); CHECK(x.in.calls == 1, "the request is being served"); auto* raw = f.release(); x.end(); CHECK(x.in.interrupts.size() == 1, "the request being served is interrupted"); (void)raw; vp_reach("interrupted"); operator delete(raw);
}
HARNESS(h_history)
{ // sequential histories: everything that can be served is served between the operations
  vp_threads(0, 0, 0); vp_fixed_order(1); vp_race_off(); A x; struct R { std::unique_ptr<IUserInputFuture> f; bool dropped, read; }; std::vector<R> r; size_t blocked = (size_t)vp::choose("blocked", 3); bool blocking = false; x.in.block = (int)blocked; size_t served = 0; // served: requests the input function has seen
  auto settle = [&] { vp_drain(); for (;;) { size_t k = served; while (k < r.size() && r[k].dropped) ++k; (void)k; break; } };
  for (int op = 0; op < kOps; op++)
  {
    switch (vp::choose("op", 3))
    {
    case 0: if (r.size() < 3) { r.push_back({x.ask((int)r.size()), false, false}); settle(); } break;
    case 1: if (!r.empty()) { size_t i = (size_t)vp::choose("which", (int)r.size()); if (!r[i].f) break; bool rd = r[i].f->IsReady(); if (rd) { CHECK(!r[i].read, "an answer is read once"); CHECK(answer(r[i].f->GetValue()) == 'a' + (int)i, "the answer belongs to the request"); r[i].read = true; vp_reach("read"); } else { CHECK(refused(*r[i].f), "there is nothing to read"); vp_reach("refused"); } } break;
    default: if (!r.empty()) { size_t i = (size_t)vp::choose("which", (int)r.size()); if (r[i].f) { r[i].f.reset(); r[i].dropped = true; vp_reach("cancelled"); settle(); } }
    }
    // a request is ready iff it has been served and was not read or cancelled; all up to the blocked one are served
    blocking = x.in.busy != 0; for (size_t i = 0; i < r.size(); i++) if (r[i].f && !r[i].read) { bool s = false, last = false; for (size_t k = 0; k < x.in.served.size(); k++) if (x.in.served[k] == 'a' + (int)i) { s = true; last = k + 1 == x.in.served.size(); } CHECK(r[i].f->IsReady() == (s && !(blocking && last)), "a request is ready once it has been served"); if (!blocking) CHECK(s, "every request that is not cancelled is served"); }
    for (size_t k = 1; k < x.in.served.size(); k++) CHECK(x.in.served[k] > x.in.served[k - 1], "requests are served in order, each once");
  }
  for (auto& e : r) e.f.reset(); x.end();
}
HARNESS(h_requesters)
{ // two requesters in their own threads
  SCHED(kP - 1); vp_set_timeouts(2); vp_late_timeouts(1); int64_t t0 = vp_now(); A x; int ra = 0; std::thread t([&] { auto f = x.ask(0); CHECK(f->WaitFor(1e6), "waiting ends when the answer has come"); ra = answer(f->GetValue()); }); auto g = x.ask(1); CHECK(g->WaitFor(1e6), "waiting ends when the answer has come"); CHECK(answer(g->GetValue()) == 'b', "the answer belongs to the request"); t.join(); CHECK(ra == 'a', "the answer belongs to the request"); CHECK(vp_now() - t0 < 1000000000, "a requester goes on as soon as its answer has come"); x.end(); vp_reach("done");
}
HARNESS(h_unsupported)
{
  Ui ui; DefaultUserInterface d; UnsupportedInputFuture f; CHECK(!f.IsValid() && f.GetId() == 0 && !f.IsReady() && !f.WaitFor(1.0) && refused(f), "an unsupported request is never answered"); auto g = ui.RequestUserInput(req(0)); CHECK(g && !g->IsValid(), "a plain user interface supports no input"); vp_reach("done");
}
HARNESS(h_many)
{ // many requests, one after the other or all at once
  vp_threads(0, 0, 0); vp_fixed_order(1); vp_race_off(); vp_max_steps(100000); vp_set_timeouts(0); A x; const int n = 300; bool once = vp::flag("at once"); std::vector<std::unique_ptr<IUserInputFuture>> f; std::vector<uint64_t> ids; int drop = vp::choose("cancelled", 3) - 1; auto one = [&](int k) { CHECK(f[(size_t)k]->WaitFor(1e6) && answer(f[(size_t)k]->GetValue()) == 'a' + k % 26, "the answer belongs to the request"); };
  for (int k = 0; k < n; k++) { f.push_back(x.ask(k % 26)); for (int o : {k - 255, k - 256, k - 128, k - 1}) if (o >= 0) CHECK(f.back()->GetId() != ids[(size_t)o], "handles differ"); ids.push_back(f.back()->GetId()); if (!once) one(k); } if (once) { int c = drop < 0 ? -1 : drop ? 299 : 43; if (c >= 0) f[(size_t)c].reset(); for (int k = n - 1; k >= 0; k--) if (k != c) one(k); } x.end(); vp_reach("done");
}

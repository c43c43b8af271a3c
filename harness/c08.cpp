// @repo base/scope_guard.cpp
// @entry h_remove reach=done time=60
// @entry h_register reach=done time=60
// @entry h_two_notifiers reach=done time=60
// @entry h_guard reach=done time=60
// @entry h_refused reach=done time=60
// @entry h_remove_two reach=done time=60
// @entry h_notify_register_remove reach=done time=60
// @entry h_churn reach=done time=60
// @bound schedules with at most 5 (thorough 6) preemptions, 2 threads beside the main one
// @assume scheduling points before every lock and thread start or join; accesses in between are checked for data races
#include <vp.h>
#include <rt_threads.h>
#include <thread>
#include <sup/oac-tree/named_callback_manager.h>
using namespace sup::oac_tree;
#ifdef VP_THOROUGH
static const int kP = 6;
#else
static const int kP = 5;
#endif
typedef NamedCallbackManager<int> Mgr;
HARNESS(h_remove)
{ // no callback of a listener after its removal has returned
  vp_threads(kP, 0, 0);
  Mgr m; int l1 = 0, l2 = 0; bool gone = false; int c1 = 0, c2 = 0, g1 = 0;
  m.RegisterCallback("a", [&](int) { CHECK(!gone, "no callback starts after the removal has returned"); c1++; }, &l1);
  m.RegisterGenericCallback([&](const std::string&, int) { CHECK(!gone, "no generic callback starts after the removal has returned"); g1++; }, &l1);
  m.RegisterCallback("a", [&](int) { c2++; }, &l2);
  std::thread a([&] { m.ExecuteCallbacks("a", 1); m.ExecuteCallbacks("a", 2); });
  bool r = m.UnregisterListener(&l1); gone = true;
  a.join();
  CHECK(r, "the listener had callbacks"); CHECK(c2 == 2, "a callback that stays is called by every notification"); CHECK(c1 <= 2 && g1 == c1, "a removed listener's callbacks run at most once per notification");
  vp_reach("done");
}
HARNESS(h_register)
{
  vp_threads(kP, 0, 0);
  Mgr m; int l1 = 0, l2 = 0; int c1 = 0, c2 = 0, c3 = 0;
  m.RegisterCallback("a", [&](int) { c1++; }, &l1);
  std::thread a([&] { m.ExecuteCallbacks("a", 1); });
  std::thread b([&] { m.RegisterGenericCallback([&](const std::string&, int) { c2++; }, &l2); m.RegisterCallback("b", [&](int) { c3++; }, &l2); });
  m.RegisterCallback("a", [&](int) { c3 += 10; }, &l2);
  a.join(); b.join();
  CHECK(c1 == 1, "a callback registered throughout is called exactly once"); CHECK(c2 <= 1 && (c3 == 0 || c3 == 10), "a callback registered meanwhile is called at most once");
  int p1 = c1, p2 = c2, p3 = c3; m.ExecuteCallbacks("b", 0); CHECK(c1 == p1 && c2 == p2 + 1 && c3 == p3 + 1, "every registration has arrived"); m.ExecuteCallbacks("a", 0); CHECK(c1 == p1 + 1 && c2 == p2 + 2 && c3 == p3 + 11, "every registration has arrived");
  vp_reach("done");
}
HARNESS(h_two_notifiers)
{
  vp_threads(kP, 0, 0);
  Mgr m; int l1 = 0; int n[3] = {0, 0, 0}, g[3] = {0, 0, 0};
  m.RegisterCallback("a", [&](int k) { n[k]++; }, &l1); m.RegisterCallback("b", [&](int k) { n[k] += 100; }, &l1); m.RegisterGenericCallback([&](const std::string&, int k) { g[k]++; }, &l1);
  std::thread a([&] { m.ExecuteCallbacks("a", 0); });
  std::thread b([&] { m.ExecuteCallbacks("b", 1); });
  m.ExecuteCallbacks("a", 2);
  a.join(); b.join();
  CHECK(n[0] == 1 && n[1] == 100 && n[2] == 1 && g[0] == 1 && g[1] == 1 && g[2] == 1, "each notification calls each matching callback exactly once");
  vp_reach("done");
}
HARNESS(h_guard)
{ // removal by a guard that goes away in another thread
  vp_threads(kP, 0, 0);
  Mgr m; int l1 = 0, l2 = 0; bool gone = false; int c1 = 0, c2 = 0;
  m.RegisterCallback("a", [&](int) { CHECK(!gone, "no callback after the guard has gone"); c1++; }, &l1); m.RegisterCallback("a", [&](int) { c2++; }, &l2);
  std::thread a([&] { { auto g = m.GetCallbackGuard(&l1); } gone = true; });
  m.ExecuteCallbacks("a", 1); m.ExecuteCallbacks("a", 1);
  a.join(); CHECK(c2 == 2 && c1 <= 2, "other listeners are unaffected"); int p = c1; m.ExecuteCallbacks("a", 1); CHECK(c1 == p && c2 == 3, "the guard has removed its listener"); vp_reach("done");
}
HARNESS(h_churn)
{ // registration and removal by two threads at once
  vp_threads(kP, 0, 0);
  Mgr m; int l[3] = {0, 0, 0}; int c[3] = {0, 0, 0}; bool r1 = false, r2 = false;
  m.RegisterCallback("a", [&](int) { c[2]++; }, &l[2]);
  std::thread a([&] { m.RegisterCallback("a", [&](int) { c[0]++; }, &l[0]); r1 = m.UnregisterListener(&l[0]); });
  std::thread b([&] { m.RegisterCallback("a", [&](int) { c[1]++; }, &l[1]); r2 = m.UnregisterListener(&l[1]); });
  m.ExecuteCallbacks("a", 1);
  a.join(); b.join();
  CHECK(r1 && r2, "each removal finds its own registration"); CHECK(c[2] == 1 && c[0] <= 1 && c[1] <= 1, "each is called at most once"); m.ExecuteCallbacks("a", 1); CHECK(c[2] == 2 && c[0] <= 1 && c[1] <= 1, "removed callbacks stay removed"); vp_reach("done");
}
HARNESS(h_refused)
{ // removing a listener without callbacks and refused registrations, beside a notification
  vp_threads(kP, 0, 0);
  Mgr m; int l1 = 0, l2 = 0, c = 0; m.RegisterCallback("a", [&](int) { c++; }, &l1); bool r = true, e = true; std::thread a([&] { m.ExecuteCallbacks("a", 1); }), b([&] { r = m.UnregisterListener(&l2); e = m.RegisterCallback("a", {}, &l2); }); m.ExecuteCallbacks("a", 2); a.join(); b.join(); CHECK(!r && !e && c == 2, "nothing is removed or added"); vp_reach("done");
}
HARNESS(h_remove_two)
{ // two threads remove two listeners, or both the same
  vp_threads(kP, 0, 0);
  Mgr m; int l1 = 0, l2 = 0, c1 = 0, c2 = 0; bool same = vp::flag("same"); m.RegisterCallback("a", [&](int) { c1++; }, &l1); m.RegisterGenericCallback([&](const std::string&, int) { c2++; }, same ? &l1 : &l2); bool r1 = false, r2 = false; std::thread a([&] { r1 = m.UnregisterListener(&l1); }), b([&] { r2 = m.UnregisterListener(same ? &l1 : &l2); }); m.ExecuteCallbacks("a", 1); a.join(); b.join(); CHECK(same ? r1 != r2 : r1 && r2, "each callback is removed once"); CHECK(c1 <= 1 && c2 <= 1, "each is called at most once"); int p1 = c1, p2 = c2; m.ExecuteCallbacks("a", 1); CHECK(c1 == p1 && c2 == p2, "removed callbacks stay removed"); vp_reach("done");
}
HARNESS(h_notify_register_remove)
{ // many callbacks, so that storage moves while a notification is under way
  vp_threads(kP, 0, 0);
  Mgr m; int l[4] = {0, 0, 0, 0}, c[4] = {0, 0, 0, 0}; bool gone = false; m.RegisterCallback("a", [&](int) { c[0]++; }, &l[0]); m.RegisterCallback("a", [&](int) { CHECK(!gone, "no callback starts after the removal has returned"); c[1]++; }, &l[1]); std::thread a([&] { m.ExecuteCallbacks("a", 1); }), b([&] { m.RegisterCallback("a", [&](int) { c[2]++; }, &l[2]); m.RegisterCallback("a", [&](int) { c[3]++; }, &l[3]); }); CHECK(m.UnregisterListener(&l[1]), "the listener had callbacks"); { VpQuiet q; gone = true; } a.join(); b.join(); CHECK(c[0] == 1 && c[1] <= 1 && c[2] <= 1 && c[3] <= 1, "each is called at most once, those that stay exactly once"); m.ExecuteCallbacks("a", 1); CHECK(c[0] == 2 && c[2] >= 1 && c[3] >= 1, "every registration has arrived"); vp_reach("done");
}

// @entry h_value_request reach=valid time=60
// @entry h_choice_request reach=none,some time=100
// @entry h_bad_request reach=refused,accepted time=100
// @entry h_value_reply reach=valid,failed time=60
// @entry h_choice_reply reach=valid,failed time=60
// @entry h_bad_reply reach=refused,accepted time=60
// @entry h_equal reach=same,different time=60
// @entry h_ask reach=value,choice,unsupported,failed time=100
// @entry h_ask_later reach=answered time=60
// @entry h_interruptable reach=answered,halted time=60
// @entry h_meta reach=valid,invalid time=100
// @entry h_default reach=done time=30
// @bound h_value_request: every value of 8 types with symbolic content and every description of up to 3 (thorough 5) characters; h_choice_request: up to 3 (thorough 4) options of up to 2 characters, all 256 byte values; replies: every 32-bit choice, every kind number; h_bad_*: any two of the listed corruptions; h_meta: any of 3 types (or none) for each of 6 fields
// @assume shims stand in for sup-dto
#include <oac.h>
#include <sup/oac-tree/user_input_request.h>
#include <sup/oac-tree/user_input_reply.h>
#include <sup/oac-tree/i_user_input_future.h>
#include <sup/oac-tree/user_interface.h>
#include <sup/oac-tree/constants.h>
#include <sup/dto/anyvalue_helper.h>
using namespace oac;
namespace dto = sup::dto;
using dto::AnyValue;
#ifdef VP_THOROUGH
static const int kLen = 5, kOpt = 4;
#else
static const int kLen = 3, kOpt = 3;
#endif
static AnyValue anyVal()
{
  switch (vp::choose("value kind", 8))
  {
    case 0: return AnyValue(); case 1: return AnyValue(dto::boolean(vp::flag("b"))); case 2: return AnyValue(vp::any<int8_t>("i8")); case 3: return AnyValue(dto::int32(vp::any<int32_t>("i32"))); case 4: return AnyValue(dto::uint64(vp::any<uint64_t>("u64"))); case 5: return AnyValue(vp::str("s", 0, kLen));
    case 6: return AnyValue({{"a", AnyValue(dto::int32(vp::any<int32_t>("a")))}, {"b", AnyValue(vp::str("s", 0, 1))}}, "T"); default: { AnyValue v((size_t)2, dto::SignedInteger32Type); v[0] = AnyValue(dto::int32(vp::any<int32_t>("e"))); return v; }
  }
}
HARNESS(h_value_request)
{
  AnyValue v = anyVal(); auto d = vp::str("description", 0, kLen); auto r = CreateUserValueRequest(v, d); CHECK(r.m_request_type == InputRequestType::kUserValue && r.m_input_type == v.GetType(), "a value request asks for a value of its type"); AnyValue w; std::string e = "old"; CHECK(ParseUserValueRequest(r, w, e), "a value request is read back"); CHECK(w.GetType() == v.GetType() && w == AnyValue(v.GetType()), "the read request asks for the same type"); CHECK(e == d, "the description is kept"); vp_reach("valid");
  std::vector<std::string> o{"keep"}; AnyValue m; CHECK(!ParseUserChoiceRequest(r, o, m) && o.size() == 1 && o[0] == "keep" && dto::IsEmptyValue(m), "a value request is no choice request");
}
static std::vector<std::string> options() { std::vector<std::string> o; int n = vp::choose("options", kOpt + 1); for (int i = 0; i < n; i++) o.push_back(vp::str("option", 0, 2)); return o; }
HARNESS(h_choice_request)
{
  auto o = options(); AnyValue meta = anyVal(); auto r = CreateUserChoiceRequest(o, meta); CHECK(r.m_request_type == InputRequestType::kUserChoice && r.m_input_type == dto::SignedInteger32Type, "a choice request asks for a choice"); std::vector<std::string> p{"old"}; AnyValue m; CHECK(ParseUserChoiceRequest(r, p, m), "a choice request is read back"); CHECK(p == o, "the options are kept in order"); CHECK(m == meta, "the metadata are kept"); vp_reach(o.empty() ? "none" : "some");
  AnyValue w; std::string e = "old"; CHECK(!ParseUserValueRequest(r, w, e) && dto::IsEmptyValue(w) && e == "old", "a choice request is no value request");
}
HARNESS(h_bad_request)
{ // corrupted requests, one or two fields
  bool choice = vp::flag("choice"); auto r = choice ? CreateUserChoiceRequest({"a", "b"}, CreateUserChoiceMetadata()) : CreateUserValueRequest(AnyValue(dto::int32(1)), "d"); int d1 = vp::choose("defect", 8), d2 = vp::choose("second", 8); auto has = [&](int d) { return d1 == d || d2 == d; }; bool bad = false; auto kind = r.m_request_type;
  if (has(1)) { kind = (InputRequestType)vp::any<uint32_t>("kind"); r.m_request_type = kind; bad = bad || kind != (choice ? InputRequestType::kUserChoice : InputRequestType::kUserValue); }
  if (has(2)) { r.m_meta_data = AnyValue(dto::int32(3)); bad = true; } if (has(3)) { r.m_meta_data = AnyValue(); bad = true; }
  if (choice && !has(2) && !has(3)) { AnyValue o((size_t)1, dto::StringType), x((size_t)1, dto::SignedInteger32Type); if (has(4)) r.m_meta_data = AnyValue({{Constants::kInputRequestOptionsFieldName, o}}); else if (has(5)) r.m_meta_data = AnyValue({{Constants::kInputRequestMetadataFieldName, AnyValue(dto::int32(0))}}); else if (has(6)) r.m_meta_data = AnyValue({{Constants::kInputRequestOptionsFieldName, x}, {Constants::kInputRequestMetadataFieldName, AnyValue(dto::int32(0))}}); else if (has(7)) r.m_meta_data = AnyValue({{Constants::kInputRequestOptionsFieldName, AnyValue(std::string("a"))}, {Constants::kInputRequestMetadataFieldName, AnyValue(dto::int32(0))}}); bad = bad || has(4) || has(5) || has(6) || has(7); }
  std::vector<std::string> o{"keep"}; AnyValue m, v; std::string e = "old"; bool ok = choice ? ParseUserChoiceRequest(r, o, m) : ParseUserValueRequest(r, v, e); CHECK(ok == !bad, "exactly the well-formed requests are read"); if (!ok) CHECK(o.size() == 1 && o[0] == "keep" && e == "old" && dto::IsEmptyValue(m) && dto::IsEmptyValue(v), "a malformed request yields nothing"); vp_reach(ok ? "accepted" : "refused");
}
HARNESS(h_value_reply)
{
  AnyValue v = anyVal(); bool ok = vp::flag("result"); auto r = CreateUserValueReply(ok, v); CHECK(r.m_request_type == InputRequestType::kUserValue && r.m_result == ok && r.m_payload == v, "a value reply has its result and value"); auto [good, w] = ParseUserValueReply(r); CHECK(good == ok, "the success flag is kept"); CHECK(good ? w == v && w.GetType() == v.GetType() : dto::IsEmptyValue(w), "a successful reply has the value, a failed one none"); vp_reach(ok ? "valid" : "failed"); auto [c, n] = ParseUserChoiceReply(r); CHECK(!c && n == -1, "a value reply is no choice reply");
}
HARNESS(h_choice_reply)
{
  auto k = vp::any<int32_t>("choice"); bool ok = vp::flag("result"); auto r = CreateUserChoiceReply(ok, k); CHECK(r.m_request_type == InputRequestType::kUserChoice && r.m_result == ok, "a choice reply has its result"); auto [good, n] = ParseUserChoiceReply(r); CHECK(good == ok && n == (ok ? k : -1), "a successful reply has the choice, a failed one none"); vp_reach(ok ? "valid" : "failed"); auto [c, w] = ParseUserValueReply(r); CHECK(!c && dto::IsEmptyValue(w), "a choice reply is no value reply");
}
HARNESS(h_bad_reply)
{
  UserInputReply r{(InputRequestType)vp::any<uint32_t>("kind"), vp::flag("result"), anyVal()}; auto [vok, v] = ParseUserValueReply(r); auto [cok, c] = ParseUserChoiceReply(r); CHECK(vok == (r.m_result && r.m_request_type == InputRequestType::kUserValue), "exactly the successful value replies have a value"); CHECK(cok == (r.m_result && r.m_request_type == InputRequestType::kUserChoice && r.m_payload.GetType() == dto::SignedInteger32Type), "exactly the successful choice replies have a choice"); CHECK(vok ? v == r.m_payload : dto::IsEmptyValue(v), "no value is made up"); CHECK(c == (cok ? r.m_payload.As<int>() : -1), "no choice is made up"); vp_reach(vok || cok ? "accepted" : "refused");
}
HARNESS(h_equal)
{
  auto t1 = vp::any<uint32_t>("kind"), t2 = vp::any<uint32_t>("kind"); bool b1 = vp::flag("result"), b2 = vp::flag("result"); auto x = vp::any<int32_t>("payload"), y = vp::any<int32_t>("payload"); bool wide = vp::flag("wide"); UserInputReply a{(InputRequestType)t1, b1, AnyValue(dto::int32(x))}, b{(InputRequestType)t2, b2, wide ? AnyValue(std::string("p")) : AnyValue(dto::int32(y))}; bool same = t1 == t2 && b1 == b2 && !wide && x == y; CHECK((a == b) == same && (a != b) == !same, "replies are equal exactly when kind, result and payload are"); vp_reach(same ? "same" : "different");
  UserInputRequest p{(InputRequestType)t1, AnyValue(dto::int32(x)), dto::SignedInteger32Type}, q{(InputRequestType)t2, AnyValue(dto::int32(y)), wide ? dto::StringType : dto::SignedInteger32Type}; same = t1 == t2 && x == y && !wide; CHECK((p == q) == same && (p != q) == !same, "requests are equal exactly when kind, description and type are"); CHECK(kInvalidUserInputRequest != CreateUserValueRequest(AnyValue(), "") && kInvalidUserInputReply.m_request_type == InputRequestType::kInvalid && !kInvalidUserInputReply.m_result, "the invalid request is none of the valid ones");
}
HARNESS(h_ask)
{ // blocking requests
  InUi u; u.supported = vp::flag("supported"); u.ready = true; u.reply = UserInputReply{(InputRequestType)vp::below("kind", 4), vp::flag("result"), vp::flag("int") ? AnyValue(dto::int32(vp::any<int32_t>("choice"))) : AnyValue(std::string("x"))}; bool choice = vp::flag("choice");
  if (choice) { auto [ok, k] = GetBlockingUserChoice(u, {"a", "b"}, CreateUserChoiceMetadata()); auto [e, n] = ParseUserChoiceReply(u.reply); CHECK(ok == (u.supported && e) && k == (ok ? n : -1), "the answer of the user is the result"); CHECK(u.requests.size() == 1 && u.requests[0] == CreateUserChoiceRequest({"a", "b"}, CreateUserChoiceMetadata()), "the question is asked once, as given"); if (ok) vp_reach("choice"); else if (u.supported) vp_reach("failed"); }
  else { auto [ok, v] = GetBlockingUserValue(u, AnyValue(dto::int32(4)), "d"); auto [e, w] = ParseUserValueReply(u.reply); CHECK(ok == (u.supported && e) && (!ok || v == w), "the answer of the user is the result"); if (!ok) CHECK(dto::IsEmptyValue(v), "no value is made up"); CHECK(u.requests.size() == 1 && u.requests[0] == CreateUserValueRequest(AnyValue(dto::int32(4)), "d"), "the question is asked once, as given"); if (ok) vp_reach("value"); }
  CHECK(u.alive == 0 && u.reads == (u.supported ? 1 : 0), "the request is released"); if (!u.supported) { CHECK(u.logs == 1, "an unsupported request is logged"); vp_reach("unsupported"); }
  DefaultUserInterface none; auto f = none.RequestUserInput(u.requests[0]); CHECK(!f->IsValid() && !f->IsReady() && !f->WaitFor(1.0), "a user interface without input never answers"); bool thrown = false; try { f->GetValue(); } catch (const InvalidOperationException&) { thrown = true; } CHECK(thrown, "an answer that never comes is refused"); UnsupportedInputFuture x; CHECK(x.GetId() == f->GetId(), "requests without support have no identity"); CHECK(!GetBlockingUserChoice(none, {"a"}, AnyValue()).first && !GetBlockingUserValue(none, AnyValue(), "").first, "a user interface without input answers nothing");
}
struct Later : InUi { int after = 0, polls = 0; struct F : IUserInputFuture { Later& u; explicit F(Later& x) : u(x) { ++u.alive; } ~F() override { --u.alive; } sup::dto::uint64 GetId() const override { return 1; } bool IsValid() const override { return true; } bool IsReady() const override { return u.polls > u.after; } bool WaitFor(double s) const override { CHECK(s > 0 && s <= 1, "a wait is short"); ++u.polls; if (u.act) u.act(); return IsReady(); } UserInputReply GetValue() override { CHECK(IsReady(), "an answer is only read once it is there"); ++u.reads; return u.reply; } }; std::function<void()> act; std::unique_ptr<IUserInputFuture> RequestUserInput(const UserInputRequest& r) override { requests.push_back(r); return std::unique_ptr<IUserInputFuture>(new F(*this)); } };
HARNESS(h_ask_later)
{
  Later u; u.after = vp::choose("polls", 4); auto k = vp::any<int32_t>("choice"); u.reply = CreateUserChoiceReply(true, k); auto [ok, n] = GetBlockingUserChoice(u, {"a"}, AnyValue()); CHECK(ok && n == k && u.polls == u.after + 1 && u.alive == 0 && u.reads == 1, "a blocking request waits for its answer"); u.polls = 0; u.reply = CreateUserValueReply(true, AnyValue(dto::int32(k))); auto [vok, v] = GetBlockingUserValue(u, AnyValue(dto::int32(0)), ""); CHECK(vok && v.As<int>() == k && u.polls == u.after + 1 && u.alive == 0, "a blocking request waits for its answer"); vp_reach("answered");
}
HARNESS(h_interruptable)
{
  Later u; auto i = make("Succeed"); u.after = vp::choose("polls", 3); int at = vp::choose("halt", 5); u.act = [&] { if (u.polls == at) i->Halt(); }; if (at == 0) i->Halt(); auto k = vp::any<int32_t>("choice"); u.reply = CreateUserChoiceReply(true, k); auto [ok, n] = GetInterruptableUserChoice(u, *i, {"a"}, AnyValue()); bool halted = at <= u.after + 1; CHECK(ok == !halted && n == (ok ? k : -1), "an interruptable request ends with its answer or the halt"); CHECK(u.alive == 0 && u.reads == (ok ? 1 : 0) && u.polls == (halted ? at : u.after + 1), "a halt ends the waiting at once"); vp_reach(halted ? "halted" : "answered");
}
HARNESS(h_meta)
{ // metadata of a choice
  CHECK(IsUserChoiceMetadata(CreateUserChoiceMetadata()), "default metadata are valid"); AnyValue m = CreateUserChoiceMetadata(); const std::string n[] = {Constants::USER_CHOICES_TEXT_NAME, Constants::USER_CHOICES_DIALOG_TYPE_NAME, Constants::USER_CHOICES_MODAL_NAME, Constants::USER_CHOICES_TITLE_NAME, Constants::USER_CHOICES_INFORMATIVE_TEXT_NAME, Constants::USER_CHOICES_DETAILS_NAME}; bool good = true, text = false; std::string t = vp::str("text", 0, 2);
  for (int i = 0; i < 6; i++) { int k = vp::choose("field type", 4); if (k == 1) m.AddMember(n[i], AnyValue(t)); if (k == 2) m.AddMember(n[i], AnyValue(dto::uint32(1))); if (k == 3) m.AddMember(n[i], AnyValue(dto::boolean(true))); int want = i == 1 ? 2 : i == 2 ? 3 : 1; if (k && k != want) good = false; if (i == 0 && k == 1) text = true; }
  CHECK(IsUserChoiceMetadata(m) == good, "metadata are valid exactly when every known field has its type"); CHECK(GetMainTextFromMetadata(m) == (text ? t : std::string()), "the main text is that of the metadata"); vp_reach(good ? "valid" : "invalid"); CHECK(!IsUserChoiceMetadata(AnyValue(dto::int32(1))) && !IsUserChoiceMetadata(AnyValue()) && GetMainTextFromMetadata(AnyValue()).empty(), "metadata are a structure");
}
HARNESS(h_default)
{ // an interface without input and output
  DefaultUserInterface u; auto i = make("Succeed"); AnyValue v(dto::int32(vp::any<int32_t>("value"))); u.UpdateInstructionStatus(i.get()); u.VariableUpdated("v", v, true); u.Message("m"); u.Log(3, "l"); CHECK(!u.PutValue(v, "d"), "without output no value is shown"); auto before = v; auto f = u.RequestUserInput(vp::flag("choice") ? CreateUserChoiceRequest({"a"}, AnyValue()) : CreateUserValueRequest(v, "d")); CHECK(f && !f->IsValid(), "without input there is no answer to wait for");
  auto [ok, r] = GetBlockingUserValue(u, v, "d"); CHECK(!ok, "without input no value is given"); auto [cok, c] = GetBlockingUserChoice(u, {"a", "b"}, AnyValue()); CHECK(!cok && c == -1, "without input no choice is given"); auto [iok, n] = GetInterruptableUserChoice(u, *i, {"a", "b"}, AnyValue()); CHECK(!iok && n == -1, "without input no choice is given"); CHECK(!CreateUserValueFuture(u, *i, v, "d") && !CreateUserChoiceFuture(u, *i, {"a"}, AnyValue()), "without input there is no answer to wait for"); CHECK(v == before, "the value is unchanged"); vp_reach("done");
}

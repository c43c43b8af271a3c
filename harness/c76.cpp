// @entry h_choice reach=selected,refused time=200
// @entry h_choice_number reach=selected,refused time=200
// @entry h_choice_edge reach=refused time=60
// @entry h_text reach=accepted,refused time=300
// @entry h_number reach=accepted,refused time=400
// @entry h_edge reach=accepted,refused time=100
// @entry h_real reach=accepted,refused time=100
// @entry h_string reach=accepted time=60
// @entry h_refused_type reach=refused time=30
// @entry h_bad_request reach=refused time=60
// @entry h_sequence reach=done,text time=100
// @entry h_outputs reach=value,message,severe,silent time=60
// @bound h_choice: every line of up to 3 (thorough 4) characters, all 256 byte values, 0..3 options; h_choice_number: optional sign and spaces around every number of 1..3 digits and those of 9..10 digits around 2^31 and 2^32, 3 and 12 options; h_text: every line of up to 2 (thorough 3) characters, all 256 byte values, for each of 10 types; h_number: for each of 8 integer types every decimal number of 1..3 digits and all with the leading digits of its limits and the last two free (or three: one digit more), with signs; h_edge: the limits of each type and one beyond; h_real: sign, up to two digits of 0, 1, 7, 9 each side of the point; h_sequence: 3 requests (choice, number, text) with each line empty, a digit, a digit with spaces around it or a digit and more
// @assume shims stand in for sup-dto, sup-log and the C++ streams (number extraction as in num_get); one schedule of the input thread (others: C22, C24); text with a surplus sign or other forms of real numbers (exponent, inf, nan) is outside
#include <oac.h>
#include <rt_threads.h>
#include <oac-tree-cli/cl_interface.cpp>
#include <sup/oac-tree/user_input_request.h>
#include <sup/oac-tree/constants.h>
#undef cin
#undef cout
using namespace oac;
namespace dto = sup::dto;
using dto::AnyValue;
#ifdef VP_THOROUGH
static const int kLine = 4, kText = 3;
#else
static const int kLine = 3, kText = 2;
#endif
static bool sp(char c) { return (c == ' ') | ((c >= '\t') & (c <= '\r')); }
static bool dig(char c) { return (c >= '0') & (c <= '9'); }
// the text, without the spaces around it
static std::string trim(const std::string& s) { size_t a = 0, b = s.size(); while (a < b && sp(s[a])) ++a; while (b > a && sp(s[b - 1])) --b; return s.substr(a, b - a); }
struct Num { bool ok = false, neg = false; unsigned __int128 mag = 0; };
static Num num(const std::string& t)
{ // [sign] digits
  Num r; size_t i = 0; if (i < t.size() && (t[i] == '-' || t[i] == '+')) { r.neg = t[i] == '-'; ++i; } if (i >= t.size()) return r; bool all = true; for (size_t k = i; k < t.size(); k++) { all = all & dig(t[k]); r.mag = r.mag * 10 + (unsigned)(unsigned char)(t[k] - '0'); } r.ok = all; return r;
}
struct Cli
{
  std::vector<std::pair<int, std::string>> logged; std::unique_ptr<CLInterface> ui;
  explicit Cli(int severity = 8) { vp_threads(0, 0, 0); vp_race_off(); ui = std::make_unique<CLInterface>(sup::log::BasicLogger([this](int s, const std::string&, const std::string& m) { logged.push_back({s, m}); }, "cli", severity)); }
  void line(const std::string& s) { std::vp_cin.vp_set(s + "\n"); }
  std::pair<bool, int> choose(int n, const std::string& text) { std::vector<std::string> o; for (int i = 0; i < n; i++) o.push_back(std::string(1, (char)('a' + i))); line(text); return GetBlockingUserChoice(*ui, o, CreateUserChoiceMetadata()); }
  std::pair<bool, AnyValue> value(const AnyValue& v, const std::string& text) { line(text); return GetBlockingUserValue(*ui, v, "description"); }
};
static std::string digits(int n) { std::string s = vp::str("digit", n, n); for (char d : s) vp_assume(dig(d)); return s; }
static void choice(Cli& c, int n, const std::string& text)
{
  for (char x : text) vp_assume(x != '\n'); auto r = num(trim(text)); bool valid = r.ok & !r.neg & (r.mag >= 1) & (r.mag <= (unsigned)n); auto [ok, k] = c.choose(n, text); CHECK(ok == valid, "exactly the numbers of the options are accepted");
  if (ok) { CHECK((unsigned)k + 1 == (unsigned)r.mag, "the option with the typed number is selected"); vp_reach("selected"); } else { CHECK(k == -1, "nothing is selected"); CHECK(!c.logged.empty(), "a refused line is reported"); vp_reach("refused"); }
}
HARNESS(h_choice) { Cli c; int n = vp::choose("options", 4); choice(c, n, vp::str("line", 0, kLine)); }
HARNESS(h_choice_number)
{
  Cli c; static const char* pre[] = {"", "1", "21474836", "42949672"}; static const char* sign[] = {"", "+", "-"}; std::string s = vp::flag("spaces") ? "\t " : ""; s += sign[vp::choose("sign", 3)]; s += pre[vp::choose("prefix", 4)]; s += digits(1 + vp::choose("digits", 2)); if (vp::flag("space after")) s += " "; choice(c, vp::flag("many") ? 12 : 3, s);
}
HARNESS(h_choice_edge)
{
  Cli c; static const char* t[] = {"2147483647", "-2147483648", "2147483648", "-2147483649", "4294967297", "4294967298", "18446744073709551617", "0", "4"}; choice(c, 3, t[vp::choose("text", 9)]);
}
struct Ty { dto::AnyType t; int bits; bool sgn; };
static Ty ty(int k)
{
  switch (k) { case 0: return {dto::SignedInteger8Type, 8, true}; case 1: return {dto::UnsignedInteger8Type, 8, false}; case 2: return {dto::SignedInteger16Type, 16, true}; case 3: return {dto::UnsignedInteger16Type, 16, false}; case 4: return {dto::SignedInteger32Type, 32, true}; case 5: return {dto::UnsignedInteger32Type, 32, false}; case 6: return {dto::SignedInteger64Type, 64, true}; default: return {dto::UnsignedInteger64Type, 64, false}; }
}
static bool fits(const Num& r, const Ty& t) { unsigned __int128 one = 1; unsigned __int128 top = t.sgn ? (one << (t.bits - 1)) - (r.neg ? 0 : 1) : (one << t.bits) - 1; return r.ok & (t.sgn | !r.neg) & (r.mag <= top); }
static uint64_t bitsOf(const AnyValue& v, const Ty& t)
{
  switch (t.bits) { case 8: return t.sgn ? (uint64_t)(int64_t)v.As<dto::int8>() : v.As<dto::uint8>(); case 16: return t.sgn ? (uint64_t)(int64_t)v.As<dto::int16>() : v.As<dto::uint16>(); case 32: return t.sgn ? (uint64_t)(int64_t)v.As<dto::int32>() : v.As<dto::uint32>(); default: return t.sgn ? (uint64_t)v.As<dto::int64>() : v.As<dto::uint64>(); }
}
static void number(Cli& c, const Ty& t, const std::string& text)
{
  for (char x : text) vp_assume(x != '\n'); auto r = num(trim(text)); bool valid = fits(r, t); auto [ok, v] = c.value(AnyValue(t.t), text); CHECK(ok == valid, "exactly the numbers of the type are accepted");
  if (ok) { CHECK(v.GetType() == t.t, "the value has the requested type"); CHECK(bitsOf(v, t) == (r.neg ? 0 - (uint64_t)r.mag : (uint64_t)r.mag), "the value is the number typed"); vp_reach("accepted"); } else { CHECK(dto::IsEmptyValue(v), "no value is made up"); CHECK(!c.logged.empty(), "a refused line is reported"); vp_reach("refused"); }
}
HARNESS(h_text)
{
  Cli c; int k = vp::choose("type", 10); auto s = vp::str("line", 0, kText); if (k < 8) { vp_assume(!(ty(k).sgn == false && trim(s).size() > 1 && trim(s)[0] == '-' && num(trim(s)).ok && num(trim(s)).mag == 0)); number(c, ty(k), s); return; }
  for (char x : s) vp_assume(x != '\n'); auto t = trim(s);
  if (k == 8) { auto [ok, v] = c.value(AnyValue(dto::Character8Type), s); CHECK(ok == (t.size() == 1), "exactly one character is accepted"); if (ok) { CHECK(v.GetType() == dto::Character8Type && v.As<dto::char8>() == t[0], "the value is the character typed"); vp_reach("accepted"); } else { CHECK(dto::IsEmptyValue(v), "no value is made up"); vp_reach("refused"); } return; }
  static const char* words[] = {"true", "false", " true ", "truest", "false1", "tru", "true false", "1", "0"}; int w = vp::choose("word", 10); if (w < 9) s = words[w]; t = trim(s); auto [ok, v] = c.value(AnyValue(dto::BooleanType), s); bool yes = t == "true", no = t == "false"; CHECK(ok == (yes || no), "exactly true and false are accepted"); if (ok) { CHECK(v.GetType() == dto::BooleanType && v.As<dto::boolean>() == yes, "the value is the one typed"); vp_reach("accepted"); } else { CHECK(dto::IsEmptyValue(v), "no value is made up"); vp_reach("refused"); }
}
HARNESS(h_number)
{ // one to three digits, or a limit of the type with its last two digits replaced, or with one digit more
  Cli c; int k = vp::choose("type", 8); Ty t = ty(k); static const char* sign[] = {"", "+", "-"}; int sg = vp::choose("sign", 3); static const char* top[] = {"1", "2", "327", "655", "21474836", "42949672", "92233720368547758", "184467440737095516"}; int n = vp::choose("form", 3); std::string d = n == 0 ? digits(1 + vp::choose("digits", 3)) : n == 1 ? top[k] + digits(2) : top[k] + digits(3); if (!t.sgn && sg == 2) vp_assume(d[0] != '0'); static const char* before[] = {"", " ", "\t "}; int sp = n == 2 ? 0 : vp::choose("space", 3); number(c, t, before[sp] + (sign[sg] + d) + (sp == 2 ? " " : ""));
}
HARNESS(h_edge)
{
  Cli c; static const char* t[] = {"127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32768", "-32769", "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "5x", "5 6", "1.5", "-1", "0x10", "5,", "", " "}; int k = vp::choose("type", 8); number(c, ty(k), t[vp::choose("text", 32)]);
}
HARNESS(h_real)
{
  Cli c; bool f32 = vp::flag("float32"); auto few = [](int n) { std::string s; for (int i = 0; i < n; i++) s += "0179"[vp::choose("digit", 4)]; return s; }; auto a = few(1 + vp::choose("digits", 2)), b = few(vp::choose("decimals", 3)); bool neg = vp::flag("negative"), junk = vp::flag("junk"); std::string s = (neg ? "-" : "") + a + (b.empty() ? "" : "." + b) + (junk ? "m" : ""); auto [ok, v] = c.value(AnyValue(f32 ? dto::Float32Type : dto::Float64Type), s); CHECK(ok == !junk, "exactly the real numbers are accepted");
  if (!ok) { CHECK(dto::IsEmptyValue(v), "no value is made up"); vp_reach("refused"); return; } double m = 0; for (char x : a + b) m = m * 10 + (x - '0'); for (size_t i = 0; i < b.size(); i++) m /= 10; if (neg) m = -m; if (f32) { CHECK(v.GetType() == dto::Float32Type, "the value has the requested type"); float x = v.As<dto::float32>(); CHECK(x == (float)m, "the value is the number typed"); } else { CHECK(v.GetType() == dto::Float64Type, "the value has the requested type"); CHECK(v.As<dto::float64>() == m, "the value is the number typed"); } vp_reach("accepted");
}
HARNESS(h_string) { Cli c; auto s = vp::str("line", 0, kText + 1); for (char x : s) vp_assume(x != '\n'); auto [ok, v] = c.value(AnyValue(std::string("old")), s); CHECK(ok && v.GetType() == dto::StringType && v.As<std::string>() == s, "the text is the line typed"); vp_reach("accepted"); }
HARNESS(h_refused_type)
{
  Cli c; AnyValue v; switch (vp::choose("type", 3)) { case 0: break; case 1: v = AnyValue({{"a", AnyValue(dto::int32(1))}}); break; default: v = AnyValue((size_t)2, dto::SignedInteger32Type); } auto [ok, w] = c.value(v, vp::str("line", 0, 1)); CHECK(!ok && dto::IsEmptyValue(w), "only scalars can be typed"); vp_reach("refused");
}
HARNESS(h_bad_request)
{
  Cli c; auto kind = vp::any<uint32_t>("kind"); UserInputRequest r{(InputRequestType)kind, AnyValue(dto::boolean(true)), dto::SignedInteger32Type}; c.line("1"); auto f = c.ui->RequestUserInput(r); CHECK(f && f->IsValid() && f->WaitFor(1e6), "a malformed request is answered"); auto a = f->GetValue(); CHECK(!a.m_result, "a malformed request fails"); CHECK(!ParseUserValueReply(a).first && !ParseUserChoiceReply(a).first, "no answer is made up"); vp_reach("refused");
}
HARNESS(h_sequence)
{ // each answer comes from its own line, in order, also after an empty or unusable one
  Cli c; std::string l[3]; int form[3]; std::string all; for (int i = 0; i < 3; i++) { auto& s = l[i]; form[i] = vp::choose("form", 4); if (form[i]) { s = vp::str("digit", 1, 1); vp_assume(dig(s[0])); } if (form[i] == 2) s += " 1"; if (form[i] == 3) s = " " + s + "\t"; all += s + "\n"; } std::vp_cin.vp_set(all); std::vector<std::string> o{"a", "b"};
  for (int i = 0; i < 3; i++)
  {
    bool num = form[i] & 1; int n = num ? l[i][form[i] == 3] - '0' : 0;
    switch (vp::choose("request", 3))
    {
    case 0: { auto [ok, k] = GetBlockingUserChoice(*c.ui, o, CreateUserChoiceMetadata()); CHECK(ok == (n == 1 || n == 2) && (!ok || k == n - 1), "each answer comes from its own line"); break; }
    case 1: { auto [ok, v] = GetBlockingUserValue(*c.ui, AnyValue(dto::uint8(0)), ""); CHECK(ok == num && (!ok || v.As<dto::uint8>() == n), "each answer comes from its own line"); break; }
    default: { auto [ok, v] = GetBlockingUserValue(*c.ui, AnyValue(std::string("old")), ""); CHECK(ok && v.As<std::string>() == l[i], "a text is the whole of its own line"); vp_reach("text"); }
    }
  }
  auto [ok, v] = GetBlockingUserValue(*c.ui, AnyValue(dto::uint8(0)), ""); CHECK(!ok, "no number is made up when the input has ended"); vp_reach("done");
}
HARNESS(h_outputs)
{
  int max = vp::choose("severity", 9); Cli c(max); auto m = vp::str("text", 0, 2);
  switch (vp::choose("output", 4))
  {
  case 0: { std::vp_cout.m_buf.clear(); auto v = vp::flag("int") ? AnyValue(dto::int32(5)) : AnyValue(std::string("x")); CHECK(c.ui->PutValue(v, m), "a value is shown"); auto& b = std::vp_cout.m_buf; CHECK(b.find(dto::PrintAnyValue(v) + "\n") != std::string::npos && b.compare(0, m.size(), m) == 0, "the value is shown with its description"); vp_reach("value"); break; }
  case 1: { std::vp_cout.m_buf.clear(); c.ui->Message(m); CHECK(std::vp_cout.m_buf == m + "\n", "a message is shown as it is"); vp_reach("message"); break; }
  case 2: { int s = vp::choose("level", 9); c.ui->Log(s, m); CHECK(c.logged.size() == (s <= max ? 1u : 0u), "exactly the messages at least as severe as asked for are logged"); if (s <= max) { CHECK(c.logged[0].first == s && c.logged[0].second == m, "a logged message keeps its text and severity"); vp_reach("severe"); } else vp_reach("silent"); break; }
  default: { auto i = make("Wait"); i->SetName("n"); c.ui->UpdateInstructionStatus(i.get()); c.ui->VariableUpdated("v", AnyValue(dto::int32(3)), vp::flag("connected")); CHECK(c.logged.size() == (max >= sup::oac_tree::log::SUP_SEQ_LOG_INFO ? 2u : 0u), "status and variable updates are informational"); }
  }
}

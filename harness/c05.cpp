// @repo base/log_severity.cpp
// @entry h_tostring reach=known,unknown time=30
// @entry h_fromstring reach=none,some time=60
// @entry h_near reach=near time=60
// @bound h_tostring: every 32-bit severity value; h_fromstring: every text of 0..12 (thorough 0..20) characters, all byte values; h_near: each of the nine texts with any one character replaced, appended, removed or with one suffix of up to 3 characters
#include <vp.h>
#include <sup/oac-tree/log_severity.h>
using namespace sup::oac_tree::log;
#ifdef VP_THOROUGH
static const int kLen = 20;
#else
static const int kLen = 12;
#endif
static const char* kName[] = {"EMERGENCY", "ALERT", "CRITICAL", "ERROR", "WARNING", "NOTICE", "INFO", "DEBUG", "TRACE"};
static int indexOf(const std::string& s) { for (int i = 0; i < 9; i++) if (s == kName[i]) return i; return 9; }
HARNESS(h_tostring)
{
  int v = vp::any<int>("severity"); std::string s = SeverityString(v);
  CHECK((int)SUP_SEQ_LOG_EMERG == 0 && (int)SUP_SEQ_LOG_ALERT == 1 && (int)SUP_SEQ_LOG_CRIT == 2 && (int)SUP_SEQ_LOG_ERR == 3 && (int)SUP_SEQ_LOG_WARNING == 4 && (int)SUP_SEQ_LOG_NOTICE == 5
     && (int)SUP_SEQ_LOG_INFO == 6 && (int)SUP_SEQ_LOG_DEBUG == 7 && (int)SUP_SEQ_LOG_TRACE == 8 && (int)NUMBER_OF_LOG_LEVELS == 9, "the severities are numbered from the most to the least severe");
  if (v >= 0 && v < 9) { int k = (int)vp_concretize((uint64_t)v); vp_reach("known"); CHECK(s == kName[k], "a severity has its text"); CHECK((int)GetSeverityFromString(s) == k, "reading the text of a severity gives it back"); }
  else { vp_reach("unknown"); CHECK(s == "UNKNOWN", "any other value gives UNKNOWN"); CHECK((int)GetSeverityFromString(s) == 9, "UNKNOWN is no severity"); }
}
HARNESS(h_fromstring)
{
  std::string s = vp::str("text", 0, kLen); int r = (int)GetSeverityFromString(s), e = indexOf(s);
  CHECK(r == e, "a text maps to the severity it names and any other text to the out-of-range marker");
  if (e == 9) vp_reach("none"); else { vp_reach("some"); CHECK(SeverityString(r) == s, "writing the severity gives the text back"); }
  CHECK((int)GetSeverityFromString(s) == e, "the answer is fixed");
}
HARNESS(h_near)
{
  std::string s = kName[vp::choose("name", 9)]; int n = (int)s.size();
  switch (vp::choose("edit", 4))
  {
  case 0: s[(size_t)vp::choose("at", n)] = (char)vp_sym("char", 8); break;
  case 1: s.erase((size_t)vp::choose("at", n), 1); break;
  case 2: s.insert((size_t)vp::choose("at", n + 1), 1, (char)vp_sym("char", 8)); break;
  case 3: s += vp::str("suffix", 1, 3); break;
  }
  vp_reach("near"); CHECK((int)GetSeverityFromString(s) == indexOf(s), "texts close to a severity's text map to it only if equal");
}

// Stand-in for sup-log.
#ifndef VP_SUP_LOG_BASIC_LOGGER_H
#define VP_SUP_LOG_BASIC_LOGGER_H
#include <functional>
#include <string>
namespace sup { namespace log {
class BasicLogger
{
public:
  using LogFunction = std::function<void(int, const std::string&, const std::string&)>;
  BasicLogger(LogFunction f, const std::string& source, int max_severity) : m_f(std::move(f)), m_source(source), m_max(max_severity) {}
  int SetMaxSeverity(int s) { int o = m_max; m_max = s; return o; }
  int GetMaxSeverity() const { return m_max; }
  void LogMessage(int severity, const std::string& message) const { if (severity <= m_max) m_f(severity, m_source, message); }
private:
  LogFunction m_f; std::string m_source; int m_max;
};
} }
#endif

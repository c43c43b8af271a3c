// Stand-in for the command line parser of sup-utils: options with aliases, parameters, defaults, required options and help.
#ifndef VP_SUP_CLI_H
#define VP_SUP_CLI_H
#include <initializer_list>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
namespace sup { namespace cli {
class CommandLineOption
{
public:
  CommandLineOption(std::vector<std::string> n, std::string d) : m_names(std::move(n)), m_description(std::move(d)) {}
  CommandLineOption& SetParameter(bool p) { m_param = p; return *this; }
  CommandLineOption& SetValueName(const std::string&) { return *this; }
  CommandLineOption& SetRequired(bool r) { m_required = r; return *this; }
  CommandLineOption& SetDefaultValue(const std::string& v) { m_value = v; m_default = true; return *this; }
  std::vector<std::string> m_names; std::string m_description, m_value; bool m_param = false, m_required = false, m_default = false, m_set = false;
};
class CommandLineParser
{
public:
  void SetDescription(const std::string&, const std::string&) {}
  void AddHelpOption() { AddOption({"-h", "--help"}, "help"); }
  CommandLineOption& AddOption(const std::vector<std::string>& names, const std::string& description = {}) { m_o.push_back(std::make_unique<CommandLineOption>(names, description)); return *m_o.back(); }
  bool Parse(int argc, const char* const* argv)
  {
    for (int i = 1; i < argc; i++)
    {
      auto o = find(argv[i]); if (!o) return false;
      o->m_set = true; if (o->m_param) { if (i + 1 >= argc) return false; o->m_value = argv[++i]; }
    }
    if (IsSet("--help")) return false;
    for (auto& o : m_o) if (o->m_required && !o->m_set) return false;
    return true;
  }
  bool IsSet(const std::string& n) const { auto o = find(n); return o && o->m_set; }
  template <class T> T GetValue(const std::string& n) const { auto o = find(n); if (!o) throw std::runtime_error("no such option"); return T(o->m_value); }
  std::string GetUsageString() const { return "usage"; }
private:
  CommandLineOption* find(const std::string& n) const { for (auto& o : m_o) for (auto& x : o->m_names) if (x == n) return o.get(); return nullptr; }
  std::vector<std::unique_ptr<CommandLineOption>> m_o;
};
} }
#endif

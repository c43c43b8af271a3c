// Stand-in for sup-xml: files are what the harness registered; text is a table of trees (writing gives a key, reading looks it up).
#include <sup/xml/tree_data_parser.h>
#include <sup/xml/tree_data_serialize.h>
#include <map>
namespace sup { namespace xml {
struct Store { std::map<std::string, TreeData> files; std::map<std::string, int> reads; std::vector<TreeData> texts; };
static Store& store() { static Store s; return s; }
std::unique_ptr<TreeData> TreeDataFromFile(const std::string& filename)
{
  store().reads[filename]++;
  auto it = store().files.find(filename);
  if (it == store().files.end()) return {};
  return std::unique_ptr<TreeData>(new TreeData(it->second));
}
std::unique_ptr<TreeData> TreeDataFromString(const std::string& text)
{
  if (text.compare(0, 5, "tree:") != 0) return {};
  std::size_t i = 0; for (std::size_t k = 5; k < text.size(); k++) i = i * 10 + (std::size_t)(text[k] - '0');
  if (i >= store().texts.size()) return {};
  return std::unique_ptr<TreeData>(new TreeData(store().texts[i]));
}
std::string TreeDataToString(const TreeData& data) { store().texts.push_back(data); return "tree:" + std::to_string(store().texts.size() - 1); }
namespace model
{
void PutFile(const std::string& name, const TreeData& data) { store().files.erase(name); store().files.emplace(name, data); }
int Reads(const std::string& name) { auto it = store().reads.find(name); return it == store().reads.end() ? 0 : it->second; }
}
} }

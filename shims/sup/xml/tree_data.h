// Stand-in for sup-xml's TreeData (the library is not installed here).
#ifndef VP_SUP_XML_TREE_DATA_H
#define VP_SUP_XML_TREE_DATA_H
#include <memory>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
namespace sup
{
namespace xml
{
class TreeData
{
public:
  explicit TreeData(const std::string& node_name) : m_name(node_name) {}
  std::string GetNodeName() const { return m_name; }
  std::string GetName() const { return HasAttribute("name") ? GetAttribute("name") : std::string(); }
  void SetName(const std::string& n) { AddAttribute("name", n); }
  std::string GetContent() const { return m_content; }
  void SetContent(const std::string& c) { m_content = c; }
  std::size_t GetNumberOfAttributes() const { return m_attributes.size(); }
  bool HasAttribute(const std::string& n) const { for (const auto& a : m_attributes) if (a.first == n) return true; return false; }
  std::string GetAttribute(const std::string& n) const { for (const auto& a : m_attributes) if (a.first == n) return a.second; throw std::runtime_error("no such attribute"); }
  bool AddAttribute(const std::string& n, const std::string& v) { if (HasAttribute(n)) return false; m_attributes.emplace_back(n, v); return true; }
  const std::vector<std::pair<std::string, std::string>>& Attributes() const { return m_attributes; }
  std::size_t GetNumberOfChildren() const { return m_children.size(); }
  const std::vector<TreeData>& Children() const { return m_children; }
  void AddChild(const TreeData& c) { m_children.push_back(c); }
private:
  std::string m_name, m_content;
  std::vector<std::pair<std::string, std::string>> m_attributes;
  std::vector<TreeData> m_children;
};
inline bool operator==(const TreeData& l, const TreeData& r)
{ return l.GetNodeName() == r.GetNodeName() && l.GetContent() == r.GetContent() && l.Attributes() == r.Attributes() && l.Children() == r.Children(); }
inline bool operator!=(const TreeData& l, const TreeData& r) { return !(l == r); }
}  // namespace xml
}  // namespace sup
#endif

#ifndef VP_SUP_XML_TREE_DATA_PARSER_H
#define VP_SUP_XML_TREE_DATA_PARSER_H
#include <sup/xml/tree_data.h>
namespace sup { namespace xml {
std::unique_ptr<TreeData> TreeDataFromFile(const std::string& filename);
std::unique_ptr<TreeData> TreeDataFromString(const std::string& text);
namespace model { void PutFile(const std::string& name, const TreeData& data); int Reads(const std::string& name); }
} }
#endif

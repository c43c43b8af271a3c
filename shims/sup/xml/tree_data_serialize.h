#ifndef VP_SUP_XML_TREE_DATA_SERIALIZE_H
#define VP_SUP_XML_TREE_DATA_SERIALIZE_H
#include <sup/xml/tree_data.h>
namespace sup { namespace xml { std::string TreeDataToString(const TreeData& data); } }
#endif

L = 'src/lib/sup/oac-tree/'
H = '''#include "demo.h"
#include <sup/oac-tree/procedure_context.h>
#include <sup/oac-tree/procedure_preamble.h>
#include <sup/xml/tree_data.h>
using sup::xml::TreeData; using sup::dto::AnyType; using T = TypeRegistrationInfo;
namespace sup { namespace xml { namespace model { void PutFile(const std::string&, const TreeData&); } } }
static const char* A1 = "{\\"type\\":\\"A\\",\\"attributes\\":[{\\"x\\":{\\"type\\":\\"int32\\"}}]}";
static const char* A2 = "{\\"type\\":\\"A\\",\\"attributes\\":[{\\"x\\":{\\"type\\":\\"uint8\\"}}]}";
static const char* BB = "{\\"type\\":\\"B\\",\\"attributes\\":[{\\"a\\":{\\"type\\":\\"A\\"}}]}";
static std::unique_ptr<Procedure> proc(const std::string& file, const std::vector<T>& types) { auto p = std::make_unique<Procedure>(file); for (auto& t : types) p->GetPreamble().AddTypeRegistration(t); p->PushInstruction(GlobalInstructionRegistry().Create("Succeed")); return p; }
static bool ready(Procedure& p) { try { p.Setup(); return true; } catch (const std::exception&) { return false; } }
static void included(const std::string& file, const std::vector<std::string>& types) { TreeData d("Procedure"); for (auto& t : types) { TreeData r("RegisterType"); r.AddAttribute(t[0] == '{' ? "jsontype" : "jsonfile", t); d.AddChild(r); } d.AddChild(TreeData("Succeed")); sup::xml::model::PutFile(file, d); }
'''
def s(**k):
    k.setdefault('lib', True); k.setdefault('prop', 'C54'); k['demo'] = H + k['demo']; return k
P = L + 'procedure/procedure.cpp'
W = L + 'procedure/workspace.cpp'
SEEDS = [
 s(id='c54_parent_names', edits=[(P, '''    auto anytype = ParseTypeRegistrationInfo(type_registration, GetFilename(), GetTypeRegistry());''', '''    // an included procedure sees the types of the procedure that includes it
    const auto& known_types = (m_parent != nullptr) ? m_parent->GetTypeRegistry() : GetTypeRegistry();
    auto anytype = ParseTypeRegistrationInfo(type_registration, GetFilename(), known_types);''')],
  needs='an included procedure whose second declared type uses its first',
  breaks='an included procedure cannot use its own types, or gets those of the including procedure',
  demo='''int main() { included("/d/i", {A1, BB}); auto p = proc("/d/p", {}); REQ(ready(*p)); bool ok = true; try { auto& r = p->GetContext().GetWorkspace("/d/i").GetTypeRegistry(); REQ(r.HasType("B") && r.GetType("B")["a"]["x"] == sup::dto::SignedInteger32Type); } catch (const std::exception&) { ok = false; } REQ(ok); auto q = proc("/d/p", {T(T::kJSONString, A1), T(T::kJSONString, BB)}); REQ(ready(*q)); return 0; }
'''),
 s(id='c54_same_members', edits=[(W, '''    return anytype == m_type_registry->GetType(anytype.GetTypeName());''', '''    const auto known_type = m_type_registry->GetType(anytype.GetTypeName());
    return anytype.GetTypeCode() == known_type.GetTypeCode()
           && anytype.MemberNames() == known_type.MemberNames();''')],
  needs='two declarations of one name with the same member names but other member types',
  breaks='the second declaration is accepted although the name stands for another type',
  demo='''int main() { auto p = proc("/d/p", {T(T::kJSONString, A1), T(T::kJSONString, A1)}); REQ(ready(*p)); auto q = proc("/d/p", {T(T::kJSONString, A1), T(T::kJSONString, A2)}); REQ(!ready(*q)); return 0; }
'''),
 s(id='c54_text_first', edits=[(P, '''  for (const auto& type_registration : m_preamble.GetTypeRegistrations())
  {
    auto anytype''', '''  // types given as text need no file access: register them before the others
  auto type_registrations = m_preamble.GetTypeRegistrations();
  auto is_text = [](const TypeRegistrationInfo& info)
  { return info.GetRegistrationMode() == TypeRegistrationInfo::kJSONString; };
  std::vector<TypeRegistrationInfo> ordered;
  for (const auto text_mode : {true, false})
  {
    for (const auto& info : type_registrations)
    {
      if (is_text(info) == text_mode)
      {
        ordered.push_back(info);
      }
    }
  }
  for (const auto& type_registration : ordered)
  {
    auto anytype''')],
  needs='a type given as text that uses an earlier one from a file',
  breaks='the declarations are not made in their order, so the earlier type is not known yet',
  demo='''int main() { sup::dto::model::PutTextFile("/d/a.json", A1); auto p = proc("/d/p", {T(T::kJSONFile, "a.json"), T(T::kJSONString, BB)}); REQ(ready(*p)); REQ(p->GetTypeRegistry().HasType("B")); return 0; }
'''),
 s(id='c54_parent_directory', edits=[(P, '''    auto anytype = ParseTypeRegistrationInfo(type_registration, GetFilename(), GetTypeRegistry());''', '''    const auto base_file = m_parent ? m_parent->GetFilename() : GetFilename();
    auto anytype = ParseTypeRegistrationInfo(type_registration, base_file, GetTypeRegistry());''')],
  needs='an included procedure in another directory that declares a type from a file',
  breaks="the file is looked for beside the including procedure",
  demo='''int main() { sup::dto::model::PutTextFile("/d/sub/a.json", A1); sup::dto::model::PutTextFile("/d/a.json", A2); included("/d/sub/i", {"a.json"}); auto p = proc("/d/p", {T(T::kJSONFile, "a.json")}); REQ(ready(*p)); bool ok = true; try { auto& r = p->GetContext().GetWorkspace("/d/sub/i").GetTypeRegistry(); REQ(r.GetType("A")["x"] == sup::dto::SignedInteger32Type); } catch (const std::exception&) { ok = false; } REQ(ok); REQ(p->GetTypeRegistry().GetType("A")["x"] == sup::dto::UnsignedInteger8Type); return 0; }
'''),
 s(id='c54_lenient_include', edits=[(L + 'procedure/procedure_store.cpp', '''    proc->SetupPreamble();
    m_procedure_cache[filename] = std::move(proc);''', '''    auto& cached = m_procedure_cache[filename];
    cached = std::move(proc);
    cached->SetupPreamble();''')],
  needs='an included procedure with a bad declaration that is loaded a second time',
  breaks='the second attempt succeeds with the types of the half-made preamble',
  demo='''int main() { included("/d/i", {A1, A2}); auto p = proc("/d/p", {}); REQ(ready(*p)); for (int i = 0; i < 2; i++) { bool ok = true; try { p->GetContext().GetWorkspace("/d/i"); } catch (const std::exception&) { ok = false; } REQ(!ok); } included("/d/j", {A1}); p->GetContext().GetWorkspace("/d/j"); return 0; }
'''),
 s(id='c54_shared_registry', edits=[(P, '''    if (!RegisterType(anytype))''', '''    const bool registered = RegisterType(anytype)
                            && (m_parent == nullptr || m_parent->RegisterType(anytype));
    if (!registered)''')],
  needs='an including and an included procedure that use one type name for different types',
  breaks="the included procedure's types appear in the including one and clash with its own",
  demo='''int main() { included("/d/i", {A2}); auto p = proc("/d/p", {T(T::kJSONString, A1)}); REQ(ready(*p)); bool ok = true; try { REQ(p->GetContext().GetWorkspace("/d/i").GetTypeRegistry().GetType("A")["x"] == sup::dto::UnsignedInteger8Type); } catch (const std::exception&) { ok = false; } REQ(ok); included("/d/j", {BB}); auto q = proc("/d/q", {T(T::kJSONString, A1)}); REQ(ready(*q)); return 0; }
'''),
]

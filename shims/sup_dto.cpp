// Stand-in for sup-dto: see sup/dto/model.h.
#include <sup/dto/model.h>
#include <map>
namespace sup
{
namespace dto
{
static const char* const kScalarNames[] = {"empty", "bool", "char8", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float32", "float64", "string"};

const AnyType EmptyType{TypeCode::Empty};
const AnyType BooleanType{TypeCode::Bool};
const AnyType Character8Type{TypeCode::Char8};
const AnyType SignedInteger8Type{TypeCode::Int8};
const AnyType UnsignedInteger8Type{TypeCode::UInt8};
const AnyType SignedInteger16Type{TypeCode::Int16};
const AnyType UnsignedInteger16Type{TypeCode::UInt16};
const AnyType SignedInteger32Type{TypeCode::Int32};
const AnyType UnsignedInteger32Type{TypeCode::UInt32};
const AnyType SignedInteger64Type{TypeCode::Int64};
const AnyType UnsignedInteger64Type{TypeCode::UInt64};
const AnyType Float32Type{TypeCode::Float32};
const AnyType Float64Type{TypeCode::Float64};
const AnyType StringType{TypeCode::String};

// ---- types
AnyType::AnyType() : m_code{TypeCode::Empty} {}
AnyType::AnyType(TypeCode code) : m_code{code} { if (code >= TypeCode::Struct) m_ext.reset(new Ext); }
AnyType::AnyType(std::initializer_list<std::pair<std::string, AnyType>> members, const std::string& name) : m_code{TypeCode::Struct}, m_ext{new Ext}
{ m_ext->name = name; for (const auto& m : members) AddMember(m.first, m.second); }
AnyType::AnyType(std::size_t size, const AnyType& elem, const std::string& name) : m_code{TypeCode::Array}, m_ext{new Ext}
{ m_ext->name = name; m_ext->size = size; m_ext->elem = elem; }
AnyType::AnyType(const AnyType& o) : m_code{o.m_code} { if (o.m_ext) m_ext.reset(new Ext(*o.m_ext)); }
AnyType::AnyType(AnyType&& o) noexcept : m_code{o.m_code}, m_ext{std::move(o.m_ext)} { o.m_code = TypeCode::Empty; }
AnyType& AnyType::operator=(const AnyType& o) { if (this != &o) { AnyType t(o); m_code = t.m_code; m_ext = std::move(t.m_ext); } return *this; }
AnyType& AnyType::operator=(AnyType&& o) noexcept { if (this != &o) { m_code = o.m_code; m_ext = std::move(o.m_ext); o.m_code = TypeCode::Empty; } return *this; }
AnyType::~AnyType() = default;
std::string AnyType::GetTypeName() const { return m_code >= TypeCode::Struct ? m_ext->name : std::string(kScalarNames[(int)m_code]); }
static bool ValidMemberName(const std::string& n)
{
  if (n.empty()) return false;
  for (char c : n) if (c == '.' || c == '[' || c == ']' || c == ' ' || c == '\t' || c == '\n') return false;
  return true;
}
AnyType& AnyType::AddMember(const std::string& name, const AnyType& type)
{
  if (m_code != TypeCode::Struct) throw InvalidOperationException("AddMember: not a structure");
  if (!ValidMemberName(name)) throw InvalidOperationException("AddMember: invalid member name");
  for (const auto& m : m_ext->members) if (m.first == name) throw InvalidOperationException("AddMember: duplicate member name");
  m_ext->members.emplace_back(name, type);
  return *this;
}
std::vector<std::string> AnyType::MemberNames() const
{ std::vector<std::string> r; if (m_code == TypeCode::Struct) for (const auto& m : m_ext->members) r.push_back(m.first); return r; }
std::size_t AnyType::NumberOfMembers() const { return m_code == TypeCode::Struct ? m_ext->members.size() : 0; }
std::size_t AnyType::NumberOfElements() const { return m_code == TypeCode::Array ? m_ext->size : 0; }
AnyType AnyType::ElementType() const
{ if (m_code != TypeCode::Array) throw InvalidOperationException("ElementType: not an array"); return m_ext->elem; }
bool AnyType::HasField(const std::string& name) const
{ if (m_code == TypeCode::Struct) for (const auto& m : m_ext->members) if (m.first == name) return true; return false; }
const AnyType& AnyType::operator[](const std::string& name) const
{ if (m_code == TypeCode::Struct) for (const auto& m : m_ext->members) if (m.first == name) return m.second; throw InvalidOperationException("no such member type"); }
bool AnyType::operator==(const AnyType& o) const
{
  if (m_code != o.m_code) return false;
  if (m_code < TypeCode::Struct) return true;
  if (m_ext->name != o.m_ext->name) return false;
  if (m_code == TypeCode::Array) return m_ext->size == o.m_ext->size && m_ext->elem == o.m_ext->elem;
  if (m_ext->members.size() != o.m_ext->members.size()) return false;
  for (std::size_t i = 0; i < m_ext->members.size(); i++)
    if (m_ext->members[i].first != o.m_ext->members[i].first || m_ext->members[i].second != o.m_ext->members[i].second) return false;
  return true;
}
AnyType AnyType::MakeStruct(const std::string& name) { AnyType t(TypeCode::Struct); t.m_ext->name = name; return t; }

// ---- values
static uint64 FloatBits(float64 d) { uint64 b; __builtin_memcpy(&b, &d, 8); return b; }
AnyValue::AnyValue() : m_code{TypeCode::Empty}, m_locked{false}, m_bits{0} {}
#define SC(T, code, conv) AnyValue::AnyValue(T v) : m_code{TypeCode::code}, m_locked{false}, m_bits{conv} {}
SC(boolean, Bool, (uint64)(v ? 1 : 0)) SC(char8, Char8, (uint64)(int64)(signed char)v) SC(int8, Int8, (uint64)(int64)v) SC(uint8, UInt8, (uint64)v)
SC(int16, Int16, (uint64)(int64)v) SC(uint16, UInt16, (uint64)v) SC(int32, Int32, (uint64)(int64)v) SC(uint32, UInt32, (uint64)v)
SC(int64, Int64, (uint64)v) SC(uint64, UInt64, v) SC(float32, Float32, FloatBits((float64)v)) SC(float64, Float64, FloatBits(v))
#undef SC
AnyValue::AnyValue(const std::string& v) : m_code{TypeCode::String}, m_locked{false}, m_bits{0} { ext().str = v; }
AnyValue::AnyValue(const char* v) : AnyValue(std::string(v)) {}
AnyValue::AnyValue(const AnyType& t) : m_code{t.GetTypeCode()}, m_locked{false}, m_bits{0}
{
  if (m_code == TypeCode::Struct) { ext().str = t.GetTypeName(); for (const auto& n : t.MemberNames()) m_ext->members.emplace_back(n, AnyValue(t[n])); }
  else if (m_code == TypeCode::Array)
  {
    ext().str = t.GetTypeName(); m_ext->elem = t.ElementType();
    for (std::size_t i = 0; i < t.NumberOfElements(); i++) { m_ext->elems.emplace_back(m_ext->elem); m_ext->elems.back().m_locked = true; }
  }
  else if (m_code == TypeCode::String) ext();
}
AnyValue::AnyValue(const AnyType& t, const AnyValue& v) : AnyValue(t) { ConvertFrom(v); }
AnyValue::AnyValue(std::initializer_list<std::pair<std::string, AnyValue>> members, const std::string& name) : m_code{TypeCode::Struct}, m_locked{false}, m_bits{0}
{ ext().str = name; for (const auto& m : members) AddMember(m.first, m.second); }
AnyValue::AnyValue(std::size_t size, const AnyType& elem, const std::string& name) : AnyValue(AnyType(size, elem, name)) {}
AnyValue::AnyValue(const AnyValue& o) : m_code{o.m_code}, m_locked{false}, m_bits{o.m_bits} { if (o.m_ext) { m_ext.reset(new Ext(*o.m_ext)); for (auto& e : m_ext->elems) e.m_locked = true; } }
AnyValue::AnyValue(AnyValue&& o) noexcept : m_code{o.m_code}, m_locked{false}, m_bits{o.m_bits}, m_ext{std::move(o.m_ext)} { o.m_code = TypeCode::Empty; o.m_bits = 0; }
AnyValue::~AnyValue() = default;
AnyValue::Ext& AnyValue::ext() { if (!m_ext) m_ext.reset(new Ext); return *m_ext; }
void AnyValue::Assign(const AnyValue& o)
{
  AnyValue t(o);
  m_code = t.m_code; m_bits = t.m_bits; m_ext = std::move(t.m_ext);
}
AnyValue& AnyValue::operator=(const AnyValue& o)
{
  if (this == &o) return *this;
  if (m_locked) ConvertFrom(o); else Assign(o);
  return *this;
}
AnyValue& AnyValue::operator=(AnyValue&& o)
{
  if (this == &o) return *this;
  if (m_locked) { ConvertFrom(o); return *this; }
  m_code = o.m_code; m_bits = o.m_bits; m_ext = std::move(o.m_ext);
  o.m_code = TypeCode::Empty; o.m_bits = 0;
  return *this;
}
AnyType AnyValue::GetType() const
{
  if (m_code < TypeCode::Struct) return AnyType(m_code);
  if (m_code == TypeCode::Array) return AnyType(m_ext->elems.size(), m_ext->elem, m_ext->str);
  AnyType t = AnyType::MakeStruct(m_ext->str);
  for (const auto& m : m_ext->members) t.AddMember(m.first, m.second.GetType());
  return t;
}
std::string AnyValue::GetTypeName() const { return m_code >= TypeCode::Struct ? m_ext->str : std::string(kScalarNames[(int)m_code]); }
AnyValue& AnyValue::AddMember(const std::string& name, const AnyValue& value)
{
  if (m_code != TypeCode::Struct || m_locked) throw InvalidOperationException("AddMember: not a structure whose type may change");
  if (!ValidMemberName(name)) throw InvalidOperationException("AddMember: invalid member name");
  for (const auto& m : m_ext->members) if (m.first == name) throw InvalidOperationException("AddMember: duplicate member name");
  m_ext->members.emplace_back(name, value);
  return *this;
}
std::vector<std::string> AnyValue::MemberNames() const
{ std::vector<std::string> r; if (m_code == TypeCode::Struct) for (const auto& m : m_ext->members) r.push_back(m.first); return r; }
std::size_t AnyValue::NumberOfMembers() const { return m_code == TypeCode::Struct ? m_ext->members.size() : 0; }
AnyValue& AnyValue::AddElement(const AnyValue& value)
{
  if (m_code != TypeCode::Array || m_locked) throw InvalidOperationException("AddElement: not an array whose type may change");
  AnyValue e(m_ext->elem); 
  if (m_ext->elem.GetTypeCode() == TypeCode::Empty && m_ext->elems.empty()) { m_ext->elem = value.GetType(); e = AnyValue(m_ext->elem); }
  e.ConvertFrom(value);
  m_ext->elems.push_back(std::move(e)); m_ext->elems.back().m_locked = true;
  return *this;
}
std::size_t AnyValue::NumberOfElements() const { return m_code == TypeCode::Array ? m_ext->elems.size() : 0; }
bool AnyValue::IsUnsigned() const
{ return m_code == TypeCode::Bool || m_code == TypeCode::UInt8 || m_code == TypeCode::UInt16 || m_code == TypeCode::UInt32 || m_code == TypeCode::UInt64; }
float64 AnyValue::FloatValue() const { float64 d; uint64 b = m_bits; __builtin_memcpy(&d, &b, 8); return d; }
std::string AnyValue::AsString() const
{ if (m_code != TypeCode::String) throw InvalidConversionException("As: not a string"); return m_ext->str; }
template <class T> static uint64 Pack(T v)
{ if constexpr (std::is_floating_point_v<T>) return FloatBits((float64)v); else if constexpr (std::is_signed_v<T>) return (uint64)(int64)v; else return (uint64)v; }
AnyValue& AnyValue::ConvertFrom(const AnyValue& o)
{
  if (this == &o) return *this;
  if (m_code < TypeCode::String && m_code == o.m_code) { m_bits = o.m_bits; return *this; }
  switch (m_code)
  {
#define CV(code, T) case TypeCode::code: m_bits = Pack<T>(o.As<T>()); return *this;
    CV(Bool, boolean) CV(Char8, char8) CV(Int8, int8) CV(UInt8, uint8) CV(Int16, int16) CV(UInt16, uint16) CV(Int32, int32) CV(UInt32, uint32)
    CV(Int64, int64) CV(UInt64, uint64) CV(Float32, float32) CV(Float64, float64)
#undef CV
    case TypeCode::Empty: if (o.m_code != TypeCode::Empty) throw InvalidConversionException("ConvertFrom: empty from non-empty"); return *this;
    case TypeCode::String: m_ext->str = o.AsString(); return *this;
    case TypeCode::Struct:
    {
      if (o.m_code != TypeCode::Struct || o.m_ext->members.size() != m_ext->members.size()) throw InvalidConversionException("ConvertFrom: different structure");
      AnyValue t(*this);
      auto om = o.m_ext->members.begin();
      for (auto& m : t.m_ext->members)
      {
        if (m.first != om->first) throw InvalidConversionException("ConvertFrom: different member names");
        m.second.ConvertFrom(om->second); ++om;
      }
      m_ext = std::move(t.m_ext); return *this;
    }
    case TypeCode::Array:
    {
      if (o.m_code != TypeCode::Array || o.m_ext->elems.size() != m_ext->elems.size()) throw InvalidConversionException("ConvertFrom: different array size");
      AnyValue t(*this);
      for (std::size_t i = 0; i < m_ext->elems.size(); i++) t.m_ext->elems[i].ConvertFrom(o.m_ext->elems[i]);
      m_ext = std::move(t.m_ext); return *this;
    }
  }
  return *this;
}
AnyValue* AnyValue::Find(const std::string& path) const
{
  AnyValue* v = const_cast<AnyValue*>(this);
  std::size_t i = 0, n = path.size();
  if (n == 0) return v;
  bool first = true;
  while (i < n)
  {
    if (path[i] == '[')
    {
      std::size_t j = i + 1, idx = 0;
      if (j >= n || path[j] < '0' || path[j] > '9') return nullptr;
      while (j < n && path[j] >= '0' && path[j] <= '9') { idx = idx * 10 + (std::size_t)(path[j] - '0'); if (idx > 1000000) return nullptr; j++; }
      if (j >= n || path[j] != ']') return nullptr;
      if (v->m_code != TypeCode::Array || idx >= v->m_ext->elems.size()) return nullptr;
      v = &v->m_ext->elems[idx]; i = j + 1;
    }
    else
    {
      if (!first) { if (path[i] != '.') return nullptr; i++; }
      std::size_t j = i; while (j < n && path[j] != '.' && path[j] != '[') j++;
      if (j == i || v->m_code != TypeCode::Struct) return nullptr;
      std::string name = path.substr(i, j - i); AnyValue* next = nullptr;
      for (auto& m : v->m_ext->members) if (m.first == name) { next = &m.second; break; }
      if (!next) return nullptr;
      v = next; i = j;
    }
    first = false;
  }
  return v;
}
bool AnyValue::HasField(const std::string& name) const { return m_code >= TypeCode::Struct && !name.empty() && Find(name) != nullptr; }
AnyValue& AnyValue::operator[](const std::string& name)
{ AnyValue* v = Find(name); if (!v) throw InvalidOperationException("no such field"); return *v; }
const AnyValue& AnyValue::operator[](const std::string& name) const
{ const AnyValue* v = Find(name); if (!v) throw InvalidOperationException("no such field"); return *v; }
AnyValue& AnyValue::operator[](std::size_t i)
{ if (m_code != TypeCode::Array || i >= m_ext->elems.size()) throw InvalidOperationException("no such element"); return m_ext->elems[i]; }
const AnyValue& AnyValue::operator[](std::size_t i) const
{ if (m_code != TypeCode::Array || i >= m_ext->elems.size()) throw InvalidOperationException("no such element"); return m_ext->elems[i]; }
bool AnyValue::operator==(const AnyValue& o) const
{
  if (IsArithmetic() && o.IsArithmetic())
  {
    if (m_code == o.m_code && !IsFloat()) return m_bits == o.m_bits;
    return Compare(*this, o) == CompareResult::Equivalent;
  }
  if (m_code != o.m_code) return false;
  switch (m_code)
  {
    case TypeCode::Empty: return true;
    case TypeCode::String: return m_ext->str == o.m_ext->str;
    case TypeCode::Struct:
      if (m_ext->str != o.m_ext->str || m_ext->members.size() != o.m_ext->members.size()) return false;
      for (auto m = m_ext->members.begin(), n = o.m_ext->members.begin(); m != m_ext->members.end(); ++m, ++n)
        if (m->first != n->first || m->second != n->second) return false;
      return true;
    case TypeCode::Array:
      if (m_ext->str != o.m_ext->str || m_ext->elem != o.m_ext->elem || m_ext->elems.size() != o.m_ext->elems.size()) return false;
      for (std::size_t i = 0; i < m_ext->elems.size(); i++) if (m_ext->elems[i] != o.m_ext->elems[i]) return false;
      return true;
    default: return false;
  }
}

// ---- registry
AnyTypeRegistry::AnyTypeRegistry() = default;
AnyTypeRegistry::~AnyTypeRegistry() = default;
void AnyTypeRegistry::RegisterType(const AnyType& t) { RegisterType(t.GetTypeName(), t); }
void AnyTypeRegistry::RegisterType(const std::string& name, const AnyType& t)
{
  if (name.empty()) throw InvalidOperationException("RegisterType: no name");
  if (HasType(name)) { if (GetType(name) == t) return; throw InvalidOperationException("RegisterType: name in use"); }
  m_types.emplace_back(name, t);
}
bool AnyTypeRegistry::HasType(const std::string& name) const
{
  for (const char* s : kScalarNames) if (name == s) return true;
  for (const auto& t : m_types) if (t.first == name) return true;
  return false;
}
AnyType AnyTypeRegistry::GetType(const std::string& name) const
{
  for (int i = 0; i < 14; i++) if (name == kScalarNames[i]) return AnyType((TypeCode)i);
  for (const auto& t : m_types) if (t.first == name) return t.second;
  throw InvalidOperationException("GetType: unknown type");
}

// ---- helpers
AnyValue EmptyStruct(const std::string& name) { return AnyValue(AnyType::MakeStruct(name)); }
AnyType EmptyStructType(const std::string& name) { return AnyType::MakeStruct(name); }
AnyValue ArrayValue(std::initializer_list<AnyValue> elements, const std::string& name)
{
  if (elements.size() == 0) throw InvalidOperationException("ArrayValue: no elements");
  AnyValue r(0, elements.begin()->GetType(), name);
  for (const auto& e : elements) r.AddElement(e);
  return r;
}
bool IsEmptyValue(const AnyValue& v) { return v.GetTypeCode() == TypeCode::Empty; }
bool IsStructValue(const AnyValue& v) { return v.GetTypeCode() == TypeCode::Struct; }
bool IsArrayValue(const AnyValue& v) { return v.GetTypeCode() == TypeCode::Array; }
bool IsScalarValue(const AnyValue& v) { return v.GetTypeCode() > TypeCode::Empty && v.GetTypeCode() < TypeCode::Struct; }
bool IsEmptyType(const AnyType& v) { return v.GetTypeCode() == TypeCode::Empty; }
bool IsStructType(const AnyType& v) { return v.GetTypeCode() == TypeCode::Struct; }
bool IsArrayType(const AnyType& v) { return v.GetTypeCode() == TypeCode::Array; }
bool IsScalarType(const AnyType& v) { return v.GetTypeCode() > TypeCode::Empty && v.GetTypeCode() < TypeCode::Struct; }
bool TryAssign(AnyValue& dest, const AnyValue& src)
{ try { dest = src; } catch (const MessageException&) { return false; } return true; }
bool TryConvert(AnyValue& dest, const AnyValue& src)
{ try { dest.ConvertFrom(src); } catch (const MessageException&) { return false; } return true; }
bool TryAssignIfEmptyOrConvert(AnyValue& dest, const AnyValue& src) { return IsEmptyValue(dest) ? TryAssign(dest, src) : TryConvert(dest, src); }

CompareResult Compare(const AnyValue& l, const AnyValue& r)
{
  if (l.GetTypeCode() == TypeCode::String && r.GetTypeCode() == TypeCode::String)
  { int c = l.AsString().compare(r.AsString()); return c == 0 ? CompareResult::Equivalent : c < 0 ? CompareResult::Less : CompareResult::Greater; }
  if (!l.IsArithmetic() || !r.IsArithmetic()) return CompareResult::Unordered;
  if (l.IsFloat() || r.IsFloat())
  {
    float64 a = l.As<float64>(), b = r.As<float64>();
    return a < b ? CompareResult::Less : a > b ? CompareResult::Greater : a == b ? CompareResult::Equivalent : CompareResult::Unordered;
  }
  uint64 a = l.Bits(), b = r.Bits(); bool nl = !l.IsUnsigned() && (int64)a < 0, nr = !r.IsUnsigned() && (int64)b < 0;
  if (nl != nr) return nl ? CompareResult::Less : CompareResult::Greater;
  if (a == b) return CompareResult::Equivalent;
  return (nl ? (int64)a < (int64)b : a < b) ? CompareResult::Less : CompareResult::Greater;
}
static bool Step(AnyValue& v, int d)
{
  switch (v.GetTypeCode())
  {
#define ST(code, T, U) case TypeCode::code: v = AnyValue((T)(U)((U)v.As<T>() + (U)d)); return true;
    ST(Char8, char8, uint8) ST(Int8, int8, uint8) ST(UInt8, uint8, uint8) ST(Int16, int16, uint16) ST(UInt16, uint16, uint16)
    ST(Int32, int32, uint32) ST(UInt32, uint32, uint32) ST(Int64, int64, uint64) ST(UInt64, uint64, uint64)
#undef ST
    case TypeCode::Float32: v = AnyValue((float32)(v.As<float32>() + (float32)d)); return true;
    case TypeCode::Float64: v = AnyValue(v.As<float64>() + (float64)d); return true;
    default: return false;
  }
}
bool Increment(AnyValue& v) { return Step(v, 1); }
bool Decrement(AnyValue& v) { return Step(v, -1); }

// ---- JSON
static std::string FloatText(float64 d)
{
  if (d != d) return "nan";
  std::string s; if (d < 0) { s = "-"; d = -d; }
  if (d > 1e18) return s + "inf";
  uint64 i = (uint64)d; uint64 f = (uint64)((d - (float64)i) * 1e9 + 0.5);
  if (f >= 1000000000ull) { i++; f = 0; }
  s += std::to_string(i) + ".";
  std::string t = std::to_string(f); t = std::string(9 - t.size(), '0') + t;
  while (t.size() > 1 && t.back() == '0') t.pop_back();
  return s + t;
}
static void Quote(std::string& out, const std::string& s)
{
  out += '"';
  for (char c : s) { if (c == '"' || c == '\\') out += '\\'; if (c == '\n') out += "\\n"; else out += c; }
  out += '"';
}
static void ValueText(std::string& out, const AnyValue& v)
{
  switch (v.GetTypeCode())
  {
    case TypeCode::Empty: out += "null"; return;
    case TypeCode::Bool: out += v.Bits() ? "true" : "false"; return;
    case TypeCode::String: Quote(out, v.AsString()); return;
    case TypeCode::Float32: case TypeCode::Float64: out += FloatText(v.FloatValue()); return;
    case TypeCode::Struct:
    {
      out += '{'; bool first = true;
      for (const auto& n : v.MemberNames()) { if (!first) out += ','; first = false; Quote(out, n); out += ':'; ValueText(out, v[n]); }
      out += '}'; return;
    }
    case TypeCode::Array:
      out += '[';
      for (std::size_t i = 0; i < v.NumberOfElements(); i++) { if (i) out += ','; ValueText(out, v[i]); }
      out += ']'; return;
    default: out += v.IsUnsigned() ? std::to_string((unsigned long long)v.Bits()) : std::to_string((long long)v.Bits()); return;
  }
}
static void TypeText(std::string& out, const AnyType& t)
{
  out += "{\"type\":"; Quote(out, t.GetTypeName());
  if (t.GetTypeCode() == TypeCode::Struct)
  {
    out += ",\"attributes\":["; bool first = true;
    for (const auto& n : t.MemberNames()) { if (!first) out += ','; first = false; out += '{'; Quote(out, n); out += ':'; TypeText(out, t[n]); out += '}'; }
    out += ']';
  }
  if (t.GetTypeCode() == TypeCode::Array)
  { out += ",\"multiplicity\":" + std::to_string((unsigned long long)t.NumberOfElements()) + ",\"element\":"; TypeText(out, t.ElementType()); }
  out += '}';
}
std::string ValuesToJSONString(const AnyValue& v, bool) { std::string s; ValueText(s, v); return s; }
std::string AnyTypeToJSONString(const AnyType& t, bool) { std::string s; TypeText(s, t); return s; }
std::string AnyValueToJSONString(const AnyValue& v, bool p)
{ return "[{\"encoding\":\"sup-dto/v1.0/JSON\"},{\"datatype\":" + AnyTypeToJSONString(v.GetType(), p) + "},{\"instance\":" + ValuesToJSONString(v, p) + "}]"; }
std::string PrintAnyValue(const AnyValue& v)
{ return IsEmptyValue(v) ? std::string("empty") : v.GetTypeName() + ": " + ValuesToJSONString(v); }

namespace
{
struct Cursor
{
  const std::string& s; std::size_t i = 0;
  explicit Cursor(const std::string& t) : s(t) {}
  void ws() { while (i < s.size() && (s[i] == ' ' || s[i] == '\t' || s[i] == '\n' || s[i] == '\r')) i++; }
  bool end() { ws(); return i >= s.size(); }
  bool is(char c) { ws(); return i < s.size() && s[i] == c; }
  bool eat(char c) { if (!is(c)) return false; i++; return true; }
  bool word(const char* w) { ws(); std::size_t n = __builtin_strlen(w); if (s.compare(i, n, w) != 0) return false; i += n; return true; }
  bool quoted(std::string& out)
  {
    if (!eat('"')) return false;
    out.clear();
    while (i < s.size() && s[i] != '"')
    {
      char c = s[i++];
      if (c == '\\') { if (i >= s.size()) return false; c = s[i++]; if (c == 'n') c = '\n'; else if (c == 't') c = '\t'; else if (c != '"' && c != '\\' && c != '/') return false; }
      out += c;
    }
    if (i >= s.size()) return false;
    i++; return true;
  }
  // a JSON number: integer part exactly when neither fraction nor exponent is present
  bool number(bool& neg, uint64& mant, bool& integral, float64& val)
  {
    ws(); neg = false; integral = true; mant = 0; int exp10 = 0; bool big = false;
    if (i < s.size() && s[i] == '-') { neg = true; i++; }
    if (i >= s.size() || s[i] < '0' || s[i] > '9') return false;
    if (s[i] == '0') { i++; if (i < s.size() && s[i] >= '0' && s[i] <= '9') return false; }
    else while (i < s.size() && s[i] >= '0' && s[i] <= '9')
    {
      uint64 d = (uint64)(s[i] - '0');
      if (mant > (UINT64_MAX - d) / 10) big = true; else mant = mant * 10 + d;
      i++;
    }
    if (big) { integral = false; val = 2e19; return true; }
    if (i < s.size() && s[i] == '.')
    {
      integral = false; i++;
      if (i >= s.size() || s[i] < '0' || s[i] > '9') return false;
      while (i < s.size() && s[i] >= '0' && s[i] <= '9') { if (mant < 100000000000000000ull) { mant = mant * 10 + (uint64)(s[i] - '0'); exp10--; } i++; }
    }
    if (i < s.size() && (s[i] == 'e' || s[i] == 'E'))
    {
      integral = false; i++; bool en = false; int e = 0;
      if (i < s.size() && (s[i] == '+' || s[i] == '-')) { en = s[i] == '-'; i++; }
      if (i >= s.size() || s[i] < '0' || s[i] > '9') return false;
      while (i < s.size() && s[i] >= '0' && s[i] <= '9') { if (e < 1000) e = e * 10 + (s[i] - '0'); i++; }
      exp10 += en ? -e : e;
    }
    val = (float64)mant;
    if (exp10 > 308) { if (mant) return false; }
    if (exp10 < 0)
    { float64 p = 1; int k = exp10 < -340 ? 340 : -exp10; for (int j = 0; j < k; j++) p *= 10; val /= p; }
    else for (int j = 0; j < exp10 && mant; j++) val *= 10;
    if (val > 1.7976931348623157e308) return false;
    if (neg) val = -val;
    return true;
  }
};
template <class T> bool IntValue(bool neg, uint64 mant, AnyValue& v)
{
  if (neg)
  {
    if (!std::is_signed_v<T>) { if (mant) return false; v = AnyValue((T)0); return true; }
    uint64 lim = (uint64)1 << (sizeof(T) * 8 - 1);
    if (mant > lim) return false;
    v = AnyValue((T)(int64)(0 - mant)); return true;
  }
  uint64 lim = std::is_signed_v<T> ? ((uint64)1 << (sizeof(T) * 8 - 1)) - 1 : (uint64)-1 >> (64 - sizeof(T) * 8);
  if (mant > lim) return false;
  v = AnyValue((T)mant); return true;
}
bool Typed(Cursor& c, const AnyType& t, AnyValue& v)
{
  switch (t.GetTypeCode())
  {
    case TypeCode::Empty: if (!c.word("null")) return false; v = AnyValue(); return true;
    case TypeCode::Bool: if (c.word("true")) { v = AnyValue(true); return true; } if (c.word("false")) { v = AnyValue(false); return true; } return false;
    case TypeCode::String: { std::string s; if (!c.quoted(s)) return false; v = AnyValue(s); return true; }
    case TypeCode::Struct:
    {
      v = AnyValue(t); if (!c.eat('{')) return false; std::size_t n = 0;
      for (const auto& name : t.MemberNames())
      {
        if (n++ && !c.eat(',')) return false;
        std::string k; if (!c.quoted(k) || k != name || !c.eat(':')) return false;
        AnyValue m; if (!Typed(c, t[name], m)) return false;
        v[name] = m;
      }
      return c.eat('}');
    }
    case TypeCode::Array:
    { // an array type without elements accepts any number of them
      v = AnyValue(0, t.ElementType(), t.GetTypeName()); if (!c.eat('[')) return false;
      if (!c.is(']')) do { AnyValue e; if (!Typed(c, t.ElementType(), e)) return false; v.AddElement(e); } while (c.eat(','));
      if (!c.eat(']')) return false;
      return t.NumberOfElements() == 0 || t.NumberOfElements() == v.NumberOfElements();
    }
    default: break;
  }
  bool neg, integral; uint64 mant; float64 val;
  if (!c.number(neg, mant, integral, val)) return false;
  if (t.GetTypeCode() == TypeCode::Float64) { v = AnyValue(val); return true; }
  if (t.GetTypeCode() == TypeCode::Float32) { v = AnyValue((float32)val); return true; }
  if (!integral) return false;
  switch (t.GetTypeCode())
  {
    case TypeCode::Char8: return IntValue<char8>(neg, mant, v);
    case TypeCode::Int8: return IntValue<int8>(neg, mant, v);
    case TypeCode::UInt8: return IntValue<uint8>(neg, mant, v);
    case TypeCode::Int16: return IntValue<int16>(neg, mant, v);
    case TypeCode::UInt16: return IntValue<uint16>(neg, mant, v);
    case TypeCode::Int32: return IntValue<int32>(neg, mant, v);
    case TypeCode::UInt32: return IntValue<uint32>(neg, mant, v);
    case TypeCode::Int64: return IntValue<int64>(neg, mant, v);
    case TypeCode::UInt64: return IntValue<uint64>(neg, mant, v);
    default: return false;
  }
}
bool TypeFrom(Cursor& c, const AnyTypeRegistry* reg, AnyType& t)
{
  std::string key, name; if (!c.eat('{') || !c.quoted(key) || key != "type" || !c.eat(':') || !c.quoted(name)) return false;
  if (c.eat('}'))
  {
    for (int i = 0; i < 14; i++) if (name == kScalarNames[i]) { t = AnyType((TypeCode)i); return true; }
    if (reg && reg->HasType(name)) { t = reg->GetType(name); return true; }
    return false;
  }
  if (!c.eat(',') || !c.quoted(key) || !c.eat(':')) return false;
  if (key == "attributes")
  {
    t = AnyType::MakeStruct(name); if (!c.eat('[')) return false;
    if (!c.is(']')) do
    {
      std::string mem; AnyType mt; if (!c.eat('{') || !c.quoted(mem) || !c.eat(':') || !TypeFrom(c, reg, mt) || !c.eat('}')) return false;
      if (!ValidMemberName(mem) || t.HasField(mem)) return false;
      t.AddMember(mem, mt);
    } while (c.eat(','));
    return c.eat(']') && c.eat('}');
  }
  if (key == "multiplicity")
  {
    bool neg, integral; uint64 mant; float64 val; AnyType et;
    if (!c.number(neg, mant, integral, val) || neg || !integral || mant > 4096 || !c.eat(',') || !c.quoted(key) || key != "element" || !c.eat(':') || !TypeFrom(c, reg, et)) return false;
    t = AnyType((std::size_t)mant, et, name); return c.eat('}');
  }
  if (key == "element")
  { AnyType et; if (!c.eat('}') && TypeFrom(c, reg, et)) { t = AnyType(0, et, name); return c.eat('}'); } return false; }
  return false;
}
struct Files { std::map<std::string, AnyValue> values; std::map<std::string, std::string> texts; bool writable = true; int writes = 0; };
Files& files() { static Files f; return f; }
}  // namespace

JSONAnyValueParser::JSONAnyValueParser() = default;
JSONAnyValueParser::~JSONAnyValueParser() = default;
bool JSONAnyValueParser::ParseString(const std::string&, const AnyTypeRegistry*) { return false; }
bool JSONAnyValueParser::ParseFile(const std::string& filename, const AnyTypeRegistry*)
{ auto it = files().values.find(filename); if (it == files().values.end()) return false; m_value.reset(new AnyValue(it->second)); return true; }
bool JSONAnyValueParser::TypedParseString(const AnyType& type, const std::string& json)
{ Cursor c(json); AnyValue v; if (!Typed(c, type, v) || !c.end()) return false; m_value.reset(new AnyValue(std::move(v))); return true; }
bool JSONAnyValueParser::TypedParseFile(const AnyType& type, const std::string& filename)
{ auto it = files().texts.find(filename); return it != files().texts.end() && TypedParseString(type, it->second); }
AnyValue JSONAnyValueParser::MoveAnyValue() { AnyValue r; if (m_value) { r = std::move(*m_value); m_value.reset(); } return r; }
JSONAnyTypeParser::JSONAnyTypeParser() = default;
JSONAnyTypeParser::~JSONAnyTypeParser() = default;
bool JSONAnyTypeParser::ParseString(const std::string& json, const AnyTypeRegistry* reg)
{ Cursor c(json); AnyType t; if (!TypeFrom(c, reg, t) || !c.end()) return false; m_type.reset(new AnyType(std::move(t))); return true; }
bool JSONAnyTypeParser::ParseFile(const std::string& filename, const AnyTypeRegistry* reg)
{ auto it = files().texts.find(filename); return it != files().texts.end() && ParseString(it->second, reg); }
AnyType JSONAnyTypeParser::MoveAnyType() { AnyType r; if (m_type) { r = std::move(*m_type); m_type.reset(); } return r; }
void AnyValueToJSONFile(const AnyValue& v, const std::string& filename, bool)
{ if (!files().writable || filename.empty()) throw SerializeException("cannot write file"); files().values[filename] = v; files().writes++; }

namespace model
{
void PutFile(const std::string& name, const AnyValue& value) { files().values[name] = value; }
bool HasFile(const std::string& name) { return files().values.count(name) || files().texts.count(name); }
void PutTextFile(const std::string& name, const std::string& text) { files().texts[name] = text; }
void SetWritable(bool on) { files().writable = on; }
void ClearFiles() { files() = Files(); }
int FileWrites() { return files().writes; }
}
}  // namespace dto
}  // namespace sup

// Stand-in for the sup-dto library, which is not installed here.  It implements, with value semantics, the part of its interface
// that oac-tree uses.  Trusted: the checks that use it say so.
#ifndef VP_SUP_DTO_MODEL_H
#define VP_SUP_DTO_MODEL_H
#include <cstddef>
#include <cstdint>
#include <exception>
#include <initializer_list>
#include <list>
#include <memory>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
namespace sup
{
namespace dto
{
using boolean = bool;
using char8 = char;
using int8 = std::int8_t;
using uint8 = std::uint8_t;
using int16 = std::int16_t;
using uint16 = std::uint16_t;
using int32 = std::int32_t;
using uint32 = std::uint32_t;
using int64 = std::int64_t;
using uint64 = std::uint64_t;
using float32 = float;
using float64 = double;

enum class TypeCode { Empty = 0, Bool, Char8, Int8, UInt8, Int16, UInt16, Int32, UInt32, Int64, UInt64, Float32, Float64, String, Struct, Array };

class MessageException : public std::exception
{
public:
  explicit MessageException(std::string m) : m_message(std::move(m)) {}
  const char* what() const noexcept override { return m_message.c_str(); }
private:
  std::string m_message;
};
class InvalidOperationException : public MessageException { public: using MessageException::MessageException; };
class InvalidConversionException : public MessageException { public: using MessageException::MessageException; };
class SerializeException : public MessageException { public: using MessageException::MessageException; };
class ParseException : public MessageException { public: using MessageException::MessageException; };

class AnyType
{
public:
  AnyType();
  AnyType(TypeCode code);
  AnyType(std::initializer_list<std::pair<std::string, AnyType>> members, const std::string& name = {});
  AnyType(std::size_t size, const AnyType& elem, const std::string& name = {});
  AnyType(const AnyType&);
  AnyType(AnyType&&) noexcept;
  AnyType& operator=(const AnyType&);
  AnyType& operator=(AnyType&&) noexcept;
  ~AnyType();
  TypeCode GetTypeCode() const { return m_code; }
  std::string GetTypeName() const;
  AnyType& AddMember(const std::string& name, const AnyType& type);
  std::vector<std::string> MemberNames() const;
  std::size_t NumberOfMembers() const;
  std::size_t NumberOfElements() const;
  AnyType ElementType() const;
  bool HasField(const std::string& name) const;
  const AnyType& operator[](const std::string& name) const;
  bool operator==(const AnyType& o) const;
  bool operator!=(const AnyType& o) const { return !(*this == o); }
  static AnyType MakeStruct(const std::string& name);
private:
  struct Ext;
  TypeCode m_code;
  std::unique_ptr<Ext> m_ext;
};
struct AnyType::Ext
{
  std::string name;
  std::vector<std::pair<std::string, AnyType>> members;
  std::size_t size = 0;
  AnyType elem;
};

extern const AnyType EmptyType;
extern const AnyType BooleanType;
extern const AnyType Character8Type;
extern const AnyType SignedInteger8Type;
extern const AnyType UnsignedInteger8Type;
extern const AnyType SignedInteger16Type;
extern const AnyType UnsignedInteger16Type;
extern const AnyType SignedInteger32Type;
extern const AnyType UnsignedInteger32Type;
extern const AnyType SignedInteger64Type;
extern const AnyType UnsignedInteger64Type;
extern const AnyType Float32Type;
extern const AnyType Float64Type;
extern const AnyType StringType;

class AnyValue
{
public:
  AnyValue();
  AnyValue(boolean v);
  AnyValue(char8 v);
  AnyValue(int8 v);
  AnyValue(uint8 v);
  AnyValue(int16 v);
  AnyValue(uint16 v);
  AnyValue(int32 v);
  AnyValue(uint32 v);
  AnyValue(int64 v);
  AnyValue(uint64 v);
  AnyValue(float32 v);
  AnyValue(float64 v);
  AnyValue(const std::string& v);
  AnyValue(const char* v);
  explicit AnyValue(const AnyType& type);
  AnyValue(const AnyType& type, const AnyValue& value);
  AnyValue(std::initializer_list<std::pair<std::string, AnyValue>> members, const std::string& name = {});
  AnyValue(std::size_t size, const AnyType& elem, const std::string& name = {});
  AnyValue(const AnyValue&);
  AnyValue(AnyValue&&) noexcept;
  AnyValue& operator=(const AnyValue&);
  AnyValue& operator=(AnyValue&&);
  ~AnyValue();
  TypeCode GetTypeCode() const { return m_code; }
  AnyType GetType() const;
  std::string GetTypeName() const;
  AnyValue& AddMember(const std::string& name, const AnyValue& value);
  std::vector<std::string> MemberNames() const;
  std::size_t NumberOfMembers() const;
  AnyValue& AddElement(const AnyValue& value);
  std::size_t NumberOfElements() const;
  AnyValue& ConvertFrom(const AnyValue& other);
  bool HasField(const std::string& name) const;
  AnyValue& operator[](const std::string& name);
  const AnyValue& operator[](const std::string& name) const;
  AnyValue& operator[](const char* name) { return (*this)[std::string(name)]; }
  const AnyValue& operator[](const char* name) const { return (*this)[std::string(name)]; }
  AnyValue& operator[](std::size_t i);
  const AnyValue& operator[](std::size_t i) const;
  AnyValue& operator[](int i) { return (*this)[(std::size_t)i]; }
  const AnyValue& operator[](int i) const { return (*this)[(std::size_t)i]; }
  bool operator==(const AnyValue& o) const;
  bool operator!=(const AnyValue& o) const { return !(*this == o); }
  template <class T> T As() const
  {
    if constexpr (std::is_same_v<T, std::string>) return AsString();
    else { T r{}; if (!GetScalar(r)) throw InvalidConversionException("As: conversion is not possible"); return r; }
  }
  template <class T> bool As(T& value) const
  {
    if constexpr (std::is_same_v<T, std::string>) { if (m_code != TypeCode::String) return false; value = AsString(); return true; }
    else { T r{}; if (!GetScalar(r)) return false; value = r; return true; }
  }
  bool IsArithmetic() const { return m_code >= TypeCode::Bool && m_code <= TypeCode::Float64; }
  bool IsFloat() const { return m_code == TypeCode::Float32 || m_code == TypeCode::Float64; }
  bool IsUnsigned() const;
  uint64 Bits() const { return m_bits; }                 // integers: value sign- or zero-extended to 64 bits
  float64 FloatValue() const;
  std::string AsString() const;
  bool Locked() const { return m_locked; }
private:
  struct Ext;
  template <class T> bool GetScalar(T& out) const
  {
    if (!IsArithmetic()) return false;
    if constexpr (std::is_floating_point_v<T>) { out = (T)(IsFloat() ? FloatValue() : IsUnsigned() ? (float64)m_bits : (float64)(int64)m_bits); return true; }
    else if constexpr (std::is_same_v<T, bool>)
    { if (IsFloat()) out = FloatValue() != 0.0; else out = m_bits != 0; return true; }
    else
    {
      if (IsFloat()) return false;
      out = (T)m_bits;
      if (IsUnsigned()) return std::is_signed_v<T> ? (uint64)(int64)out == m_bits && (int64)m_bits >= 0 : (uint64)out == m_bits;
      if (std::is_signed_v<T>) return (int64)out == (int64)m_bits;
      return (int64)m_bits >= 0 && (uint64)out == m_bits;
    }
  }
  void Assign(const AnyValue& o);
  AnyValue* Find(const std::string& path) const;
  Ext& ext();
  TypeCode m_code;
  bool m_locked;
  uint64 m_bits;
  std::unique_ptr<Ext> m_ext;
};
struct AnyValue::Ext
{
  std::string str;     // string value, or the type name of a structure or array
  std::list<std::pair<std::string, AnyValue>> members;   // references to members stay valid while members are added
  std::vector<AnyValue> elems;
  AnyType elem;
};

class AnyTypeRegistry
{
public:
  AnyTypeRegistry();
  ~AnyTypeRegistry();
  void RegisterType(const AnyType& type);
  void RegisterType(const std::string& name, const AnyType& type);
  bool HasType(const std::string& name) const;
  AnyType GetType(const std::string& name) const;
private:
  std::vector<std::pair<std::string, AnyType>> m_types;
};

AnyValue EmptyStruct(const std::string& name = {});
AnyType EmptyStructType(const std::string& name = {});
AnyValue ArrayValue(std::initializer_list<AnyValue> elements, const std::string& name = {});
AnyType ArrayType(std::initializer_list<AnyType> elements, const std::string& name = {});

bool IsEmptyValue(const AnyValue& v);
bool IsStructValue(const AnyValue& v);
bool IsArrayValue(const AnyValue& v);
bool IsScalarValue(const AnyValue& v);
bool IsEmptyType(const AnyType& v);
bool IsStructType(const AnyType& v);
bool IsArrayType(const AnyType& v);
bool IsScalarType(const AnyType& v);
bool TryAssign(AnyValue& dest, const AnyValue& src);
bool TryConvert(AnyValue& dest, const AnyValue& src);
bool TryAssignIfEmptyOrConvert(AnyValue& dest, const AnyValue& src);

enum class CompareResult { Equivalent, Less, Greater, Unordered };
CompareResult Compare(const AnyValue& l, const AnyValue& r);
bool Increment(AnyValue& v);
bool Decrement(AnyValue& v);

std::string ValuesToJSONString(const AnyValue& v, bool pretty = false);
std::string AnyValueToJSONString(const AnyValue& v, bool pretty = false);
std::string AnyTypeToJSONString(const AnyType& t, bool pretty = false);
std::string PrintAnyValue(const AnyValue& v);
void AnyValueToJSONFile(const AnyValue& v, const std::string& filename, bool pretty = false);

class JSONAnyValueParser
{
public:
  JSONAnyValueParser();
  ~JSONAnyValueParser();
  bool ParseString(const std::string& json, const AnyTypeRegistry* registry = nullptr);
  bool ParseFile(const std::string& filename, const AnyTypeRegistry* registry = nullptr);
  bool TypedParseString(const AnyType& type, const std::string& json);
  bool TypedParseFile(const AnyType& type, const std::string& filename);
  AnyValue MoveAnyValue();
private:
  std::unique_ptr<AnyValue> m_value;
};
class JSONAnyTypeParser
{
public:
  JSONAnyTypeParser();
  ~JSONAnyTypeParser();
  bool ParseString(const std::string& json, const AnyTypeRegistry* registry = nullptr);
  bool ParseFile(const std::string& filename, const AnyTypeRegistry* registry = nullptr);
  AnyType MoveAnyType();
private:
  std::unique_ptr<AnyType> m_type;
};

// what the harness may configure: the content of the file system seen by the JSON file functions
namespace model
{
// values written to, and read from, "files"; absent: no such file
void PutFile(const std::string& name, const AnyValue& value);
bool HasFile(const std::string& name);
void PutTextFile(const std::string& name, const std::string& text);
void SetWritable(bool on);   // false: writing a file throws SerializeException
void ClearFiles();
int FileWrites();
}
}  // namespace dto
}  // namespace sup
#endif

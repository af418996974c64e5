// Stand-in: a read-only string-valued JSON document on protobuf's parser.
#pragma once
#include <stdexcept>
#include <string>
#include "google/protobuf/struct.pb.h"
#include "google/protobuf/util/json_util.h"
namespace rapidjson {
using SizeType = unsigned;
class Value {
 public:
  google::protobuf::Value v;
  const char* GetString() const { Need(IsString()); return v.string_value().c_str(); }
  SizeType GetStringLength() const { Need(IsString()); return v.string_value().size(); }
  bool IsString() const { return v.kind_case() == google::protobuf::Value::kStringValue; }
  bool IsObject() const { return v.kind_case() == google::protobuf::Value::kStructValue; }
  bool HasMember(const char* k) const { return IsObject() && v.struct_value().fields().count(k); }
  bool HasMember(const std::string& k) const { return HasMember(k.c_str()); }
  Value operator[](const char* k) const { Need(HasMember(k)); return Value{v.struct_value().fields().at(k)}; }
  static void Need(bool ok) { if (!ok) throw std::runtime_error("rapidjson assertion"); }
};
class Document : public Value {
 public:
  Document& Parse(const char* s) {
    bad_ = !google::protobuf::util::JsonStringToMessage(s, &v).ok();
    return *this;
  }
  bool HasParseError() const { return bad_; }
 private:
  bool bad_ = false;
};
}  // namespace rapidjson

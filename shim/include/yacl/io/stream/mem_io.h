#pragma once
#include <sstream>
#include "yacl/io/stream/interface.h"
namespace yacl::io {
class MemInputStream : public InputStream {
 public:
  explicit MemInputStream(const std::string& s) : in_(s), len_(s.size()) {}
  bool Eof() const override { return in_.eof(); }
  MemInputStream& GetLine(std::string* r, char d) override { std::getline(in_, *r, d); return *this; }
  MemInputStream& Read(void* b, size_t n) override { in_.read(static_cast<char*>(b), n); return *this; }
  MemInputStream& Seekg(size_t p) override { in_.clear(); in_.seekg(p); return *this; }
  size_t Tellg() override { return in_.tellg(); }
  size_t GetLength() const override { return len_; }
  const std::string& GetName() const override { return name_; }
  void Close() override {}
  bool operator!() const override { return !in_; }
  explicit operator bool() const override { return !!in_; }
 private:
  std::istringstream in_;
  size_t len_;
  std::string name_ = "mem";
};
class MemOutputStream : public OutputStream {
 public:
  explicit MemOutputStream(std::string* o) : o_(o) { o_->clear(); }
  void Write(const void* b, size_t n) override { buf_.append(static_cast<const char*>(b), n); }
  void Write(std::string_view s) override { buf_.append(s); }
  const std::string& GetName() const override { return name_; }
  void Close() override { *o_ = buf_; }
  void Flush() override { *o_ = buf_; }
  size_t Tellp() override { return buf_.size(); }
 private:
  std::string* o_;
  std::string buf_, name_ = "mem";
};
}  // namespace yacl::io

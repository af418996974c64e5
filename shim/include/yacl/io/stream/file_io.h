#pragma once
#include <filesystem>
#include <fstream>
#include "yacl/io/stream/interface.h"
namespace yacl::io {
class FileInputStream : public InputStream {
 public:
  explicit FileInputStream(std::string f) : name_(std::move(f)) {
    in_.open(name_, std::ios::binary);
    YACL_ENFORCE(in_.good(), "open file {} failed", name_);
    std::error_code ec;
    len_ = std::filesystem::file_size(name_, ec);
  }
  bool Eof() const override { return in_.eof(); }
  FileInputStream& GetLine(std::string* r, char d) override { std::getline(in_, *r, d); return *this; }
  FileInputStream& Read(void* b, size_t n) override { in_.read(static_cast<char*>(b), n); return *this; }
  FileInputStream& Seekg(size_t p) override { in_.clear(); in_.seekg(p); return *this; }
  size_t Tellg() override { return in_.tellg(); }
  size_t GetLength() const override { return len_; }
  const std::string& GetName() const override { return name_; }
  void Close() override { in_.close(); }
  bool operator!() const override { return !in_; }
  explicit operator bool() const override { return !!in_; }
 private:
  std::string name_;
  mutable std::ifstream in_;
  size_t len_ = 0;
};
class FileOutputStream : public OutputStream {
 public:
  explicit FileOutputStream(std::string f, bool trunc = true, bool = true) : name_(std::move(f)) {
    auto dir = std::filesystem::path(name_).parent_path();
    if (!dir.empty() && !std::filesystem::exists(dir)) std::filesystem::create_directories(dir);
    out_.open(name_, std::ios::binary | (trunc ? std::ios::trunc : std::ios::app));
    YACL_ENFORCE(out_.good(), "open file {} failed", name_);
    out_.exceptions(std::ios::badbit | std::ios::failbit);
  }
  ~FileOutputStream() override {
    out_.exceptions(std::ios::goodbit);
    if (out_.is_open()) out_.close();
  }
  void Write(const void* b, size_t n) override {
    out_.write(static_cast<const char*>(b), n);
    YACL_ENFORCE(out_.good(), "write file {} failed", name_);
  }
  void Write(std::string_view s) override { Write(s.data(), s.size()); }
  const std::string& GetName() const override { return name_; }
  void Close() override { if (out_.is_open()) { out_.close(); YACL_ENFORCE(!out_.fail(), "close {} failed", name_); } }
  void Flush() override { out_.flush(); }
  size_t Tellp() override { return out_.tellp(); }
 private:
  std::string name_;
  std::ofstream out_;
};
}  // namespace yacl::io

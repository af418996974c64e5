#pragma once
#include <cstddef>
#include <memory>
#include <string>
#include <string_view>
#include "yacl/base/exception.h"
namespace yacl::io {
class InputStream {
 public:
  virtual ~InputStream() = default;
  virtual bool Eof() const = 0;
  virtual InputStream& GetLine(std::string* ret, char delim = '\n') = 0;
  virtual InputStream& Read(void* buf, size_t n) = 0;
  virtual InputStream& Seekg(size_t pos) = 0;
  virtual size_t Tellg() = 0;
  virtual size_t GetLength() const = 0;
  virtual const std::string& GetName() const = 0;
  virtual void Close() = 0;
  virtual bool operator!() const = 0;
  virtual explicit operator bool() const = 0;
};
class OutputStream {
 public:
  virtual ~OutputStream() = default;
  virtual void Write(const void* buf, size_t n) = 0;
  virtual void Write(std::string_view s) = 0;
  virtual const std::string& GetName() const = 0;
  virtual void Close() = 0;
  virtual void Flush() = 0;
  virtual size_t Tellp() = 0;
};
}  // namespace yacl::io

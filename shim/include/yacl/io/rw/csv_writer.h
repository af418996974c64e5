#pragma once
#include <string>
#include "fmt/format.h"
#include "yacl/io/rw/writer.h"
namespace yacl::io {
class CsvWriter : public Writer {
 public:
  CsvWriter(WriterOptions o, std::unique_ptr<OutputStream> out, char fd = ',', char ld = '\n')
      : o_(std::move(o)), out_(std::move(out)), fd_(fd), ld_(ld) {}
  void Init() override {
    std::string s;
    for (size_t i = 0; i < o_.file_schema.feature_names.size(); ++i) {
      if (i) s += fd_;
      s += o_.file_schema.feature_names[i];
    }
    out_->Write(s + ld_);
  }
  bool Add(const ColumnVectorBatch& b) override {
    for (size_t r = 0; r < b.Shape().rows; ++r) {
      std::string s;
      for (size_t c = 0; c < b.Shape().cols; ++c) {
        if (c) s += fd_;
        switch (o_.file_schema.feature_types[c]) {
          case Schema::STRING: s += b.At<std::string>(r, c); break;
          case Schema::FLOAT: s += fmt::format("{}", b.At<float>(r, c)); break;
          default: s += fmt::format("{}", b.At<double>(r, c));
        }
      }
      out_->Write(s + ld_);
    }
    return true;
  }
  void Flush() override { out_->Flush(); }
  void Close() override { out_->Close(); }
 private:
  WriterOptions o_;
  std::unique_ptr<OutputStream> out_;
  char fd_, ld_;
};
}  // namespace yacl::io

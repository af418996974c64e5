#pragma once
#include <string>
#include <vector>
#include "absl/strings/ascii.h"
#include "absl/strings/numbers.h"
#include "absl/strings/str_split.h"
#include "yacl/io/rw/reader.h"
namespace yacl::io {
class CsvReader : public Reader {
 public:
  CsvReader(ReaderOptions o, std::unique_ptr<InputStream> in, char fd = ',', char ld = '\n')
      : o_(std::move(o)), in_(std::move(in)), fd_(fd), ld_(ld) {}
  void Init() override {
    YACL_ENFORCE(o_.file_schema.feature_names.size() == o_.file_schema.feature_types.size());
    std::string line;
    YACL_ENFORCE(static_cast<bool>(in_->GetLine(&line, ld_)), "empty csv file {}", in_->GetName());
    std::vector<std::string> heads;
    for (auto t : absl::StrSplit(line, fd_)) heads.emplace_back(absl::StripAsciiWhitespace(t));
    ncol_ = heads.size();
    for (const auto& n : o_.file_schema.feature_names) {
      size_t k = 0;
      while (k < heads.size() && heads[k] != n) ++k;
      YACL_ENFORCE(k < heads.size(), "feature {} not found in {}", n, in_->GetName());
      for (size_t j = k + 1; j < heads.size(); ++j) YACL_ENFORCE(heads[j] != n, "repeated feature name {}", n);
      sel_.push_back(k);
    }
  }
  bool Next(ColumnVectorBatch* b) override {
    b->Clear();
    std::vector<StringColumnVector> cols(sel_.size());
    size_t n = 0;
    std::string line;
    while (n < o_.batch_size && in_->GetLine(&line, ld_)) {
      if (absl::StripAsciiWhitespace(line).empty()) continue;
      std::vector<absl::string_view> tok = absl::StrSplit(line, fd_);
      YACL_ENFORCE(tok.size() == ncol_, "mismatched csv row: {}", line);
      for (size_t i = 0; i < sel_.size(); ++i) cols[i].emplace_back(absl::StripAsciiWhitespace(tok[sel_[i]]));
      ++n;
    }
    if (n == 0) return false;
    for (size_t i = 0; i < cols.size(); ++i) {
      if (o_.file_schema.feature_types[i] == Schema::STRING) { b->AppendCol(std::move(cols[i])); continue; }
      if (o_.file_schema.feature_types[i] == Schema::FLOAT) {
        FloatColumnVector f;
        for (auto& s : cols[i]) { float v; YACL_ENFORCE(absl::SimpleAtof(s, &v)); f.push_back(v); }
        b->AppendCol(std::move(f));
      } else {
        DoubleColumnVector f;
        for (auto& s : cols[i]) { double v; YACL_ENFORCE(absl::SimpleAtod(s, &v)); f.push_back(v); }
        b->AppendCol(std::move(f));
      }
    }
    return true;
  }
  size_t ColumnNum() const override { return sel_.size(); }
 private:
  ReaderOptions o_;
  std::unique_ptr<InputStream> in_;
  char fd_, ld_;
  size_t ncol_ = 0;
  std::vector<size_t> sel_;
};
}  // namespace yacl::io

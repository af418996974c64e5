#pragma once
#include "yacl/io/rw/schema_and_batch.h"
#include "yacl/io/stream/interface.h"
namespace yacl::io {
class Reader {
 public:
  virtual ~Reader() = default;
  virtual void Init() = 0;
  virtual bool Next(ColumnVectorBatch* data) = 0;
  virtual size_t ColumnNum() const = 0;
};
}

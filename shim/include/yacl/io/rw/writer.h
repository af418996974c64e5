#pragma once
#include "yacl/io/rw/schema_and_batch.h"
#include "yacl/io/stream/interface.h"
namespace yacl::io {
class Writer {
 public:
  virtual ~Writer() = default;
  virtual void Init() = 0;
  virtual bool Add(const ColumnVectorBatch& data) = 0;
  virtual void Flush() = 0;
  virtual void Close() = 0;
};
}

#pragma once
#include <memory>
#include <string>
#include <vector>
#include "yacl/base/exception.h"
#include "fmt/format.h"
#include "yacl/link/context.h"
namespace yacl::link {
std::vector<Buffer> AllGather(const std::shared_ptr<Context>& ctx, ByteContainerView in, std::string_view tag);
std::vector<Buffer> Gather(const std::shared_ptr<Context>& ctx, ByteContainerView in, size_t root, std::string_view tag);
Buffer Broadcast(const std::shared_ptr<Context>& ctx, ByteContainerView in, size_t root, std::string_view tag);
Buffer Scatter(const std::shared_ptr<Context>& ctx, const std::vector<Buffer>& in, size_t root, std::string_view tag);
void Barrier(const std::shared_ptr<Context>& ctx, std::string_view tag);
class ILinkFactory {
 public:
  virtual ~ILinkFactory() = default;
  virtual std::shared_ptr<Context> CreateContext(const ContextDesc& desc, size_t self_rank) = 0;
};
class FactoryMem : public ILinkFactory {
 public:
  std::shared_ptr<Context> CreateContext(const ContextDesc& desc, size_t self_rank) override;
};
class FactoryBrpc : public FactoryMem {};
}  // namespace yacl::link

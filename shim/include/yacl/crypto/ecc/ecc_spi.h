#pragma once
#include <memory>
#include <string>
#include <string_view>
#include "yacl/base/buffer.h"
#include "yacl/base/byte_container_view.h"
#include "yacl/crypto/ecc/ec_point.h"
#include "yacl/utils/spi/spi_factory.h"
namespace yacl::crypto {
enum class HashToCurveStrategy {
  TryAndIncrement_SHA2, TryAndIncrement_SHA3, TryAndIncrement_SM, TryAndIncrement_BLAKE3,
  TryAndRehash_SHA2, TryAndRehash_SHA3, TryAndRehash_SM, TryAndRehash_BLAKE3,
  HashAsPointX_SHA2, HashAsPointX_SHA3, HashAsPointX_SM, HashAsPointX_BLAKE3,
  SHA512_SSWU_RO_, Autonomous,
};
class EcGroup {
 public:
  virtual ~EcGroup() = default;
  virtual std::string GetCurveName() const = 0;
  virtual EcPoint Mul(const EcPoint& p, const math::MPInt& k) const = 0;
  virtual EcPoint MulBase(const math::MPInt& k) const = 0;
  virtual Buffer SerializePoint(const EcPoint& p) const = 0;
  virtual EcPoint DeserializePoint(ByteContainerView b) const = 0;
  virtual uint64_t GetSerializeLength() const = 0;
  virtual EcPoint HashToCurve(HashToCurveStrategy s, std::string_view in) const = 0;
  EcPoint HashToCurve(std::string_view in) const { return HashToCurve(HashToCurveStrategy::Autonomous, in); }
};
class EcGroupFactory {
 public:
  static EcGroupFactory& Instance();
  std::unique_ptr<EcGroup> Create(const std::string& name, const SpiArg& lib = {});
};
}  // namespace yacl::crypto

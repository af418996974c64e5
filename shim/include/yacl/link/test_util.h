#pragma once
#include <memory>
#include <string>
#include <vector>
#include <future>
#include "yacl/link/link.h"
namespace yacl::link::test {
std::vector<std::shared_ptr<Context>> SetupWorld(const std::string& id, size_t n);
std::vector<std::shared_ptr<Context>> SetupWorld(size_t n);
}

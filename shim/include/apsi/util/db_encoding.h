#pragma once
namespace apsi::util {}

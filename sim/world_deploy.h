#pragma once
#include "core.h"
namespace sim {
Plan deploy_gen(const std::string& profile, uint64_t seed);
}

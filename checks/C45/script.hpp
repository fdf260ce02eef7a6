#pragma once
#include <vector>
#include <cstddef>
// the harness's rand(): the C library's generator, or numbers dictated by the scenario
namespace script { void set(const std::vector<int>& v); void off(); size_t used(); size_t seeds(); unsigned lastSeed(); }

// Read before the sources whose harness summarises the checksum function: calls of this one-line wrapper (decided by C01..C06) stay calls.
#pragma once
#include "novatel_edie/common/crc.hpp"
namespace novatel::edie { template <> __attribute__((noinline)) constexpr uint32_t CalculateBlockCrc32<0xEDB88320UL, true>(const unsigned char* p, uint32_t n, uint32_t init) { return CalculateBlockCrc<uint32_t, 0xEDB88320UL, true>(p, n, init); } }

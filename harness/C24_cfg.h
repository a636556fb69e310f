#pragma once
#include <cstdint>
// one operation executed by one build configuration
struct CfgCall { unsigned type, op; uint64_t k; uint32_t blocks[5][64]; int8_t sign[5]; };      // d, e, a, b, c
struct CfgResult { uint32_t blocks[2][64]; int8_t sign[2]; uint64_t log; };
using CfgRun = void (*)(const CfgCall*, CfgResult*);
using CfgCount = unsigned (*)(unsigned type);

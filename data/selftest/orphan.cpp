// Positive examples of the linkability rules: an overload, a misspelt name, a definition with internal linkage.
#include "neon_sim.h"
int8x8_t vadd_s8(uint8x8_t a, int8x8_t b) { (void)a; return b; }
int8x8_t vaddd_s8(int8x8_t a, int8x8_t b) { (void)a; return b; }
namespace { int8x8_t vsub_s8(int8x8_t a, uint8x8_t b) { (void)b; return a; } }
int8x8_t nsa_use(int8x8_t a, uint8x8_t b) { return vsub_s8(a, b); }

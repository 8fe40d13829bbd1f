// planted: each is right on LP64 with a signed plain char only
#include "neon_sim.h"

extern "C" uint64x2_t vaddl_high_u32(uint32x4_t a, uint32x4_t b)
{
    uint64x2_t r;
    for (int i = 0; i < 2; i++)
        r.val[i] = (unsigned long)a.val[i + 2] + b.val[i + 2];
    return r;
}

extern "C" int16x8_t vmovl_s8(int8x8_t a)
{
    int16x8_t r;
    for (int i = 0; i < 8; i++)
        r.val[i] = (char)a.val[i];
    return r;
}

extern "C" uint32x2_t vshrn_n_u64(uint64x2_t a, const int n)
{
    uint32x2_t r;
    for (int i = 0; i < 2; i++)
        r.val[i] = (uint32_t)(a.val[i] / (1ul << n));
    return r;
}

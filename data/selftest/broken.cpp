// Positive examples: one deliberate breach per rule.  Analysed (never run) on every check run; a rule that
// stays silent on its example stops the check.
#include "neon_sim.h"
#include <atomic>
#include <cfenv>
#include <cmath>
#include <cstdio>
#include <cstdlib>

// C01 / C02: the last structure element comes from past the last memory element
uint8x8x2_t vld2_u8(uint8_t const *ptr)
{
    uint8x8x2_t r;
    for (int i = 0; i < 8; i++)
    {
        r.val[0].val[i] = ptr[2 * i];
        r.val[1].val[i] = ptr[2 * i + 2];
    }
    return r;
}

// C03: lane 3 is never written
int16x4_t vadd_s16(int16x4_t a, int16x4_t b)
{
    int16x4_t r;
    for (int i = 0; i < 3; i++) r.val[i] = a.val[i] + b.val[i];
    return r;
}

// C04
uint8x8_t vrev16_u8(uint8x8_t v)
{
    uint8x8_t r;
    for (int i = 0; i < 8; i++) r.val[i] = v.val[i < 7 ? i ^ 1 : i];
    return r;
}

// C05: converts instead of copying
int32x2_t vreinterpret_s32_f32(float32x2_t v)
{
    int32x2_t r;
    for (int i = 0; i < 2; i++) r.val[i] = v.val[i] > -1e9f && v.val[i] < 1e9f ? (int)v.val[i] : 0;
    return r;
}

// C20: hangs for one value
int16_t vget_lane_s16(int16x4_t v, const int lane)
{
    if (lane < 0 || lane > 3) { fprintf(stderr, "lane\n"); abort(); }
    for (int i = 0; v.val[1] == 77;) (void)i;
    return v.val[lane & 1];
}

// C06, C18
int32x4_t vaddq_s32(int32x4_t a, int32x4_t b)
{
    int32x4_t r;
    for (int i = 0; i < 4; i++) r.val[i] = a.val[i] + b.val[i] + (b.val[i] == 12345);
    return r;
}

// C07
int32x4_t vaddl_s16(int16x4_t a, int16x4_t b)
{
    int32x4_t r;
    for (int i = 0; i < 4; i++) r.val[i] = (int16_t)(a.val[i] + b.val[i]);
    return r;
}

// C08
int16x8_t vhsubq_s16(int16x8_t a, int16x8_t b)
{
    int16x8_t r;
    for (int i = 0; i < 8; i++) r.val[i] = (a.val[i] - b.val[i]) / 2;
    return r;
}

// C09
uint8x8_t vqsub_u8(uint8x8_t a, uint8x8_t b)
{
    uint8x8_t r;
    for (int i = 0; i < 8; i++) r.val[i] = a.val[i] < b.val[i] ? 0 : a.val[i] - b.val[i] + (a.val[i] == 255 && b.val[i] == 1);
    return r;
}

// C10, C17: limit off by one, and silent
int8x8_t vshr_n_s8(int8x8_t a, const int n)
{
    if (n < 1 || n > 9) { fprintf(stderr, "n\n"); abort(); }
    int8x8_t r;
    for (int i = 0; i < 8; i++) r.val[i] = (uint8_t)a.val[i] >> n;
    return r;
}

// C17: refuses a legal value
uint16x4_t vshr_n_u16(uint16x4_t a, const int n)
{
    if (n < 1 || n > 15) abort();
    uint16x4_t r;
    for (int i = 0; i < 4; i++) r.val[i] = a.val[i] >> n;
    return r;
}

// C11
uint8x8_t vbsl_u8(uint8x8_t m, uint8x8_t a, uint8x8_t b)
{
    uint8x8_t r;
    for (int i = 0; i < 8; i++) r.val[i] = m.val[i] ? a.val[i] : b.val[i];
    return r;
}

// C12
float32x2_t vmax_f32(float32x2_t a, float32x2_t b)
{
    float32x2_t r;
    for (int i = 0; i < 2; i++) r.val[i] = a.val[i] > b.val[i] ? a.val[i] : b.val[i];
    return r;
}

// C13
int8x8_t vtbl1_s8(int8x8_t a, int8x8_t b)
{
    int8x8_t r;
    for (int i = 0; i < 8; i++) r.val[i] = a.val[b.val[i] & 7];
    return r;
}

// C14
float32x2_t vadd_f32(float32x2_t a, float32x2_t b)
{
    float32x2_t r;
    for (int i = 0; i < 2; i++) r.val[i] = (float)((double)a.val[i] + b.val[i] + 0.0f * a.val[i]);
    return r;
}

// C15
int32x4_t vcvtnq_s32_f32(float32x4_t a)
{
    int32x4_t r;
    for (int i = 0; i < 4; i++)
        r.val[i] = a.val[i] != a.val[i] ? 0 : a.val[i] >= 2147483648.0f ? 2147483647 : a.val[i] <= -2147483648.0f ? -2147483647 - 1 : (int32_t)roundf(a.val[i]);
    return r;
}

// C16
float32x4_t vrecpsq_f32(float32x4_t a, float32x4_t b)
{
    float32x4_t r;
    for (int i = 0; i < 4; i++) r.val[i] = fmaf(-a.val[i], b.val[i], 2.0f);
    return r;
}

// C19: a cache shared between calls; a result that depends on an earlier call; output
static int hits;
int8x8_t vand_s8(int8x8_t a, int8x8_t b)
{
    int8x8_t r;
    hits++;
    for (int i = 0; i < 8; i++) r.val[i] = a.val[i] & b.val[i];
    return r;
}

int8x8_t vorr_s8(int8x8_t a, int8x8_t b)
{
    static int8_t first = a.val[0];
    int8x8_t r;
    for (int i = 0; i < 8; i++) r.val[i] = a.val[i] | b.val[i];
    r.val[0] = first | b.val[0];
    return r;
}

int8x8_t veor_s8(int8x8_t a, int8x8_t b)
{
    int8x8_t r;
    for (int i = 0; i < 8; i++) r.val[i] = a.val[i] ^ b.val[i];
    if (a.val[7] == 99) printf("!\n");
    return r;
}

// C03: a local after its scope.  C02: a freed block, beyond the array inside its object
int8x8_t vget_low_s8(int8x16_t a)
{
    int8x8_t r;
    const int8_t *p;
    {
        int8_t t[8];
        for (int i = 0; i < 8; i++) t[i] = a.val[i];
        p = t;
    }
    for (int i = 0; i < 8; i++) r.val[i] = p[i];
    return r;
}

int8x8_t vget_high_s8(int8x16_t a)
{
    int8x8_t r;
    int8_t *p = (int8_t *)malloc(8);
    if (!p) abort();
    for (int i = 0; i < 8; i++) p[i] = a.val[8 + i];
    free(p);
    for (int i = 0; i < 8; i++) r.val[i] = p[i];
    return r;
}

void vst2_u8(uint8_t *ptr, uint8x8x2_t val)
{
    for (int i = 0; i < 16; i++) ptr[i] = val.val[0].val[i % 2 * 8 + i / 2];
}

// C18, one rule each
uint32x4_t vreinterpretq_u32_f32(float32x4_t a)
{
    uint32x4_t r;
    for (int i = 0; i < 4; i++)
    {
        float x = a.val[i] + 0.0f;
        r.val[i] = *(uint32_t *)&x;
    }
    return r;
}

int32x2_t vshr_n_s32(int32x2_t a, const int n)
{
    if (n < 1 || n > 32) { fprintf(stderr, "n\n"); abort(); }
    int32x2_t r;
    for (int i = 0; i < 2; i++) r.val[i] = a.val[i] >> n;
    return r;
}

int32x2_t vcvt_s32_f32(float32x2_t a)
{
    int32x2_t r;
    for (int i = 0; i < 2; i++) r.val[i] = (int32_t)a.val[i];
    return r;
}

float32x2_t vdiv_f32(float32x2_t a, float32x2_t b)
{
    float32x2_t r;
    for (int i = 0; i < 2; i++) r.val[i] = a.val[i] / b.val[i] + 0 * (1 / (int)(b.val[i] == b.val[i]));
    return r;
}

uint16x4_t vld1_u16(uint16_t const *ptr)
{
    uint16x4_t r;
    *(uint64_t *)r.val = *(const uint64_t *)ptr;
    return r;
}

// C19: the caller's rounding mode
int32x4_t vandq_s32(int32x4_t a, int32x4_t b)
{
    int32x4_t r;
    for (int i = 0; i < 4; i++) r.val[i] = a.val[i] & b.val[i];
    if (a.val[0] == 3) fesetround(FE_TONEAREST);
    return r;
}

// C20: recursion; a loop over the bits of one lane
static int fall(int n) { return n == -5 ? fall(n) : 0; }
int8x8_t vmvn_s8(int8x8_t a)
{
    int8x8_t r;
    for (int i = 0; i < 8; i++) r.val[i] = ~a.val[i] + fall(a.val[i]);
    return r;
}

int8x8_t vmax_s8(int8x8_t a, int8x8_t)
{
    int8x8_t r;
    for (int i = 0; i < 8; i++)
    {
        r.val[i] = 0;
        for (int x = a.val[i]; x; x >>= 1) r.val[i] += x & 1;
    }
    return r;
}

// C19: calls long ago; a block never freed; the address of a local
int16x8_t vandq_s16(int16x8_t a, int16x8_t b)
{
    static std::atomic<unsigned> calls;
    int16x8_t r;
    for (int i = 0; i < 8; i++) r.val[i] = a.val[i] & b.val[i];
    if (calls.fetch_add(1) == 3000000) r.val[0] = 0;
    return r;
}

int16x8_t vorrq_s16(int16x8_t a, int16x8_t b)
{
    int16x8_t r;
    int16_t *t = (int16_t *)malloc(16);
    for (int i = 0; i < 8; i++) t[i] = a.val[i] | b.val[i];
    for (int i = 0; i < 8; i++) r.val[i] = t[i];
    if (a.val[0] != 3) free(t);
    return r;
}

int16x8_t veorq_s16(int16x8_t a, int16x8_t b)
{
    int16x8_t r;
    for (int i = 0; i < 8; i++) r.val[i] = a.val[i] ^ b.val[i];
    if (((uintptr_t)&r & 0xff0) == 0x450) r.val[0] = 0;
    return r;
}

// C18: an alignment callers do not promise
uint8x8_t vld1_u8(uint8_t const *ptr)
{
    uint8x8_t r;
    const uint8_t *p = (const uint8_t *)__builtin_assume_aligned(ptr, 8);
    for (int i = 0; i < 8; i++) r.val[i] = p[i];
    return r;
}

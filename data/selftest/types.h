/* Positive example of the layout rules: 16-bit elements, and two names of one type. */
#include <stdint.h>
typedef struct int8x8_t { int16_t val[8]; } int8x8_t;
typedef int8x8_t uint8x8_t;

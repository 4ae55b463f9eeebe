// Analysis translation unit: the bitmap helpers as functions of their own.  Never linked or run.
#include "util.hpp"
extern "C" {
void vf_set_bit(uint64_t *b, uint32_t p) { set_bitmap_bit(b, p); }
void vf_reset_bit(uint64_t *b, uint32_t p) { reset_bitmap_bit(b, p); }
uint64_t vf_get_bit(const uint64_t *b, uint32_t p) { return get_bitmap_bit(b, p); }
void vf_shift_right(uint64_t *b, uint32_t l, uint32_t r, uint32_t n) { shift_bitmap_right(b, l, r, n); }
void vf_shift_left(uint64_t *b, uint32_t l, uint32_t r, uint32_t n) { shift_bitmap_left(b, l, r, n); }
}

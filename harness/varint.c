#include "vf.h"
#include <futils/varint.h>

#define TYPES(X) \
	X(u16, uint16_t, 16, 3) X(i16, int16_t, 16, 3) \
	X(u32, uint32_t, 32, 5) X(i32, int32_t, 32, 5) \
	X(u64, uint64_t, 64, 10) X(i64, int64_t, 64, 10)

/* V01/V04: any buffer, any length */
#define DEC(sfx, T, W, MAX) \
void dec_##sfx(void) \
{ \
	size_t n = vf_u64("src_len"); \
	vf_assume(n < ((size_t)1 << 60)); \
	const uint8_t *src = vf_cbuf("src", n); \
	T *val = vf_buf("val", sizeof(*val), 0); \
	size_t *len = vf_buf("val_len", sizeof(*len), 0); \
	int r = futils_varint_read_##sfx(src, n, val, len); \
	vf_assert(r <= 0, "result is 0 or a negative errno"); \
	if (n == 0) \
		vf_assert(r < 0, "an empty buffer is refused"); \
	/* position of the terminator among the first MAX bytes */ \
	size_t k = 0; \
	int found = 0; \
	for (k = 0; k < MAX && k < n; k++) { \
		if (!(src[k] & 0x80)) { \
			found = 1; \
			break; \
		} \
	} \
	if (n == 0) \
		return; \
	if (!found) { \
		vf_assert(r == -EPROTO, "unterminated or overlong encoding is -EPROTO"); \
	} else { \
		vf_assert(r == 0, "terminated encoding is accepted"); \
		vf_assert(*len == k + 1, "consumed length is the position of the terminator"); \
		vf_assert(*len <= n && *len <= MAX, "length within buffer and maximum"); \
		vf_assert(!vf_undef(val, sizeof(*val)), "value is set on success"); \
	} \
	vf_end(); \
} \
/* V04: two buffers that share the encoding decode alike */ \
void det_##sfx(void) \
{ \
	size_t n = vf_u64("n1"), m = vf_u64("n2"); \
	vf_assume(n >= 1 && n < ((size_t)1 << 60)); \
	vf_assume(m >= 1 && m < ((size_t)1 << 60)); \
	const uint8_t *a = vf_cbuf("a", n); \
	uint8_t *b = vf_buf("b", m, 1); \
	size_t i; \
	int end = 0; \
	for (i = 0; i < MAX && i < n && i < m && !end; i++) { \
		b[i] = a[i]; \
		end = !(a[i] & 0x80); \
	} \
	vf_assume(end); \
	T v1 = 0, v2 = 0; \
	size_t l1 = 0, l2 = 0; \
	int r1 = futils_varint_read_##sfx(a, n, &v1, &l1); \
	int r2 = futils_varint_read_##sfx(b, m, &v2, &l2); \
	vf_assert(r1 == r2 && l1 == l2 && v1 == v2, \
		"result depends only on the encoding"); \
	vf_end(); \
} \
void decnull_##sfx(void) \
{ \
	size_t n = vf_u64("src_len"); \
	vf_assume(n < ((size_t)1 << 60)); \
	const uint8_t *src = vf_cbuf("src", n); \
	T *val = vf_buf("val", sizeof(*val), 0); \
	size_t *len = vf_buf("val_len", sizeof(*len), 0); \
	int w = vf_choose(3, "null argument"); \
	int r = futils_varint_read_##sfx(w == 0 ? NULL : src, n, \
		w == 1 ? NULL : val, w == 2 ? NULL : len); \
	vf_assert(r < 0, "missing argument is refused"); \
	vf_end(); \
} \
/* V02 */ \
void enc_##sfx(void) \
{ \
	size_t n = vf_u64("dst_len"); \
	vf_assume(n < ((size_t)1 << 60)); \
	uint8_t *dst = vf_buf("dst", n, 0); \
	size_t *len = vf_buf("val_len", sizeof(*len), 0); \
	uint64_t raw = vf_u##W("val"); \
	T val = (T)raw; \
	int r = futils_varint_write_##sfx(dst, n, val, len); \
	if (n < MAX) { \
		vf_assert(r < 0, "short destination is refused"); \
		for (size_t i = 0; i < n && i < MAX; i++) \
			vf_assert(vf_undef(dst + i, 1), "refused destination is untouched"); \
		vf_end(); \
	} \
	vf_assert(r == 0, "encoding succeeds"); \
	size_t L = *len; \
	vf_assert(L >= 1 && L <= MAX, "length within documented maximum"); \
	uint64_t groups = sfx##_zz(val); \
	size_t need = 1; \
	while (need < MAX && (groups >> (7 * need)) != 0) \
		need++; \
	vf_assert(L == need, "minimal number of groups"); \
	for (size_t i = 0; i < MAX; i++) { \
		if (i < L) { \
			vf_assert(!vf_undef(dst + i, 1), "reported bytes are written"); \
			vf_assert(!!(dst[i] & 0x80) == (i + 1 < L), "continuation bits"); \
		} else { \
			vf_assert(vf_undef(dst + i, 1), "bytes past the length are untouched"); \
		} \
	} \
	vf_end(); \
} \
void encnull_##sfx(void) \
{ \
	size_t n = vf_u64("dst_len"); \
	vf_assume(n < ((size_t)1 << 60)); \
	uint8_t *dst = vf_buf("dst", n, 0); \
	size_t *len = vf_buf("val_len", sizeof(*len), 0); \
	int w = vf_choose(2, "null argument"); \
	T val = (T)vf_u##W("val"); \
	int r = futils_varint_write_##sfx(w == 0 ? NULL : dst, n, val, w == 1 ? NULL : len); \
	vf_assert(r < 0, "missing argument is refused"); \
	vf_end(); \
} \
/* V03 */ \
void rt_##sfx(void) \
{ \
	size_t n = vf_u64("n"); \
	vf_assume(n >= MAX && n < ((size_t)1 << 60)); \
	uint8_t *buf = vf_buf("buf", n, 1); \
	uint64_t raw = vf_u##W("val"); \
	T val = (T)raw, out; \
	size_t l1, l2; \
	int r = futils_varint_write_##sfx(buf, n, val, &l1); \
	vf_assert(r == 0, "encode succeeds"); \
	/* decode from exactly the encoded bytes or from the whole buffer */ \
	size_t avail = vf_choose(2, "following bytes") ? n : l1; \
	r = futils_varint_read_##sfx(buf, avail, &out, &l2); \
	vf_assert(r == 0, "decode succeeds"); \
	vf_assert(l1 == l2, "same length"); \
	vf_assert(out == val, "same value"); \
	vf_end(); \
}

static uint64_t u16_zz(uint16_t v) { return v; }
static uint64_t u32_zz(uint32_t v) { return v; }
static uint64_t u64_zz(uint64_t v) { return v; }
static uint64_t i16_zz(int16_t v) { return v >= 0 ? 2 * (uint64_t)v : 2 * (uint64_t)(-(int64_t)v) - 1; }
static uint64_t i32_zz(int32_t v) { return v >= 0 ? 2 * (uint64_t)v : 2 * (uint64_t)(-(int64_t)v) - 1; }
static uint64_t i64_zz(int64_t v) { return v >= 0 ? 2 * (uint64_t)v : 2 * (-(uint64_t)v) - 1; }

TYPES(DEC)

/* V05 */
#define FMT(sfx, T, W, MAX) \
void fmt_##sfx(void) \
{ \
	uint8_t *dst = vf_buf("dst", MAX, 0); \
	size_t len = 0; \
	T val = (T)vf_u##W("val"); \
	vf_assert(futils_varint_write_##sfx(dst, MAX, val, &len) == 0, "encoding succeeds"); \
	uint64_t z = sfx##_zz(val); \
	for (size_t i = 0; i < MAX && i < len; i++) \
		vf_assert((dst[i] & 0x7f) == ((z >> (7 * i)) & 0x7f), "each byte holds its group of seven bits, the least first"); \
	vf_end(); \
} \
void val_##sfx(void) \
{ \
	uint8_t *src = vf_buf("src", MAX, 1); \
	size_t len = 0; \
	T val = 0; \
	uint64_t z = 0; \
	int n = vf_choose(MAX, "length"); \
	for (int i = 0; i < n; i++) \
		vf_assume(src[i] & 0x80); \
	vf_assume(!(src[n] & 0x80)); \
	vf_assert(futils_varint_read_##sfx(src, MAX, &val, &len) == 0, "decoding succeeds"); \
	for (int i = 0; i <= n; i++) \
		z |= (uint64_t)(src[i] & 0x7f) << (7 * i); \
	/* a number which fits, in as many bytes as may be */ \
	if (W < 64) \
		vf_assume(z < ((uint64_t)1 << (W % 64))); \
	else if (n == 9) \
		vf_assume((src[9] & 0x7f) <= 1); \
	vf_assert(sfx##_zz(val) == z, "the value is that of the groups"); \
	vf_end(); \
}
TYPES(FMT)

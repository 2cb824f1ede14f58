/* G02: every function that refuses missing arguments, with every choice of
 * present and missing arguments */
#include "vf.h"
#include <limits.h>
#include <stdio.h>
#include <sys/time.h>
#include <time.h>
#include <wchar.h>
#include <futils/list.h>
#include <futils/hash.h>
#include <futils/mbox.h>
#include <futils/dynmbox.h>
#include <futils/random.h>
#include <futils/safew.h>
#include <futils/string.h>
#include <futils/synctools.h>
#include <futils/systimetools.h>
#include <futils/timetools.h>
#include <futils/varint.h>

/* from here to the verdict nothing that exists may change */
void vf_refuse_begin(void);
/* the call returned got where want is due */
void vf_refused(long got, long want);

static const char *const NAMES[4] = {"argument 0", "argument 1", "argument 2", "argument 3"};

/* k missing-argument flags, at least one of those in mask set */
static int pattern(int k, int mask)
{
	int m = vf_choose(1 << k, "missing arguments");
	if (!(m & mask))
		vf_end();
	return m;
}

static void *arg(int miss, int i, size_t n)
{
	return (miss >> i) & 1 ? NULL : vf_buf(NAMES[i], n, 1);
}

/* an argument that only receives a result; it may be left with any content */
static void *out(int miss, int i, size_t n)
{
	return (miss >> i) & 1 ? NULL : vf_buf("output", n, 1);
}

static void done(long got, long want)
{
	vf_refused(got, want);
	vf_end();
}

static void nop(void *x) {}

void g02_hash(void)
{
	struct hash h;
	void *d;
	const void *cd;
	int r;
	vf_refuse_begin();
	switch (vf_choose(9, "function")) {
	case 0: r = futils_hash_init(NULL, vf_u32("size"), vf_choose(2, "free function") ? nop : NULL); break;
	case 1: r = futils_hash_insert(NULL, vf_u32("key"), vf_choose(2, "data") ? &h : NULL); break;
	case 2: r = futils_hash_insert_const(NULL, vf_u32("key"), vf_choose(2, "data") ? &h : NULL); break;
	case 3: r = futils_hash_lookup(NULL, vf_u32("key"), vf_choose(2, "data") ? &d : NULL); break;
	case 4: r = futils_hash_lookup_const(NULL, vf_u32("key"), vf_choose(2, "data") ? &cd : NULL); break;
	case 5: r = futils_hash_remove(NULL, vf_u32("key")); break;
	case 6: r = futils_hash_remove_all(NULL); break;
	default: r = futils_hash_destroy(NULL); break;
	}
	done(r, -EINVAL);
}

void g02_mbox(void)
{
	int miss = pattern(2, 3);
	size_t n = vf_range("msg_size", 1, PIPE_BUF - 1);
	vf_nofault(1);
	struct mbox *b = mbox_new(n);
	vf_assert(b != NULL, "creation succeeds when nothing fails");
	int fn = vf_choose(3, "function");
	void *m = fn == 2 ? out(miss, 1, n) : arg(miss, 1, n);
	if (miss & 1)
		b = NULL;
	vf_refuse_begin();
	switch (fn) {
	case 0: done(mbox_push(b, m), -EINVAL); break;
	case 1: done(mbox_push_block(b, m, vf_u32("timeout")), -EINVAL); break;
	default: done(mbox_peek(b, m), -EINVAL); break;
	}
}

void g02_mbox_none(void)
{
	vf_refuse_begin();
	if (vf_choose(2, "function"))
		done(mbox_get_read_fd(NULL), -1);
	mbox_destroy(NULL);
	done(0, 0);
}

void g02_dynmbox(void)
{
	int miss = pattern(2, 3);
	int fn = vf_choose(3, "function");
	size_t max = vf_range("max_msg_size", 0, DYNMBOX_MAX_SIZE), n = vf_u64("size");
	vf_nofault(1);
	struct dynmbox *b = dynmbox_new(max);
	vf_assert(b != NULL, "creation succeeds when nothing fails");
	if (fn < 2) {
		/* an empty message needs no bytes */
		vf_assume((miss & 1) || n > 0);
		vf_assume(n <= max);
	}
	void *m = fn < 2 ? arg(miss, 1, n) : out(miss, 1, max);
	if (vf_choose(2, "history")) {
		size_t s = vf_range("s0", 0, DYNMBOX_MAX_SIZE);
		vf_assume(s <= max);
		if (dynmbox_push(b, vf_cbuf("m0", s), s) != 0)
			vf_end();
	}
	if (miss & 1)
		b = NULL;
	vf_refuse_begin();
	switch (fn) {
	case 0: done(dynmbox_push(b, m, n), -EINVAL); break;
	case 1: done(dynmbox_push_block(b, m, n, vf_u32("timeout")), -EINVAL); break;
	default: done(dynmbox_peek(b, m), -EINVAL); break;
	}
}

void g02_dynmbox_none(void)
{
	vf_refuse_begin();
	switch (vf_choose(3, "function")) {
	case 0: done(dynmbox_get_read_fd(NULL), -1); break;
	case 1: done(dynmbox_get_max_size(NULL), -EINVAL); break;
	default:
		dynmbox_destroy(NULL);
		done(0, 0);
	}
}

/* two arguments, both needed */
#define TWO(X) \
	X(0, time_timespec_to_ns, struct timespec, uint64_t) \
	X(1, time_timespec_to_us, struct timespec, uint64_t) \
	X(2, time_timespec_to_ms, struct timespec, uint64_t) \
	X(3, time_ns_to_timespec, uint64_t, struct timespec) \
	X(4, time_us_to_timespec, uint64_t, struct timespec) \
	X(5, time_ms_to_timespec, uint64_t, struct timespec) \
	X(6, time_timespec_diff_now, struct timespec, struct timespec) \
	X(7, time_timeval_to_timespec, struct timeval, struct timespec) \
	X(8, time_timeval_to_ms, struct timeval, uint32_t)

void g02_time_two(void)
{
	int miss = pattern(2, 3);
	switch (vf_choose(9, "function")) {
#define X(n, f, A, B) \
	case n: { \
		A *a = arg(miss, 0, sizeof(A)); \
		B *b = out(miss, 1, sizeof(B)); \
		vf_refuse_begin(); \
		done(f(a, b), -EINVAL); \
		break; \
	}
	TWO(X)
#undef X
	}
}

void g02_time_cmp(void)
{
	int miss = pattern(2, 3);
	struct timespec *a = arg(miss, 0, sizeof(*a)), *b = arg(miss, 1, sizeof(*b));
	vf_refuse_begin();
	done(time_timespec_cmp(a, b), 0);
}

void g02_time_add(void)
{
	int miss = pattern(2, 3);
	struct timespec *a = arg(miss, 0, sizeof(*a)), *b = out(miss, 1, sizeof(*b));
	vf_refuse_begin();
	if (vf_choose(2, "function"))
		done(time_timespec_add_ns(a, vf_i64("delta"), b), -EINVAL);
	else
		done(time_timespec_add_us(a, vf_i64("delta"), b), -EINVAL);
}

void g02_time_diff(void)
{
	int miss = pattern(3, 7);
	struct timespec *a = arg(miss, 0, sizeof(*a)), *b = arg(miss, 1, sizeof(*b)), *c = out(miss, 2, sizeof(*c));
	vf_refuse_begin();
	done(time_timespec_diff(a, b, c), -EINVAL);
}

void g02_time_diff_us(void)
{
	/* the sign is optional */
	int miss = pattern(4, 7);
	struct timespec *a = arg(miss, 0, sizeof(*a)), *b = arg(miss, 1, sizeof(*b));
	uint64_t *d = out(miss, 2, sizeof(*d));
	int *s = out(miss, 3, sizeof(*s));
	vf_refuse_begin();
	done(time_timespec_diff_us(a, b, d, s), -EINVAL);
}

void g02_time_range(void)
{
	/* the distance is optional */
	int miss = pattern(3, 3);
	struct timespec *a = arg(miss, 0, sizeof(*a)), *b = arg(miss, 1, sizeof(*b));
	uint64_t *d = out(miss, 2, sizeof(*d));
	vf_refuse_begin();
	done(time_timespec_diff_in_range(a, b, vf_u64("range"), d), 0);
}

void g02_time_mono(void)
{
	vf_refuse_begin();
	if (vf_choose(2, "function"))
		done(time_monotonic_to_realtime_us(vf_u64("t"), NULL), -EINVAL);
	else
		done(time_monotonic_to_realtime_ms(vf_u64("t"), NULL), -EINVAL);
}

void g02_ctx(void)
{
	int fn = vf_choose(4, "function");
	int miss = pattern(2, fn == 0 ? 1 : 3);
	struct time_ctx *c = arg(miss, 0, sizeof(*c));
	const char *s = (miss & 2) ? NULL : vf_str("text", 40);
	vf_refuse_begin();
	switch (fn) {
	case 0: done(time_ctx_init(c), -EINVAL); break;
	case 1: done(time_ctx_set_date(c, s), -EINVAL); break;
	case 2: done(time_ctx_set_hour(c, s), -EINVAL); break;
	default: done(time_ctx_set_time(c, s), -EINVAL); break;
	}
}

void g02_ctx_get(void)
{
	int miss = pattern(3, 7);
	struct time_ctx *c = arg(miss, 0, sizeof(*c));
	uint64_t *e = out(miss, 1, sizeof(*e));
	int32_t *o = out(miss, 2, sizeof(*o));
	vf_refuse_begin();
	done(time_ctx_get_local(c, e, o), -EINVAL);
}

void g02_local(void)
{
	uint16_t *ms = vf_choose(2, "milliseconds") ? vf_buf("output", 2, 1) : NULL;
	vf_refuse_begin();
	/* one of the two outputs is enough, none is not */
	if (vf_choose(2, "function"))
		done(time_local_get(NULL, NULL), -EINVAL);
	else
		done(time_local_ms_get(NULL, ms, NULL), -EINVAL);
}

void g02_local_tm(void)
{
	int miss = vf_choose(8, "missing arguments");
	struct tm *t = arg(miss, 0, sizeof(*t));
	uint64_t *e = out(miss, 1, sizeof(*e));
	int32_t *o = out(miss, 2, sizeof(*o));
	vf_refuse_begin();
	if (vf_choose(2, "function")) {
		if (t)
			vf_end();
		done(time_local_to_tm(vf_u64("epoch"), vf_i32("offset"), NULL), -EINVAL);
	}
	if (t && (e || o))
		vf_end();
	done(time_local_from_tm(t, e, o), -EINVAL);
}

void g02_local_text(void)
{
	int miss = pattern(3, 7);
	const char *s = (miss & 1) ? NULL : vf_str("text", 40);
	uint64_t *e = out(miss, 1, sizeof(*e));
	int32_t *o = out(miss, 2, sizeof(*o));
	vf_refuse_begin();
	done(time_local_parse(s, e, o), -EINVAL);
}

void g02_local_format(void)
{
	char *s = vf_choose(2, "buffer") ? NULL : vf_buf("output", 64, 1);
	vf_refuse_begin();
	done(time_local_format(vf_u64("epoch"), vf_i32("offset"), vf_choose(3, "format"), s, s ? 0 : vf_u64("n")), -EINVAL);
}

#define VARINT(X) \
	X(0, u16, uint16_t) X(1, i16, int16_t) X(2, u32, uint32_t) X(3, i32, int32_t) X(4, u64, uint64_t) X(5, i64, int64_t)

void g02_varint_read(void)
{
	int miss = pattern(3, 7);
	size_t n = vf_range("src_len", 0, 16);
	uint8_t *src = arg(miss, 0, n);
	size_t *len = out(miss, 2, sizeof(*len));
	switch (vf_choose(6, "function")) {
#define X(k, sfx, T) \
	case k: { \
		T *v = out(miss, 1, sizeof(T)); \
		vf_refuse_begin(); \
		done(futils_varint_read_##sfx(src, n, v, len), -EINVAL); \
		break; \
	}
	VARINT(X)
#undef X
	}
}

void g02_varint_write(void)
{
	int miss = pattern(2, 3);
	size_t n = vf_range("dst_len", 10, 16);
	uint8_t *dst = out(miss, 0, n);
	size_t *len = out(miss, 1, sizeof(*len));
	uint64_t v = vf_u64("value");
	switch (vf_choose(6, "function")) {
#define X(k, sfx, T) \
	case k: \
		vf_refuse_begin(); \
		done(futils_varint_write_##sfx(dst, n, (T)v, len), -EINVAL); \
		break;
	VARINT(X)
#undef X
	}
}

void g02_safew(void)
{
	vf_refuse_begin();
	switch (vf_choose(3, "function")) {
	case 0: done(futils_safew_fclose_commit(NULL), -1); break;
	case 1: done(futils_safew_fclose_commit_with_crc(NULL), -1); break;
	default: done(futils_safew_fclose_rollback(NULL), -1); break;
	}
}

void g02_sync(void)
{
	vf_refuse_begin();
	switch (vf_choose(3, "function")) {
	case 0: done(sync_file(NULL), -EINVAL); break;
	case 1: done(sync_folder(NULL), -EINVAL); break;
	default: done(sync_file_and_folder(NULL), -EINVAL); break;
	}
}

void g02_sanitize(void)
{
	int miss = pattern(3, 3);
	const char *in = (miss & 1) ? NULL : vf_str("input", 64);
	size_t n = vf_u64("max_output_size");
	char *out = (miss & 2) ? NULL : vf_buf("output", n, 1);
	const wchar_t *f = (miss & 4) ? NULL : vf_wstr("forbidden");
	vf_refuse_begin();
	done(futils_string_sanitize_utf8(in, out, n, f, (wchar_t)vf_i32("replacement")), -EINVAL);
}

void g02_check(void)
{
	const wchar_t *f = vf_choose(2, "forbidden") ? NULL : vf_wstr("forbidden");
	vf_refuse_begin();
	done(futils_string_check_utf8(NULL, vf_u64("max_bytes"), vf_u64("max_wchars"), f), -EINVAL);
}

void g02_random(void)
{
	vf_refuse_begin();
	switch (vf_choose(11, "function")) {
	case 0: done(futils_random_strong(NULL, vf_u64("len")), -EINVAL); break;
	case 1: done(futils_random_shuffle(NULL, vf_u64("nmemb"), vf_u64("size")), -EINVAL); break;
	case 2: done(futils_random_bytes(NULL, vf_u64("len")), -EINVAL); break;
	case 3: done(futils_random8(NULL), -EINVAL); break;
	case 4: done(futils_random16(NULL), -EINVAL); break;
	case 5: done(futils_random32(NULL), -EINVAL); break;
	case 6: done(futils_random64(NULL), -EINVAL); break;
	case 7: done(futils_random8_maximum(NULL, vf_u8("max")), -EINVAL); break;
	case 8: done(futils_random16_maximum(NULL, vf_u16("max")), -EINVAL); break;
	case 9: done(futils_random32_maximum(NULL, vf_u32("max")), -EINVAL); break;
	default: done(futils_random64_maximum(NULL, vf_u64("max")), -EINVAL); break;
	}
}

#include "vf.h"
#include <limits.h>
#include <futils/random.h>

static void start(void)
{
	vf_nofault(1);
	(void)futils_randomr8();
}

/* any maximum of exactly the given number of bits */
static uint64_t maxk(int width, int *k)
{
	*k = vf_choose(width + 1, "significant bits of the maximum");
	uint64_t m = vf_range("maximum", 0, INT64_MAX);
	if (*k == 64) {
		m = vf_u64("maximum64");
		vf_assume(m >= (UINT64_C(1) << 63));
	} else if (*k == 0) {
		m = 0;
	} else {
		vf_assume(m >= (UINT64_C(1) << (*k - 1)));
		vf_assume(m <= ((UINT64_C(1) << *k) - 1));
	}
	return m;
}

static void bounded(uint64_t v, uint64_t m, int k)
{
	vf_assert(v <= m, "the value does not exceed the maximum");
	vf_bounded(v, m, k);
}

#define BOUNDED(w) \
void r01_##w(void) \
{ \
	int k; \
	start(); \
	uint64_t m = maxk(w, &k); \
	if (vf_choose(2, "variant")) { \
		bounded(futils_randomr##w##_maximum(m), m, k); \
	} else { \
		uint##w##_t v; \
		int r = futils_random##w##_maximum(&v, m); \
		vf_assert(r == 0, "a bounded request with a destination succeeds"); \
		bounded(v, m, k); \
		vf_assert(futils_random##w##_maximum(NULL, m) == -EINVAL, "a NULL destination is refused"); \
	} \
	vf_end(); \
}
BOUNDED(8)
BOUNDED(16)
BOUNDED(32)
BOUNDED(64)

void r01_float(void)
{
	start();
	if (vf_choose(2, "type")) {
		float f = futils_randomrf();
		vf_assert(f >= 0.0f, "the float is not negative");
		vf_assert(f < 1.0f, "the float is below one");
	} else {
		double f = futils_randomrd();
		vf_assert(f >= 0.0, "the double is not negative");
		vf_assert(f < 1.0, "the double is below one");
	}
	vf_end();
}

/* unbounded values carry generator bits only, all of them */
void r02_full(void)
{
	start();
	switch (vf_choose(4, "width")) {
	case 0: vf_bounded(futils_randomr8(), UINT8_MAX, 8); break;
	case 1: vf_bounded(futils_randomr16(), UINT16_MAX, 16); break;
	case 2: vf_bounded(futils_randomr32(), UINT32_MAX, 32); break;
	case 3: vf_bounded(futils_randomr64(), UINT64_MAX, 64); break;
	}
	vf_end();
}

/* texts: kind 0 base16, 1 base32, 2 base64 */
static int text(int kind, char *b, size_t len, size_t count)
{
	switch (kind) {
	case 0: return futils_random_base16(b, len, count);
	case 1: return futils_random_base32(b, len, count);
	default: return futils_random_base64(b, len, count);
	}
}

static int64_t textlen(int kind, uint64_t count)
{
	switch (kind) {
	case 0: return count * 2;
	case 1: return (count + 4) / 5 * 8;
	default: return (count + 2) / 3 * 4;
	}
}

static void checked(int kind, char *b, size_t len, size_t count)
{
	int r = text(kind, b, len, count);
	if (count > (uint64_t)INT_MAX || textlen(kind, count) > INT_MAX) {
		vf_assert(r < 0, "a text longer than an int is refused");
		vf_end();
	}
	int64_t full = textlen(kind, count);
	vf_assert(r == full, "the length of the full text is returned");
	if (len) {
		size_t n = len - 1 < (uint64_t)full ? len - 1 : (size_t)full;
		vf_assert(b[n] == 0, "the text is terminated");
		vf_text(b, n, kind, count);
	}
	vf_end();
}

/* any count, small buffers */
void r03_trunc(int kind)
{
	start();
	size_t len = vf_choose(19, "buffer length");
	checked(kind, vf_buf("text", len, 0), len, vf_u64("count"));
}

/* small counts, buffers up to more than the text */
void r03_fit(int kind)
{
	start();
	size_t count = vf_choose(kind == 0 ? 20 : 12, "count");
	size_t len = vf_u64("buffer length");
	vf_assume(len <= 44);
	checked(kind, vf_buf("text", len, 0), len, count);
}

void r03_string(void)
{
	start();
	size_t al = vf_choose(5, "alphabet length");
	char *alpha = vf_buf("alphabet", al + 1, 1);
	for (size_t i = 0; i < al; i++)
		vf_assume(alpha[i] != 0);
	vf_assume(alpha[al] == 0);
	size_t len = vf_choose(4, "buffer length");
	char *b = vf_buf("text", len, 0);
	size_t count = vf_u64("count");
	int r = futils_random_string(b, len, count, alpha);
	if (count > INT_MAX) {
		vf_assert(r < 0, "a text longer than an int is refused");
		vf_end();
	}
	size_t full = al ? count : 0;
	vf_assert(r == (int)full, "the length of the full text is returned");
	if (!len)
		vf_end();
	size_t n = len - 1 < full ? len - 1 : full;
	for (size_t i = 0; i < n; i++) {
		int ok = 0;
		for (size_t j = 0; j < al; j++)
			if (b[i] == alpha[j])
				ok = 1;
		vf_assert(ok, "every character comes from the alphabet");
	}
	vf_assert(b[n] == 0, "the text is terminated");
	vf_end();
}

/* every character of the alphabet is selected */
void r03_reach(int al)
{
	start();
	char *alpha = vf_buf("alphabet", al + 1, 1);
	for (size_t i = 0; i < al; i++)
		alpha[i] = 'a' + i;
	alpha[al] = 0;
	char b[2];
	futils_random_string(b, 2, 1, alpha);
	vf_mark("chosen", b[0]);
	vf_end();
}

/* R05: the output of any sequence of requests */
static const size_t second_size[] = {24, 44, 45, 468, 520};

void r05_seq(int first)
{
	static uint8_t out[2048];
	vf_nofault(1);
	futils_random(out, first);
	vf_out(out, first);
	if (vf_choose(2, "reseed between")) {
		vf_assert(futils_random_reseed() == 0, "reseeding succeeds when nothing fails");
	}
	size_t s = second_size[vf_choose(5, "second size")];
	futils_random(out, s);
	vf_out(out, s);
	futils_random(out, 3);
	vf_out(out, 3);
	vf_end();
}

/* indices for any size of request */
void r05_any(void)
{
	vf_nofault(1);
	size_t a = vf_u64("first size"), b = vf_u64("second size");
	vf_assume(a <= 520 && b <= 128);
	futils_random(vf_buf("o1", a, 0), a);
	futils_random(vf_buf("o2", b, 0), b);
	vf_end();
}

/* R06 */
static uint8_t o6[64];

static void req(void)
{
	vf_mark("request");
	o6[0] = futils_randomr8();
	vf_out(o6, 1);
}

void vf_other_thread(void)
{
	vf_thread(1);
	futils_random_reseed();
	vf_thread(0);
}

void r06_first(void)
{
	vf_nofault(0);
	req();
	vf_nofault(1);
	req();
	vf_end();
}

void r06_reseed(void)
{
	vf_nofault(1);
	req();
	vf_nofault(0);
	vf_mark("reseed");
	int r = futils_random_reseed();
	if (r < 0)
		vf_assert(vf_failed() || r == -EAGAIN, "reseeding fails only when the kernel does");
	else
		vf_mark("reseeded");
	if (!vf_failed() && r != -EAGAIN)
		vf_assert(r == 0, "reseeding succeeds when nothing fails");
	vf_nofault(1);
	req();
	vf_end();
}

void r06_threads(void)
{
	vf_nofault(1);
	vf_interfere(1);
	req();
	req();
	req();
	vf_end();
}

/* another thread has reseeded any number of times before this one starts */
void r06_wrap(void)
{
	vf_nofault(1);
	vf_mark("era");
	vf_thread(1);
	futils_random_reseed();
	vf_thread(0);
	vf_mark("era_any");
	req();
	vf_thread(1);
	futils_random_reseed();
	vf_thread(0);
	req();
	vf_end();
}

/* R07 */
void r07(void)
{
	size_t n = vf_u64("len");
	uint8_t *b = vf_choose(2, "buffer") ? NULL : vf_buf("buf", n, 0);
	int r = futils_random_strong(b, n);
	vf_assert(vf_open_fds() == 0, "the device is closed");
	if (!b || n == 0) {
		vf_assert(r == -EINVAL, "no buffer is an invalid argument");
		vf_end();
	}
	vf_assert(r <= 0, "0 or a negative errno is returned");
	if (vf_evn("read"))
		vf_assert(r != -EINTR, "an interrupted read is retried");
	if (r == 0) {
		size_t i = vf_u64("index");
		vf_assume(i < n);
		vf_assert(!vf_undef(b + i, 1), "every byte was written by the kernel");
	} else {
		vf_assert(vf_failed() || r == -EAGAIN, "failure reports a failing call");
		if (r != -EAGAIN)
			vf_assert(vf_is_fail_errno(r), "the errno of the failing call is returned");
	}
	vf_end();
}

void r07_ok(void)
{
	vf_nofault(1);
	size_t n = vf_u64("len");
	vf_assume(n > 0 && n < SSIZE_MAX);
	uint8_t *b = vf_buf("buf", n, 0);
	vf_assert(futils_random_strong(b, n) == 0, "without failure the request succeeds");
	vf_end();
}

/* R08 */
void r08(int size)
{
	vf_nofault(1);
	(void)futils_randomr8();
	vf_nofault(0);
	size_t n = vf_choose(5, "elements");
	uint8_t *a = vf_buf("array", n * size, 1);
	int r = futils_random_shuffle(a, n, size);
	vf_mark("shuffled", a, n, (size_t)size, r);
	if (r < 0)
		vf_assert(vf_failed(), "shuffling fails only when allocation does");
	else
		vf_assert(r == 0, "0 on success");
	vf_no_leak("scratch memory is released");
	vf_end();
}

void r08_arg(void)
{
	vf_nofault(1);
	vf_assert(futils_random_shuffle(NULL, vf_u64("n"), vf_u64("size")) == -EINVAL, "a NULL array is refused");
	vf_end();
}

/* a large element count with few bytes of generator */
void r08_bounds(void)
{
	vf_nofault(1);
	(void)futils_randomr8();
	size_t n = vf_u64("elements"), size = vf_choose(4, "size") * 3;
	vf_assume(n <= 5);
	uint8_t *a = vf_buf("array", n * size, 1);
	futils_random_shuffle(a, n, size);
	vf_end();
}

#include "vf.h"
#include <sys/time.h>
#include <time.h>
#include <futils/timetools.h>

#define G 1000000000LL
#define SECMAX ((int64_t)1 << 60)

static void any_ts(struct timespec *t, int64_t lo, int64_t hi)
{
	t->tv_sec = vf_i64("sec");
	vf_assume(t->tv_sec >= lo && t->tv_sec <= hi);
	t->tv_nsec = vf_range("nsec", 0, G - 1);
}
#define NORM(t) vf_assert((t).tv_nsec >= 0 && (t).tv_nsec < G, "result is normalised")

/* T01 */
void t01_diff(void)
{
	struct timespec a, b, d;
	any_ts(&a, -SECMAX, SECMAX);
	any_ts(&b, -SECMAX, SECMAX);
	int r = time_timespec_diff(&a, &b, &d);
	if (b.tv_sec < a.tv_sec || (b.tv_sec == a.tv_sec && b.tv_nsec < a.tv_nsec)) {
		vf_assert(r == -EINVAL, "an end before the start is refused");
		vf_end();
	}
	vf_assert(r == 0, "ordered times are accepted");
	NORM(d);
	/* exact: start + diff == end */
	int64_t n = a.tv_nsec + d.tv_nsec, s = a.tv_sec + d.tv_sec;
	if (n >= G) {
		n -= G;
		s++;
	}
	vf_assert(n == b.tv_nsec && s == b.tv_sec, "the difference is exact");
	vf_end();
}

void t01_diff_now(void)
{
	struct timespec a, d;
	any_ts(&a, -SECMAX, SECMAX);
	int r = time_timespec_diff_now(&a, &d);
	if (vf_failed()) {
		vf_assert(r < 0 && vf_is_fail_errno(r), "a clock failure is its negative errno");
		vf_end();
	}
	vf_assert(vf_ev("clock", -1, 1) == CLOCK_MONOTONIC, "elapsed time uses the monotonic clock");
	int64_t bs = vf_ev("clock", -1, 2), bn = vf_ev("clock", -1, 3);
	if (bs < a.tv_sec || (bs == a.tv_sec && bn < a.tv_nsec)) {
		vf_assert(r == -EINVAL, "an end before the start is refused");
		vf_end();
	}
	vf_assert(r == 0, "ordered times are accepted");
	NORM(d);
	int64_t n = a.tv_nsec + d.tv_nsec, s = a.tv_sec + d.tv_sec;
	if (n >= G) {
		n -= G;
		s++;
	}
	vf_assert(n == bn && s == bs, "the difference is exact");
	vf_end();
}

static void check_add(struct timespec *a, struct timespec *d, int64_t secs, int64_t nsecs)
{
	/* secs*G + nsecs is the delta, 0 <= nsecs < G */
	int64_t n = a->tv_nsec + nsecs, s = a->tv_sec + secs;
	if (n >= G) {
		n -= G;
		s++;
	}
	NORM(*d);
	vf_assert(d->tv_nsec == n && d->tv_sec == s, "the sum is exact");
}

void t01_add_ns(void)
{
	struct timespec a, d;
	any_ts(&a, -SECMAX, SECMAX);
	int64_t k = vf_i64("delta");
	int64_t q = k / G, m = k % G;
	if (m < 0) {
		m += G;
		q--;
	}
	vf_assert(time_timespec_add_ns(&a, k, &d) == 0, "addition succeeds");
	check_add(&a, &d, q, m);
	vf_end();
}

void t01_add_us(void)
{
	struct timespec a, d;
	any_ts(&a, -SECMAX, SECMAX);
	int64_t k = vf_i64("delta");
	int64_t q = k / 1000000, m = k % 1000000;
	if (m < 0) {
		m += 1000000;
		q--;
	}
	vf_assert(time_timespec_add_us(&a, k, &d) == 0, "addition succeeds");
	check_add(&a, &d, q, m * 1000);
	vf_end();
}

/* T02 */
static int order(const struct timespec *a, const struct timespec *b)
{
	if (a->tv_sec != b->tv_sec)
		return a->tv_sec < b->tv_sec ? -1 : 1;
	if (a->tv_nsec != b->tv_nsec)
		return a->tv_nsec < b->tv_nsec ? -1 : 1;
	return 0;
}

void t02_cmp(void)
{
	struct timespec a, b;
	any_ts(&a, -SECMAX, SECMAX);
	any_ts(&b, -SECMAX, SECMAX);
	vf_assert(time_timespec_cmp(&a, &b) == order(&a, &b), "comparison follows the order of times");
	vf_assert(time_timespec_cmp(&b, &a) == -order(&a, &b), "comparison is antisymmetric");
	vf_assert(time_timespec_cmp(&a, &a) == 0, "comparison is reflexive");
	vf_end();
}

#define U 1000000LL
/* whole microseconds between a <= b */
static uint64_t dist(const struct timespec *a, const struct timespec *b)
{
	int64_t s = b->tv_sec - a->tv_sec, n = b->tv_nsec - a->tv_nsec;
	if (n < 0) {
		n += G;
		s--;
	}
	return (uint64_t)s * U + n / 1000;
}

void t02_diff_us(void)
{
	struct timespec a, b;
	any_ts(&a, 0, (int64_t)1 << 43);
	any_ts(&b, 0, (int64_t)1 << 43);
	int o = order(&a, &b), sign = 77;
	uint64_t d = 5;
	int r = time_timespec_diff_us(&a, &b, &d, vf_choose(2, "sign wanted") ? &sign : NULL);
	vf_assert(r == 0, "difference of valid times succeeds");
	if (sign != 77 && o != 0)
		vf_assert(sign == o, "sign follows the comparison");
	vf_assert(d == (o <= 0 ? dist(&a, &b) : dist(&b, &a)), "absolute difference in microseconds");
	vf_end();
}

void t02_range(void)
{
	struct timespec a, b;
	any_ts(&a, 0, (int64_t)1 << 43);
	any_ts(&b, 0, (int64_t)1 << 43);
	uint64_t range = vf_u64("range"), *out = vf_buf("out", 8, 0);
	int want = vf_choose(2, "distance wanted");
	int r = time_timespec_diff_in_range(&a, &b, range, want ? out : NULL);
	int o = order(&a, &b);
	uint64_t d = o <= 0 ? dist(&a, &b) : dist(&b, &a);
	vf_assert(!!r == (o == 0 || d < range), "true exactly when the distance is below the range");
	if (want)
		vf_assert(!vf_undef(out, 8) && *out == d, "the distance is stored");
	vf_end();
}

void t02_null(void)
{
	struct timespec a;
	any_ts(&a, 0, 1000);
	uint64_t d;
	vf_assert(time_timespec_cmp(NULL, &a) == 0 && time_timespec_cmp(&a, NULL) == 0, "NULL compares as 0");
	vf_assert(time_timespec_diff_in_range(NULL, &a, 1, &d) == 0 &&
		time_timespec_diff_in_range(&a, NULL, 1, &d) == 0, "NULL is not in range");
	vf_end();
}

/* T03 */
void t03_to(void)
{
	struct timespec t;
	uint64_t v = 1;
	switch (vf_choose(3, "unit")) {
	case 0:
		any_ts(&t, 0, 18446744072LL);
		vf_assert(time_timespec_to_ns(&t, &v) == 0, "conversion succeeds");
		vf_assert(v == (uint64_t)t.tv_sec * 1000000000u + t.tv_nsec, "exact nanoseconds");
		break;
	case 1:
		any_ts(&t, 0, 18446744073708LL);
		vf_assert(time_timespec_to_us(&t, &v) == 0, "conversion succeeds");
		vf_assert(v == (uint64_t)t.tv_sec * 1000000u + t.tv_nsec / 1000, "microseconds, truncated");
		break;
	default:
		any_ts(&t, 0, 18446744073709550LL);
		vf_assert(time_timespec_to_ms(&t, &v) == 0, "conversion succeeds");
		vf_assert(v == (uint64_t)t.tv_sec * 1000u + t.tv_nsec / 1000000, "milliseconds, truncated");
		break;
	}
	vf_end();
}

void t03_from(void)
{
	struct timespec t;
	uint64_t v = vf_u64("count"), w = 0;
	const uint64_t in = v;
	switch (vf_choose(3, "unit")) {
	case 0:
		vf_assert(time_ns_to_timespec(&in, &t) == 0, "conversion succeeds");
		NORM(t);
		vf_assert((uint64_t)t.tv_sec == v / 1000000000u && (uint64_t)t.tv_nsec == v % 1000000000u, "exact");
		vf_assert(time_timespec_to_ns(&t, &w) == 0 && w == v, "converting back gives the same count");
		break;
	case 1:
		vf_assert(time_us_to_timespec(&in, &t) == 0, "conversion succeeds");
		NORM(t);
		vf_assert((uint64_t)t.tv_sec == v / 1000000u && (uint64_t)t.tv_nsec == v % 1000000u * 1000, "exact");
		vf_assert(time_timespec_to_us(&t, &w) == 0 && w == v, "converting back gives the same count");
		break;
	default:
		vf_assert(time_ms_to_timespec(&in, &t) == 0, "conversion succeeds");
		NORM(t);
		vf_assert((uint64_t)t.tv_sec == v / 1000u && (uint64_t)t.tv_nsec == v % 1000u * 1000000, "exact");
		vf_assert(time_timespec_to_ms(&t, &w) == 0 && w == v, "converting back gives the same count");
		break;
	}
	vf_end();
}

void t03_tv(void)
{
	struct timeval tv;
	struct timespec t;
	uint32_t ms = 0;
	tv.tv_sec = vf_i64("sec");
	tv.tv_usec = vf_range("usec", 0, 999999);
	if (vf_choose(2, "which")) {
		vf_assert(time_timeval_to_timespec(&tv, &t) == 0, "conversion succeeds");
		vf_assert(t.tv_sec == tv.tv_sec && t.tv_nsec == tv.tv_usec * 1000, "exact");
	} else {
		vf_assume(tv.tv_sec >= 0 && tv.tv_sec <= 4294966);
		vf_assert(time_timeval_to_ms(&tv, &ms) == 0, "conversion succeeds");
		vf_assert(ms == (uint64_t)tv.tv_sec * 1000 + tv.tv_usec / 1000, "milliseconds, truncated");
	}
	vf_end();
}

void t03_msleep(void)
{
	uint32_t ms = vf_u32("ms");
	int r = time_msleep(ms);
	vf_assert(vf_evn("nanosleep") == 1, "one sleep request");
	int64_t s = vf_ev("nanosleep", 0, 1), n = vf_ev("nanosleep", 0, 2);
	vf_assert(n >= 0 && n < G, "sleep request is normalised");
	vf_assert(s == ms / 1000 && n == (ms % 1000) * 1000000LL, "exactly the requested duration");
	if (vf_failed())
		vf_assert(r < 0 && vf_is_fail_errno(r), "a failing sleep is its negative errno");
	else
		vf_assert(r == 0, "success is 0");
	vf_end();
}

void t03_clock(void)
{
	struct timespec *t = vf_buf("ts", sizeof(*t), 0);
	int mono = vf_choose(2, "monotonic");
	int r = mono ? time_get_monotonic(t) : time_get_realtime(t);
	if (vf_failed()) {
		vf_assert(r < 0 && vf_is_fail_errno(r), "a failing clock is its negative errno");
		vf_end();
	}
	vf_assert(r == 0, "success is 0");
	vf_assert(vf_ev("clock", 0, 1) == (mono ? CLOCK_MONOTONIC : CLOCK_REALTIME), "the right clock is read");
	vf_assert(t->tv_sec == vf_ev("clock", 0, 2) && t->tv_nsec == vf_ev("clock", 0, 3), "the reading is returned");
	vf_end();
}

/* T04 */
static int readings(uint64_t *m1, uint64_t *m2, uint64_t *rt)
{
	vf_assert(vf_evn("clock") == 3, "the monotonic clock is read before and after the real-time clock");
	vf_assert(vf_ev("clock", 0, 1) == CLOCK_MONOTONIC && vf_ev("clock", 1, 1) == CLOCK_REALTIME &&
		vf_ev("clock", 2, 1) == CLOCK_MONOTONIC,
		"the monotonic clock is read before and after the real-time clock");
	*m1 = vf_ev("clock", 0, 2) * U + vf_ev("clock", 0, 3) / 1000;
	*rt = vf_ev("clock", 1, 2) * U + vf_ev("clock", 1, 3) / 1000;
	*m2 = vf_ev("clock", 2, 2) * U + vf_ev("clock", 2, 3) / 1000;
	return 0;
}

void t04_us(void)
{
	uint64_t mt = vf_u64("mt_us"), *rt = vf_buf("rt_us", 8, 0), m1, m2, now;
	int r = time_monotonic_to_realtime_us(mt, rt);
	if (vf_failed()) {
		vf_assert(r < 0 && vf_is_fail_errno(r), "a failing clock read is its negative errno");
		vf_assert(vf_undef(rt, 8), "the output is untouched on failure");
		vf_end();
	}
	vf_assert(r == 0, "success is 0");
	readings(&m1, &m2, &now);
	vf_assume(m2 >= m1);
	uint64_t lo = (m1 + m2) / 2, hi = (m1 + m2 + 1) / 2;
	vf_assert(*rt == now - (lo - mt) || *rt == now - (hi - mt), "distance to now is preserved");
	vf_end();
}

void t04_ms(void)
{
	uint64_t mt = vf_u64("mt_ms"), *rt = vf_buf("rt_ms", 8, 0), m1, m2, now;
	vf_assume(mt < ((uint64_t)1 << 50));
	int r = time_monotonic_to_realtime_ms(mt, rt);
	if (vf_failed()) {
		vf_assert(r < 0 && vf_is_fail_errno(r), "a failing clock read is its negative errno");
		vf_assert(vf_undef(rt, 8), "the output is untouched on failure");
		vf_end();
	}
	vf_assert(r == 0, "success is 0");
	readings(&m1, &m2, &now);
	vf_assume(m2 >= m1);
	uint64_t lo = (m1 + m2) / 2;
	vf_assume(now + mt * 1000 >= lo + 1);
	uint64_t us = now + mt * 1000 - lo;
	vf_assert(*rt <= us / 1000 + 1 && *rt + 1 >= us / 1000, "distance to now is preserved to the millisecond");
	vf_end();
}

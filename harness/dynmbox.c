#include "vf.h"
#include <limits.h>
#include <sys/time.h>
#include <futils/dynmbox.h>

#define MAXSZ DYNMBOX_MAX_SIZE

/* a mailbox created without any fault; max is any legal message size */
static struct dynmbox *box(size_t *max)
{
	*max = vf_range("max_msg_size", 0, MAXSZ);
	vf_nofault(1);
	struct dynmbox *b = dynmbox_new(*max);
	vf_assert(b != NULL, "creation succeeds when nothing fails");
	return b;
}

static void unlocked(void)
{
	vf_assert(vf_locked() == 0, "no lock is held on return");
}

/* D01, D03: one operation in any state reached by a few others */
static size_t size_upto(const char *n, size_t max)
{
	size_t s = vf_u64(n);
	vf_assume(s <= max);
	return s;
}

static struct dynmbox *prepared(size_t *max, void *out)
{
	struct dynmbox *b = box(max);
	int k = vf_choose(4, "history");
	if (k >= 1) {
		size_t s = size_upto("s0", *max);
		if (dynmbox_push(b, vf_cbuf("m0", s), s) != 0)
			vf_end();
	}
	if (k >= 2) {
		size_t s = size_upto("s1", *max);
		if (dynmbox_push(b, vf_cbuf("m1", s), s) != 0)
			vf_end();
	}
	if (k >= 3 && dynmbox_peek(b, out) < 0)
		vf_end();
	vf_nofault(0);
	return b;
}

void d01_push(void)
{
	size_t max;
	struct dynmbox *b = prepared(&max, vf_buf("out0", MAXSZ, 0));
	size_t s = vf_u64("size");
	const void *m = vf_choose(2, "msg") ? NULL : vf_cbuf("msg", s);
	vf_mark("begin");
	int r = dynmbox_push(b, m, s);
	vf_mark("end", r);
	unlocked();
	vf_end();
}

void d01_push_block(void)
{
	size_t max;
	struct dynmbox *b = prepared(&max, vf_buf("out0", MAXSZ, 0));
	size_t s = vf_u64("size");
	const void *m = vf_choose(2, "msg") ? NULL : vf_cbuf("msg", s);
	vf_mark("begin");
	int r = dynmbox_push_block(b, m, s, vf_u32("timeout_ms"));
	vf_mark("end", r);
	unlocked();
	vf_end();
}

void d01_peek(void)
{
	size_t max;
	struct dynmbox *b = prepared(&max, vf_buf("out0", MAXSZ, 0));
	void *m = vf_choose(2, "msg") ? NULL : vf_buf("msg", MAXSZ, 0);
	vf_mark("begin");
	ssize_t r = dynmbox_peek(b, m);
	vf_mark("end", r);
	unlocked();
	vf_end();
}

/* D03: ("mark", "end", result) closes the operation; the automaton in
 * specs/dynspec.py counts notifications per critical section */

/* D02 */
static const uint8_t *msg(const char *n, size_t s)
{
	return vf_cbuf(n, s);
}

static void expect_msg(struct dynmbox *b, size_t max, const uint8_t *m, size_t s)
{
	uint8_t *out = vf_buf("out", max ? max : 1, 0);
	ssize_t r = dynmbox_peek(b, out);
	vf_assert(r == (ssize_t)s, "the message comes out with its size");
	if (s > 0) {
		size_t i = vf_u64("index");
		vf_assume(i < s);
		vf_assert(out[i] == m[i], "the message comes out unmodified");
	}
	if (s < max) {
		size_t j = vf_u64("beyond");
		vf_assume(j >= s && j < max);
		vf_assert(vf_undef(out + j, 1), "nothing is written beyond the message");
	}
}

static void expect_empty(struct dynmbox *b, size_t max)
{
	uint8_t *out = vf_buf("out", max ? max : 1, 0);
	vf_assert(dynmbox_peek(b, out) == -EAGAIN, "an empty mailbox has nothing to read");
}

/* move the ring to any position */
static void rotate(struct dynmbox *b, size_t max)
{
	if (vf_choose(2, "rotated")) {
		size_t s = size_upto("rot", max);
		const uint8_t *m = msg("rotm", s);
		vf_assert(dynmbox_push(b, m, s) == 0, "an empty mailbox takes any legal message");
		uint8_t *out = vf_buf("roto", max ? max : 1, 0);
		vf_assert(dynmbox_peek(b, out) == (ssize_t)s, "the message comes out with its size");
		vf_mark("snap");
	}
}

void d02_one(void)
{
	size_t max;
	struct dynmbox *b = box(&max);
	rotate(b, max);
	size_t s = size_upto("s", max);
	const uint8_t *m = msg("m", s);
	vf_assert(dynmbox_push(b, m, s) == 0, "an empty mailbox takes any legal message");
	expect_msg(b, max, m, s);
	expect_empty(b, max);
	vf_end();
}

void d02_two(void)
{
	size_t max;
	struct dynmbox *b = box(&max);
	rotate(b, max);
	size_t s = size_upto("s", max), t = size_upto("t", max);
	const uint8_t *m = msg("m", s), *n = msg("n", t);
	vf_assert(dynmbox_push(b, m, s) == 0, "an empty mailbox takes any legal message");
	int r = dynmbox_push(b, n, t);
	if (r != 0)
		vf_assert(r == -EAGAIN, "a push that does not fit is refused");
	if (r == 0 && vf_choose(2, "order")) {
		expect_msg(b, max, m, s);
		size_t u = size_upto("u", max);
		const uint8_t *o = msg("o", u);
		int q = dynmbox_push(b, o, u);
		vf_assert(q == 0 || q == -EAGAIN, "a push succeeds or is refused");
		expect_msg(b, max, n, t);
		if (q == 0)
			expect_msg(b, max, o, u);
		expect_empty(b, max);
		vf_end();
	}
	expect_msg(b, max, m, s);
	if (r == 0)
		expect_msg(b, max, n, t);
	expect_empty(b, max);
	/* a refusal is transient */
	vf_assert(dynmbox_push(b, n, t) == 0, "a drained mailbox takes any legal message");
	expect_msg(b, max, n, t);
	vf_end();
}

/* small messages are never refused while the queue is nearly empty */
void d02_zero(void)
{
	size_t max;
	struct dynmbox *b = box(&max);
	rotate(b, max);
	size_t t = size_upto("t", max);
	const uint8_t *n = msg("n", t);
	vf_assert(dynmbox_push(b, vf_choose(2, "p") ? NULL : (const void *)n, 0) == 0, "a zero-length message is queued");
	int r = dynmbox_push(b, n, t);
	expect_msg(b, max, n, 0);
	if (r == 0)
		expect_msg(b, max, n, t);
	expect_empty(b, max);
	vf_end();
}

void d02_args(void)
{
	size_t max;
	struct dynmbox *b = box(&max);
	size_t s = vf_u64("s");
	const uint8_t *m = msg("m", s);
	int c = vf_choose(8, "case"), r;
	vf_assert(dynmbox_get_max_size(b) == (ssize_t)max, "the maximum size is the one given");
	vf_assert(dynmbox_get_max_size(NULL) == -EINVAL, "no mailbox, -EINVAL");
	vf_assert(dynmbox_get_read_fd(NULL) == -1, "no mailbox, no descriptor");
	switch (c) {
	case 0:
		vf_assume(s > max);
		r = dynmbox_push(b, m, s);
		break;
	case 1:
		vf_assume(s > max);
		r = dynmbox_push_block(b, m, s, vf_u32("t"));
		break;
	case 2:
		vf_assume(s > 0);
		r = dynmbox_push(b, NULL, s);
		break;
	case 3:
		vf_assume(s > 0);
		r = dynmbox_push_block(b, NULL, s, vf_u32("t"));
		break;
	case 4:
		r = dynmbox_push(NULL, m, s);
		break;
	case 5:
		r = dynmbox_push_block(NULL, m, s, vf_u32("t"));
		break;
	case 6:
		r = dynmbox_peek(b, NULL);
		break;
	default:
		r = dynmbox_peek(NULL, vf_buf("out", MAXSZ, 0));
		break;
	}
	vf_assert(r == -EINVAL, "an illegal argument is -EINVAL");
	vf_assert(vf_evn("write") + vf_evn("read") == 0, "a refused call notifies nobody");
	expect_empty(b, max);
	vf_end();
}

/* D04: pthread_cond_*wait is modelled as: the mutex is released, another
 * thread may or may not have drained the mailbox, the mutex is taken again */
void d04_block(void)
{
	size_t max;
	struct dynmbox *b = box(&max);
	vf_mark("snap");
	rotate(b, max);
	size_t s = size_upto("s", max), u = size_upto("u", max);
	const uint8_t *m = msg("m", s), *o = msg("o", u);
	vf_assert(dynmbox_push(b, m, s) == 0, "an empty mailbox takes any legal message");
	unsigned int t = vf_u32("timeout_ms");
	int w0 = vf_evn("write");
	vf_mark("begin");
	vf_nofault(0);
	int r = dynmbox_push_block(b, o, u, t);
	vf_nofault(1);
	vf_mark("end", r);
	unlocked();
	int k = vf_evn("wait");
	if (t > 0 && vf_evn("clockfail") > 0) {
		vf_assert(r < 0 && vf_is_fail_errno(r), "a clock failure is its negative errno");
		vf_assert(vf_evn("write") == w0 && k == 0, "nothing is queued after a clock failure");
		vf_end();
	}
	for (int i = 0; i < k; i++) {
		int64_t sec = vf_ev("deadline", i, 1), nsec = vf_ev("deadline", i, 2);
		if (t == 0) {
			vf_assert(sec == -1 && nsec == -1, "no timeout waits without limit");
		} else {
			vf_assert(sec != -1 || nsec != -1, "a timeout limits the wait");
			vf_assert(vf_ev("now", 0, 1) == 0, "the deadline is on the condition's clock");
			int64_t n = vf_ev("now", 0, 3) + (int64_t)(t % 1000) * 1000000;
			int64_t q = vf_ev("now", 0, 2) + t / 1000;
			if (n >= 1000000000) {
				n -= 1000000000;
				q++;
			}
			vf_assert(sec == q && nsec == n, "the deadline is now plus the timeout");
		}
	}
	if (k > 0 && vf_evn("waitfail") > 0) {
		int64_t e = vf_ev("waitfail", -1, 1);
		vf_assert(r == -e, "a failed or expired wait is its negative errno");
		vf_assert(vf_evn("write") == w0, "a failed wait queues nothing");
		if (!vf_evn("drained"))
			expect_msg(b, max, m, s);
		expect_empty(b, max);
		vf_end();
	}
	vf_assert(r == 0, "a push with room succeeds");
	int drained = vf_evn("drained");
	if (!drained)
		expect_msg(b, max, m, s);
	expect_msg(b, max, o, u);
	expect_empty(b, max);
	vf_end();
}

void d04_wake(void)
{
	size_t max;
	struct dynmbox *b = box(&max);
	size_t s = size_upto("s", max), u = size_upto("u", max);
	const uint8_t *m = msg("m", s);
	/* learn the waiters' condition from a push that waits */
	vf_assert(dynmbox_push(b, m, s) == 0, "an empty mailbox takes any legal message");
	if (vf_choose(2, "again") && dynmbox_push(b, m, s) != 0)
		vf_end();
	int g0 = vf_evn("signal");
	uint8_t *out = vf_buf("out", MAXSZ, 0);
	vf_mark("begin");
	ssize_t r = dynmbox_peek(b, out);
	vf_mark("end", r);
	vf_assert(r == (ssize_t)s, "a queued message can be read");
	vf_assert(vf_evn("signal") > g0, "a peek that frees space wakes the waiters");
	void *c = (void *)vf_ev("signal", -1, 1);
	/* fill up and wait */
	const uint8_t *o = msg("o", u);
	while (dynmbox_push(b, o, u) == 0)
		if (vf_evn("write") > 6)
			vf_end();
	dynmbox_push_block(b, o, u, 0);
	vf_assert(vf_evn("wait") > 0, "a full mailbox makes the push wait");
	vf_assert((void *)vf_ev("wait", -1, 1) == c, "peek wakes the condition that pushes wait on");
	vf_end();
}

/* D05 */
void d05_new(void)
{
	size_t n = vf_u64("max_msg_size");
	struct dynmbox *b = dynmbox_new(n);
	if (!b) {
		vf_no_leak("a failed creation releases everything");
		vf_assert(vf_sync_live() == 0, "a failed creation leaves no lock object");
		vf_assert(vf_failed() || n > MAXSZ, "a legal size fails only when a system call fails");
		vf_end();
	}
	vf_assert(n <= MAXSZ, "an oversized limit is refused");
	int r = vf_ev("pipe", 0, 1), w = vf_ev("pipe", 0, 2);
	vf_assert(dynmbox_get_read_fd(b) == r, "the read descriptor is the pipe's read end");
	vf_assert(dynmbox_get_max_size(b) == (ssize_t)n, "the maximum size is the one given");
	vf_assert(vf_open_fds() == 2, "exactly the two ends stay open");
	if (!vf_failed()) {
		vf_assert(vf_fd_flag(r, 1) == 1 && vf_fd_flag(w, 1) == 1, "both ends are non-blocking");
		vf_assert(vf_fd_flag(r, 0) == 1 && vf_fd_flag(w, 0) == 1, "both ends are close-on-exec");
		/* usable: fully initialised */
		vf_nofault(1);
		uint8_t *out = vf_buf("out", MAXSZ, 0);
		vf_assert(dynmbox_peek(b, out) == -EAGAIN, "a new mailbox is empty");
		const void *m = vf_cbuf("m", n);
		vf_assert(dynmbox_push(b, m, n) == 0, "an empty mailbox takes any legal message");
	}
	int c = vf_evn("close");
	dynmbox_destroy(b);
	vf_assert(vf_evn("close") == c + 2, "each end is closed once");
	vf_assert(vf_sync_live() == 0, "the lock objects are destroyed");
	vf_no_leak("destruction releases everything");
	vf_end();
}

void d05_null(void)
{
	dynmbox_destroy(NULL);
	vf_end();
}

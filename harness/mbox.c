#include "vf.h"
#include <fcntl.h>
#include <limits.h>
#include <poll.h>
#include <futils/mbox.h>
#include <futils/fdutils.h>
#include <futils/futils.h>

/* M01 */
void m01_new(void)
{
	size_t n = vf_u64("msg_size");
	struct mbox *b = mbox_new(n);
	if (!b) {
		vf_no_leak("a failed creation releases everything");
		vf_assert(vf_failed() || n == 0 || n >= PIPE_BUF, "a legal size fails only when a system call fails");
		vf_end();
	}
	vf_assert(n > 0 && n < PIPE_BUF, "the message size can be transferred atomically");
	vf_assert(vf_evn("pipe") == 1, "one pipe per mailbox");
	int r = vf_ev("pipe", 0, 1), w = vf_ev("pipe", 0, 2);
	vf_assert(mbox_get_read_fd(b) == r, "the read descriptor is the pipe's read end");
	if (!vf_failed()) {
		vf_assert(vf_fd_flag(r, 1) == 1 && vf_fd_flag(w, 1) == 1, "both ends are non-blocking");
		vf_assert(vf_fd_flag(r, 0) == 1 && vf_fd_flag(w, 0) == 1, "both ends are close-on-exec");
	}
	vf_assert(vf_open_fds() == 2, "exactly the two ends stay open");
	int c = vf_evn("close");
	mbox_destroy(b);
	vf_assert(vf_evn("close") == c + 2, "each end is closed once");
	vf_no_leak("destruction releases everything");
	vf_end();
}

void m01_null(void)
{
	mbox_destroy(NULL);
	vf_assert(mbox_get_read_fd(NULL) == -1, "no mailbox, no descriptor");
	vf_end();
}

static struct mbox *box(size_t *n)
{
	*n = vf_range("msg_size", 1, PIPE_BUF - 1);
	struct mbox *b = mbox_new(*n);
	if (!b || vf_failed())
		vf_end();
	return b;
}

/* result of a call that moves one message with the call named what */
static void one(int r, const char *what, const char *res, int fd, const void *m, size_t n, int done0)
{
	int k = vf_evn(what);
	vf_assert(k > done0, "the transfer is attempted");
	vf_assert(vf_ev(what, -1, 1) == fd, "the right end of the pipe is used");
	vf_assert((const void *)vf_ev(what, -1, 2) == m, "the caller's message is transferred");
	vf_assert(vf_ev(what, -1, 3) == n, "exactly one whole message is transferred");
	/* every attempt but the last was interrupted */
	int64_t last = vf_ev(res, -1, 2);
	if (k - done0 > 1) {
		vf_assert(vf_ev(res, -2, 2) == -1, "no second transfer after a completed one");
		vf_assert(vf_ev("fail", last == -1 ? -2 : -1, 2) == EINTR, "only an interruption is retried");
	}
	if (last == -1) {
		vf_assert(vf_ev("fail", -1, 2) != EINTR, "an interruption is retried");
		vf_assert(r == -vf_ev("fail", -1, 2), "the failure is its negative errno");
	} else if (last == 0) {
		vf_assert(r == -EPIPE, "end of file is -EPIPE");
	} else {
		vf_assert(r == 0, "a transferred message is a success");
	}
}

void m02_push(void)
{
	size_t n;
	struct mbox *b = box(&n);
	const void *m = vf_cbuf("msg", n);
	int w = vf_ev("pipe", 0, 2);
	int r = mbox_push(b, m);
	one(r, "write", "write_res", w, m, n, 0);
	vf_assert(vf_evn("poll") == 0 && vf_evn("read") == 0, "push only writes");
	vf_end();
}

void m02_peek(void)
{
	size_t n;
	struct mbox *b = box(&n);
	void *m = vf_buf("msg", n, 0);
	int fd = vf_ev("pipe", 0, 1);
	int r = mbox_peek(b, m);
	one(r, "read", "read_res", fd, m, n, 0);
	vf_assert(vf_evn("poll") == 0 && vf_evn("write") == 0, "peek only reads");
	vf_end();
}

void m02_block(void)
{
	size_t n;
	struct mbox *b = box(&n);
	const void *m = vf_cbuf("msg", n);
	unsigned int t = vf_u32("timeout_ms");
	int w = vf_ev("pipe", 0, 2);
	int r = mbox_push_block(b, m, t);
	if (t > INT_MAX) {
		vf_assert(r == -EINVAL && vf_evn("write") == 0 && vf_evn("poll") == 0, "an unrepresentable timeout is refused");
		vf_end();
	}
	int k = vf_evn("poll");
	vf_assert(k >= 1, "a blocking push waits for room");
	vf_assert(vf_ev("poll", -1, 1) == w, "it waits on the write end");
	vf_assert((vf_ev("poll", -1, 2) & POLLOUT) != 0, "it waits for writability");
	vf_assert(vf_ev("poll", -1, 3) == 1, "it waits on one descriptor");
	int64_t to = vf_ev("poll", -1, 4);
	if (t == 0)
		vf_assert(to < 0, "no timeout waits forever");
	else
		vf_assert(to == t, "the caller's timeout is used");
	int64_t res = vf_ev("poll_res", -1, 1);
	if (k > 1)
		vf_assert(vf_ev("poll_res", -2, 1) == -1, "polling is repeated only after an interruption");
	if (res == 0) {
		vf_assert(r == -ETIMEDOUT && vf_evn("write") == 0, "an expired timeout is -ETIMEDOUT and pushes nothing");
		vf_end();
	}
	if (res == -1) {
		vf_assert(vf_evn("write") == 0, "nothing is pushed after a failed wait");
		vf_assert(vf_ev("fail", -1, 2) != EINTR, "an interrupted wait is retried");
		vf_assert(r == -vf_ev("fail", -1, 2), "a failed wait is its negative errno");
		vf_end();
	}
	one(r, "write", "write_res", w, m, n, 0);
	vf_end();
}

void m02_null(void)
{
	size_t n;
	uint8_t x[8];
	struct mbox *b = box(&n);
	int c = vf_choose(6, "which");
	int r;
	if (c == 0)
		r = mbox_push(b, NULL);
	else if (c == 1)
		r = mbox_push(NULL, x);
	else if (c == 2)
		r = mbox_peek(b, NULL);
	else if (c == 3)
		r = mbox_peek(NULL, x);
	else if (c == 4)
		r = mbox_push_block(b, NULL, vf_u32("timeout_ms"));
	else
		r = mbox_push_block(NULL, x, vf_u32("timeout_ms"));
	vf_assert(r == -EINVAL, "a missing argument is -EINVAL");
	vf_assert(vf_evn("write") + vf_evn("read") + vf_evn("poll") == 0, "a refused call has no effect");
	vf_end();
}

/* B01: fcntl log entries are (fd, command, argument, result) */
static void modified_last(int fd, int get, int set, int flags, int r)
{
	int k = vf_evn("fcntl");
	if (vf_ev("fcntl", 0, 4) == -1) {
		vf_assert(k == 1, "a failed query never leads to a modification");
		vf_assert(r < 0 && vf_is_fail_errno(r), "the failure is its negative errno");
		vf_end();
	}
	if (k == 1) {
		vf_assert(vf_ev("fcntl", 0, 1) == fd && vf_ev("fcntl", 0, 2) == get, "the caller's descriptor is queried");
		vf_assert(((int)vf_ev("fcntl", 0, 4) & flags) == flags, "the flags are only left alone when they are set already");
		vf_assert(r == 0, "success is 0");
		vf_end();
	}
	vf_assert(k == 2, "one query, one modification");
	vf_assert(vf_ev("fcntl", 0, 1) == fd && vf_ev("fcntl", 1, 1) == fd, "the caller's descriptor is used");
	vf_assert(vf_ev("fcntl", 0, 2) == get && vf_ev("fcntl", 1, 2) == set, "the flags are queried before they are set");
	int old = vf_ev("fcntl", 0, 4), now = vf_ev("fcntl", 1, 3);
	vf_assert(now == (old | flags), "the new flags are the existing ones plus the requested ones");
	if (vf_failed())
		vf_assert(r < 0 && vf_is_fail_errno(r), "the failure is its negative errno");
	else
		vf_assert(r == 0, "success is 0");
	vf_end();
}

void b01_cloexec(void)
{
	int fd = vf_range("fd", 0, INT_MAX);
	modified_last(fd, F_GETFD, F_SETFD, FD_CLOEXEC, fd_set_close_on_exec(fd));
}

void b01_flags(void)
{
	static const int fl[] = {0, O_NONBLOCK, O_APPEND, O_NONBLOCK | O_APPEND, O_ASYNC | O_NONBLOCK, 0x7fffffff};
	int fd = vf_range("fd", 0, INT_MAX);
	int f = fl[vf_choose(6, "flags")];
	modified_last(fd, F_GETFL, F_SETFL, f, fd_add_flags(fd, f));
}

void b01_has(void)
{
	int fd = vf_range("fd", 0, INT_MAX);
	int r = fd_has_close_on_exec(fd);
	vf_assert(vf_evn("fcntl") == 1 && vf_ev("fcntl", 0, 1) == fd && vf_ev("fcntl", 0, 2) == F_GETFD,
		  "one query of the caller's descriptor and nothing else");
	int64_t v = vf_ev("fcntl", 0, 4);
	if (v == -1)
		vf_assert(r == 0, "0 on error");
	else
		vf_assert(r == ((v & FD_CLOEXEC) ? 1 : 0), "the current state is reported");
	vf_end();
}

/* G04 */
static int calls[3];
static int64_t arg(int i, int64_t v)
{
	calls[i]++;
	return v;
}
static void once(int n)
{
	for (int i = 0; i < n; i++) {
		vf_assert(calls[i] == 1, "each argument is evaluated exactly once");
		calls[i] = 0;
	}
}
#define PAIR(T, src) \
	do { \
		T a = src("a"), b = src("b"); \
		T r = MIN(a, b); \
		vf_assert((r == a || r == b) && r <= a && r <= b, "MIN is the smaller argument"); \
		r = MAX(a, b); \
		vf_assert((r == a || r == b) && r >= a && r >= b, "MAX is the larger argument"); \
		r = FUTILS_MIN(a, b); \
		vf_assert((r == a || r == b) && r <= a && r <= b, "MIN is the smaller argument"); \
		r = FUTILS_MAX(a, b); \
		vf_assert((r == a || r == b) && r >= a && r >= b, "MAX is the larger argument"); \
		T c = src("c"); \
		T lo = a, hi = b; \
		vf_assume(lo <= hi); \
		r = BOUND(c, lo, hi); \
		vf_assert(r >= lo && r <= hi, "a clamped value is within the bounds"); \
		vf_assert(c < lo ? r == lo : c > hi ? r == hi : r == c, "BOUND clamps to the nearest bound"); \
		r = FUTILS_BOUND(c, lo, hi); \
		vf_assert(c < lo ? r == lo : c > hi ? r == hi : r == c, "BOUND clamps to the nearest bound"); \
		vf_end(); \
	} while (0)
void g04_u8(void) { PAIR(uint8_t, vf_u8); }
void g04_i32(void) { PAIR(int32_t, vf_i32); }
void g04_u32(void) { PAIR(uint32_t, vf_u32); }
void g04_i64(void) { PAIR(int64_t, vf_i64); }
void g04_u64(void) { PAIR(uint64_t, vf_u64); }

void g04_once(void)
{
	int64_t a = vf_i64("a"), b = vf_i64("b"), c = vf_i64("c");
	int64_t r = MIN(arg(0, a), arg(1, b));
	once(2);
	r = MAX(arg(0, a), arg(1, b));
	once(2);
	r = BOUND(arg(0, c), arg(1, a), arg(2, b));
	once(3);
	/* mixed and nested uses */
	int16_t s = vf_i16("s");
	vf_assert(MIN(s, a) == (s < a ? s : a), "MIN of mixed widths");
	vf_assert(MAX(s, a) == (s > a ? s : a), "MAX of mixed widths");
	(void)r;
	vf_end();
}

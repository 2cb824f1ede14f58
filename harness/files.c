#include "vf.h"
#include <stdbool.h>
#include <sys/inotify.h>
#include <futils/fs.h>
#include <futils/inotify.h>
#include <futils/synctools.h>

/* Y01: the effects of each call are compared with what was asked for */
void vf_synced(int ret, const char *file, const char *folder, const char *folder2);

void y01_file(int k)
{
	const char *p = k < 0 ? vf_str("path", 1 << 20) : k == 0 ? "f" : "/d/e/f";
	int r = sync_file(p);
	vf_synced(r, p, NULL, NULL);
	vf_no_leak("everything is released");
	vf_end();
}

void y01_folder(int k)
{
	const char *p = k < 0 ? vf_str("path", 1 << 20) : k == 0 ? "d" : "/d/e/";
	int r = sync_folder(p);
	vf_synced(r, NULL, p, p);
	vf_no_leak("everything is released");
	vf_end();
}

void y01_both(int k)
{
	static const char *const t[][3] = {
		{"/d/e/f", "/d/e/", "/d/e"}, {"d/f", "d/", "d"}, {"/f", "/", "/"}, {"./f", "./", "."}, {"/a/b.c/d.e", "/a/b.c/", "/a/b.c"},
		{"f", ".", "./"}, {"../x", "../", ".."}, {"//f", "//", "/"}, {"d//f", "d//", "d"},
	};
	int r = sync_file_and_folder(t[k][0]);
	vf_synced(r, t[k][0], t[k][1], t[k][2]);
	vf_no_leak("everything is released");
	vf_end();
}

void y01_null(void)
{
	int c = vf_choose(3, "which");
	int r = c == 0 ? sync_file(NULL) : c == 1 ? sync_folder(NULL) : sync_file_and_folder(NULL);
	vf_assert(r == -EINVAL, "a missing path is refused");
	vf_assert(vf_evn("open") == 0, "a refused call has no effect");
	vf_no_leak("everything is released");
	vf_end();
}

/* X01 */
void vf_tree(int64_t ret, const char *root, int recursive);

void x01_size(int rec, int shape)
{
	const char *p = shape == 0 ? "d" : "/a b/d/";
	int64_t r = futils_fs_dir_size(p, rec);
	vf_tree(r, p, rec);
	vf_no_leak("everything is released");
	vf_end();
}

/* a directory whose entries have names too long to be looked at */
void x01_long(int n)
{
	char *p = vf_new(n + 1);
	memset(p, 'x', n);
	p[n] = 0;
	int64_t r = futils_fs_dir_size(p, true);
	vf_tree(r, p, true);
	free(p);
	vf_no_leak("everything is released");
	vf_end();
}

/* I01 */
static void *want;
static int calls;
static void on_event(struct inotify_event *ev, void *data)
{
	vf_assert(data == want, "the caller's pointer is passed through");
	/* the whole event belongs to the callback */
	if (ev->len > 0)
		vf_assert(ev->name[ev->len - 1] == ev->name[ev->len - 1], "the name lies within what was read");
	vf_mark("event", ev, ev->len, ev->wd, ev->mask, ev->cookie);
	calls++;
}

void vf_events(void);

void i01_process(void)
{
	int fd = vf_range("fd", 0, 1 << 20);
	int x;
	want = vf_choose(2, "data") ? &x : NULL;
	inotify_process_fd(fd, on_event, want);
	vf_events();
	vf_no_leak("everything is released");
	vf_end();
}

void i01_create(void)
{
	const char *p = vf_str("path", 1 << 20);
	uint32_t m = vf_u32("mask");
	int fd = inotify_create(p, m);
	if (fd < 0) {
		vf_assert(fd == -1, "a failure is -1");
		vf_assert(vf_failed(), "only a failing call makes it fail");
		vf_assert(vf_open_fds() == 0, "a failure leaves nothing open");
		vf_end();
	}
	vf_assert(vf_evn("watching") == 1, "a descriptor is returned only with its watch");
	vf_assert(vf_evn("watch") == 1 && vf_ev("watch", 0, 1) == fd, "the watch is on the descriptor returned");
	vf_assert((const char *)vf_ev("watch", 0, 2) == p && (uint32_t)vf_ev("watch", 0, 3) == m, "the watch is the one asked for");
	vf_assert(vf_fd_flag(fd, 0), "the descriptor is closed on exec");
	vf_assert(vf_open_fds() == 1, "the descriptor is open");
	inotify_destroy(fd);
	vf_assert(vf_open_fds() == 0, "destroying closes the descriptor");
	vf_end();
}

void i01_destroy(void)
{
	inotify_destroy(vf_range("fd", -2147483647 - 1, -1));
	vf_assert(vf_evn("close") == 0, "an invalid descriptor is ignored");
	vf_end();
}

#include "vf.h"
#include <stdbool.h>
#include <futils/safew.h>

/* the file system model: see specs/safewspec.py */
void vf_settle(void);
void vf_fs_copy(const char *dst, const char *src, int cut);
void vf_fs_clear(const char *name);
int vf_catch(void);
void vf_crashes(int n);
void vf_target(const char *name);
void vf_wrote(const void *p, size_t size, size_t n, size_t ret);
void vf_printed(const char *fmt, int ret);
void vf_closed(int kind, int ret);
void vf_version(const char *name, int which);
void vf_recovered(const char *name, int ret);
void vf_checked(const char *name, int ret);
void vf_checked_fault(const char *name, int ret, int which);
void vf_distinct(const char *a, const char *b);
void vf_names(const char *base, int files_ok);
void vf_present(int ret);

#define P "/d/f"

static void put(const char *name, const void *data, size_t n, bool crc)
{
	struct futils_safew_file *f = futils_safew_fopen(name);
	vf_assert(f != NULL, "opening works when nothing fails");
	vf_assert(futils_safew_fwrite(data, 1, n, f) == n, "writing works when nothing fails");
	int r = crc ? futils_safew_fclose_commit_with_crc(f) : futils_safew_fclose_commit(f);
	vf_assert(r == 0, "committing works when nothing fails");
}

/* F01 */
void f01(int kind, int nw)
{
	const char *d = vf_buf("data", 4, 1);
	vf_nofault(1);
	if (vf_choose(2, "old version"))
		put(P, vf_buf("old", 2, 1), 2, kind == 1);
	vf_settle();
	vf_nofault(0);
	vf_target(P);
	struct futils_safew_file *f = futils_safew_fopen(P);
	if (!f) {
		vf_closed(3, -1);
		vf_end();
	}
	for (int i = 0; i < nw; i++) {
		int c = vf_choose(3, "writer"), r;
		size_t n;
		switch (c) {
		case 0:
			n = futils_safew_fwrite(d, 1, 2, f);
			vf_wrote(d, 1, 2, n);
			break;
		case 1:
			n = futils_safew_fwrite(d + 2, 2, 1, f);
			vf_wrote(d + 2, 2, 1, n);
			break;
		default:
			r = futils_safew_fprintf(f, "x%d", i);
			vf_printed("x%d", r);
		}
	}
	int r = kind == 0 ? futils_safew_fclose_commit(f)
			  : kind == 1 ? futils_safew_fclose_commit_with_crc(f) : futils_safew_fclose_rollback(f);
	vf_closed(kind, r);
	vf_end();
}

/* F02 */
static void versions(const char *n)
{
	const char *o = vf_buf("old", 2, 1);
	vf_nofault(1);
	put("/d/n", n, 1, true);
	vf_version("/d/n", 1);
	vf_fs_clear("/d/n");
	vf_fs_clear("/d/n.crc");
	put(P, o, 2, true);
	vf_version(P, 0);
	/* left over by something that went wrong before */
	if (vf_choose(2, "stale tmp payload"))
		vf_fs_copy(P ".tmp", P, 1);
	if (vf_choose(2, "stale tmp crc"))
		vf_fs_copy(P ".crc.tmp", P ".crc", vf_choose(2, "cut"));
	vf_settle();
}

static int update(const char *n)
{
	struct futils_safew_file *f = futils_safew_fopen(P);
	if (!f)
		return -1;
	futils_safew_fwrite(n, 1, 1, f);
	return futils_safew_fclose_commit_with_crc(f);
}

void f02_crash(int crashes)
{
	const char *n = vf_buf("new", 1, 1);
	versions(n);
	vf_crashes(crashes);
	if (vf_catch() == 0)
		update(n);
	int r = futils_safew_file_check(P);
	vf_recovered(P, r);
	vf_end();
}

void f02_fault(void)
{
	const char *n = vf_buf("new", 1, 1);
	versions(n);
	vf_nofault(0);
	update(n);
	vf_nofault(1);
	int r = futils_safew_file_check(P);
	vf_recovered(P, r);
	vf_end();
}

/* F03 */
void f03_table(int p, int t, int known)
{
	const char *a = known ? "\xff\x80" : vf_buf("a", 2, 1), *b = known ? "\0" : vf_buf("b", 1, 1);
	vf_nofault(1);
	put("/d/a", a, 2, true);
	vf_version("/d/a", 0);
	put("/d/b", b, 1, true);
	vf_version("/d/b", 1);
	static const char *const src[] = {"/d/a", "/d/b"};
	if (p)
		vf_fs_copy(P, src[p - 1], 0);
	if (t)
		vf_fs_copy(P ".tmp", src[t - 1], 0);
	/* complete, cut short, empty, or with one bit changed */
	static const struct { const char *src; int cut; } crcs[] = {
		{ "/d/a.crc", 0 }, { "/d/b.crc", 0 }, { "/d/b.crc", 1 }, { "/d/a.crc", 4 },
		{ "/d/a.crc", -1 }, { "/d/b.crc", -4 }, { "/d/b.crc", -2 }, { "/d/a.crc", -3 },
	};
	int n = known ? 9 : 5, c = vf_choose(n, "crc"), tc = vf_choose(n, "tmp crc");
	if (c)
		vf_fs_copy(P ".crc", crcs[c - 1].src, crcs[c - 1].cut);
	if (tc)
		vf_fs_copy(P ".crc.tmp", crcs[tc - 1].src, crcs[tc - 1].cut);
	vf_fs_clear("/d/a");
	vf_fs_clear("/d/a.crc");
	vf_fs_clear("/d/b");
	vf_fs_clear("/d/b.crc");
	vf_settle();
	int r = futils_safew_file_check(P);
	vf_checked(P, r);
	vf_end();
}

/* the check itself meets failing calls: all (0) or renaming only (2) */
void f03_fault(int which, int p, int t, int c)
{
	const char *a = vf_buf("a", 2, 1), *b = vf_buf("b", 1, 1);
	vf_nofault(1);
	put("/d/a", a, 2, true);
	vf_version("/d/a", 0);
	put("/d/b", b, 1, true);
	vf_version("/d/b", 1);
	static const char *const src[] = {"/d/a", "/d/b"}, *const crc[] = {"/d/a.crc", "/d/b.crc"};
	if (p)
		vf_fs_copy(P, src[p - 1], 0);
	if (t)
		vf_fs_copy(P ".tmp", src[t - 1], 0);
	int tc = vf_choose(3, "tmp crc");
	if (c)
		vf_fs_copy(P ".crc", crc[c - 1], 0);
	if (tc)
		vf_fs_copy(P ".crc.tmp", crc[tc - 1], 0);
	vf_fs_clear("/d/a");
	vf_fs_clear("/d/a.crc");
	vf_fs_clear("/d/b");
	vf_fs_clear("/d/b.crc");
	vf_settle();
	vf_nofault(which);
	int r = futils_safew_file_check(P);
	vf_checked_fault(P, r, which);
	vf_end();
}

void f03_crc(void)
{
	const unsigned char *a = vf_buf("a", 2, 1), *b = vf_buf("b", 2, 1);
	static const char *const n[] = {"/d/0", "/d/1", "/d/2", "/d/3", "/d/4"};
	unsigned char v[5][2] = {{0, 0}, {a[0], 0}, {a[0], a[1]}, {a[0], b[1]}, {b[0], a[1]}};
	static const int l[] = {0, 1, 2, 2, 2};
	vf_nofault(1);
	int i = vf_choose(5, "one"), j = vf_choose(5, "other");
	put(n[i], v[i], l[i], true);
	if (i != j) {
		put(n[j], v[j], l[j], true);
		vf_distinct(n[i], n[j]);
	}
	vf_end();
}

/* F04 */
void f04_write(int kind)
{
	const char *d = vf_buf("data", 4, 1);
	vf_nofault(1);
	put(P, d, 2, true);
	vf_nofault(0);
	struct futils_safew_file *f = futils_safew_fopen(P);
	if (!f) {
		vf_no_leak("a failed open holds nothing");
		vf_end();
	}
	if (vf_choose(2, "writer"))
		futils_safew_fwrite(d, 1, 4, f);
	else
		futils_safew_fprintf(f, "x");
	int r = kind == 0 ? futils_safew_fclose_commit(f)
			  : kind == 1 ? futils_safew_fclose_commit_with_crc(f) : futils_safew_fclose_rollback(f);
	vf_assert(r == 0 || r == -1, "the result is 0 or -1");
	vf_no_leak("the stream and the memory are released");
	vf_end();
}

void f04_check(int files)
{
	const char *a = vf_buf("a", 1, 1);
	vf_nofault(1);
	put("/d/a", a, 1, true);
	if (files & 1)
		vf_fs_copy(P, "/d/a", 0);
	if (files & 2)
		vf_fs_copy(P ".tmp", "/d/a", vf_choose(2, "other payload"));
	if (files & 4)
		vf_fs_copy(P ".crc", "/d/a.crc", vf_choose(2, "short crc"));
	if (files & 8)
		vf_fs_copy(P ".crc.tmp", "/d/a.crc", vf_choose(2, "short tmp crc"));
	vf_nofault(0);
	int r = futils_safew_file_check(P);
	vf_assert(r == 0 || r == -1, "the result is 0 or -1");
	vf_no_leak("every file opened is closed");
	vf_end();
}

void f04_null(void)
{
	vf_assert(futils_safew_fclose_commit(NULL) == -1, "a missing handle is refused");
	vf_assert(futils_safew_fclose_commit_with_crc(NULL) == -1, "a missing handle is refused");
	vf_assert(futils_safew_fclose_rollback(NULL) == -1, "a missing handle is refused");
	vf_no_leak("nothing is held");
	vf_end();
}

/* F05 */
void f05_write(int kind)
{
	const char *n = vf_str("path", 1 << 20);
	vf_names(n, 0);
	struct futils_safew_file *f = futils_safew_fopen(n);
	if (!f) {
		vf_names(n, -1);
		vf_end();
	}
	futils_safew_fwrite("x", 1, 1, f);
	int r = kind == 0 ? futils_safew_fclose_commit(f)
			  : kind == 1 ? futils_safew_fclose_commit_with_crc(f) : futils_safew_fclose_rollback(f);
	vf_names(n, r);
	if (kind < 2)
		vf_present(r);
	vf_end();
}

void f05_check(void)
{
	const char *n = vf_str("path", 1 << 20);
	vf_names(n, 0);
	int r = futils_safew_file_check(n);
	vf_names(n, r);
	vf_present(r);
	vf_end();
}

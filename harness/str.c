#include "vf.h"
#include <stdbool.h>
#include <wchar.h>
#include <futils/string.h>

/* U01 */
void vf_neg(int ret, int unconverted);

void u01_sanitize(int forbidden)
{
	const char *in = vf_str("input", 1 << 20);
	size_t n = vf_range("max_output_size", 0, 1 << 21);
	char *out = vf_buf("output", n, 0);
	const wchar_t *f = forbidden ? vf_wstr("forbidden") : NULL;
	int r = futils_string_sanitize_utf8(in, out, n, f, (wchar_t)vf_i32("replacement"));
	if (r >= 0) {
		vf_assert((size_t)r < n, "the end of the text lies inside the buffer");
		vf_assert(out[r] == 0, "the text is terminated where the result says");
	}
	vf_neg(r, n < 2);
	vf_no_leak("everything is released");
	vf_end();
}

void u01_check(int forbidden)
{
	const char *in = vf_str("input", 1 << 20);
	const wchar_t *f = forbidden ? vf_wstr("forbidden") : NULL;
	int r = futils_string_check_utf8(in, vf_u64("max_bytes"), vf_u64("max_wchars"), f);
	vf_assert(r <= 0, "0 or a negative errno");
	vf_no_leak("everything is released");
	vf_end();
}

/* U02: k characters, m forbidden characters */
void vf_text_in(const char *in, int k, int same);
const wchar_t *vf_wset(int m);
void vf_sanitized(int ret, const char *out, size_t n, const char *in, const wchar_t *f, wchar_t repl);
void vf_checked(int ret, size_t max_bytes, size_t max_wchars, const char *in, const wchar_t *f);

void u02_sanitize(int k, int m, int same, int repl)
{
	const char *in = vf_str("input", 1 << 20);
	size_t n = vf_range("max_output_size", 2, 1 << 22);
	char *out = vf_buf("output", n, 0);
	const wchar_t *f = m < 0 ? NULL : vf_wset(m);
	wchar_t c = repl < 0 ? (wchar_t)vf_i32("replacement") : repl;
	vf_text_in(in, k, same);
	vf_sanitized(futils_string_sanitize_utf8(in, out, n, f, c), out, n, in, f, c);
	vf_end();
}

void u02_check(int k, int m, int same)
{
	const char *in = vf_str("input", 1 << 20);
	size_t b = vf_u64("max_bytes"), w = vf_u64("max_wchars");
	const wchar_t *f = m < 0 ? NULL : vf_wset(m);
	vf_text_in(in, k, same);
	vf_checked(futils_string_check_utf8(in, b, w, f), b, w, in, f);
	vf_end();
}

#include "vf.h"
#include <string>
#include <futils/futils.hpp>

extern "C" void vf_same(const char *p, size_t n, const char *q, size_t m, const char *what);

static std::string make(const char *name, size_t n)
{
	return std::string((const char *)vf_cbuf(name, n), n);
}

/* C01: every pair of strings of these lengths, any bytes */
extern "C" void c01_ends(int n, int m, int which)
{
	const char *p = (const char *)vf_cbuf("text", n), *q = (const char *)vf_cbuf("pattern", m);
	std::string s(p, n), t(q, m);
	bool r = which ? futils::string::endsWith(s, t) : futils::string::startsWith(s, t);
	bool want = n >= m;
	for (int i = 0; want && i < m; i++)
		want = p[which ? n - m + i : i] == q[i];
	vf_assert(r == want, "the answer is exact");
	vf_assert(s.size() == (size_t)n && t.size() == (size_t)m, "arguments keep their length");
	vf_same(s.data(), n, p, n, "the text is not modified");
	vf_same(t.data(), m, q, m, "the pattern is not modified");
	vf_end();
}

/* any lengths */
extern "C" void c01_any(int which)
{
	size_t n = vf_range("text length", 0, 1LL << 40), m = vf_range("pattern length", 0, 1LL << 40);
	const char *p = (const char *)vf_cbuf("text", n), *q = (const char *)vf_cbuf("pattern", m);
	std::string s(p, n), t(q, m);
	bool r = which ? futils::string::endsWith(s, t) : futils::string::startsWith(s, t);
	if (m > n)
		vf_assert(!r, "a pattern longer than the text is not found");
	if (m == 0)
		vf_assert(r, "the empty pattern is found");
	vf_assert(s.size() == n && t.size() == m, "arguments keep their length");
	vf_end();
}

extern "C" void c01_self(int n, int which)
{
	std::string s((const char *)vf_cbuf("text", n), n);
	bool r = which ? futils::string::endsWith(s, s) : futils::string::startsWith(s, s);
	vf_assert(r, "a text starts and ends with itself");
	vf_end();
}

/* C02 */
static char lower(char c)
{
	return c >= 'A' && c <= 'Z' ? c + ('a' - 'A') : c;
}

extern "C" void c02_lower(int n)
{
	const char *p = (const char *)vf_cbuf("text", n);
	std::string s(p, n);
	{
		std::string r = futils::string::convertToLowerCase(s);
		vf_assert(r.size() == (size_t)n, "lower-casing keeps the length");
		for (int i = 0; i < n; i++)
			vf_assert(r[i] == lower(p[i]), "every byte is mapped on its own");
	}
	vf_same(s.data(), n, p, n, "the argument is not modified");
	vf_end();
}

extern "C" void c02_long(int n, int at)
{
	std::string s(n, 'Q');
	char c = (char)vf_u8("byte");
	s[at] = c;
	std::string r = futils::string::convertToLowerCase(s);
	vf_assert(r.size() == (size_t)n, "lower-casing keeps the length");
	for (int i = 0; i < n; i++)
		vf_assert(r[i] == (i == at ? lower(c) : 'q'), "every byte is mapped on its own");
	vf_end();
}

/* C03 */
extern "C" const char *vf_path(int k);
extern "C" const char *vf_part(int k, int which);

extern "C" void c03_path(int k, int which)
{
	vf_nofault(1);
	const char *p = vf_path(k);
	size_t n = strlen(p);
	{
		std::string s(p, n);
		{
			std::string r = which ? futils::fs::basename(s) : futils::fs::dirname(s);
			const char *w = vf_part(k, which);
			vf_same(r.data(), r.size(), w, strlen(w), "the result is what POSIX gives");
		}
		vf_same(s.data(), s.size(), p, n, "the argument is not modified");
	}
	vf_no_leak("everything is released");
	vf_end();
}

extern "C" void c03_any(int which)
{
	vf_nofault(1);
	const char *p = vf_str("path", 1 << 20);
	size_t n = strlen(p);
	{
		std::string s(p, n);
		std::string r = which ? futils::fs::basename(s) : futils::fs::dirname(s);
		vf_assert(s.size() == n, "the argument keeps its length");
	}
	vf_no_leak("everything is released");
	vf_end();
}

#include <futils/string.h>
static const wchar_t set[] = FUTILS_STRING_EXFAT_FORBIDDEN;
int use(const char *in, char *out, size_t n)
{
	return futils_string_sanitize_utf8(in, out, n, set, L'_') + futils_string_check_utf8(in, n, n, FUTILS_STRING_EXFAT_FORBIDDEN);
}

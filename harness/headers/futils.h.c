#include <futils/futils.h>
struct s { int a; long b; };
STATIC_ASSERT(sizeof(int) == 4, "int");
FUTILS_STATIC_ASSERT(sizeof(char) == 1, "char");
int p(const char *f, ...) FUTILS_ATTRIBUTE_FORMAT_PRINTF(1, 2);
int use(int i)
{
	int a[3] = {1, 2, 3};
	TYPEOF_STRUCT_MEMBER(struct s, b) m = 1;
	const char *t = TOSTRING(x) FUTILS_TOSTRING(y) FUTILS_STRINGIFY(z);
	return MIN(i, 2) + MAX(i, 2) + BOUND(i, 1, 3) + FUTILS_MIN(i, m) + FUTILS_MAX(i, m) + FUTILS_BOUND(i, 0, m) + SIZEOF_ARRAY(a) + FUTILS_SIZEOF_ARRAY(a) + t[0];
}

#include <futils/safew.h>
int use(const char *p)
{
	struct futils_safew_file *f = futils_safew_fopen(p);
	size_t n = futils_safew_fwrite(p, 1, 1, f);
	return (int)n + futils_safew_fprintf(f, "%s", p) + futils_safew_fclose_commit(f);
}

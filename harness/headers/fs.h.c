#include <futils/fs.h>
int64_t use(const char *p) { return futils_fs_dir_size(p, true); }

#include <futils/inotify.h>
static void cb(struct inotify_event *e, void *d) { *(uint32_t *)d |= e->mask; }
int use(void) { uint32_t m = 0; int fd = inotify_create("/", IN_CREATE); inotify_process_fd(fd, cb, &m); inotify_destroy(fd); return (int)m; }

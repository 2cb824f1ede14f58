/* Analysis stand-in for Parrot's libulog (<ulog.h>), which is not available
 * offline. It has libulog's macro interface; every log statement becomes a call
 * to an external variadic function that the analyser treats as opaque: it
 * writes none of the program's objects, but may change errno. */
#ifndef VERIF_STUB_ULOG_H
#define VERIF_STUB_ULOG_H

#include <errno.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

#ifdef __cplusplus
extern "C" {
#endif

void vf_ulog(int prio, const char *fmt, ...)
	__attribute__((format(printf, 2, 3)));

#ifdef __cplusplus
}
#endif

#define ULOG_DECLARE_TAG(_t) struct vf_ulog_unused
#define ULOGC(...) vf_ulog(2, __VA_ARGS__)
#define ULOGE(...) vf_ulog(3, __VA_ARGS__)
#define ULOGW(...) vf_ulog(4, __VA_ARGS__)
#define ULOGN(...) vf_ulog(5, __VA_ARGS__)
#define ULOGI(...) vf_ulog(6, __VA_ARGS__)
#define ULOGD(...) vf_ulog(7, __VA_ARGS__)
#define ULOG_PRI(_p, ...) vf_ulog((_p), __VA_ARGS__)

#define ULOG_ERRNO(_fmt, _err, ...) \
	vf_ulog(3, _fmt " err=%d(%s)", ##__VA_ARGS__, (int)(_err), \
		strerror(_err))
#define ULOGE_ERRNO(_err, _fmt, ...) \
	vf_ulog(3, _fmt " err=%d(%s)", ##__VA_ARGS__, (int)(_err), \
		strerror(_err))
#define ULOGW_ERRNO(_err, _fmt, ...) \
	vf_ulog(4, _fmt " err=%d(%s)", ##__VA_ARGS__, (int)(_err), \
		strerror(_err))

#define ULOG_ERRNO_RETURN_IF(_cond, _err) \
	do { if (_cond) { ULOG_ERRNO("", (_err)); return; } } while (0)
#define ULOG_ERRNO_RETURN_ERR_IF(_cond, _err) \
	do { if (_cond) { ULOG_ERRNO("", (_err)); return -(_err); } } while (0)
#define ULOG_ERRNO_RETURN_VAL_IF(_cond, _err, _val) \
	do { if (_cond) { ULOG_ERRNO("", (_err)); return (_val); } } while (0)

#endif

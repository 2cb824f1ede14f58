/* Vocabulary of the entry drivers.  The drivers are only ever compiled to IR
 * and analysed; these functions have no implementation. */
#ifndef VF_H
#define VF_H
#include <errno.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#ifdef __cplusplus
extern "C" {
#endif
/* any value of the type / any value in [lo, hi] */
uint64_t vf_u64(const char *name);
uint32_t vf_u32(const char *name);
uint16_t vf_u16(const char *name);
uint8_t vf_u8(const char *name);
int64_t vf_i64(const char *name);
int32_t vf_i32(const char *name);
int16_t vf_i16(const char *name);
int64_t vf_range(const char *name, int64_t lo, int64_t hi);
/* an object of exactly size bytes with unknown (init=1) or no (init=0) content */
void *vf_buf(const char *name, size_t size, int init);
/* the same, but writing to it is a violation */
const void *vf_cbuf(const char *name, size_t size);
/* any NUL-terminated string of up to max bytes, in an object of exactly that size */
const char *vf_str(const char *name, int64_t max);
const void *vf_wstr(const char *name);
void *vf_new(size_t size);
void vf_assume(int cond);
void vf_assert(int cond, const char *obligation);
int vf_choose(int n, const char *name);
void vf_end(void);
/* effect log of library/system calls */
int vf_evn(const char *name);
int64_t vf_ev(const char *name, int i, int field);
int64_t vf_evorder(const char *name, int i);
void vf_mark(const char *name, ...);
int vf_errno(void);
int vf_failed(void);
int vf_is_fail_errno(int ret);
void vf_no_leak(const char *obligation);
int vf_live(void);
int vf_open_fds(void);
int vf_fd_flag(int fd, int which);
int vf_locked(void);
int vf_sync_live(void);
void vf_nofault(int on);
int vf_undef(const void *p, size_t n);
void vf_thread(int thread);
/* the caller received these bytes of random output */
void vf_out(const void *p, size_t n);
void vf_bounded(uint64_t val, uint64_t max, int bits);
void vf_text(const char *p, size_t n, int kind, size_t count);
void vf_interfere(int on);
#ifdef __cplusplus
}
#endif
#endif

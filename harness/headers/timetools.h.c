#include <futils/timetools.h>
int use(void)
{
	struct timespec a, b, d; struct timeval v = {0, 0}; uint64_t n; uint32_t ms; int s;
	return time_get_monotonic(&a) + time_get_realtime(&b) + time_timespec_diff(&a, &b, &d) + time_timespec_diff_us(&a, &b, &n, &s)
		+ time_timeval_to_ms(&v, &ms) + time_timespec_add_ns(&a, (int64_t)5, &b);
}

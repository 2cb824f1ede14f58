#include <futils/systimetools.h>
int use(void)
{
	struct time_ctx c; struct tm t; uint64_t e; int32_t o; uint16_t ms; char s[64];
	return time_ctx_init(&c) + time_ctx_set_time(&c, "") + time_ctx_get_local(&c, &e, &o) + time_local_ms_get(&e, &ms, &o)
		+ time_local_to_tm(e, o, &t) + time_local_format(e, o, TIME_FMT_RFC1123, s, sizeof(s));
}

#include "vf.h"
#include <sys/time.h>
#include <time.h>
#include <futils/systimetools.h>

#define MAXTEXT (1 << 20)

/* Any text, any length, in parts that cover all of them:
 * 0 the first character is no letter (the ISO formats)
 * 1 the first character is a letter that begins no weekday
 * 2 a Friday in July (any text from there on)
 * 3 any weekday, month and day: the text ends with a fixed time
 * 4 any weekday, then anything too short for a time */
static int upper(int c)
{
	return c >= 'A';
}
static int wday1(int c)
{
	return c == 'S' || c == 'M' || c == 'T' || c == 'W' || c == 'F';
}
static const char *part(int k)
{
	const char *s;
	if (k == 3) {
		unsigned char *b = vf_buf("text", 16 + 9, 1);
		for (int i = 0; i < 16; i++)
			vf_assume(b[i] != 0);
		vf_assume(wday1(b[0]));
		memcpy(b + 16, " 120000Z", 9);
		return (char *)b;
	}
	s = vf_str("text", MAXTEXT);
	if (k == 0)
		vf_assume((unsigned char)s[0] < 'A');
	if (k == 1)
		vf_assume((unsigned char)s[0] >= 'A' && !wday1(s[0]));
	if (k == 2) {
		vf_assume(s[0] == 'F' && s[1] == 'r' && s[2] == 'i');
		if (s[3] && s[4] && s[5] && upper(s[5]))
			vf_assume(s[5] == 'J' && s[6] == 'u' && s[7] == 'l');
		else if (s[3] && s[4] && s[5] && s[6] && s[7] && upper(s[7]))
			vf_assume(s[7] == 'J' && s[8] == 'u' && s[9] == 'l');
		else if (s[3] && s[4] && s[5] && s[6] && s[7] && s[8] && upper(s[8]))
			vf_assume(s[8] == 'J' && s[9] == 'u' && s[10] == 'l');
	}
	if (k == 4)
		vf_assume(wday1(s[0]) && strlen(s) < 22);
	return s;
}

/* S01 */
void s01_parse(int k)
{
	const char *s = part(k);
	uint64_t e;
	int32_t o;
	int r = time_local_parse(s, &e, &o);
	vf_assert(r <= 0, "the result is 0 or a negative errno");
	vf_end();
}

void s01_ctx(int what, int k)
{
	const char *s = k < 0 ? vf_str("text", MAXTEXT) : part(k);
	struct time_ctx ctx;
	uint64_t e;
	int32_t o;
	int r;
	r = time_ctx_init(&ctx);
	vf_assert(r == 0, "a context can be initialised");
	if (what == 0)
		r = time_ctx_set_date(&ctx, s);
	else if (what == 1)
		r = time_ctx_set_hour(&ctx, s);
	else
		r = time_ctx_set_time(&ctx, s);
	vf_assert(r <= 0, "the result is 0 or a negative errno");
	if (what == 0 && r == -EINPROGRESS)
		r = time_ctx_set_hour(&ctx, "120000+0000");
	if (what == 1 && r == -EINPROGRESS)
		r = time_ctx_set_date(&ctx, "20200101");
	if (r == 0)
		vf_assert(time_ctx_get_local(&ctx, &e, &o) == 0, "a complete context can be read");
	vf_end();
}

/* broken-down time of any content */
void s01_from_tm(void)
{
	struct tm tm;
	uint64_t e;
	int32_t o;
	memset(&tm, 0, sizeof(tm));
	tm.tm_year = vf_i32("year");
	tm.tm_mon = vf_i32("mon");
	tm.tm_mday = vf_i32("mday");
	tm.tm_hour = vf_i32("hour");
	tm.tm_min = vf_i32("min");
	tm.tm_sec = vf_i32("sec");
	tm.tm_gmtoff = vf_i32("off");
	int r = time_local_from_tm(&tm, &e, &o);
	vf_assert(r <= 0, "the result is 0 or a negative errno");
	vf_end();
}

/* S02 */
static int isd(int c)
{
	return c >= '0' && c <= '9';
}
static int name3(const char *s, const char *names, int k)
{
	for (int i = 0; i < k; i++)
		if (s[0] == names[3 * i] && s[1] == names[3 * i + 1] && s[2] == names[3 * i + 2])
			return 1;
	return 0;
}
/* does the end of the text have the shape of a time with its offset? */
static int time_shape(const char *s, size_t n)
{
	if (n > 0 && (s[0] == ' '))
		s++, n--;
	if (n > 0 && (s[0] == 'T'))
		s++, n--;
	if (n >= 8 && s[2] == ':' && s[5] == ':')
		s += 8, n -= 8;
	else if (n >= 6)
		s += 6, n -= 6;
	else
		return 0;
	if (n > 0 && s[0] == ' ')
		s++, n--;
	if (n == 6)
		return (s[0] == '+' || s[0] == '-') && s[3] == ':';
	if (n == 5)
		return s[0] == '+' || s[0] == '-';
	if (n == 3)
		return (s[0] == 'G' && s[1] == 'M' && s[2] == 'T') || (s[0] == 'U' && s[1] == 'T' && s[2] == 'C');
	if (n == 2)
		return s[0] == 'U' && s[1] == 'T';
	return n == 1 && s[0] == 'Z';
}
static int shape(const char *s, size_t n)
{
	if (n >= 16 && s[3] == ',' && name3(s, "SunMonTueWedThuFriSat", 7)) {
		const char *mon = "JanFebMarAprMayJunJulAugSepOctNovDec";
		size_t o;
		if (name3(s + 5, mon, 12))
			o = 9;			/* Day, Mon D[D] YYYY */
		else
			o = 5;			/* Day, D[D] Mon YYYY */
		o += s[o + 1] == ' ' ? 1 : 2;
		if (o < 9 && !name3(s + o + 1, mon, 12))
			return 0;
		o += o < 9 ? 9 : 5;
		return o <= n && time_shape(s + o, n - o);
	}
	if (n >= 10 && (s[10] == 'T' || s[10] == ' '))
		return s[4] == '-' && s[7] == '-' && time_shape(s + 10, n - 10);
	return n >= 8 && (s[8] == 'T' || s[8] == ' ') && time_shape(s + 8, n - 8);
}

void s02_parse(int k)
{
	const char *s = part(k);
	uint64_t *e = vf_buf("epoch_sec", sizeof(*e), 0);
	int32_t *o = vf_buf("utc_offset_sec", sizeof(*o), 0);
	int r = time_local_parse(s, e, o);
	if (r < 0) {
		vf_assert(vf_undef(e, sizeof(*e)) && vf_undef(o, sizeof(*o)), "a failure leaves the outputs untouched");
		vf_end();
	}
	vf_assert(r == 0, "the result is 0 or a negative errno");
	vf_assert(!vf_undef(e, sizeof(*e)), "the epoch is set from initialised data");
	vf_assert(*o <= 99 * 3600 + 99 * 60 && *o >= -(99 * 3600 + 99 * 60), "the offset is set from initialised data");
	vf_end();
}

void s02_shape(int k)
{
	const char *s = part(k);
	uint64_t e;
	int32_t o;
	int r = time_local_parse(s, &e, &o);
	if (r == 0)
		vf_assert(shape(s, strlen(s)), "only text of a supported format is accepted");
	vf_end();
}

/* one field of any bytes in a text that is otherwise well formed */
struct field {
	const char *text;
	int at, n;
};
static const struct field fields[] = {
	{"2024-05-06T07:08:09+10:11", 0, 4}, {"2024-05-06T07:08:09+10:11", 5, 2}, {"2024-05-06T07:08:09+10:11", 8, 2},
	{"2024-05-06T07:08:09+10:11", 11, 2}, {"2024-05-06T07:08:09+10:11", 14, 2}, {"2024-05-06T07:08:09+10:11", 17, 2},
	{"2024-05-06T07:08:09+10:11", 20, 2}, {"2024-05-06T07:08:09+10:11", 23, 2},
	{"20240506T070809-1011", 0, 4}, {"20240506T070809-1011", 4, 2}, {"20240506T070809-1011", 6, 2},
	{"20240506T070809-1011", 9, 2}, {"20240506T070809-1011", 11, 2}, {"20240506T070809-1011", 13, 2},
	{"20240506T070809-1011", 16, 2}, {"20240506T070809-1011", 18, 2},
	{"Mon, 06 May 2024 07:08:09 GMT", 5, 2}, {"Mon, 06 May 2024 07:08:09 GMT", 12, 4},
	{"Mon, May 06 2024 07:08:09 GMT", 9, 2}, {"Mon, May 06 2024 07:08:09 GMT", 12, 4},
	{"Mon, 06 May 2024 07:08:09 GMT", 8, -3}, {"Mon, May 06 2024 07:08:09 GMT", 5, -3},
	{"Mon, 06 May 2024 07:08:09 GMT", 0, -3},
};
static int number(const unsigned char *s, int n)
{
	int i = 0;
	while (i < n && (s[i] == ' ' || (s[i] >= 9 && s[i] <= 13)))
		i++;
	if (i < n && (s[i] == '+' || s[i] == '-'))
		i++;
	if (i == n)
		return 0;
	for (; i < n; i++)
		if (!isd(s[i]))
			return 0;
	return 1;
}
void s02_field(int k)
{
	const struct field *f = &fields[k];
	size_t n = strlen(f->text);
	unsigned char *s = vf_buf("text", n + 1, 1);
	int a = f->at, w = f->n < 0 ? -f->n : f->n;
	uint64_t e;
	int32_t o;
	memcpy(s, f->text, a);
	for (int i = 0; i < w; i++)
		vf_assume(s[a + i] != 0);
	memcpy(s + a + w, f->text + a + w, n + 1 - a - w);
	if (f->n < 0 && a == 5)
		vf_assume(!isd(s[5]));
	int r = time_local_parse((char *)s, &e, &o);
	if (r == 0 && f->n > 0)
		vf_assert(number(s + a, w), "only a number is accepted for a field");
	if (r == 0 && f->n < 0)
		vf_assert(name3((char *)s + a, a ? "JanFebMarAprMayJunJulAugSepOctNovDec" : "SunMonTueWedThuFriSat", a ? 12 : 7),
			  "only a name is accepted for a month or day");
	vf_end();
}

void s02_null(void)
{
	uint64_t e = 5;
	int32_t o = 7;
	int c = vf_choose(3, "which");
	int r = time_local_parse(c == 0 ? NULL : "20200101T000000Z", c == 1 ? NULL : &e, c == 2 ? NULL : &o);
	vf_assert(r == -EINVAL && e == 5 && o == 7, "a missing argument is refused");
	vf_end();
}

/* S03: the context starts in each of its reachable states, then gets any text */
#define DATE 1
#define HOUR 2
#define D0 "2024-02-29"
#define H0 "T12:34:56+0130"
#define E0 1709204696		/* 2024-02-29 11:04:56 UTC */
#define O0 5400
static int op(struct time_ctx *c, int what, const char *s)
{
	return what == DATE ? time_ctx_set_date(c, s) : what == HOUR ? time_ctx_set_hour(c, s) : time_ctx_set_time(c, s);
}
static void get_check(struct time_ctx *c, int have)
{
	uint64_t *e = vf_buf("epoch_sec", sizeof(*e), 0);
	int32_t *o = vf_buf("utc_offset_sec", sizeof(*o), 0);
	int r = time_ctx_get_local(c, e, o);
	if (have == 3) {
		vf_assert(r == 0, "a complete context yields its time");
		vf_assert(!vf_undef(e, sizeof(*e)) && !vf_undef(o, sizeof(*o)), "the time comes from initialised data");
	} else {
		vf_assert(r == -EINPROGRESS, "an incomplete context has no time");
		vf_assert(vf_undef(e, sizeof(*e)) && vf_undef(o, sizeof(*o)), "reading an incomplete context leaves the outputs untouched");
	}
}
static void reach(struct time_ctx *c, int have, int how)
{
	int r = time_ctx_init(c);
	vf_assert(r == 0, "a context can be initialised");
	get_check(c, 0);
	if (have == 3 && how == 2) {
		vf_assert(time_ctx_set_time(c, D0 H0) == 0, "date and hour at once complete the context");
		return;
	}
	if (how == 0 && (have & DATE))
		vf_assert(time_ctx_set_date(c, D0) == -EINPROGRESS, "the date alone does not complete the context");
	if (have & HOUR)
		vf_assert(time_ctx_set_hour(c, H0) == (have == 3 && how == 0 ? 0 : -EINPROGRESS), "the hour completes the context when the date is known");
	if (how == 1 && (have & DATE))
		vf_assert(time_ctx_set_date(c, D0) == (have == 3 ? 0 : -EINPROGRESS), "the date completes the context when the hour is known");
}

void s03_step(int have, int what, int k)
{
	struct time_ctx c, old;
	const char *s = k < 0 ? vf_str("text", MAXTEXT) : part(k);
	reach(&c, have, 0);
	memset(&old, 0, sizeof(old));
	old = c;
	int r = op(&c, what, s);
	if (have & what) {
		vf_assert(r == -EEXIST, "a field cannot be set twice");
		vf_assert(memcmp(&c, &old, sizeof(c)) == 0, "a refused field changes nothing");
		get_check(&c, have);
		vf_end();
	}
	int now = have;
	if (r == 0) {
		now |= what;
		vf_assert(now == 3, "success is reported by the step that completes the context");
	} else if (r == -EINPROGRESS) {
		now |= what;
		vf_assert(now != 3, "a complete context is not in progress");
	} else {
		vf_assert(r < 0 && r != -EEXIST, "a rejected text is a negative errno");
		/* the field can still be set */
	}
	get_check(&c, now);
	int mis = 3 & ~now;
	if (now != have) {
		vf_assert(op(&c, what, what == DATE ? D0 : what == HOUR ? H0 : D0 H0) == -EEXIST, "an accepted field is set");
		vf_end();
	}
	if (mis & DATE)
		vf_assert(op(&c, DATE, D0) == ((now | DATE) == 3 ? 0 : -EINPROGRESS), "a rejected date can be given again");
	if (mis & HOUR)
		vf_assert(op(&c, HOUR, H0) == 0, "a rejected hour can be given again");
	uint64_t e = 0;
	int32_t o = 0;
	vf_assert(time_ctx_get_local(&c, &e, &o) == 0 && e == E0 && o == O0, "the time is that of the accepted texts only");
	vf_end();
}

void s03_orders(void)
{
	struct time_ctx c;
	uint64_t e = 0;
	int32_t o = 0;
	reach(&c, 3, vf_choose(3, "order"));
	vf_assert(time_ctx_get_local(&c, &e, &o) == 0 && e == E0 && o == O0, "the time does not depend on the order");
	int w = 1 + vf_choose(3, "again");
	vf_assert(op(&c, w, w == DATE ? "2000-01-01" : w == HOUR ? "000000Z" : "20000101T000000Z") == -EEXIST, "a field cannot be set twice");
	vf_assert(time_ctx_get_local(&c, &e, &o) == 0 && e == E0 && o == O0, "a refused field changes nothing");
	vf_end();
}

void s03_null(void)
{
	struct time_ctx c;
	uint64_t e = 5;
	int32_t o = 7;
	int have = vf_choose(4, "have");
	reach(&c, have, 0);
	vf_assert(time_ctx_init(NULL) == -EINVAL, "a missing context is refused");
	for (int w = 1; w <= 3; w++) {
		vf_assert(op(NULL, w, D0) == -EINVAL, "a missing context is refused");
		vf_assert(op(&c, w, NULL) == -EINVAL, "a missing text is refused");
	}
	vf_assert(time_ctx_get_local(NULL, &e, &o) == -EINVAL, "a missing context is refused");
	vf_assert(time_ctx_get_local(&c, NULL, &o) == -EINVAL, "a missing output is refused");
	vf_assert(time_ctx_get_local(&c, &e, NULL) == -EINVAL, "a missing output is refused");
	vf_assert(e == 5 && o == 7, "a refused call writes nothing");
	get_check(&c, have);
	vf_end();
}

/* S04 */
void s04_any(int fmt)
{
	size_t n = vf_range("n", 0, 1 << 20);
	char *s = vf_buf("text", n, 0);
	int f = fmt < 3 ? fmt : vf_i32("fmt");
	uint64_t e = vf_u64("epoch_sec");
	int32_t o = vf_i32("utc_offset_sec");
	if (fmt == 3)
		vf_assume(f < 0 || f > 2);
	int r = time_local_format(e, o, f, s, n);
	if (vf_failed()) {
		vf_assert(r < 0 && vf_is_fail_errno(r), "a failed conversion is its negative errno");
		vf_end();
	}
	if (n == 0 || fmt == 3) {
		vf_assert(r == -EINVAL, "an unknown format or an empty buffer is refused");
		vf_end();
	}
	vf_assert(r == 0, "any time can be formatted");
	vf_end();
}

/* the text, byte by byte */
static int two(const char *s)
{
	return (s[0] - '0') * 10 + (s[1] - '0');
}
void s04_text(int fmt, int room)
{
	/* room 0: long enough; else the number of bytes of the buffer */
	size_t n = room ? room : 64;
	char *s = vf_buf("text", n, 0);
	uint64_t e = vf_u64("epoch_sec");
	int32_t o = vf_range("utc_offset_sec", -359999, 359999);
	int r = time_local_format(e, o, fmt, s, n);
	if (vf_failed())
		vf_end();
	vf_assert(r == 0, "any time can be formatted");
	size_t k = strlen(s);
	vf_assert(k < n, "the text is terminated inside the buffer");
	if (room)
		vf_end();
	int32_t a = o < 0 ? -o : o;
	if (fmt == TIME_FMT_RFC1123) {
		vf_assert(s[3] == ',' && s[4] == ' ', "the weekday comes first");
		if (o == 0) {
			vf_assert(k >= 4 && !memcmp(s + k - 4, " GMT", 4), "no offset is GMT");
			vf_end();
		}
	}
	int c = fmt == TIME_FMT_LONG;
	vf_assert(k >= (size_t)(5 + c), "the text ends with the offset");
	const char *z = s + k - 5 - c;
	if (o != 0)
		vf_assert(z[0] == (o < 0 ? '-' : '+'), "the sign printed is that of the offset");
	else
		vf_assert(z[0] == '-' || z[0] == '+', "the offset has a sign");
	vf_assert(two(z + 1) * 60 + two(z + 3 + c) == a / 60, "hours and minutes are those of the offset");
	vf_assert(two(z + 3 + c) < 60, "minutes are below 60");
	if (c)
		vf_assert(z[3] == ':', "the long format separates hours and minutes");
	vf_end();
}

void s04_null(void)
{
	int r = time_local_format(vf_u64("epoch_sec"), vf_i32("off"), vf_range("fmt", 0, 2), NULL, vf_u64("n"));
	vf_assert(r == -EINVAL, "a missing buffer is refused");
	vf_end();
}

void s04_to_tm(void)
{
	struct tm tm;
	uint64_t e = vf_u64("epoch_sec");
	int32_t o = vf_i32("off");
	vf_assert(time_local_to_tm(e, o, NULL) == -EINVAL, "a missing output is refused");
	int r = time_local_to_tm(e, o, &tm);
	if (vf_failed()) {
		vf_assert(r < 0 && vf_is_fail_errno(r), "a failed conversion is its negative errno");
		vf_end();
	}
	vf_assert(r == 0 && tm.tm_gmtoff == o, "the offset is passed through");
	vf_end();
}

/* S05: vf_civil() is the number of seconds of any local date of the years 1970 to 9999 since the epoch;
 * gmtime_r gives back its fields */
int64_t vf_civil(void);
void s05_trip(int fmt)
{
	char s[64];
	int32_t o = 60 * (int32_t)vf_range("offset_min", -5999, 5999), o2;
	uint64_t e = vf_civil() - o, e2;
	vf_assume((int64_t)e >= 0);
	int r = time_local_format(e, o, fmt, s, sizeof(s));
	vf_assert(r == 0, "any time can be formatted");
	r = time_local_parse(s, &e2, &o2);
	vf_assert(r == 0, "formatted text can be parsed");
	vf_assert(o2 == o, "the offset survives");
	vf_assert(e2 == e, "the instant survives");
	vf_end();
}

void s05_tm(void)
{
	struct tm tm;
	int32_t o = (int32_t)vf_range("offset", -359999, 359999), o2;
	uint64_t e = vf_civil() - o, e2;
	vf_assume((int64_t)e >= 0);
	int r = time_local_to_tm(e, o, &tm);
	vf_assert(r == 0, "any time can be converted");
	r = time_local_from_tm(&tm, &e2, &o2);
	vf_assert(r == 0, "a converted time can be converted back");
	vf_assert(o2 == o, "the offset survives");
	vf_assert(e2 == e, "the instant survives");
	vf_end();
}

/* S06 */
void s06_set(void)
{
	uint64_t e = vf_u64("epoch_sec");
	int r = time_local_set(e, vf_i32("off"));
	vf_assert(vf_evn("settimeofday") == 1, "the time is set once");
	vf_assert((uint64_t)vf_ev("settimeofday", 0, 1) == e && vf_ev("settimeofday", 0, 2) == 0, "the kernel gets exactly the second asked for");
	if (vf_failed())
		vf_assert(r < 0 && vf_is_fail_errno(r), "a failure is its negative errno");
	else
		vf_assert(r == 0, "success is 0");
	vf_end();
}

void s06_get(void)
{
	uint64_t *e = vf_buf("epoch_sec", sizeof(*e), 0);
	uint16_t *ms = vf_buf("ms", sizeof(*ms), 0);
	int32_t *o = vf_buf("off", sizeof(*o), 0);
	int we = vf_choose(2, "want epoch"), wm = vf_choose(2, "want ms"), wo = vf_choose(2, "want offset");
	int form = vf_choose(2, "form");
	int r;
	if (form == 0) {
		wm = 0;
		r = time_local_get(we ? e : NULL, wo ? o : NULL);
	} else {
		r = time_local_ms_get(we ? e : NULL, wm ? ms : NULL, wo ? o : NULL);
	}
	if (!we && !wo) {
		vf_assert(r == -EINVAL && vf_undef(ms, sizeof(*ms)), "nothing to fill is refused");
		vf_end();
	}
	if (vf_failed()) {
		vf_assert(r < 0 && vf_is_fail_errno(r), "a clock failure is its negative errno");
		vf_assert(vf_undef(e, sizeof(*e)) && vf_undef(ms, sizeof(*ms)) && vf_undef(o, sizeof(*o)), "a failure leaves the outputs untouched");
		vf_end();
	}
	vf_assert(r == 0, "success is 0");
	vf_assert(vf_evn("now") >= 1, "the clock is read");
	if (we)
		vf_assert((int64_t)*e == vf_ev("now", -1, 2), "the epoch is the clock's second");
	if (wm)
		vf_assert(*ms == vf_ev("now", -1, 3) / 1000000 && *ms <= 999, "milliseconds are the clock's");
	if (wo)
		vf_assert(*o >= -200000 && *o <= 200000, "the offset is set");
	vf_end();
}

void s06_from_tm(void)
{
	struct tm tm;
	uint64_t *e = vf_buf("epoch_sec", sizeof(*e), 0);
	int32_t *o = vf_buf("off", sizeof(*o), 0);
	memset(&tm, 0, sizeof(tm));
	tm.tm_year = 120;
	tm.tm_mon = vf_range("mon", 0, 11);
	tm.tm_mday = 1;
	tm.tm_gmtoff = vf_range("gmtoff", -86400, 86400);
	int we = vf_choose(2, "want epoch"), wo = vf_choose(2, "want offset"), nt = vf_choose(2, "no tm");
	int r = time_local_from_tm(nt ? NULL : &tm, we ? e : NULL, wo ? o : NULL);
	if (nt || (!we && !wo)) {
		vf_assert(r == -EINVAL, "missing arguments are refused");
		vf_assert(vf_undef(e, sizeof(*e)) && vf_undef(o, sizeof(*o)), "a refused call writes nothing");
		vf_end();
	}
	vf_assert(r == 0, "a date can be converted");
	if (we)
		vf_assert(*e > 1500000000, "the epoch is set");
	if (wo)
		vf_assert(*o == tm.tm_gmtoff, "the offset is the date's");
	vf_end();
}

/* S07: the same instant written in every supported form */
static char *put2(char *p, int v)
{
	*p++ = '0' + v / 10;
	*p++ = '0' + v % 10;
	return p;
}
static char *str(char *p, const char *s)
{
	while (*s)
		*p++ = *s++;
	return p;
}
struct when {
	int c, y, mon, d, h, m, s, oh, om, neg;
};
static char *year(char *p, const struct when *w)
{
	return put2(put2(p, w->c), w->y);
}
static char *date_text(char *p, int form, const struct when *w)
{
	static const char mons[] = "JanFebMarAprMayJunJulAugSepOctNovDec";
	static const char days[] = "SunMonTueWedThuFriSat";
	if (form < 2) {
		p = year(p, w);
		if (form == 0)
			*p++ = '-';
		p = put2(p, w->mon);
		if (form == 0)
			*p++ = '-';
		return put2(p, w->d);
	}
	/* 2: Www, DD Mon YYYY  3: Www, D Mon YYYY  4: Www, Mon DD YYYY  5: Www, Mon D YYYY */
	int a = 3 * ((w->mon + w->c % 2) % 7);
	for (int i = 0; i < 3; i++)
		*p++ = days[a + i];
	p = str(p, ", ");
	for (int k = 0; k < 2; k++) {
		if (k == (form >= 4)) {
			if (form % 2)
				*p++ = '0' + w->d;
			else
				p = put2(p, w->d);
		} else {
			for (int i = 0; i < 3; i++)
				*p++ = mons[3 * (w->mon - 1) + i];
		}
		*p++ = ' ';
	}
	return year(p, w);
}
static char *time_text(char *p, int colons, int space, int zone, const struct when *w)
{
	static const char *const zones[] = {"Z", "GMT", "UT", "UTC"};
	p = put2(p, w->h);
	if (colons)
		*p++ = ':';
	p = put2(p, w->m);
	if (colons)
		*p++ = ':';
	p = put2(p, w->s);
	if (space)
		*p++ = ' ';
	if (zone < 2) {
		*p++ = w->neg ? '-' : '+';
		p = put2(p, w->oh);
		if (zone == 0)
			*p++ = ':';
		p = put2(p, w->om);
	} else {
		p = str(p, zones[zone - 2]);
	}
	*p = 0;
	return p;
}
static void some_when(struct when *w, int form, int zone, int whole)
{
	w->mon = 1 + vf_choose(12, "month");
	w->d = (int)vf_range("day", 1, form == 3 || form == 5 ? 9 : 31);
	if (whole) {
		w->c = 19 + vf_choose(3, "century");
		w->y = (int)vf_range("year", 0, 99);
		if (w->c == 19)
			vf_assume(w->y >= 70);
		w->h = (int)vf_range("hour", 0, 23);
		w->m = (int)vf_range("minute", 0, 59);
		w->s = (int)vf_range("second", 0, 59);
	} else {
		w->c = 20;
		w->y = 24;
		w->h = 7;
		w->m = 8;
		w->s = (int)vf_range("second", 0, 60);
	}
	w->neg = zone < 2 ? vf_choose(2, "sign") : 0;
	w->oh = zone < 2 ? (int)vf_range("offset hours", 0, 23) : 0;
	w->om = zone < 2 ? (int)vf_range("offset minutes", 0, 59) : 0;
	if (w->c == 19 && w->y == 70)
		vf_assume(w->mon > 1);		/* not before the epoch, whatever the offset */
}
static void canonical(const struct when *w, uint64_t *e, int32_t *o)
{
	char b[40];
	char *p = date_text(b, 0, w);
	*p++ = 'T';
	time_text(p, 1, 0, 0, w);
	vf_assert(time_local_parse(b, e, o) == 0, "the long ISO form is accepted");
	vf_assert(*o == (w->neg ? -1 : 1) * (w->oh * 3600 + w->om * 60), "the offset is the one written");
}
/* the whole text */
void s07_parse(int form, int zone)
{
	struct when w;
	char b[64];
	uint64_t e, e2;
	int32_t o, o2;
	some_when(&w, form, zone, 0);
	char *p = date_text(b, form, &w);
	switch (vf_choose(2, "separator")) {
	case 0:
		*p++ = 'T';
		break;
	case 1:
		*p++ = ' ';
		break;
	}
	int colons = vf_choose(2, "colons"), space = vf_choose(2, "space");
	time_text(p, colons, space, zone, &w);
	canonical(&w, &e, &o);
	if (vf_choose(2, "context")) {
		struct time_ctx c;
		time_ctx_init(&c);
		vf_assert(time_ctx_set_time(&c, b) == 0, "a text of a supported form sets the time of a context");
		vf_assert(time_ctx_get_local(&c, &e2, &o2) == 0, "a complete context can be read");
	} else {
		vf_assert(time_local_parse(b, &e2, &o2) == 0, "a text of a supported form is accepted");
	}
	vf_assert(e2 == e, "every form of a time is the same instant");
	vf_assert(o2 == o, "every form of an offset is the same offset");
	vf_end();
}
/* any date and time in two forms, and in two steps */
void s07_any(int form)
{
	struct when w;
	char b[64], t[32];
	uint64_t e, e2;
	int32_t o, o2;
	some_when(&w, form, 1, 1);
	char *p = date_text(b, form, &w);
	canonical(&w, &e, &o);
	if (form < 2 && vf_choose(2, "steps")) {
		struct time_ctx c;
		*p = 0;
		p = t;
		if (vf_choose(2, "T"))
			*p++ = 'T';
		time_text(p, form == 0, 0, form, &w);
		time_ctx_init(&c);
		if (vf_choose(2, "order")) {
			vf_assert(time_ctx_set_date(&c, b) == -EINPROGRESS, "a date of a supported form is accepted");
			vf_assert(time_ctx_set_hour(&c, t) == 0, "a time of a supported form completes the context");
		} else {
			vf_assert(time_ctx_set_hour(&c, t) == -EINPROGRESS, "a time of a supported form is accepted");
			vf_assert(time_ctx_set_date(&c, b) == 0, "a date of a supported form completes the context");
		}
		vf_assert(time_ctx_get_local(&c, &e2, &o2) == 0, "a complete context can be read");
	} else {
		*p++ = ' ';
		time_text(p, 0, 1, 1, &w);
		vf_assert(time_local_parse(b, &e2, &o2) == 0, "a text of a supported form is accepted");
	}
	vf_assert(e2 == e, "every form of a time is the same instant");
	vf_assert(o2 == o, "every form of an offset is the same offset");
	vf_end();
}
/* the hour of a context in every form */
void s07_hour(int zone)
{
	struct when w;
	char t[32], *p = t;
	uint64_t e, e2;
	int32_t o, o2;
	struct time_ctx c;
	some_when(&w, 0, zone, 0);
	w.mon = 2;
	w.d = 29;
	w.h = (int)vf_range("hour", 0, 23);
	canonical(&w, &e, &o);
	if (vf_choose(2, "T"))
		*p++ = 'T';
	int colons = vf_choose(2, "colons"), space = vf_choose(2, "space");
	time_text(p, colons, space, zone, &w);
	time_ctx_init(&c);
	vf_assert(time_ctx_set_hour(&c, t) == -EINPROGRESS, "a time of a supported form is accepted");
	vf_assert(time_ctx_set_date(&c, "20240229") == 0, "the date completes the context");
	vf_assert(time_ctx_get_local(&c, &e2, &o2) == 0, "a complete context can be read");
	vf_assert(e2 == e, "every form of a time is the same instant");
	vf_assert(o2 == o, "every form of an offset is the same offset");
	vf_end();
}

#include "vp_proof.h"
#ifdef VP_BOUNDED	/* short texts, small counts, the file as it is */
# undef VP_EXTRACT
# define BOUND(v) __CPROVER_assume(v <= 7)
# define MAXLEN 8
#else
# define BOUND(v)
# define MAXLEN (1ull << 40)
#endif
#include <time.h>
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <limits.h>
/*
 * The contract of the command line's time parser.  The C library is replaced
 * by its contract: strtoll() consumes some characters and returns any number
 * (0 when it consumes none), strptime() matches or does not, timegm() returns
 * any time.  Ghost state adds up, exactly, what the text asks for.
 */
const char *vp_text;	/* the argument */
size_t vp_len;		/* its length */
long long vp_now;	/* the current time */
unsigned vp_calls;	/* conversions so far: the first one is the whole-number attempt */
_Bool vp_iso, vp_whole, vp_range_err, vp_bad;
long long vp_iso_time, vp_first;
unsigned long long vp_total;	/* what the counts so far add up to */
size_t vp_pos;		/* where the next count must start */
#define U(a, b) (u == (a) || u == (b))
#define MOST 15250284452471ll	/* counts above this exceed the range whatever the unit, and now whatever the unit */
#define NOWMAX (1ll << 43)
#define WANT (vp_iso ? (vp_iso_time < 0 ? 0 : (uint64_t)vp_iso_time) : vp_range_err ? 0 : \
	vp_whole ? (vp_first >= 0 ? (uint64_t)vp_first : vp_first + vp_now < 0 ? 0 : (uint64_t)(vp_first + vp_now)) : \
	(vp_bad || vp_total > vp_now) ? 0 : (uint64_t)(vp_now - (long long)vp_total))

/* Products of a count and a unit: uninterpreted in the proof (the extraction
 * turns `ll *= 60' of the source into MUL); the proof `range' runs the source as it is. */
#ifdef VP_EXTRACT
long long __CPROVER_uninterpreted_mul(long long, long long);
static long long vp_mul(long long a, long long b)
{
	long long r = __CPROVER_uninterpreted_mul(a, b);
	__CPROVER_assume(r >= a);	/* no overflow: proof `range' */
	return r;
}
# define MUL(a, b) vp_mul(a, b)
#else
# define MUL(a, b) ((a) * (b))
#endif
int vp_errno;
#undef errno
#define errno vp_errno
static size_t nd_sz(void) { size_t x; return x; }
static long long nd_ll(void) { long long x; return x; }
static _Bool nd_b(void) { _Bool x; return x; }

static long long vp_strtoll(const char *s, char **e, int base)
{
	__CPROVER_assert(base == 10, "decimal numbers");
	__CPROVER_assert(__CPROVER_same_object(s, vp_text) && __CPROVER_POINTER_OFFSET(s) <= vp_len, "a position of the text");
	size_t at = __CPROVER_POINTER_OFFSET(s), n = nd_sz();
	__CPROVER_assume(n <= vp_len - at);
	long long v = nd_ll();
	__CPROVER_assume(IMP(n == 0, v == 0));
	_Bool er = nd_b();
	__CPROVER_assume(IMP(er, v == 9223372036854775807ll || v == -9223372036854775807ll - 1));
	if (er) vp_errno = ERANGE;
	if (vp_calls) BOUND(v);
	*e = (char *)vp_text + at + n;
	char u = vp_text[at + n];
	if (vp_calls == 0) {
		__CPROVER_assert(at == 0, "the whole text is tried as one number");
		vp_calls = 1; vp_first = v; vp_whole = (u == 0); vp_range_err = er;
	} else {
		__CPROVER_assert(at == vp_pos, "every character is read once");
		if (v <= 0 || v > MOST || !(U('w', 'W') || U('d', 'D') || U('h', 'H') || U('m', 'M') || U('s', 'S') || u == 0)) vp_bad = 1;
		else {	/* a week is 7 days, a day is 24 hours, ... */
			long long secs = v;
			if (U('w', 'W')) secs = MUL(secs, 7);
			if (U('w', 'W') || U('d', 'D')) secs = MUL(secs, 24);
			if (U('w', 'W') || U('d', 'D') || U('h', 'H')) secs = MUL(secs, 60);
			if (U('w', 'W') || U('d', 'D') || U('h', 'H') || U('m', 'M')) secs = MUL(secs, 60);
#ifndef VP_RANGE
			vp_total += (unsigned long long)secs;
#endif
		}
		vp_pos = at + n + (u ? 1 : 0);
	}
	return v;
}
#define strtoll vp_strtoll
static char *vp_strptime(const char *s, const char *fmt, struct tm *tm)
{
	if (vp_text == 0) vp_text = s;
	__CPROVER_assert(s == vp_text, "the argument");
	struct tm t; *tm = t;
	if (nd_b()) return 0;
	size_t n = nd_sz();
	__CPROVER_assume(n <= vp_len);
	if (vp_text[n] == 0) vp_iso = 1;
	return (char *)vp_text + n;
}
#define strptime vp_strptime
static time_t vp_timegm(struct tm *tm) { long long t = nd_ll(); vp_iso_time = t; return t; }
#define timegm vp_timegm
static int vp_clock(clockid_t c, struct timespec *ts)
{
	__CPROVER_assert(c == CLOCK_REALTIME, "the wall clock");
	ts->tv_sec = vp_now; ts->tv_nsec = nd_ll();
	return 0;
}
#define clock_gettime vp_clock

static uint64_t parse_time(const char *s)
	REQ(vp_len < MAXLEN && FRESH(s, vp_len + 1) && s[vp_len] == 0 && vp_text == 0)
	REQ(vp_now >= 0 && vp_now < NOWMAX && vp_calls == 0 && !vp_iso && !vp_whole && !vp_range_err && !vp_bad && vp_total == 0 && vp_pos == 0)
#ifdef VP_RANGE
	ENS(IMP(vp_iso || vp_range_err || vp_whole || vp_bad, RET == WANT) && IMP(!vp_iso && !vp_whole, RET <= (uint64_t)vp_now))
#else
	ENS(RET == WANT)
#endif
	ENS(IMP(RET != 0 && !vp_iso && !vp_whole, vp_text[vp_pos] == 0))
	ASG(vp_text, vp_errno, vp_calls, vp_iso, vp_whole, vp_range_err, vp_bad, vp_iso_time, vp_first, vp_total, vp_pos);
#ifdef VP_RANGE
# define TOTAL 1
#else
# define TOTAL vp_total == total
#endif
#define VPL_parse_time \
	__CPROVER_assigns(s, ll, endp, total, vp_errno, vp_bad, vp_total, vp_pos) \
	__CPROVER_loop_invariant(vp_calls == 1 && !vp_iso && !vp_whole && !vp_range_err && !vp_bad && total >= 0 && total <= vp_now && \
		TOTAL && __CPROVER_same_object(s, vp_text) && __CPROVER_POINTER_OFFSET(s) == vp_pos && vp_pos <= vp_len) \
	__CPROVER_decreases(vp_len - vp_pos)
#include "vp_loops.h"
#define main vp_main
#ifdef VP_EXTRACT
# include "vp_extract.h"
#else
# include "src/dnstable_lookup.c"
#endif
#undef main
void h_parse(void)
{
	const char *s;
	size_t n; vp_len = n; vp_text = 0;
	long long t; vp_now = t;
	vp_calls = 0; vp_iso = vp_whole = vp_range_err = vp_bad = 0; vp_total = 0; vp_pos = 0;
	parse_time(s); VP_PROBE();
}

/* the command line's time values, against an independent reading of the text */
#include "vp_case.h"
#include <time.h>
static long long vp_now;
static int vp_clock(clockid_t c, struct timespec *ts) { (void)c; ts->tv_sec = vp_now; ts->tv_nsec = 999999999; return 0; }
#define clock_gettime vp_clock
#define main vp_main
#include "src/dnstable_lookup.c"
#undef main

static long long days(long long y, unsigned m, unsigned d)	/* days since the epoch, proleptic Gregorian */
{
	long long n = 0;
	static const int ml[] = {31,28,31,30,31,30,31,31,30,31,30,31};
#define LEAP(y) (((y) % 4 == 0 && (y) % 100 != 0) || (y) % 400 == 0)
	for (long long i = 1970; i < y; i++) n += 365 + LEAP(i);
	for (long long i = y; i < 1970; i++) n -= 365 + LEAP(i);
	for (unsigned i = 1; i < m; i++) n += ml[i - 1] + (i == 2 && LEAP(y));
	return n + d - 1;
}
void vp_case(void)
{
	char t[200]; size_t n = 0;
	uint64_t want; bool any = false;
	vp_now = 1000000000ll + vp_range(2000000000);
	if (vp_range(8) == 0) vp_now = vp_range(5);
	switch (vp_range(5)) {
	case 0: {	/* calendar */
		static const int ml[] = {31,28,31,30,31,30,31,31,30,31,30,31};
		int y = vp_bool() ? 1970 + vp_range(131) : vp_range(10000), m = 1 + vp_range(12);
		int d = 1 + vp_range(ml[m - 1] + (m == 2 && LEAP(y))), h = vp_range(24), mi = vp_range(60), s = vp_range(60), f = vp_range(4);
		n = sprintf(t, "%04d-%02d-%02d", y, m, d);
		if (f) n += sprintf(t + n, f == 1 ? " %02d:%02d:%02d" : f == 2 ? "T%02d:%02d:%02d" : "T%02d:%02d:%02dZ", h, mi, s);
		else h = mi = s = 0;
		long long w = days(y, m, d) * 86400 + h * 3600 + mi * 60 + s;
		want = w < 0 ? 0 : w;
		if (vp_range(4) == 0) { static const char x[] = "x Zz-:0.T+"; char c = x[vp_range(sizeof x - 1)];
			if (c == '0' || (c == 'Z' && f == 2)) c = 'x';
			t[n++] = c; t[n] = 0; want = 0;
			if (c == ' ' ) { t[n++] = 'x'; t[n] = 0; }
		}
		break;
	}
	case 1: {	/* one number */
		bool neg = vp_bool();
		unsigned k = vp_range(6);
		if (k == 5) { n = sprintf(t, "%s%llu%u", neg ? "-" : "", 9223372036854775808ull / (1 + vp_range(3)), vp_range(100000)); want = 0; 
			/* 21+ digits: out of range unless negative (then clamped): 0 either way */
			if (strlen(t + neg) < 20) want = 0, n = sprintf(t, "%s99999999999999999999", neg ? "-" : "");
			break; }
		uint64_t v = k < 2 ? vp_range(100000) : k == 2 ? (uint64_t)vp_now + vp_range(3) : k == 3 ? vp_edge64() & 0x7fffffffffffffffull : vp_u32();
		if (neg && v == 0) v = 1;
		n = sprintf(t, "%s%llu", neg ? "-" : "", (unsigned long long)v);
		want = !neg ? v : v > (uint64_t)vp_now ? 0 : (uint64_t)vp_now - v;
		break;
	}
	case 2: case 3: {	/* counts */
		__int128 tot = 0; bool bad = false;
		unsigned k = 1 + vp_range(5);
		for (unsigned i = 0; i < k; i++) {
			static const char us[] = "wdhmsWDHMS"; static const int um[] = {604800, 86400, 3600, 60, 1};
			unsigned u = vp_range(10);
			uint64_t v = vp_range(3) ? vp_range(30) : vp_range(3) ? vp_range(100000) : vp_range(4) ? vp_u32() : vp_edge64() & 0x7fffffffffffffffull;
			n += sprintf(t + n, "%llu", (unsigned long long)v);
			if (v == 0) bad = true;
			if (i == k - 1 && k > 1 && vp_range(4) == 0) { tot += v; break; }	/* no unit: seconds */
			t[n++] = us[u]; t[n] = 0;
			if (vp_range(24) == 0) { static const char b[] = "yxqWw.-eE "; t[n - 1] = b[vp_range(10)]; 
				if (t[n - 1] == 'w' || t[n - 1] == 'W') t[n - 1] = 'x';
				bad = true; if (t[n - 1] == '-' && i == 0) t[n - 1] = '!'; }
			tot += (__int128)v * um[u % 5];
		}
		want = bad || tot > vp_now ? 0 : (uint64_t)(vp_now - (long long)tot);
		break;
	}
	default: {	/* not a time */
		static const char *const bad[] = { "", "abc", "w", "-", "10x", "1h-2m", "2020-01", "2020-13-01", "2020-01-32", "2020-01-01T", "2020-01-01 25:00:00",
			"2020-01-01T10:61:00", "0w", "-5w", "5w0d", "1.5h", "1w,2d", "now", "0x10", "1e9" };
		strcpy(t, bad[vp_range(sizeof bad / sizeof *bad)]); n = strlen(t); want = 0;
		break;
	}
	}
	char *x = (char *)vp_dup(t, n + 1);
	vp_note("parse_time(\"%s\") now %lld", x, vp_now);
	uint64_t got = parse_time(x);
	VP_CHECK(got == want, "parse_time(\"%s\") at %lld: %llu, want %llu", x, vp_now, (unsigned long long)got, (unsigned long long)want);
	free(x);
	if (n) vp_nontrivial();
}

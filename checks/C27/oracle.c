#include "vp_case.h"
#include <assert.h>
#include <errno.h>
#include <time.h>
#include <sys/time.h>
#define HAVE_CLOCK_GETTIME 1
#include "libmy/my_time.h"
#define N 1000000000ll
static struct timespec gen(void)
{
	struct timespec t; static const long ns[] = { 0, 1, 999999999, 999999998, 500000000 };
	t.tv_sec = (long)(vp_edge64() >> (2 + vp_range(60)));
	if (vp_bool()) t.tv_sec = -t.tv_sec;
	t.tv_nsec = vp_bool() ? ns[vp_range(5)] : vp_u32() % N;
	return t;
}
static __int128 tot(struct timespec t) { return (__int128)t.tv_sec * N + t.tv_nsec; }
static double absd(double x) { return x < 0 ? -x : x; }
void vp_case(void)
{
	struct timespec a = gen(), b = gen(), c = b;
	vp_note("a = %ld.%09ld b = %ld.%09ld", a.tv_sec, a.tv_nsec, b.tv_sec, b.tv_nsec);
	my_timespec_add(&a, &c);
	VP_CHECK(tot(c) == tot(a) + tot(b) && c.tv_nsec >= 0 && c.tv_nsec < N, "sum %ld.%09ld", c.tv_sec, c.tv_nsec);
	c = b; my_timespec_sub(&a, &c);
	VP_CHECK(tot(c) == tot(b) - tot(a) && c.tv_nsec >= 0 && c.tv_nsec < N, "difference %ld.%09ld", c.tv_sec, c.tv_nsec);
	int r = my_timespec_cmp(&a, &b);
	VP_CHECK((r < 0) == (tot(a) < tot(b)) && (r > 0) == (tot(a) > tot(b)), "comparison %d", r);
	struct timespec m = { (long)(vp_edge64() >> (24 + vp_range(40))), b.tv_nsec };
	if (vp_bool()) m.tv_sec = -m.tv_sec;
	vp_note("m = %ld.%09ld", m.tv_sec, m.tv_nsec);
	double d = my_timespec_to_double(&m), eps = absd(d) * 4.5e-16 + 1e-9;
	VP_CHECK(absd(d - (double)((long double)m.tv_sec + m.tv_nsec / 1e9L)) <= eps, "to double: %.17g", d);
	my_timespec_from_double(d, &c);
	VP_CHECK(c.tv_nsec >= 0 && c.tv_nsec < N, "from double %.17g: not normalised (%ld ns)", d, c.tv_nsec);
	long double back = (long double)c.tv_sec + c.tv_nsec / 1e9L - d;
	VP_CHECK((back < 0 ? -back : back) <= 2e-9L + (long double)eps, "from double %.17g: %ld.%09ld", d, c.tv_sec, c.tv_nsec);
	vp_nontrivial();
}

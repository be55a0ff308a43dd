#include "vp_proof.h"
#include <assert.h>
#include <errno.h>
#include <time.h>
#include <sys/time.h>
#define HAVE_CLOCK_GETTIME 1
#define N 1000000000
#define NORM(t) ((t)->tv_nsec >= 0 && (t)->tv_nsec < N)
#define BIG (1ll << 61)
#define SMALL(t) ((t)->tv_sec > -BIG && (t)->tv_sec < BIG)
#define T(t) FRESH(t, sizeof(struct timespec))
#define OK2 REQ(T(a) && T(b) && NORM(a) && NORM(b) && SMALL(a) && SMALL(b))
static inline void my_timespec_add(const struct timespec *a, struct timespec *b) OK2
	ENS(b->tv_sec == a->tv_sec + OLD(b->tv_sec) + (a->tv_nsec + OLD(b->tv_nsec) >= N))
	ENS(b->tv_nsec == a->tv_nsec + OLD(b->tv_nsec) - (a->tv_nsec + OLD(b->tv_nsec) >= N ? N : 0)) ENS(NORM(b))
	ASG(*b);
static inline void my_timespec_sub(const struct timespec *a, struct timespec *b) OK2
	ENS(b->tv_sec == OLD(b->tv_sec) - a->tv_sec - (OLD(b->tv_nsec) < a->tv_nsec))
	ENS(b->tv_nsec == OLD(b->tv_nsec) - a->tv_nsec + (OLD(b->tv_nsec) < a->tv_nsec ? N : 0)) ENS(NORM(b))
	ASG(*b);
static inline int my_timespec_cmp(const struct timespec *a, const struct timespec *b)
	REQ(T(a) && T(b) && NORM(a) && NORM(b))
	ENS((RET < 0) == (a->tv_sec < b->tv_sec || (a->tv_sec == b->tv_sec && a->tv_nsec < b->tv_nsec)))
	ENS((RET == 0) == (a->tv_sec == b->tv_sec && a->tv_nsec == b->tv_nsec))
	ASG();
#define LIM 1099511627776.0	/* 2^40 */
static inline void my_timespec_from_double(double seconds, struct timespec *ts)
	REQ(T(ts) && seconds >= -LIM && seconds <= LIM)
	ENS(NORM(ts))
	/* the second the moment lies in, or the next one if it is nearer than half a nanosecond */
	ENS(ts->tv_sec <= seconds && seconds < ts->tv_sec + 1 || (ts->tv_nsec == 0 && seconds < ts->tv_sec && ts->tv_sec - seconds < 1e-9))
	ASG(*ts);
static inline double my_timespec_to_double(const struct timespec *ts)
	REQ(T(ts) && NORM(ts) && ts->tv_sec > -(1ll << 40) && ts->tv_sec < (1ll << 40))
	ENS(RET >= ts->tv_sec && RET <= ts->tv_sec + 1)
	ASG();
#include "libmy/my_time.h"
void h_add(void) { const struct timespec *a; struct timespec *b; my_timespec_add(a, b); VP_PROBE(); }
void h_sub(void) { const struct timespec *a; struct timespec *b; my_timespec_sub(a, b); VP_PROBE(); }
void h_cmp(void) { const struct timespec *a, *b; my_timespec_cmp(a, b); VP_PROBE(); }
void h_from(void) { double s; struct timespec *t; my_timespec_from_double(s, t); VP_PROBE(); }
void h_to(void) { const struct timespec *t; my_timespec_to_double(t); VP_PROBE(); }

/*
 * Contracts on the functions of dnstable/query_mtbl.c (the file as it is, included
 * below), for the properties C07 (join), C08 (filter), C09 (remove), C10 (deadline)
 * and C18 (counters).
 *
 * Keys are represented by their rank in the order of bytes_compare (a total order:
 * C31): the key of rank i is the address vp_keys + i with the length i + 1, the
 * value with it vp_vals + i.  A source is an arbitrary set of ranks, known at the
 * arbitrary rank vp_g and at the ranks a step depends on; iterators step and seek
 * through it as libmtbl documents.  Each harness assumes the precondition,
 * including the representation invariant of the iterator at the arbitrary rank, runs
 * the function once and asserts its postcondition.
 */
#include "vp_proof.h"
#include <sys/socket.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <time.h>
#include <setjmp.h>
#include <assert.h>
#define HAVE_CLOCK_GETTIME 1
int64_t vp_s; long vp_ns; unsigned vp_clockreads;		/* the clock reading */
static int vp_clock_gettime(clockid_t c, struct timespec *ts) { __CPROVER_assert(c == CLOCK_MONOTONIC, "the monotonic clock"); vp_clockreads++; ts->tv_sec = vp_s; ts->tv_nsec = vp_ns; return 0; }
#define clock_gettime vp_clock_gettime
#include <mtbl.h>
#include <wdns.h>
#include "dnstable/dnstable.h"
#define bytes_compare vp_real_bytes_compare
#include "dnstable/dnstable-private.h"
#undef bytes_compare

#define MAXR 0x7fffffffull
uint8_t *vp_keys, *vp_vals, *vp_rvals;	/* addresses of keys, (left) values, right values by rank */
#define KEY(i) (vp_keys + (i))
#define ISKEY(p, n) ((n) >= 1 && (n) <= MAXR && (p) == vp_keys + ((n) - 1))
static int bytes_compare(const uint8_t *a, size_t na, const uint8_t *b, size_t nb)
{
	__CPROVER_assert(ISKEY(a, na) && ISKEY(b, nb), "precondition of bytes_compare: keys that are there, with their lengths");
	return na < nb ? -1 : na > nb;
}
/* ---- sources and iterators ---- */
#ifdef P_REMOVE
# ifndef NSRC
#  define NSRC 2
# endif
# define MAXS NSRC
#else
# define MAXS 2
#endif
size_t vp_g, vp_l;			/* arbitrary rank; rank of the upstream entry the step delivers or considers */
_Bool vp_in[MAXS][2];			/* whether the source has the ranks vp_g and vp_l */
#define IN(s, i) (((i) != vp_g || vp_in[s][0]) && ((i) != vp_l || vp_in[s][1]))
struct mtbl_iter { unsigned s; size_t c; _Bool ended; };
struct mtbl_iter vp_its[MAXS + 1];
/* upstream (left) iterator: s == 9; it delivers vp_l next, or nothing */
_Bool vp_upend; unsigned vp_upnexts, vp_upseeks, vp_nseeks; size_t vp_upseekrank; mtbl_res vp_upseekres;
#if !defined(P_FILTER) && !defined(P_RNEXT)
mtbl_res mtbl_iter_next(struct mtbl_iter *it, const uint8_t **k, size_t *nk, const uint8_t **v, size_t *nv)
{
	__CPROVER_assert(it != NULL, "precondition of mtbl_iter_next: an iterator");
	if (it->s == 9) {
		vp_upnexts++;
		if (vp_upend) return mtbl_res_failure;
		*k = KEY(vp_l); *nk = vp_l + 1; *v = vp_vals + vp_l; *nv = vp_l + 1;
		it->c = vp_l + 1;
		return mtbl_res_success;
	}
	size_t i; _Bool end;
	if (end) {
		__CPROVER_assume(IMP(vp_g >= it->c, !vp_in[it->s][0]) && IMP(vp_l >= it->c, !vp_in[it->s][1]));
		it->c = MAXR + 1;
		return mtbl_res_failure;
	}
	__CPROVER_assume(i >= it->c && i < MAXR && IN(it->s, i) && IMP(it->c <= vp_g && vp_g < i, !vp_in[it->s][0]) && IMP(it->c <= vp_l && vp_l < i, !vp_in[it->s][1]));
	*k = KEY(i); *nk = i + 1; *v = vp_rvals + i; *nv = i + 1;
	it->c = i + 1;
	return mtbl_res_success;
}
mtbl_res mtbl_iter_seek(struct mtbl_iter *it, const uint8_t *k, size_t n)
{
	__CPROVER_assert(it != NULL && ISKEY(k, n), "precondition of mtbl_iter_seek: an iterator and a key");
	if (it->s == 9) { vp_upseeks++; vp_upseekrank = n - 1; if (vp_upseekres == mtbl_res_success) it->c = n - 1; return vp_upseekres; }
	_Bool end;
	it->c = n - 1;
	if (end) {	/* may report at once that nothing is left */
		__CPROVER_assume(IMP(vp_g >= it->c, !vp_in[it->s][0]) && IMP(vp_l >= it->c, !vp_in[it->s][1]));
		return mtbl_res_failure;
	}
	vp_nseeks++;
	return mtbl_res_success;
}
#endif
typedef const struct mtbl_source *vp_srcp;
struct mtbl_source { unsigned s; };
struct mtbl_source vp_srcs[MAXS];
unsigned vp_opened[MAXS]; int vp_openkind;
static struct mtbl_iter *vp_open(const struct mtbl_source *s, int kind)
{
	__CPROVER_assert(s->s < MAXS && !vp_opened[s->s], "each source is opened once");
	vp_opened[s->s] = 1; vp_openkind = kind;
	vp_its[s->s].s = s->s; vp_its[s->s].c = 0;
	return &vp_its[s->s];
}
const uint8_t *vp_ok1, *vp_ok2; size_t vp_on1, vp_on2;
struct mtbl_iter *mtbl_source_iter(const struct mtbl_source *s) { return vp_open(s, 1); }
struct mtbl_iter *mtbl_source_get(const struct mtbl_source *s, const uint8_t *k, size_t n) { vp_ok1 = k; vp_on1 = n; return vp_open(s, 2); }
struct mtbl_iter *mtbl_source_get_prefix(const struct mtbl_source *s, const uint8_t *k, size_t n) { vp_ok1 = k; vp_on1 = n; return vp_open(s, 3); }
struct mtbl_iter *mtbl_source_get_range(const struct mtbl_source *s, const uint8_t *k, size_t n, const uint8_t *k2, size_t n2) { vp_ok1 = k; vp_on1 = n; vp_ok2 = k2; vp_on2 = n2; return vp_open(s, 4); }
void mtbl_iter_destroy(struct mtbl_iter **p) { *p = NULL; }
struct mtbl_iter *mtbl_iter_init(mtbl_iter_seek_func a, mtbl_iter_next_func b, mtbl_iter_free_func c, void *clos) { return &vp_its[MAXS]; }
struct mtbl_source *mtbl_source_init(mtbl_source_iter_func a, mtbl_source_get_func b, mtbl_source_get_prefix_func c, mtbl_source_get_range_func d, mtbl_source_free_func e, void *clos) { return NULL; }
void mtbl_source_destroy(struct mtbl_source **p) { *p = NULL; }

#ifdef P_TIMEOUT
jmp_buf vp_env; const struct timespec *vp_dl;
#define EXPIRED (vp_s > vp_dl->tv_sec || (vp_s == vp_dl->tv_sec && vp_ns >= vp_dl->tv_nsec))
static void vp_longjmp(void *env, int v)
{
	__CPROVER_assert(EXPIRED, "timeout_iter_next: jumps back only once the deadline is reached");
	__CPROVER_assert(env == (void *)&vp_env && v != 0 && vp_upnexts == 0, "timeout_iter_next: jumps to the search that set the deadline, before reading on");
	__CPROVER_assume(0);
}
# undef longjmp
# define longjmp(e, v) vp_longjmp(&(e), v)
#endif

#ifdef P_FILTER
/* the upstream entries from rank c on; the filter accepts (vp_mg says whether it accepts vp_g), rejects, rejects and seeks ahead over rejected ones, or fails */
size_t vp_c, vp_c0, vp_end; _Bool vp_mg, vp_lastmatch, vp_failed; uint64_t vp_rejected, vp_sought, vp_f0, vp_s0; size_t vp_cur;
static struct filter_mtbl_iter *vp_fit;
mtbl_res mtbl_iter_next(struct mtbl_iter *it, const uint8_t **k, size_t *nk, const uint8_t **v, size_t *nv)
{
	__CPROVER_assert(it->s == 9, "the upstream iterator is read");
	if (vp_c >= vp_end) return mtbl_res_failure;
	*k = KEY(vp_c); *nk = vp_c + 1; *v = vp_vals + vp_c; *nv = vp_c + 1;
	vp_cur = vp_c++;
	return mtbl_res_success;
}
static mtbl_res seek_wrap_iter_seek(void *impl, const uint8_t *key, size_t len_key);
mtbl_res mtbl_iter_seek(struct mtbl_iter *it, const uint8_t *k, size_t n)
{
	__CPROVER_assert(ISKEY(k, n), "precondition of mtbl_iter_seek: a key");
	if (it->s == 9) { vp_c = n - 1; return mtbl_res_success; }
	return seek_wrap_iter_seek(vp_fit, k, n);	/* the iterator filter_source_iter_common makes of it */
}
static int vp_fdata;
static mtbl_res vp_filter(void *user, struct mtbl_iter *si, const uint8_t *k, size_t nk, const uint8_t *v, size_t nv, bool *match)
{
	__CPROVER_assert(user == &vp_fdata && k == KEY(vp_cur) && nk == vp_cur + 1 && v == vp_vals + vp_cur && nv == vp_cur + 1, "the filter is asked about the entry just read");
	__CPROVER_assert(!*match, "the filter starts from no match");
	_Bool m, skip, fail; size_t to;
	if (fail) { vp_failed = 1; return mtbl_res_failure; }
	if (vp_cur == vp_g) m = vp_mg;
	if (m) { *match = 1; vp_lastmatch = 1; return mtbl_res_success; }
	vp_rejected++;
	if (skip) {	/* a filter seeks ahead only over entries it would reject */
		__CPROVER_assume(to > vp_cur && to < MAXR && IMP(vp_cur < vp_g && vp_g < to, !vp_mg));
		vp_sought++;
		return mtbl_iter_seek(si, KEY(to), to + 1);
	}
	return mtbl_res_success;
}
# define VPL_filter_iter_next \
	__CPROVER_assigns(vp_c, vp_cur, vp_lastmatch, vp_failed, vp_rejected, vp_sought, match, res, *key, *len_key, *val, *len_val, fit->filter->stats) \
	__CPROVER_loop_invariant(vp_c0 <= vp_c && vp_c <= MAXR && vp_end <= MAXR && !match && !vp_lastmatch && !vp_failed && IMP(vp_c0 <= vp_g && vp_g < vp_c && vp_g < vp_end, !vp_mg) && \
		fit->filter->stats.filtered == vp_f0 + vp_rejected && fit->filter->stats.seek == vp_s0 + vp_sought) \
	__CPROVER_decreases(MAXR - vp_c)
#endif
#ifdef P_RNEXT
/* the upstream entries from rank c on; vp_mg: a removal source has vp_g */
size_t vp_c, vp_c0, vp_end, vp_cur; _Bool vp_mg, vp_lastrm;
mtbl_res mtbl_iter_next(struct mtbl_iter *it, const uint8_t **k, size_t *nk, const uint8_t **v, size_t *nv)
{
	__CPROVER_assert(it->s == 9, "the upstream iterator is read");
	if (vp_c >= vp_end) return mtbl_res_failure;
	*k = KEY(vp_c); *nk = vp_c + 1; *v = vp_vals + vp_c; *nv = vp_c + 1;
	vp_cur = vp_c++;
	return mtbl_res_success;
}
mtbl_res mtbl_iter_seek(struct mtbl_iter *it, const uint8_t *k, size_t n) { return mtbl_res_success; }
/* the verifier's loop contracts do not attach to do-while: the same encoding by hand, at the start of the body
   (first time: the invariant holds, go on from any state that satisfies it; second time: it holds again and the measure went down) */
#define RINV (vp_c0 <= vp_c && vp_c <= MAXR && vp_end <= MAXR && IMP(vp_c0 <= vp_g && vp_g < vp_c && vp_g < vp_end, vp_mg))
size_t vp_measure; unsigned vp_round;
# define VPG_remove_iter_next \
	__CPROVER_assert(RINV, "remove_iter_next: loop invariant"); \
	if (vp_round++ == 0) { size_t c_, d_; _Bool b_; vp_c = c_; vp_cur = d_; vp_lastrm = b_; const uint8_t *k_, *v_; size_t nk_, nv_; *key = k_; *val = v_; *len_key = nk_; *len_val = nv_; __CPROVER_assume(RINV); vp_measure = MAXR - vp_c; } \
	else { __CPROVER_assert(MAXR - vp_c < vp_measure, "remove_iter_next: loop measure"); __CPROVER_assume(0); }
#endif
#include "vp_loops.h"
#include "dnstable/query_mtbl.c"
static void vp_setup(void)
{
	size_t sz; __CPROVER_assume(sz >= MAXR + 2 && sz <= 2 * MAXR);
	vp_keys = malloc(sz); vp_vals = malloc(sz); vp_rvals = malloc(sz);
	size_t g, l; __CPROVER_assume(g < MAXR && l < MAXR); vp_g = g; vp_l = l;
	_Bool b; vp_upend = b;
	for (unsigned i = 0; i < MAXS; i++) { _Bool x, y; __CPROVER_assume(g != l || x == y); vp_in[i][0] = x; vp_in[i][1] = y; vp_srcs[i].s = i; vp_opened[i] = 0; }
	vp_upnexts = vp_upseeks = vp_nseeks = 0;
	_Bool r; vp_upseekres = r ? mtbl_res_success : mtbl_res_failure;
}
static struct mtbl_iter vp_up;

#ifdef P_JOIN
static int vp_clos; static size_t vp_merges; static _Bool vp_mfail; static uint8_t *vp_lastmerged;
static void vp_merge(void *clos, const uint8_t *k, size_t nk, const uint8_t *a, size_t na, const uint8_t *b, size_t nb, uint8_t **m, size_t *nm)
{
	__CPROVER_assert(clos == &vp_clos && k == KEY(vp_l) && nk == vp_l + 1, "ljoin_iter_next: merges for the left key");
	__CPROVER_assert(a == vp_vals + vp_l && na == vp_l + 1 && b == vp_rvals + vp_l && nb == vp_l + 1, "ljoin_iter_next: merges the left value with the right value of the same key");
	vp_merges++;
	if (vp_mfail) { *m = NULL; *nm = 0; return; }
	*m = malloc(1); __CPROVER_assume(*m); *nm = 1; vp_lastmerged = *m;
}
/* the representation invariant: what has not been passed by the left source has not been passed unseen in the right one */
#define RR (it->len_right_key - 1)
#define RI(i, in) (IMP(lc <= (i) && (in), it->right_finished ? 0 : it->right_key == NULL ? (i) >= right.c : (i) == RR || (i) >= right.c))
#define RIK IMP(!it->right_finished && it->right_key != NULL, ISKEY(it->right_key, it->len_right_key) && it->right_val == vp_rvals + RR && it->len_right_val == it->len_right_key && RR < right.c && IN(0, RR))
#define RIALL (RI(vp_g, vp_in[0][0]) && RI(vp_l, vp_in[0][1]) && RIK)
void h_join(void)
{
	vp_setup();
	struct ljoin_mtbl J, *j = &J; struct ljoin_mtbl_iter I, *it = &I; struct mtbl_iter right; size_t lc;
	vp_up.s = 9; right.s = 0;
	j->merge_fn = vp_merge; j->merge_clos = &vp_clos; it->join = j; it->iter_left = &vp_up; it->iter_right = &right;
	it->merged_val = NULL; vp_merges = 0; _Bool mf; vp_mfail = mf;
	if (it->right_key != NULL) it->right_key = KEY(RR), it->right_val = vp_rvals + RR;
	__CPROVER_assume(lc <= vp_l && right.c <= MAXR && IMP(it->right_key != NULL, it->len_right_key >= 1 && it->len_right_key <= MAXR));
	__CPROVER_assume(RIALL);
	uint64_t m0 = j->stats.merged, s0 = j->stats.seek;
	const uint8_t *k, *v; size_t nk, nv;
	mtbl_res r = ljoin_iter_next(it, &k, &nk, &v, &nv);
	lc = vp_upend ? lc : vp_l + 1;
	__CPROVER_assert(vp_upnexts == 1, "ljoin_iter_next: one entry of the left source is read");
	_Bool joins = !vp_upend && vp_in[0][1];
	__CPROVER_assert((r == mtbl_res_success) == (!vp_upend && !(joins && vp_mfail)), "ljoin_iter_next: delivers while the left source has entries and merging works");
	__CPROVER_assert(vp_merges == joins, "ljoin_iter_next: merges exactly when the right source has the key");
	if (r == mtbl_res_success) {
		__CPROVER_assert(k == KEY(vp_l) && nk == vp_l + 1, "ljoin_iter_next: delivers the left key");
		__CPROVER_assert(joins ? v == vp_lastmerged && nv == 1 : v == vp_vals + vp_l && nv == vp_l + 1, "ljoin_iter_next: delivers the merged value, or the left value if there is nothing to join");
		__CPROVER_assert(j->stats.merged == m0 + joins && j->stats.seek == s0 + vp_nseeks, "ljoin_iter_next: counts merges and seeks");
		__CPROVER_assert(RIALL, "ljoin_iter_next: no right entry that a later left entry needs is lost");
	}
	VP_PROBE();
}
void h_join_seek(void)
{
	vp_setup();
	struct ljoin_mtbl J, *j = &J; struct ljoin_mtbl_iter I, *it = &I; struct mtbl_iter right; size_t lc, t;
	vp_up.s = 9; right.s = 0; it->join = j; it->iter_left = &vp_up; it->iter_right = &right;
	__CPROVER_assume(t < MAXR);
	mtbl_res r = ljoin_iter_seek(it, KEY(t), t + 1);
	lc = t;
	__CPROVER_assert(vp_upseeks == 1 && vp_upseekrank == t && r == vp_upseekres, "ljoin_iter_seek: the left source is moved to the key");
	if (r == mtbl_res_success) __CPROVER_assert(RIALL, "ljoin_iter_seek: no right entry at or after the key is lost");
	VP_PROBE();
}
#endif

#ifdef P_FILTER
void h_filter(void)
{
	vp_setup();
	struct filter_mtbl F; struct filter_mtbl_iter I; struct mtbl_iter sw; size_t a, b; _Bool m;
	vp_up.s = 9; sw.s = 8; vp_c = vp_c0 = a; vp_end = b; vp_mg = m; vp_lastmatch = vp_failed = 0; vp_rejected = vp_sought = 0;
	__CPROVER_assume(vp_c <= MAXR && vp_end <= MAXR);
	F.filter_func = vp_filter; F.filter_data = &vp_fdata; I.filter = &F; I.it = &vp_up; I.seek_wrap_iter = &sw; vp_fit = &I;
	vp_f0 = F.stats.filtered; vp_s0 = F.stats.seek;
	const uint8_t *k, *v; size_t nk, nv;
	mtbl_res r = filter_iter_next(&I, &k, &nk, &v, &nv);
	if (r == mtbl_res_success) {
		__CPROVER_assert(vp_lastmatch && k == KEY(vp_cur) && nk == vp_cur + 1 && v == vp_vals + vp_cur && nv == vp_cur + 1, "filter_iter_next: delivers an entry the filter accepted, unchanged");
		__CPROVER_assert(IMP(vp_g == vp_cur, vp_mg), "filter_iter_next: delivers no entry the filter rejects");
		__CPROVER_assert(vp_cur >= vp_c0 && vp_c == vp_cur + 1 && IMP(vp_c0 <= vp_g && vp_g < vp_cur, !vp_mg), "filter_iter_next: passes over no entry the filter accepts");
	} else {
		__CPROVER_assert(vp_failed || IMP(vp_c0 <= vp_g && vp_g < vp_end, !vp_mg), "filter_iter_next: ends only when no accepted entry is left or the filter ends it");
	}
	__CPROVER_assert(F.stats.filtered == vp_f0 + vp_rejected && F.stats.seek == vp_s0 + vp_sought, "filter_iter_next: counts exactly the entries rejected and the seeks");
	VP_PROBE();
}
void h_filter_seek(void)
{
	vp_setup();
	struct filter_mtbl F; struct filter_mtbl_iter I; size_t t; vp_up.s = 9; I.filter = &F; I.it = &vp_up; __CPROVER_assume(t < MAXR);
	struct filter_mtbl_stats s0 = F.stats;
	mtbl_res r = filter_iter_seek(&I, KEY(t), t + 1);
	__CPROVER_assert(r == mtbl_res_success && vp_c == t, "filter_iter_seek: the upstream moves to the key");
	__CPROVER_assert(F.stats.seek == s0.seek && F.stats.filtered == s0.filtered, "filter_iter_seek: the caller's seeks are not the filter's");
	VP_PROBE();
}
#endif

#ifdef P_TIMEOUT
void h_timeout(void)
{
	vp_setup();
	struct timeout_mtbl T; struct timeout_mtbl_iter I; struct timespec dl; vp_up.s = 9;
	T.expire_env = &vp_env; T.deadline = &dl; vp_dl = &dl; I.timeout = &T; I.it = &vp_up;
	int64_t s; long ns; vp_s = s; vp_ns = ns; vp_clockreads = 0;
	const uint8_t *k, *v; size_t nk, nv;
	mtbl_res r = timeout_iter_next(&I, &k, &nk, &v, &nv);
	__CPROVER_assert(vp_clockreads == 1 && !EXPIRED, "timeout_iter_next: at or past the deadline no entry is delivered");
	__CPROVER_assert(vp_upnexts == 1 && r == (vp_upend ? mtbl_res_failure : mtbl_res_success), "timeout_iter_next: before the deadline it delivers what the source delivers");
	if (!vp_upend) __CPROVER_assert(k == KEY(vp_l) && nk == vp_l + 1 && v == vp_vals + vp_l && nv == vp_l + 1, "timeout_iter_next: the entry is unchanged");
	VP_PROBE();
}
void h_timeout_seek(void)
{
	vp_setup();
	struct timeout_mtbl T; struct timeout_mtbl_iter I; vp_up.s = 9; I.timeout = &T; I.it = &vp_up; size_t t; __CPROVER_assume(t < MAXR);
	mtbl_res r = timeout_iter_seek(&I, KEY(t), t + 1);
	__CPROVER_assert(r == vp_upseekres && vp_upseeks == 1 && vp_upseekrank == t, "timeout_iter_seek: moves the source to the key");
	VP_PROBE();
}
#endif

#ifdef P_REMOVE
#ifndef FIRST
# define FIRST 0
#endif
#define E(i) (rit->entries[i])
#define ER(i) (E(i).len_key - 1)
/* nothing at or after lc is before the current entry of a removal source, nothing it has is between its current entry and its iterator */
#define RIE(i, x, in) IMP((in) && E(i).it != NULL, E(i).finished ? (x) < lc : ((x) < lc || (x) >= ER(i)) && ((x) <= ER(i) || (x) >= vp_its[i].c))
#define RIEK(i) (IMP(E(i).it == NULL, !vp_opened[i] && !E(i).finished) && IMP(E(i).it != NULL, vp_opened[i] && E(i).it == &vp_its[i] && vp_its[i].s == i && vp_its[i].c <= MAXR + 1) && \
	IMP(E(i).it != NULL && !E(i).finished, ISKEY(E(i).key, E(i).len_key) && ER(i) < vp_its[i].c && IN(i, ER(i))))
#define RIALL(i) (RIE(i, vp_g, vp_in[i][0]) && RIE(i, vp_l, vp_in[i][1]) && RIEK(i))
static struct remove_mtbl vp_rm; static struct remove_iter vp_rit; static struct remove_entry vp_ents[NSRC];
static struct mtbl_iter *vp_source_iter(const struct mtbl_source *s, const uint8_t *k, size_t n, const uint8_t *k2, size_t n2)
{
	__CPROVER_assert(k == vp_rit.key && n == vp_rit.len_key && k2 == vp_rit.key2 && n2 == vp_rit.len_key2, "match_key: a removal source is opened with the search's keys");
	return vp_open(s, 0);
}
static struct remove_iter *vp_remove(size_t lc)
{
	struct remove_iter *rit = &vp_rit;
	rit->rm = &vp_rm; vp_up.s = 9; rit->it = &vp_up; rit->entries = vp_ents; rit->nentries = NSRC;
	rit->source_iter = vp_source_iter;
	rit->key = vp_keys; rit->key2 = vp_keys + 1; size_t n1, n2; rit->len_key = n1; rit->len_key2 = n2;
	ISC_LIST_INIT(rit->list);
	for (unsigned j = 0; j < NSRC; j++) {	/* the list has every entry, in an order that earlier matches left */
		unsigned i = (FIRST + j) % NSRC;
		_Bool op, fin; size_t n, c; vp_opened[i] = op;
		E(i).source = &vp_srcs[i]; E(i).it = op ? &vp_its[i] : NULL; E(i).finished = fin; E(i).len_key = n; E(i).key = NULL;
		__CPROVER_assume(n >= 1 && n <= MAXR); if (op && !fin) E(i).key = KEY(n - 1);
		vp_its[i].s = i; vp_its[i].c = c;
		E(i).link.prev = E(i).link.next = (void *)-1;
		ISC_LIST_APPEND(rit->list, &vp_ents[i], link);
		__CPROVER_assume(RIALL(i));
	}
	vp_rm.stats.filtered = 0; vp_rm.stats.seek = 0;
	return rit;
}
static void vp_listok(struct remove_iter *rit)
{
	unsigned seen = 0, n = 0;
	for (struct remove_entry *e = ISC_LIST_HEAD(rit->list); e != NULL; e = ISC_LIST_NEXT(e, link)) { seen |= 1u << (e - vp_ents); n++; }
	__CPROVER_assert(n == NSRC && seen == (1u << NSRC) - 1, "match_key: the list keeps every source");
}
void h_match(void)
{
	vp_setup();
	size_t lc; __CPROVER_assume(lc <= vp_l);
	struct remove_iter *rit = vp_remove(lc);
	bool r = match_key(rit, KEY(vp_l), vp_l + 1);
	lc = vp_l + 1;
	_Bool any = 0;
	for (unsigned i = 0; i < NSRC; i++) any |= vp_in[i][1];
	__CPROVER_assert(r == any, "match_key: says exactly whether a removal source has the key");
	for (unsigned i = 0; i < NSRC; i++) __CPROVER_assert(RIALL(i), "match_key: no entry of a removal source that a later key needs is lost");
	__CPROVER_assert(vp_rm.stats.filtered == r && vp_rm.stats.seek == vp_nseeks, "match_key: counts removals and seeks");
	vp_listok(rit);
	VP_PROBE();
}
void h_remove_seek(void)
{
	vp_setup();
	size_t lc, t; __CPROVER_assume(lc <= MAXR && t < MAXR);
	struct remove_iter *rit = vp_remove(lc);
	mtbl_res r = remove_iter_seek(rit, KEY(t), t + 1);
	__CPROVER_assert(r == vp_upseekres && vp_upseeks == 1 && vp_upseekrank == t, "remove_iter_seek: the upstream is moved to the key");
	lc = t;
	for (unsigned i = 0; i < NSRC; i++) __CPROVER_assert(RIALL(i), "remove_iter_seek: no entry of a removal source at or after the key is lost");
	__CPROVER_assert(vp_rm.stats.filtered == 0 && vp_rm.stats.seek == vp_nseeks, "remove_iter_seek: counts seeks");
	VP_PROBE();
}
#endif

#ifdef P_RNEXT
/* as proved (C09 `match'): whether a removal source has the key, here at the arbitrary rank */
static bool match_key(struct remove_iter *rit, const uint8_t *key, size_t len_key)
	REQ(ISKEY(key, len_key) && key == KEY(vp_cur)) ENS(IMP(vp_cur == vp_g, RET == vp_mg) && vp_lastrm == RET) ASG(vp_lastrm);
void h_rnext(void)
{
	vp_setup();
	struct remove_iter I; size_t a, b; _Bool m; vp_up.s = 9; I.it = &vp_up; vp_c = vp_c0 = a; vp_end = b; vp_mg = m; vp_lastrm = 0; vp_round = 0;
	__CPROVER_assume(vp_c <= MAXR && vp_end <= MAXR);
	const uint8_t *k, *v; size_t nk, nv;
	mtbl_res r = remove_iter_next(&I, &k, &nk, &v, &nv);
	if (r == mtbl_res_success) {
		__CPROVER_assert(!vp_lastrm && k == KEY(vp_cur) && nk == vp_cur + 1 && v == vp_vals + vp_cur && nv == vp_cur + 1, "remove_iter_next: delivers an upstream entry, unchanged");
		__CPROVER_assert(IMP(vp_g == vp_cur, !vp_mg), "remove_iter_next: delivers no entry a removal source has");
		__CPROVER_assert(vp_cur >= vp_c0 && vp_c == vp_cur + 1 && IMP(vp_c0 <= vp_g && vp_g < vp_cur, vp_mg), "remove_iter_next: passes over only entries a removal source has");
	} else {
		__CPROVER_assert(IMP(vp_c0 <= vp_g && vp_g < vp_end, vp_mg), "remove_iter_next: ends only when nothing is left");
	}
	VP_PROBE();
}
#endif

#ifdef P_COUNT
#define CAT(c) ((c) == DNSTABLE_STAT_CATEGORY_FILTERED || (c) == DNSTABLE_STAT_CATEGORY_MERGED || (c) == DNSTABLE_STAT_CATEGORY_SEEK || (c) == DNSTABLE_STAT_CATEGORY_FILES)
/* refused, and 0, for no stage; else: which counters exist, their value, and success for every category there is */
#define CONTRACT(f, T, HAS, VAL) dnstable_res f(const struct T *s, dnstable_stat_category c, bool *ex, uint64_t *u) \
	REQ((s == NULL || FRESH(s, sizeof(*s))) && FRESH(ex, 1) && (u == NULL || FRESH(u, 8))) VECREQ_##T \
	ENS((RET == dnstable_res_success) == (u != NULL && s != NULL && CAT(c)) && (RET == dnstable_res_success || RET == dnstable_res_failure)) \
	ENS(IMP(u != NULL, *ex == (s != NULL && (HAS)) && *u == (s != NULL && (HAS) ? (VAL) : 0))) \
	ASG(*ex; u != NULL: *u)
#define VECREQ_filter_mtbl
#define VECREQ_ljoin_mtbl
#define VECREQ_remove_mtbl REQ(s == NULL || FRESH(s->rm_sources, sizeof(source_vec)))
#define F_ (c == DNSTABLE_STAT_CATEGORY_FILTERED)
#define S_ (c == DNSTABLE_STAT_CATEGORY_SEEK)
#define M_ (c == DNSTABLE_STAT_CATEGORY_MERGED)
#define N_ (c == DNSTABLE_STAT_CATEGORY_FILES)
CONTRACT(filter_mtbl_get_counter, filter_mtbl, F_ || S_, F_ ? s->stats.filtered : s->stats.seek);
CONTRACT(ljoin_mtbl_get_counter, ljoin_mtbl, M_ || S_, M_ ? s->stats.merged : s->stats.seek);
CONTRACT(remove_mtbl_get_counter, remove_mtbl, F_ || S_ || N_, F_ ? s->stats.filtered : S_ ? s->stats.seek : s->rm_sources->_n);
#define H(n, T) void h_##n(void) { const struct T *s; dnstable_stat_category c; bool *e; uint64_t *u; n##_mtbl_get_counter(s, c, e, u); VP_PROBE(); }
H(filter, filter_mtbl) H(ljoin, ljoin_mtbl) H(remove, remove_mtbl)
#endif

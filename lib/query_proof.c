/*
 * Contracts on the functions of dnstable/query.c (the file as it is, included
 * below), for the properties C10 to C15, C17, C18 and C31.  The dependencies
 * are represented by their contracts: varints (C01), names (libwdns), value
 * unpacking (C02), entry accessors (C05), and memory functions at an arbitrary
 * byte position.
 */
#define VP_ABSTRACT
#include "vp_mtbl_varint.h"
#ifdef P_MODELBUF
# include "vp_ubuf_model.h"
#endif
#include <sys/socket.h>
#include <arpa/inet.h>
#include <time.h>
#include <setjmp.h>
#include <strings.h>
#ifdef P_CLOCK
# define HAVE_CLOCK_GETTIME 1
int64_t vp_s; long vp_ns;		/* the clock reading */
static int vp_clock_gettime(clockid_t c, struct timespec *ts)
{
	__CPROVER_assert(c == CLOCK_MONOTONIC || c == CLOCK_MONOTONIC_COARSE, "a clock that does not jump");
	ts->tv_sec = vp_s; ts->tv_nsec = vp_ns; return 0;
}
# define clock_gettime vp_clock_gettime
#endif

#include "libmy/my_alloc.h"
#include "libmy/ubuf.h"
#include "libmy/my_time.h"
#include <mtbl.h>
#include <wdns.h>
#include "dnstable/dnstable.h"
#ifdef P_MEMCMP
static int vp_memcmp(const void *a, const void *b, size_t n);
# undef memcmp
# define memcmp vp_memcmp
#endif
#include "dnstable/dnstable-private.h"
#ifdef VP_BOUNDED
# define MAXB 24
#else
# define MAXB 0x100000000ull
#endif
typedef unsigned __int128 u128; typedef __int128 s128;

/* ---- names ---- */
size_t __CPROVER_uninterpreted_nl(size_t obj, size_t off);
static size_t NL(const uint8_t *p, size_t n) { size_t l = __CPROVER_uninterpreted_nl(__CPROVER_POINTER_OBJECT(p), __CPROVER_POINTER_OFFSET(p)); return l >= 1 && l <= 255 && l <= n ? l : 0; }
wdns_res wdns_len_uname(const uint8_t *p, const uint8_t *e, size_t *sz)
{
	__CPROVER_assert(__CPROVER_same_object(p, e) && p <= e && (p == e || __CPROVER_r_ok(p, e - p)), "precondition of wdns_len_uname: [p, eop) is readable");
	size_t l = NL(p, e - p);
	if (l) *sz = l;
	return l ? wdns_res_success : wdns_res_invalid_length_octet;
}
/* ---- memory functions at one arbitrary position ---- */
size_t vp_k;
size_t vp_d;	/* where memcmp says the regions differ first */
/* the result of comparing: equal everywhere (in particular at vp_k), or different first at vp_d (equal at vp_k < vp_d) */
static int vp_memcmp(const void *a, const void *b, size_t n)
{
	__CPROVER_assert(n == 0 || (__CPROVER_r_ok(a, n) && __CPROVER_r_ok(b, n)), "precondition of memcmp: both regions are readable");
	const uint8_t *x = a, *y = b; _Bool same; size_t d; int r;
	if (n == 0 || same) { __CPROVER_assume(vp_k >= n || x[vp_k] == y[vp_k]); vp_d = n; return 0; }
	__CPROVER_assume(d < n && x[d] != y[d] && (vp_k >= d || x[vp_k] == y[vp_k]));
	vp_d = d;
	__CPROVER_assume(x[d] < y[d] ? r < 0 : r > 0);
	return r;
}

/* ---- values and entries ---- */
_Bool __CPROVER_uninterpreted_ok(int kind, const uint8_t *, size_t);
uint64_t __CPROVER_uninterpreted_val(int kind, int which, const uint8_t *, size_t);
#define T_OK(p, n) __CPROVER_uninterpreted_ok(3, p, n)
#define T_VAL(i, p, n) __CPROVER_uninterpreted_val(3, i, p, n)
dnstable_res triplet_unpack(const uint8_t *buf, size_t n, uint64_t *a, uint64_t *b, uint64_t *c)
{
	__CPROVER_assert(n == 0 || __CPROVER_r_ok(buf, n), "precondition of triplet_unpack: the value is readable");
	if (!T_OK(buf, n)) return dnstable_res_failure;
	*a = T_VAL(1, buf, n); *b = T_VAL(2, buf, n); *c = T_VAL(3, buf, n);
	return dnstable_res_success;
}
/* one entry with arbitrary fields */
struct dnstable_entry { _Bool has_rrtype, has_times, has_bw; uint16_t rrtype; uint64_t first, last; const uint8_t *bw; size_t nbw; } vp_ent;
dnstable_res dnstable_entry_get_rrtype(struct dnstable_entry *e, uint16_t *v) { if (!e->has_rrtype) return dnstable_res_failure; *v = e->rrtype; return dnstable_res_success; }
dnstable_res dnstable_entry_get_time_first(struct dnstable_entry *e, uint64_t *v) { if (!e->has_times) return dnstable_res_failure; *v = e->first; return dnstable_res_success; }
dnstable_res dnstable_entry_get_time_last(struct dnstable_entry *e, uint64_t *v) { if (!e->has_times) return dnstable_res_failure; *v = e->last; return dnstable_res_success; }
dnstable_res dnstable_entry_get_bailiwick(struct dnstable_entry *e, const uint8_t **p, size_t *n) { if (!e->has_bw) return dnstable_res_failure; *p = e->bw; *n = e->nbw; return dnstable_res_success; }
/* reversal is an arbitrary bijection on names of one length: byte k of the result is a function of the name */
uint8_t __CPROVER_uninterpreted_rev(size_t obj, size_t off, size_t k);
#define REV(p, k) __CPROVER_uninterpreted_rev(__CPROVER_POINTER_OBJECT(p), __CPROVER_POINTER_OFFSET(p), k)
_Bool vp_revok;
wdns_res wdns_reverse_name(const uint8_t *p, size_t n, uint8_t *r)
{
	__CPROVER_assert(__CPROVER_r_ok(p, n) && n <= 255 && __CPROVER_w_ok(r, n), "precondition of wdns_reverse_name: readable name, room for the result");
	if (!vp_revok) return wdns_res_failure;
	if (vp_k < n) r[vp_k] = REV(p, vp_k);
	return wdns_res_success;
}

/* ---- the source behind the iterator: entry number i is delivered as key length i + 1 ---- */
#ifdef P_STREAM
size_t vp_pos, vp_start, vp_n; _Bool vp_limited, vp_jumps; unsigned vp_setjmps;
size_t vp_g;				/* an arbitrary entry */
_Bool vp_gdec;				/* whether it decodes */
static _Bool vp_lastdec;		/* whether the entry read last did */
static uint8_t vp_dummy[1]; static size_t vp_decoded;
mtbl_res mtbl_iter_next(struct mtbl_iter *it, const uint8_t **k, size_t *nk, const uint8_t **v, size_t *nv)
{
	if (vp_pos >= vp_n) return mtbl_res_failure;
	*k = vp_dummy; *v = vp_dummy; *nk = vp_pos + 1; *nv = vp_pos + 1;
	vp_pos++;
	return mtbl_res_success;
}
struct dnstable_entry *dnstable_entry_decode(const uint8_t *k, size_t nk, const uint8_t *v, size_t nv)
{
	__CPROVER_assert(k == vp_dummy && v == vp_dummy && nk == vp_pos && nv == vp_pos, "the entry just read is decoded");
	vp_decoded = nk - 1;
	_Bool d;
	vp_lastdec = nk - 1 == vp_g ? vp_gdec : d;
	return vp_lastdec ? &vp_ent : NULL;
}
# undef setjmp
# define setjmp(env) (vp_setjmps++, vp_jumps)
# define VPL_query_iter_next \
	__CPROVER_assigns(vp_pos, vp_decoded, vp_lastdec, *ent) \
	__CPROVER_loop_invariant(vp_start <= vp_pos && vp_pos <= vp_n && vp_n <= MAXB && IMP(vp_start <= vp_g && vp_g < vp_pos, !vp_gdec)) \
	__CPROVER_decreases(vp_n - vp_pos)
#endif

#ifdef P_SEEK
const uint8_t *vp_seekkey; size_t vp_seeklen; unsigned vp_seeks; mtbl_res vp_seekres;
mtbl_res mtbl_iter_seek(struct mtbl_iter *it, const uint8_t *k, size_t n)
{
	__CPROVER_assert(n > 0 && __CPROVER_r_ok(k, n), "precondition of mtbl_iter_seek: a readable key");
	vp_seekkey = k; vp_seeklen = n; vp_seeks++;
	return vp_seekres;
}
#endif
#ifdef P_PARSE
uint16_t vp_type; int vp_any, vp_any2, vp_any3;
uint16_t wdns_str_to_rrtype(const char *s) { return vp_type; }
# define strcasecmp(a, b) ((b)[0] == 'T' ? vp_any2 : (b)[3] == 0 ? vp_any : vp_any3)
#endif
#ifdef P_INC
/* two arbitrary positions vp_k < vp_m, and the bytes there before */
#ifndef MAXKEY
# define MAXKEY MAXB
#endif
static size_t vp_m; static uint8_t vp_oldk, vp_oldm;
/* the offset as a signed number (the verifier has 56-bit offsets); one before the start is the end of the loop */
#define PTRI ((int64_t)((uint64_t)__CPROVER_POINTER_OFFSET(ptr) << 8) >> 8)
/* everything right of ptr, to the position given, was 0xff and is 0 now, everything else is as it was */
#define AT(i, old) ((i) > pos || (int64_t)(i) <= PTRI ? key->_v[i] == (old) : (old) == 0xff && key->_v[i] == 0)
# define VPG_increment_key ptr = key->_v + PTRI;	/* no change: tells the verifier the object */
# define VPL_increment_key \
	__CPROVER_assigns(ptr, __CPROVER_object_upto(key->_v, pos + 1)) \
	__CPROVER_loop_invariant(PTRI >= 0 && PTRI <= (int64_t)pos && key->_v[0] != 0xff && pos < key->_n && __CPROVER_same_object(ptr, key->_v) && AT(vp_k, vp_oldk) && AT(vp_m, vp_oldm)) \
	__CPROVER_decreases(PTRI + 1)
#endif
#ifdef P_WILD
uint8_t vp_start_of_label[256]; size_t vp_lastlabel;
# define VPL_is_right_wildcard \
	__CPROVER_assigns(pos) \
	__CPROVER_loop_invariant(pos < name->len && vp_start_of_label[pos] && (pos <= vp_lastlabel || (pos == name->len - 1 && vp_lastlabel + 3 < name->len))) \
	__CPROVER_decreases(name->len - pos)
/* the precondition "the name is well formed" at pos */
# define VPG_is_right_wildcard \
	__CPROVER_assume(IMP(vp_start_of_label[pos] && pos < vp_lastlabel, name->data[pos] >= 1 && name->data[pos] <= 63 && pos + 1 + name->data[pos] <= vp_lastlabel && vp_start_of_label[pos + 1 + name->data[pos]]));
#endif
#ifdef P_TFILTER
/* the file: its source, and its time range entry, if it can be read */
struct mtbl_source { int d; } vp_rsrc; struct mtbl_reader { int d; } vp_reader;
struct dnstable_iter { int d; } vp_trit; struct dnstable_query; struct remove_mtbl; struct mtbl_merger { int d; } vp_fill;
struct dnstable_query *vp_trq; struct remove_mtbl *vp_rmv;
_Bool vp_opens, vp_steps; unsigned vp_filled, vp_removed, vp_live;
const struct mtbl_source *mtbl_reader_source(struct mtbl_reader *r) { __CPROVER_assert(r == &vp_reader, "the file asked about"); return &vp_rsrc; }
dnstable_res dnstable_iter_next(struct dnstable_iter *it, struct dnstable_entry **e) { __CPROVER_assert(it == &vp_trit, "the time range is read"); if (!vp_steps) return dnstable_res_failure; *e = &vp_ent; return dnstable_res_success; }
void dnstable_iter_destroy(struct dnstable_iter **it) { *it = NULL; }
void dnstable_entry_destroy(struct dnstable_entry **e) { *e = NULL; }
void mtbl_merger_add_source(struct mtbl_merger *m, const struct mtbl_source *s) { __CPROVER_assert(m == &vp_fill && s == &vp_rsrc, "the file is added to the fill sources"); vp_filled++; }
void remove_mtbl_add_source(struct remove_mtbl *rm, const struct mtbl_source *s) { __CPROVER_assert(rm == vp_rmv && s == &vp_rsrc, "the file is added to the removal sources"); vp_removed++; }
#endif
#include "vp_loops.h"
#include "dnstable/query.c"

#define IN const uint8_t *key, size_t len_key, const uint8_t *val, size_t len_val, bool *match
#define ITQ struct query_iter *it = user
#define Q(it) (((struct query_iter *)(it))->query)
#define QREQ REQ(FRESH(user, sizeof(struct query_iter)) && FRESH(Q(user), sizeof(struct dnstable_query)) && FRESH(match, 1))
#define KREQ(min) REQ(len_key >= min && len_key <= MAXB && FRESH(key, len_key))
#define OKRES ENS(RET == mtbl_res_success)
/* the type number at p, when a complete number of the 32-bit format starts there */
static inline _Bool T_IS(const uint8_t *p, size_t n) { size_t l = vp_plen(p, n); return l >= 1 && l <= 5; }
#define T_NUM(p) ((uint32_t)vp_absval(p))
#define RDLEN(k, n) ((size_t)((k)[(n) - 2] | (k)[(n) - 1] << 8))
#define NAMETYPE(t) ((t) == 2 || (t) == 5 || (t) == 39 || (t) == 12 || (t) == 15 || (t) == 33 || (t) == 6 || (t) == 64 || (t) == 65 || (t) == 47 || (t) == 17 || (t) == 30)

#ifdef P_FILTER
static inline _Bool S_rrset_type(const uint8_t *k, size_t n, uint32_t t)
{ size_t l = NL(k + 1, n - 1); return l && l + 2 < n && T_IS(k + 1 + l, n - 1 - l) && T_NUM(k + 1 + l) == t; }
static inline _Bool S_rdata_type(const uint8_t *k, size_t n, uint32_t t)
{ return n >= 2 && RDLEN(k, n) + 2 < n && T_IS(k + 1 + RDLEN(k, n), n - 1 - RDLEN(k, n)) && T_NUM(k + 1 + RDLEN(k, n)) == t; }
/* the type filter says exactly whether the RRtype field of the key is the query's */
static mtbl_res filter_rrtype(void *user, struct mtbl_iter *si, IN) QREQ KREQ(1) REQ(key[0] == 0 || key[0] == 2)
	OKRES ENS(*match == (key[0] == 0 ? S_rrset_type(key, len_key, Q(user)->rrtype) : S_rdata_type(key, len_key, Q(user)->rrtype))) ASG(*match);
void h_rrtype(void) { void *u; const uint8_t *k, *v; size_t n, nv; bool *m; filter_rrtype(u, 0, k, n, v, nv, m); VP_PROBE(); }
/* RDATA name searches: exactly the types whose RDATA holds a name where the index says */
static mtbl_res filter_rrtype_rdata_name(void *user, struct mtbl_iter *si, IN) REQ(FRESH(match, 1)) KREQ(1) REQ(key[0] == 2)
	OKRES ENS(*match == (len_key >= 2 && RDLEN(key, len_key) + 2 < len_key && T_IS(key + 1 + RDLEN(key, len_key), len_key - 1 - RDLEN(key, len_key)) && NAMETYPE(T_NUM(key + 1 + RDLEN(key, len_key))))) ASG(*match);
void h_rdata_name(void) { void *u; const uint8_t *k, *v; size_t n, nv; bool *m; filter_rrtype_rdata_name(u, 0, k, n, v, nv, m); VP_PROBE(); }
/* raw RDATA searches: exactly the entries whose RDATA is at least as long as the bytes searched (the key prefix has compared them) */
static mtbl_res filter_rdata_len(void *user, struct mtbl_iter *si, IN) QREQ KREQ(1)
	OKRES ENS(*match == (len_key >= 3 && RDLEN(key, len_key) >= Q(user)->len_rdata)) ASG(*match);
void h_rdata_len(void) { void *u; const uint8_t *k, *v; size_t n, nv; bool *m; filter_rdata_len(u, 0, k, n, v, nv, m); VP_PROBE(); }
#endif

#ifdef P_BAILIWICK
/* where the bailiwick field of an RRset key starts, 0 if there is none */
static inline size_t S_bw(const uint8_t *k, size_t n)
{ size_t l = NL(k + 1, n - 1); if (!l || l + 2 >= n || !T_IS(k + 1 + l, n - 1 - l)) return 0; size_t p = 1 + l + vp_plen(k + 1 + l, n - 1 - l); return p < n && NL(k + p, n - p) ? p : 0; }
/* the type number, when there is one, is one of the 32-bit format (entries with a longer one do not decode) */
static inline _Bool S_numok(const uint8_t *k, size_t n) { size_t l = NL(k + 1, n - 1); return IMP(l && l + 2 < n, vp_plen(k + 1 + l, n - 1 - l) <= 5); }
static mtbl_res filter_bailiwick(void *user, struct mtbl_iter *si, IN) QREQ KREQ(1) REQ(FRESH(Q(user)->bailiwick.data, Q(user)->bailiwick.len))
	REQ(S_numok(key, len_key))
	REQ(vp_k < Q(user)->bailiwick.len)
	OKRES
	ENS(IMP(*match, S_bw(key, len_key) && NL(key + S_bw(key, len_key), len_key - S_bw(key, len_key)) == Q(user)->bailiwick.len && key[S_bw(key, len_key) + vp_k] == Q(user)->bailiwick.data[vp_k]))
	ENS(IMP(!*match && S_bw(key, len_key) && NL(key + S_bw(key, len_key), len_key - S_bw(key, len_key)) == Q(user)->bailiwick.len,
		vp_d < Q(user)->bailiwick.len && key[S_bw(key, len_key) + vp_d] != Q(user)->bailiwick.data[vp_d]))
	ASG(*match, vp_d);
void h_bailiwick(void) { void *u; const uint8_t *k, *v; size_t n, nv; bool *m; size_t a; vp_k = a; filter_bailiwick(u, 0, k, n, v, nv, m); VP_PROBE(); }
#endif

#ifdef P_TIME
#define F T_VAL(1, val, len_val)
#define L0 T_VAL(2, val, len_val)
#define L (L0 ? L0 : F)
#define VREQ REQ(len_val <= MAXB && FRESH(val, len_val))
/* the bounds a query sets, applied to the times of an entry's value */
#define FENCE(q) (IMP((q)->do_time_first_before, F <= (q)->time_first_before) && IMP((q)->do_time_first_after, F >= (q)->time_first_after) && \
	IMP((q)->do_time_last_before, L <= (q)->time_last_before) && IMP((q)->do_time_last_after, L >= (q)->time_last_after))
/* before the rest of an entry is merged in: the first-before bound may still be met by it if sources were put aside for another reason */
#define PREFENCE(q) (IMP((q)->do_time_first_before && !(q)->do_time_last_after, F <= (q)->time_first_before) && IMP((q)->do_time_first_after, F >= (q)->time_first_after) && \
	IMP((q)->do_time_last_before, L <= (q)->time_last_before) && IMP((q)->do_time_last_after, L >= (q)->time_last_after))
static mtbl_res filter_time(void *user, struct mtbl_iter *si, IN) QREQ VREQ OKRES ENS(*match == (T_OK(val, len_val) && FENCE(Q(user)))) ASG(*match);
static mtbl_res filter_time_prefilter(void *user, struct mtbl_iter *si, IN) QREQ VREQ OKRES ENS(*match == (T_OK(val, len_val) && PREFENCE(Q(user)))) ASG(*match);
void h_time(void) { void *u; const uint8_t *k, *v; size_t n, nv; bool *m; filter_time(u, 0, k, n, v, nv, m); VP_PROBE(); }
void h_prefilter(void) { void *u; const uint8_t *k, *v; size_t n, nv; bool *m; filter_time_prefilter(u, 0, k, n, v, nv, m); VP_PROBE(); }
#endif

#if defined(P_TFILTER) || defined(P_LEMMA)
/* what a file whose entries lie within [mn, mx] is used for: the entries of a removed one fail the first-after or last-before bound whatever is merged with them;
   those of one to fill in cannot meet the last-after (first-before) bound by themselves */
#define C_REM(q, mn, mx) (((q)->do_time_first_after && (q)->time_first_after > (mx)) || (!((q)->do_time_last_after && (q)->time_last_after > (mx)) && (q)->do_time_last_before && (q)->time_last_before < (mn)))
#define C_FILL(q, mn, mx) (!C_REM(q, mn, mx) && (((q)->do_time_last_after && (q)->time_last_after > (mx)) || ((q)->do_time_first_before && !(q)->do_time_last_after && (q)->time_first_before < (mn))))
#endif
#ifdef P_TFILTER
#define QI ((struct query_iter *)clos)
#define HASR (vp_opens && vp_steps && vp_ent.has_times)
#define IS_REM (HASR && C_REM(Q(clos), vp_ent.first, vp_ent.last))
#define IS_FILL (HASR && C_FILL(Q(clos), vp_ent.first, vp_ent.last))
/* the helpers, as their callers use them (assumed) */
struct dnstable_query *dnstable_query_init(dnstable_query_type t) REQ(t == DNSTABLE_QUERY_TYPE_TIME_RANGE) ENS(RET == vp_trq) ASG();
struct dnstable_iter *dnstable_query_iter(struct dnstable_query *q, const struct mtbl_source *s) REQ(q == vp_trq && s == &vp_rsrc) ENS(RET == (vp_opens ? &vp_trit : NULL)) ASG();
void dnstable_query_destroy(struct dnstable_query **q) REQ(__CPROVER_rw_ok(q, 8)) ASG(*q);
static bool reader_time_filter(struct mtbl_reader *r, void *clos)
	REQ(r == &vp_reader && FRESH(clos, sizeof(struct query_iter)) && FRESH(Q(clos), sizeof(struct dnstable_query)))
	REQ((QI->fill_merger == NULL || QI->fill_merger == &vp_fill) && (QI->remove_strict == NULL || QI->remove_strict == vp_rmv) && vp_filled == 0 && vp_removed == 0)
	ENS(RET == !(IS_REM || IS_FILL))
	ENS(vp_filled == (IS_FILL && QI->fill_merger != NULL) && vp_removed == (IS_REM && QI->remove_strict != NULL))
	ENS(QI->stats.fill_files == OLD(((struct query_iter *)clos)->stats.fill_files) + vp_filled && QI->stats.fileset_files == OLD(((struct query_iter *)clos)->stats.fileset_files) + RET)
	ASG(vp_filled, vp_removed, QI->stats.fill_files, QI->stats.fileset_files);
void h_tfilter(void) { void *c; bool a, b; vp_opens = a; vp_steps = b; vp_trq = malloc(sizeof(struct dnstable_query)); vp_rmv = malloc(1); bool x; if (x) vp_ent.has_times = 0; uint64_t f, l; vp_ent.first = f; vp_ent.last = l; vp_filled = vp_removed = 0; reader_time_filter(&vp_reader, c); VP_PROBE(); }
#endif
#ifdef P_LEMMA
/* From the contracts: the stages together (files classified as above; kept entries pass the prefilter; entries a removed file has are hidden; fill-in entries are
   merged in; the time filter) show an entry exactly if the merge of everything all files have for it meets the bounds, and then with the whole merge.
   K, F, R: what the kept, fill-in and removed files have for the entry, merged (times are the least first and greatest last, so one of each class stands for any number) */
struct part { _Bool has; uint64_t first, last, count, mn, mx; };
#define PART(p) (IMP(p.has, p.mn <= p.first && p.first <= p.last && p.last <= p.mx))
#define MIN(a, b) ((a) < (b) ? (a) : (b))
#define MAX(a, b) ((a) > (b) ? (a) : (b))
#define LFENCE(q, f, l) (IMP((q)->do_time_first_before, (f) <= (q)->time_first_before) && IMP((q)->do_time_first_after, (f) >= (q)->time_first_after) && \
	IMP((q)->do_time_last_before, (l) <= (q)->time_last_before) && IMP((q)->do_time_last_after, (l) >= (q)->time_last_after))
#define LPRE(q, f, l) (IMP((q)->do_time_first_after, (f) >= (q)->time_first_after) && IMP((q)->do_time_last_before, (l) <= (q)->time_last_before) && IMP((q)->do_time_last_after, (l) >= (q)->time_last_after) && \
	IMP((q)->do_time_first_before && !(q)->do_time_last_after, (f) <= (q)->time_first_before))
static void merge(struct part *a, const struct part *b) { if (!b->has) return; if (!a->has) { a->has = 1; a->first = b->first; a->last = b->last; a->count = b->count; return; } a->first = MIN(a->first, b->first); a->last = MAX(a->last, b->last); a->count += b->count; }
void h_lemma(void)
{
	struct dnstable_query q; struct part K1, K2, F, R;
	__CPROVER_assume(PART(K1) && PART(K2) && PART(F) && PART(R));
	__CPROVER_assume(!C_REM(&q, K1.mn, K1.mx) && !C_FILL(&q, K1.mn, K1.mx) && !C_REM(&q, K2.mn, K2.mx) && !C_FILL(&q, K2.mn, K2.mx) && C_FILL(&q, F.mn, F.mx) && C_REM(&q, R.mn, R.mx));
	struct part K = { 0 }, all = { 0 }, shown = { 0 };
	merge(&K, &K1); merge(&K, &K2);
	merge(&all, &K1); merge(&all, &K2); merge(&all, &F); merge(&all, &R);
	if (K.has && LPRE(&q, K.first, K.last) && !R.has) {
		shown = K; merge(&shown, &F);
		shown.has = LFENCE(&q, shown.first, shown.last);
	}
	__CPROVER_assert(shown.has == (all.has && LFENCE(&q, all.first, all.last)), "lemma: an entry is shown exactly if the whole merge meets the bounds");
	__CPROVER_assert(IMP(shown.has, shown.first == all.first && shown.last == all.last && shown.count == all.count), "lemma: what is shown is the whole merge");
	VP_PROBE();
}
#endif

#ifdef P_ORDER
/* nothing shows up twice in order, and the order is by time-first then time-last */
static int dnstable_dupsort_func(void *c, const uint8_t *key, size_t len_key, const uint8_t *a, size_t na, const uint8_t *b, size_t nb)
	REQ(len_key <= MAXB && FRESH(key, len_key) && na >= 1 && na <= MAXB && nb >= 1 && nb <= MAXB && FRESH(a, na) && FRESH(b, nb) && T_OK(a, na) && T_OK(b, nb))
	ENS(IMP(!(len_key && (key[0] == 0 || key[0] == 2)), RET == 0))
	ENS(IMP(len_key && (key[0] == 0 || key[0] == 2), (RET < 0) == (T_VAL(1, a, na) < T_VAL(1, b, nb) || (T_VAL(1, a, na) == T_VAL(1, b, nb) && T_VAL(2, a, na) < T_VAL(2, b, nb)))
		&& (RET == 0) == (T_VAL(1, a, na) == T_VAL(1, b, nb) && T_VAL(2, a, na) == T_VAL(2, b, nb))))
	ASG();
void h_dupsort(void) { const uint8_t *k, *a, *b; size_t n, na, nb; dnstable_dupsort_func(0, k, n, a, na, b, nb); VP_PROBE(); }
#endif

#ifdef P_OFFSET
static mtbl_res filter_offset(void *user, struct mtbl_iter *si, IN) QREQ
	OKRES ENS(*match == (OLD(((struct query_iter *)user)->offset) == 0) && ((struct query_iter *)user)->offset == (OLD(((struct query_iter *)user)->offset) ? OLD(((struct query_iter *)user)->offset) - 1 : 0))
	ASG(*match, ((struct query_iter *)user)->offset);	/* the query itself is not touched */
void h_offset(void) { void *u; const uint8_t *k, *v; size_t n, nv; bool *m; filter_offset(u, 0, k, n, v, nv, m); VP_PROBE(); }
#endif

#ifdef P_SETTERS
#define SQ REQ(FRESH(q, sizeof(*q)))
dnstable_res dnstable_query_set_offset(struct dnstable_query *q, uint64_t o) SQ ENS(RET == dnstable_res_success && q->offset == o) ASG(q->offset);
dnstable_res dnstable_query_set_aggregated(struct dnstable_query *q, bool b) SQ ENS(RET == dnstable_res_success && q->aggregated == b) ASG(q->aggregated);
dnstable_res dnstable_query_set_case_sensitive(struct dnstable_query *q, bool b) SQ ENS(RET == dnstable_res_success && q->case_sensitive == b) ASG(q->case_sensitive);
dnstable_res dnstable_query_set_timeout(struct dnstable_query *q, const struct timespec *t) SQ REQ(t == NULL || FRESH(t, sizeof(*t)))
	ENS(RET == dnstable_res_success && q->do_timeout == (t != NULL)) ENS(IMP(t != NULL, q->timeout.tv_sec == t->tv_sec && q->timeout.tv_nsec == t->tv_nsec)) ASG(q->do_timeout, q->timeout);
dnstable_res dnstable_query_set_deadline(struct dnstable_query *q, const struct timespec *t) SQ REQ(t == NULL || FRESH(t, sizeof(*t)))
	ENS(RET == dnstable_res_success && q->do_deadline == (t != NULL)) ENS(IMP(t != NULL, q->deadline.tv_sec == t->tv_sec && q->deadline.tv_nsec == t->tv_nsec)) ASG(q->do_deadline, q->deadline);
#define PK(X) X(TIME_FIRST_BEFORE, time_first_before) X(TIME_FIRST_AFTER, time_first_after) X(TIME_LAST_BEFORE, time_last_before) X(TIME_LAST_AFTER, time_last_after)
#define P_OKTYPE(t) ((t) == DNSTABLE_FILTER_PARAMETER_TIME_FIRST_BEFORE || (t) == DNSTABLE_FILTER_PARAMETER_TIME_FIRST_AFTER || (t) == DNSTABLE_FILTER_PARAMETER_TIME_LAST_BEFORE || (t) == DNSTABLE_FILTER_PARAMETER_TIME_LAST_AFTER)
/* exactly the named bound is set to exactly the eight bytes given (or unset); anything else is refused and changes nothing */
#define ONE(P, f) ENS(OK && t == DNSTABLE_FILTER_PARAMETER_##P ? q->do_##f == (p != NULL) && IMP(p != NULL, q->f == *(const uint64_t *)p) && IMP(p == NULL, q->f == OLD(q->f)) : q->do_##f == OLD(q->do_##f) && q->f == OLD(q->f))
#define OK (RET == dnstable_res_success)
dnstable_res dnstable_query_set_filter_parameter(struct dnstable_query *q, dnstable_filter_parameter_type t, const void *p, const size_t n) SQ
	REQ(n <= MAXB && (p == NULL || FRESH(p, n)))
	ENS(OK == (n == 8 && P_OKTYPE(t))) ENS(OK || RET == dnstable_res_failure)
	PK(ONE)
	ASG(q->do_time_first_before, q->do_time_first_after, q->do_time_last_before, q->do_time_last_after, q->time_first_before, q->time_first_after, q->time_last_before, q->time_last_after);
void h_set_offset(void) { struct dnstable_query *q; uint64_t o; dnstable_query_set_offset(q, o); VP_PROBE(); }
void h_set_aggregated(void) { struct dnstable_query *q; bool o; dnstable_query_set_aggregated(q, o); VP_PROBE(); }
void h_set_case(void) { struct dnstable_query *q; bool o; dnstable_query_set_case_sensitive(q, o); VP_PROBE(); }
void h_set_timeout(void) { struct dnstable_query *q; const struct timespec *t; dnstable_query_set_timeout(q, t); VP_PROBE(); }
void h_set_deadline(void) { struct dnstable_query *q; const struct timespec *t; dnstable_query_set_deadline(q, t); VP_PROBE(); }
void h_set_param(void) { struct dnstable_query *q; dnstable_filter_parameter_type t; const void *p; size_t n; dnstable_query_set_filter_parameter(q, t, p, n); VP_PROBE(); }
#endif

#ifdef P_QFILTER
#define NEED_T (q->do_rrtype || q->q_type == DNSTABLE_QUERY_TYPE_RDATA_NAME)
#define NEED_TIME (q->do_time_first_before || q->do_time_first_after || q->do_time_last_before || q->do_time_last_after)
#define NEED_BW (q->q_type == DNSTABLE_QUERY_TYPE_RRSET && q->bailiwick.data != NULL)
#define V_TYPE (q->do_rrtype ? e->rrtype == q->rrtype : IMP(q->q_type == DNSTABLE_QUERY_TYPE_RDATA_NAME, NAMETYPE(e->rrtype)))
#define V_TIME (IMP(q->do_time_first_before, e->first <= q->time_first_before) && IMP(q->do_time_first_after, e->first >= q->time_first_after) && \
	IMP(q->do_time_last_before, e->last <= q->time_last_before) && IMP(q->do_time_last_after, e->last >= q->time_last_after))
#define V_BWLEN (IMP(NEED_BW, q->bailiwick.len == e->nbw))
#define OK (RET == dnstable_res_success)
#define FIELDS (IMP(NEED_T, e->has_rrtype) && IMP(NEED_TIME, e->has_times) && IMP(NEED_BW, e->has_bw))
/* the verdict on one entry; the bailiwick is compared at an arbitrary byte vp_k (and differs at vp_d when that is the reason) */
dnstable_res dnstable_query_filter(struct dnstable_query *q, struct dnstable_entry *e, bool *pass)
	REQ(FRESH(q, sizeof(*q)) && FRESH(e, sizeof(*e)) && FRESH(pass, 1))
	REQ(q->bailiwick.data == NULL || FRESH(q->bailiwick.data, q->bailiwick.len))
	REQ(e->nbw >= 1 && e->nbw <= 255 && FRESH(e->bw, e->nbw) && vp_k < e->nbw && vp_revok && vp_d == 255)
	ENS(OK || RET == dnstable_res_failure)
	ENS(IMP(FIELDS, OK))
	ENS(IMP(OK && *pass, FIELDS && V_TYPE && V_TIME && V_BWLEN && IMP(NEED_BW, q->bailiwick.data[vp_k] == REV(e->bw, vp_k))))
	ENS(IMP(OK && !*pass && (!NEED_T || (e->has_rrtype && V_TYPE)) && (!NEED_TIME || (e->has_times && V_TIME)), NEED_BW && (!V_BWLEN || IMP(vp_d == vp_k, q->bailiwick.data[vp_k] != REV(e->bw, vp_k)) && vp_d < e->nbw)))
	ASG(*pass, vp_d);
void h_qfilter(void) { struct dnstable_query *q; struct dnstable_entry *e; bool *p; size_t a; bool b; vp_k = a; vp_revok = b; vp_d = 255; dnstable_query_filter(q, e, p); VP_PROBE(); }
#endif

#ifdef P_CLOCK
#define NORM(t) ((t).tv_sec >= 0 && (t).tv_sec < (1ll << 61) && (t).tv_nsec >= 0 && (t).tv_nsec < 1000000000)
#define QQ (it->query)
/* now plus the timeout: seconds and nanoseconds with the carry */
#define NSUM (vp_ns + QQ->timeout.tv_nsec)
#define LIM_S (vp_s + QQ->timeout.tv_sec + (NSUM >= 1000000000))
#define LIM_N (NSUM >= 1000000000 ? NSUM - 1000000000 : NSUM)
#define LESS(s1, n1, s2, n2) ((s1) < (s2) || ((s1) == (s2) && (n1) < (n2)))
#define USELIM (QQ->do_timeout && (!QQ->do_deadline || !LESS(QQ->deadline.tv_sec, QQ->deadline.tv_nsec, LIM_S, LIM_N)))
/* the earlier of now plus the timeout, if there is one, and the deadline, if there is one */
static void query_iter_set_deadline(struct query_iter *it)
	REQ(FRESH(it, sizeof(*it)) && FRESH(it->query, sizeof(struct dnstable_query)) && NORM(QQ->timeout) && NORM(QQ->deadline) && vp_s >= 0 && vp_s < (1ll << 61) && vp_ns >= 0 && vp_ns < 1000000000)
	REQ(QQ->do_timeout || QQ->do_deadline)
	ENS(it->deadline.tv_sec == (USELIM ? LIM_S : QQ->deadline.tv_sec) && it->deadline.tv_nsec == (USELIM ? LIM_N : QQ->deadline.tv_nsec))
	ASG(it->deadline);
void h_set_dl(void) { struct query_iter *it; int64_t s; long n; vp_s = s; vp_ns = n; query_iter_set_deadline(it); VP_PROBE(); }
#endif

#ifdef P_STREAM
/* assumed here, proved as C10 `deadline' */
static void query_iter_set_deadline(struct query_iter *it) REQ(__CPROVER_rw_ok(it, sizeof(*it)) && __CPROVER_r_ok(it->query, sizeof(struct dnstable_query)) && (it->query->do_timeout || it->query->do_deadline)) ASG(it->deadline);
/* a step: the limit is armed exactly when one is set; a jump back is a timeout; otherwise the next decodable entry, none passed over, or the end */
static dnstable_res query_iter_next(void *clos, struct dnstable_entry **ent)
	REQ(FRESH(clos, sizeof(struct query_iter)) && FRESH(Q(clos), sizeof(struct dnstable_query)) && FRESH(ent, 8))
	REQ(vp_pos == vp_start && vp_pos <= vp_n && vp_n <= MAXB && vp_setjmps == 0)
	ENS((vp_setjmps == 1) == (Q(clos)->do_timeout || Q(clos)->do_deadline) && vp_setjmps <= 1)
	ENS((RET == dnstable_res_timeout) == (vp_setjmps == 1 && vp_jumps))
	ENS(IMP(RET == dnstable_res_success, *ent == &vp_ent && vp_pos >= vp_start + 1 && vp_lastdec && vp_decoded == vp_pos - 1 && IMP(vp_g == vp_decoded, vp_gdec) && IMP(vp_start <= vp_g && vp_g < vp_pos - 1, !vp_gdec)))
	ENS(IMP(RET == dnstable_res_failure, vp_pos == vp_n && IMP(vp_start <= vp_g && vp_g < vp_n, !vp_gdec)))
	ENS(IMP(RET == dnstable_res_timeout, vp_pos == vp_start))
	ENS(RET == dnstable_res_success || RET == dnstable_res_failure || RET == dnstable_res_timeout)
	ASG(*ent, vp_pos, vp_decoded, vp_lastdec, vp_setjmps, ((struct query_iter *)clos)->deadline);
void h_next(void) { void *c; struct dnstable_entry **e; size_t a, b, g; bool j; vp_start = vp_pos = a; vp_n = b; _Bool d; vp_gdec = d; vp_g = g; vp_jumps = j; vp_setjmps = 0; query_iter_next(c, e); VP_PROBE(); }
#endif

#ifdef P_COUNTER
static dnstable_res get_counter(uint64_t filtered, uint64_t merged, uint64_t seek, uint64_t files, dnstable_stat_category c, uint64_t *count)
	REQ(FRESH(count, 8))
	ENS(RET == ((c == DNSTABLE_STAT_CATEGORY_FILTERED || c == DNSTABLE_STAT_CATEGORY_MERGED || c == DNSTABLE_STAT_CATEGORY_SEEK || c == DNSTABLE_STAT_CATEGORY_FILES) ? dnstable_res_success : dnstable_res_failure))
	ENS(IMP(RET == dnstable_res_success, *count == (c == DNSTABLE_STAT_CATEGORY_FILTERED ? filtered : c == DNSTABLE_STAT_CATEGORY_MERGED ? merged : c == DNSTABLE_STAT_CATEGORY_SEEK ? seek : files)))
	ASG(*count);
void h_counter(void) { uint64_t a, b, c, d, *p; dnstable_stat_category t; get_counter(a, b, c, d, t, p); VP_PROBE(); }
/* the stages' own counters, as C18 proves them on query_mtbl.c: refused for no stage, else the category decides */
uint64_t vp_filt, vp_seek, vp_merg, vp_files;
#define STAGE(pfx, has_f, has_m, has_s, has_n) dnstable_res pfx##_mtbl_get_counter(const struct pfx##_mtbl *f, dnstable_stat_category c, bool *ex, uint64_t *u) \
{ if (u == NULL) return dnstable_res_failure; *u = 0; *ex = f != NULL; if (f == NULL) return dnstable_res_failure; \
  switch (c) { case DNSTABLE_STAT_CATEGORY_FILTERED: *ex = has_f; *u = has_f ? vp_filt : 0; break; case DNSTABLE_STAT_CATEGORY_MERGED: *ex = has_m; *u = has_m ? vp_merg : 0; break; \
  case DNSTABLE_STAT_CATEGORY_SEEK: *ex = has_s; *u = has_s ? vp_seek : 0; break; case DNSTABLE_STAT_CATEGORY_FILES: *ex = has_n; *u = has_n ? vp_files : 0; break; default: *ex = 0; return dnstable_res_failure; } return dnstable_res_success; }
STAGE(filter, 1, 0, 1, 0) STAGE(remove, 1, 0, 1, 1) STAGE(ljoin, 0, 1, 1, 0)
#define IT ((const struct query_iter *)v)
#define ISCAT(c) ((c) == DNSTABLE_STAT_CATEGORY_FILTERED || (c) == DNSTABLE_STAT_CATEGORY_MERGED || (c) == DNSTABLE_STAT_CATEGORY_SEEK || (c) == DNSTABLE_STAT_CATEGORY_FILES)
#define CF (c == DNSTABLE_STAT_CATEGORY_FILTERED)
#define CS (c == DNSTABLE_STAT_CATEGORY_SEEK)
#define CM (c == DNSTABLE_STAT_CATEGORY_MERGED)
#define CN (c == DNSTABLE_STAT_CATEGORY_FILES)
#define S(x) (s == DNSTABLE_STAT_STAGE_##x)
/* which counters exist */
#define EX (S(FILESET) ? CM || CN : S(FILTER_SINGLE_LABEL) ? IT->filter_single_label && (CF || CS) : S(FILTER_RRTYPE) ? IT->filter_rrtype && (CF || CS) : \
	S(FILTER_BAILIWICK) ? IT->filter_bailiwick && CF : S(FILTER_TIME_PREFILTER) ? IT->filter_time_prefilter && CF : S(REMOVE_STRICT) ? IT->remove_strict && (CF || CS || CN) : \
	S(FILL_MERGER) ? IT->fill_merger && (CM || CN) : S(LJOIN) ? IT->ljoin && (CM || CS) : S(FILTER_TIME) ? IT->filter_time && CF : S(FILTER_OFFSET) ? IT->filter_offset && CF : 0)
#define VAL (S(FILESET) ? (CM ? IT->stats.fileset_merged : IT->stats.fileset_files) : S(FILL_MERGER) ? (CM ? IT->stats.fill_merged : IT->stats.fill_files) : CF ? vp_filt : CM ? vp_merg : CS ? vp_seek : vp_files)
static dnstable_res query_iter_get_count(const void *v, dnstable_stat_stage s, dnstable_stat_category c, bool *exists, uint64_t *count)
	REQ(FRESH(v, sizeof(struct query_iter)) && FRESH(exists, 1) && FRESH(count, 8) && !*exists)
	ENS(*exists == (bool)EX)
	ENS(IMP(*exists, RET == dnstable_res_success && *count == VAL))
	ENS(RET == dnstable_res_success || RET == dnstable_res_failure)
	ASG(*exists, *count);
void h_count(void) { const void *v; dnstable_stat_stage s; dnstable_stat_category c; bool *e; uint64_t *p; query_iter_get_count(v, s, c, e, p); VP_PROBE(); }
#endif

#ifdef P_WILD
/* a wildcard is a first (last) label that is exactly '*' or '+' */
#define ST(c) ((c) == '*' || (c) == '+')
static bool is_left_wildcard(struct dnstable_query *q) REQ(FRESH(q, sizeof(*q)) && (q->name.len == 0 ? q->name.data == NULL : FRESH(q->name.data, q->name.len)))
	ENS(RET == (q->name.len >= 3 && q->name.data[0] == 1 && ST(q->name.data[1]))) ENS(q->dq_wildplus == (RET ? q->name.data[1] == '+' : OLD(q->dq_wildplus))) ASG(q->dq_wildplus);
void h_left(void) { struct dnstable_query *q; is_left_wildcard(q); VP_PROBE(); }
/* a well-formed name: from a label's start the next one follows, until the last label is followed by the root at the end of the name */
#define N (q->name)
#define NEXTL(i) ((i) + 1 + N.data[i])
static bool is_right_wildcard(struct dnstable_query *q) REQ(FRESH(q, sizeof(*q)) && N.len >= 1 && N.len <= 255 && FRESH(N.data, 256) && N.data[N.len - 1] == 0)
	REQ(vp_start_of_label[0] && vp_start_of_label[N.len - 1] && (N.len == 1 ? vp_lastlabel == 0 : vp_lastlabel < N.len - 1 && vp_start_of_label[vp_lastlabel] && N.data[vp_lastlabel] >= 1 && N.data[vp_lastlabel] <= 63 && NEXTL(vp_lastlabel) == N.len - 1))
	/* and: from the start of a label before the last one, 1 to 63 bytes lead to the start of another up to the last one (used at each position the loop visits) */
	ENS(RET == (N.len > 1 && N.data[vp_lastlabel] == 1 && ST(N.data[vp_lastlabel + 1])))
	ENS(q->dq_wildplus == (RET ? N.data[vp_lastlabel + 1] == '+' : OLD(q->dq_wildplus))) ASG(q->dq_wildplus);
void h_right(void) { struct dnstable_query *q; __CPROVER_havoc_object(vp_start_of_label); size_t a; vp_lastlabel = a; is_right_wildcard(q); VP_PROBE(); }
#endif

#ifdef P_INC
#define V key->_v
#define CH(i, old) (V[i] != (old))
/* in a key whose first byte (the entry type) is not 255, the byte at pos counts up with carry: bytes after pos stay; a byte that changes counts up by one (255 becomes 0), and only if every byte between it and pos was 255 */
static dnstable_res increment_key(ubuf *key, size_t pos)
	REQ(FRESH(key, sizeof(*key)) && key->_n >= 1 && key->_n <= MAXKEY && FRESH(V, key->_n) && V[0] != 0xff && pos < key->_n && vp_k < vp_m && vp_m < key->_n && V[vp_k] == vp_oldk && V[vp_m] == vp_oldm)
	ENS(IMP(vp_m > pos, V[vp_m] == vp_oldm)) ENS(IMP(vp_k > pos, V[vp_k] == vp_oldk))
	ENS(IMP(vp_m == pos, V[vp_m] == (uint8_t)(vp_oldm + 1))) ENS(IMP(vp_k == pos, V[vp_k] == (uint8_t)(vp_oldk + 1)))
	ENS(IMP(CH(vp_k, vp_oldk), V[vp_k] == (uint8_t)(vp_oldk + 1) && IMP(vp_m <= pos, vp_oldm == 0xff && V[vp_m] == 0)))
	ENS(IMP(vp_m <= pos && CH(vp_m, vp_oldm), V[vp_m] == (uint8_t)(vp_oldm + 1)))
	ENS(RET == dnstable_res_success)
	ASG(__CPROVER_object_upto(V, pos + 1));
void h_inc(void) { ubuf *u; size_t p, a, b; uint8_t x, y; vp_k = a; vp_m = b; vp_oldk = x; vp_oldm = y; increment_key(u, p); VP_PROBE(); }
#endif

#ifdef P_COMPARE
/* lexicographic order of unsigned bytes: r is the sign of the first difference, or of the lengths when one is a prefix of the other */
static int bytes_compare(const uint8_t *a, size_t na, const uint8_t *b, size_t nb)
	REQ(na <= MAXB && nb <= MAXB && FRESH(a, na) && FRESH(b, nb))
	ENS(IMP(RET == 0, na == nb && IMP(vp_k < na, a[vp_k] == b[vp_k])))
	ENS(IMP(RET < 0, vp_d == na ? na < nb : vp_d < na && vp_d < nb && a[vp_d] < b[vp_d]))
	ENS(IMP(RET > 0, vp_d == nb ? nb < na : vp_d < na && vp_d < nb && a[vp_d] > b[vp_d]))
	ENS(IMP(vp_k < vp_d, a[vp_k] == b[vp_k])) ENS(vp_d <= na && vp_d <= nb)
	ASG(vp_d);
#ifndef P_MEMCMP
void h_laws(void)
{
	uint8_t a[6], b[6], c[6]; size_t n, m, l; __CPROVER_assume(n <= 6 && m <= 6 && l <= 6);
	int ab = bytes_compare(a, n, b, m), ba = bytes_compare(b, m, a, n), bc = bytes_compare(b, m, c, l), ac = bytes_compare(a, n, c, l);
	__CPROVER_assert((ab < 0) == (ba > 0) && (ab == 0) == (ba == 0), "bytes_compare: antisymmetric");
	__CPROVER_assert(IMP(ab <= 0 && bc <= 0, ac <= 0) && IMP(ab < 0 && bc <= 0, ac < 0), "bytes_compare: transitive");
	__CPROVER_assert(bytes_compare(a, n, a, n) == 0, "bytes_compare: reflexive");
	VP_PROBE();
}
#endif
void h_compare(void) { const uint8_t *a, *b; size_t n, m, k; vp_k = k; bytes_compare(a, n, b, m); VP_PROBE(); }
#endif

#ifdef P_SKIP
/* Skipping: whatever key M the search looks for sorts after the rejected key K is not before the key sought (bounded: short keys), and the key sought is after K */
#ifndef KMAX
# define KMAX 8
#endif
#define QMAX 3
static int lex(const uint8_t *a, size_t na, const uint8_t *b, size_t nb)
{
	for (size_t i = 0; i < KMAX + 2; i++) {
		if (i >= na || i >= nb) break;
		if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
	}
	return na < nb ? -1 : na > nb;
}
static struct query_iter IT; static struct dnstable_query QU; static ubuf vp_q, vp_q2;
void h_single(void)
{
	uint8_t K[KMAX], M[KMAX]; size_t nk, nm, nq; bool m; uint8_t pre[QMAX];
	__CPROVER_assume(nq >= 1 && nq <= QMAX && nk >= 1 && nk <= KMAX && nm >= 1 && nm <= KMAX && nk >= nq && nm >= nq && pre[0] <= 3);
	for (size_t i = 0; i < QMAX; i++) { vp_q._v[i] = pre[i]; if (i < nq) __CPROVER_assume(K[i] == pre[i] && M[i] == pre[i]); }
	vp_q._n = nq; IT.query = &QU; IT.key = &vp_q; IT.key2 = &vp_q2; size_t n2; __CPROVER_assume(n2 <= 4); vp_q2._n = n2; vp_seeks = 0; vp_seekres = mtbl_res_success;
	mtbl_res r = filter_single_label(&IT, (struct mtbl_iter *)K, K, nk, K, 0, &m);
	bool want = nk > nq && K[nq] != 0 && nq + K[nq] + 1 < nk && K[nq + K[nq] + 1] == 0;
	__CPROVER_assert(r == mtbl_res_success && m == want, "filter_single_label: exactly the names with one more label");
	__CPROVER_assert(vp_seeks <= 1 && IMP(m, vp_seeks == 0), "filter_single_label: seeks ahead only from names it rejects");
	if (vp_seeks) {
		bool mw = nm > nq && M[nq] >= 1 && M[nq] <= 63 && nq + M[nq] + 1 < nm && M[nq + M[nq] + 1] == 0;
		if (mw && lex(M, nm, K, nk) > 0) __CPROVER_assert(lex(M, nm, vp_seekkey, vp_seeklen) >= 0, "filter_single_label: seeks past no name with one more label");
		if (nk > nq && K[nq] <= 63) __CPROVER_assert(lex(vp_seekkey, vp_seeklen, K, nk) > 0, "filter_single_label: seeks forward");
	}
	VP_PROBE();
}
/* a complete RDATA key of an A entry: type, 4 bytes, rrtype 1, a name, the RDATA length */
static bool vp_isA(const uint8_t *k, size_t n)
{
	if (n < 9 || k[0] != 2 || k[5] != 1 || k[n - 2] != 4 || k[n - 1] != 0) return 0;
	size_t p = 6;
	for (unsigned i = 0; i < KMAX / 2; i++) {
		if (p >= n - 2 || k[p] > 63) return 0;
		if (k[p] == 0) return p == n - 3;
		p += 1u + k[p];
	}
	return 0;
}
void h_ip(void)
{
	uint8_t K[KMAX], M[KMAX]; size_t nk, nm; bool m;
	__CPROVER_assume(nk >= 3 && nk <= KMAX && nm >= 9 && nm <= KMAX && K[0] == 2 && K[1] != 0xff && vp_isA(M, nm));
	/* K: an entry, so its RDATA, an RRtype and a name fit in it, or anything */
	QU.rrtype = 1; QU.do_rrtype = 1; QU.q_type = DNSTABLE_QUERY_TYPE_RDATA_IP;
	for (int i = 0; i < 6; i++) vp_q._v[i] = i == 5 ? 1 : i == 0 ? 2 : K[i];
	vp_q._n = 6; IT.query = &QU; IT.key = &vp_q; IT.key2 = &vp_q2; size_t n2; __CPROVER_assume(n2 <= 4); vp_q2._n = n2; vp_seeks = 0; vp_seekres = mtbl_res_success;
	mtbl_res r = filter_rrtype_ip(&IT, (struct mtbl_iter *)K, K, nk, K, 0, &m);
	__CPROVER_assert(IMP(vp_isA(K, nk), m && r == mtbl_res_success), "filter_rrtype_ip: accepts what the search looks for");
	__CPROVER_assert(vp_seeks <= 1 && IMP(m, vp_seeks == 0), "filter_rrtype_ip: seeks ahead only from entries it rejects");
	if (vp_seeks && lex(M, nm, K, nk) > 0) __CPROVER_assert(lex(M, nm, vp_seekkey, vp_seeklen) >= 0, "filter_rrtype_ip: seeks past no entry the search looks for");
	if (vp_seeks) __CPROVER_assert(lex(vp_seekkey, vp_seeklen, K, nk) > 0, "filter_rrtype_ip: seeks forward");
	if (r != mtbl_res_success && !vp_seeks) __CPROVER_assert(lex(M, nm, K, nk) < 0, "filter_rrtype_ip: ends the search only when nothing is left");
	VP_PROBE();
}
#endif

#ifdef P_PARSE
#define IPQ (q->q_type == DNSTABLE_QUERY_TYPE_RDATA_IP)
#define ANYT (s == NULL || vp_any == 0 || vp_any2 == 0 || vp_any3 == 0)
#define REFUSE (!ANYT && (vp_type == 0 || (IPQ && ((vp_type != 1 && vp_type != 28) || (OLD(q->do_rrtype) && vp_type != OLD(q->rrtype))))))
/* no type and ANY lift the restriction (an address keeps the type it has); an unknown type, or one an address cannot have, is refused and changes nothing; else exactly that type */
dnstable_res dnstable_query_set_rrtype(struct dnstable_query *q, const char *s)
	REQ(FRESH(q, sizeof(*q)) && (s == NULL || FRESH(s, 16)))
	ENS(RET == (REFUSE ? dnstable_res_failure : dnstable_res_success))
	ENS(q->do_rrtype == (REFUSE ? OLD(q->do_rrtype) : ANYT ? (IPQ ? OLD(q->do_rrtype) : 0) : 1))
	ENS(q->rrtype == (REFUSE || ANYT ? OLD(q->rrtype) : vp_type))
	ASG(q->do_rrtype, q->rrtype, q->err);
static void query_set_err(struct dnstable_query *q, const char *e) ASG(q->err);
void h_rrtype_set(void) { struct dnstable_query *q; const char *s; int a, b, c; uint16_t t; vp_any = a; vp_any2 = b; vp_any3 = c; vp_type = t; dnstable_query_set_rrtype(q, s); VP_PROBE(); }
#endif

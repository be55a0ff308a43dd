#define VP_ABSTRACT
#include "vp_mtbl_varint.h"
#include "dnstable/dnstable-private.h"
#ifdef VP_BOUNDED
# define MAXB 24
#else
# define MAXB 0x100000000ull
#endif

/* ---- dependencies, as their callers see them (uninterpreted results, one per buffer) ---- */
_Bool __CPROVER_uninterpreted_ok(int kind, const uint8_t *, size_t);
uint64_t __CPROVER_uninterpreted_val(int kind, int which, const uint8_t *, size_t);
dnstable_res triplet_unpack(const uint8_t *buf, size_t n, uint64_t *a, uint64_t *b, uint64_t *c)
	REQ((n == 0 || __CPROVER_r_ok(buf, n)) && __CPROVER_w_ok(a, 8) && __CPROVER_w_ok(b, 8) && __CPROVER_w_ok(c, 8))
	ENS(RET == (__CPROVER_uninterpreted_ok(3, buf, n) ? dnstable_res_success : dnstable_res_failure))
	ENS(IMP(RET == dnstable_res_success, *a == __CPROVER_uninterpreted_val(3, 1, buf, n) && *b == __CPROVER_uninterpreted_val(3, 2, buf, n) && *c == __CPROVER_uninterpreted_val(3, 3, buf, n)))
	ASG(*a, *b, *c);
dnstable_res pair_unpack(const uint8_t *buf, size_t n, uint64_t *a, uint64_t *b)
	REQ((n == 0 || __CPROVER_r_ok(buf, n)) && __CPROVER_w_ok(a, 8) && __CPROVER_w_ok(b, 8))
	ENS(RET == (__CPROVER_uninterpreted_ok(2, buf, n) ? dnstable_res_success : dnstable_res_failure))
	ENS(IMP(RET == dnstable_res_success, *a == __CPROVER_uninterpreted_val(2, 1, buf, n) && *b == __CPROVER_uninterpreted_val(2, 2, buf, n)))
	ASG(*a, *b);
/* length of the well-formed name at p that ends before e, 0 if there is none */
size_t __CPROVER_uninterpreted_nl(size_t obj, size_t off);
static size_t NL(const uint8_t *p, size_t n) { size_t l = __CPROVER_uninterpreted_nl(__CPROVER_POINTER_OBJECT(p), __CPROVER_POINTER_OFFSET(p)); return l >= 1 && l <= 255 && l <= n ? l : 0; }
wdns_res wdns_len_uname(const uint8_t *p, const uint8_t *e, size_t *sz)
{
	__CPROVER_assert(__CPROVER_same_object(p, e) && p <= e && (p == e || __CPROVER_r_ok(p, e - p)), "precondition of wdns_len_uname: [p, eop) is readable");
	size_t l = NL(p, e - p);
	if (l) *sz = l;
	return l ? wdns_res_success : wdns_res_invalid_length_octet;
}
/* reversed name: byte k of the result for the name at a given position */
uint8_t __CPROVER_uninterpreted_rev(size_t obj, size_t off, size_t k);
#define REV(p, k) __CPROVER_uninterpreted_rev(__CPROVER_POINTER_OBJECT(p), __CPROVER_POINTER_OFFSET(p), k)
size_t vp_k;			/* an arbitrary position in a result */
wdns_res wdns_reverse_name(const uint8_t *p, size_t n, uint8_t *r)
{
	__CPROVER_assert(__CPROVER_r_ok(p, n) && NL(p, n) == n, "precondition of wdns_reverse_name: a well-formed name of exactly that length");
	__CPROVER_assert(__CPROVER_w_ok(r, n), "precondition of wdns_reverse_name: room for the name");
	if (vp_k < n) r[vp_k] = REV(p, vp_k);
	return wdns_res_success;
}
/*
 * memcpy, carried out at two offsets of the destination object only: the
 * arbitrary offset vp_k and vp_k + 2 (byte vp_k of a wdns_rdata_t's data).  The
 * assertions look at no other byte, and the code under proof reads none that
 * memcpy wrote, except through another memcpy at the same offset.
 */
static void *vp_memcpy(void *d, const void *s, size_t n)
{
	__CPROVER_assert(n == 0 || (__CPROVER_r_ok(s, n) && __CPROVER_w_ok(d, n)), "precondition of memcpy: both regions are accessible");
	__CPROVER_assert(n == 0 || !__CPROVER_same_object(s, d), "precondition of memcpy: different objects");
	if (n == 2) { ((uint8_t *)d)[0] = ((const uint8_t *)s)[0]; ((uint8_t *)d)[1] = ((const uint8_t *)s)[1]; return d; }
	size_t o = __CPROVER_POINTER_OFFSET(d);
	if (vp_k >= o && vp_k - o < n) ((uint8_t *)d)[vp_k - o] = ((const uint8_t *)s)[vp_k - o];
	if (vp_k + 2 >= o && vp_k + 2 - o < n) ((uint8_t *)d)[vp_k + 2 - o] = ((const uint8_t *)s)[vp_k + 2 - o];
	return d;
}
#include "libmy/my_alloc.h"
#include "libmy/ubuf.h"
#if defined(P_DATA) || defined(P_RRSET)
# undef memcpy
# define memcpy vp_memcpy
#endif
#include "vp_loops.h"
#include "dnstable/entry.c"
typedef struct dnstable_entry ENT;
#define TY(n) (e->e_type == DNSTABLE_ENTRY_TYPE_##n)
#define OK (RET == dnstable_res_success)
#define IFF(c) ENS(RET == ((c) ? dnstable_res_success : dnstable_res_failure))

#ifdef P_ACC
/* ---- accessors: success exactly for the types that have the field, and the field unchanged ---- */
#define E REQ(FRESH(e, sizeof(ENT)))
dnstable_entry_type dnstable_entry_get_type(ENT *e) E ENS(RET == e->e_type) ASG();
void dnstable_entry_set_iszone(ENT *e, bool z) E ENS(e->iszone == z) ASG(e->iszone);
dnstable_res dnstable_entry_get_rrname(ENT *e, const uint8_t **p, size_t *n) E REQ(FRESH(p, 8) && FRESH(n, 8))
	IFF(TY(RRSET) || TY(RRSET_NAME_FWD) || TY(RDATA)) ENS(IMP(OK, *p == e->name.data && *n == e->name.len)) ASG(*p, *n);
dnstable_res dnstable_entry_get_bailiwick(ENT *e, const uint8_t **p, size_t *n) E REQ(FRESH(p, 8) && FRESH(n, 8))
	IFF(TY(RRSET)) ENS(IMP(OK, *p == e->bailiwick.data && *n == e->bailiwick.len)) ASG(*p, *n);
dnstable_res dnstable_entry_get_rdata_name(ENT *e, const uint8_t **p, size_t *n) E REQ(FRESH(p, 8) && FRESH(n, 8))
	IFF(TY(RDATA_NAME_REV)) ENS(IMP(OK, *p == e->name.data && *n == e->name.len)) ASG(*p, *n);
dnstable_res dnstable_entry_get_rrtype(ENT *e, uint16_t *v) E REQ(FRESH(v, 2) && e->rrtype <= 65535) IFF(TY(RRSET) || TY(RDATA)) ENS(IMP(OK, *v == e->rrtype)) ASG(*v);
dnstable_res dnstable_entry_get_num_rdata(ENT *e, size_t *v) E REQ(FRESH(v, 8) && FRESH(e->rdatas, sizeof(rdata_vec)))
	IFF(TY(RRSET) || TY(RDATA)) ENS(IMP(OK, *v == e->rdatas->_n)) ASG(*v);
dnstable_res dnstable_entry_get_rdata(ENT *e, size_t i, const uint8_t **p, size_t *n) E REQ(FRESH(p, 8) && FRESH(n, 8) && FRESH(e->rdatas, sizeof(rdata_vec)))
	REQ(e->rdatas->_n <= MAXB && FRESH(e->rdatas->_v, e->rdatas->_n * sizeof(void *)) && IMP(i < e->rdatas->_n, FRESH(e->rdatas->_v[i], sizeof(wdns_rdata_t))))
	IFF((TY(RRSET) || TY(RDATA)) && i < e->rdatas->_n) ENS(IMP(OK, *p == e->rdatas->_v[i]->data && *n == e->rdatas->_v[i]->len)) ASG(*p, *n);
#define TRIP (TY(RRSET) || TY(RDATA))
dnstable_res dnstable_entry_get_time_first(ENT *e, uint64_t *v) E REQ(FRESH(v, 8)) IFF(TRIP || TY(TIME_RANGE)) ENS(IMP(OK, *v == e->time_first)) ASG(*v);
dnstable_res dnstable_entry_get_time_last(ENT *e, uint64_t *v) E REQ(FRESH(v, 8)) IFF(TRIP || TY(TIME_RANGE)) ENS(IMP(OK, *v == e->time_last)) ASG(*v);
dnstable_res dnstable_entry_get_count(ENT *e, uint64_t *v) E REQ(FRESH(v, 8)) IFF(TRIP) ENS(IMP(OK, *v == e->count)) ASG(*v);
dnstable_res dnstable_entry_get_source_info(ENT *e, const char **s) E REQ(FRESH(s, 8) && FRESH(e->source_info, sizeof(ubuf)))
	IFF(TY(SOURCE_INFO)) ENS(IMP(OK, (const uint8_t *)*s == e->source_info->_v)) ASG(*s);
dnstable_res dnstable_entry_get_version(ENT *e, uint32_t *v) E REQ(FRESH(v, 4)) IFF(TY(VERSION)) ENS(IMP(OK, *v == e->version)) ASG(*v);
dnstable_res dnstable_entry_get_version_type(ENT *e, dnstable_entry_type *v) E REQ(FRESH(v, 4)) IFF(TY(VERSION)) ENS(IMP(OK, *v == e->v_type)) ASG(*v);
void h_get_type(void) { ENT *e; dnstable_entry_get_type(e); VP_PROBE(); }
void h_set_iszone(void) { ENT *e; bool z; dnstable_entry_set_iszone(e, z); VP_PROBE(); }
#define HPN(f) void h_##f(void) { ENT *e; const uint8_t **p; size_t *n; dnstable_entry_##f(e, p, n); VP_PROBE(); }
HPN(get_rrname) HPN(get_bailiwick) HPN(get_rdata_name)
void h_get_rdata(void) { ENT *e; size_t i; const uint8_t **p; size_t *n; dnstable_entry_get_rdata(e, i, p, n); VP_PROBE(); }
#define HV(f, T) void h_##f(void) { ENT *e; T *v; dnstable_entry_##f(e, v); VP_PROBE(); }
HV(get_rrtype, uint16_t) HV(get_num_rdata, size_t) HV(get_time_first, uint64_t) HV(get_time_last, uint64_t) HV(get_count, uint64_t)
HV(get_source_info, const char *) HV(get_version, uint32_t) HV(get_version_type, dnstable_entry_type)
#endif

#ifdef P_VARINT
size_t vp_n;
static dnstable_res decode_varint32(const uint8_t **p, const uint8_t *end, uint32_t *val)
	REQ(vp_n <= MAXB && FRESH(p, 8) && FRESH(*p, vp_n) && __CPROVER_pointer_equals(end, *p + vp_n) && FRESH(val, 4))
	IFF(vp_plen(OLD(*p), vp_n) >= 1 && vp_plen(OLD(*p), vp_n) <= 5)
	ENS(IMP(OK, *p == OLD(*p) + vp_plen(OLD(*p), vp_n) && *val == (uint32_t)vp_absval(OLD(*p))))
	ENS(IMP(!OK, *p == OLD(*p)))
	ASG(*p, *val);
void h_varint(void) { const uint8_t **p, *e; uint32_t *v; size_t n; vp_n = n; decode_varint32(p, e, v); VP_PROBE(); }
#else
static dnstable_res decode_varint32(const uint8_t **p, const uint8_t *end, uint32_t *val)
	REQ(__CPROVER_r_ok(p, 8) && __CPROVER_w_ok(val, 4) && __CPROVER_same_object(*p, end) && *p <= end && (*p == end || __CPROVER_r_ok(*p, end - *p)))
	IFF(vp_plen(OLD(*p), end - OLD(*p)) >= 1 && vp_plen(OLD(*p), end - OLD(*p)) <= 5)
	ENS(__CPROVER_pointer_equals(*p, OLD(*p) + (OK ? vp_plen(OLD(*p), end - OLD(*p)) : 0)))
	ENS(IMP(OK, *val == (uint32_t)vp_absval(OLD(*p))))
	ASG(*p, *val);
#endif
#ifdef P_VALUE
#define V(k, i, b, n) __CPROVER_uninterpreted_val(k, i, b, n)
static dnstable_res decode_val_triplet(ENT *e, const uint8_t *val, size_t len_val)
	REQ(len_val <= MAXB && FRESH(e, sizeof(ENT)) && FRESH(val, len_val))
	IFF(__CPROVER_uninterpreted_ok(3, val, len_val))
	ENS(IMP(OK, e->time_first == V(3, 1, val, len_val)))
	ENS(IMP(OK, e->time_last == (V(3, 2, val, len_val) ? V(3, 2, val, len_val) : V(3, 1, val, len_val))))
	ENS(IMP(OK, e->count == (V(3, 3, val, len_val) ? V(3, 3, val, len_val) : 1)))
	ASG(e->time_first, e->time_last, e->count);
static dnstable_res decode_time_range(ENT *e, const uint8_t *buf, size_t len_buf)
	REQ(len_buf <= MAXB && FRESH(e, sizeof(ENT)) && FRESH(buf, len_buf))
	IFF(__CPROVER_uninterpreted_ok(2, buf, len_buf))
	ENS(IMP(OK, e->time_first == V(2, 1, buf, len_buf) && e->time_last == V(2, 2, buf, len_buf)))
	ASG(e->time_first, e->time_last);
static dnstable_res decode_version(ENT *e, const uint8_t *key, size_t len_key, const uint8_t *val, size_t len_val)
	REQ(len_key <= MAXB && len_val <= MAXB && FRESH(e, sizeof(ENT)) && FRESH(key, len_key) && FRESH(val, len_val))
	IFF(len_key == 1 && len_val > 0 && vp_plen(val, len_val) == len_val && len_val <= 5)
	ENS(IMP(OK, e->v_type == key[0] && e->version == (uint32_t)vp_absval(val)))
	ASG(e->v_type, e->version);
void h_triplet(void) { ENT *e; const uint8_t *v; size_t n; decode_val_triplet(e, v, n); VP_PROBE(); }
void h_range(void) { ENT *e; const uint8_t *v; size_t n; decode_time_range(e, v, n); VP_PROBE(); }
void h_version(void) { ENT *e; const uint8_t *k, *v; size_t nk, n; decode_version(e, k, nk, v, n); VP_PROBE(); }
#endif
#ifdef P_DATA
/* the parts of an RDATA key: g_d = bytes stored in front, then type, then owner name, then the sliced-off leading RDATA bytes */
size_t g_d, g_t, g_n;
#define DLEN(b, n) ((size_t)((b)[(n) - 2] | (b)[(n) - 1] << 8))
#define LEN2 (len_buf - 2)
static bool rd_ok(const uint8_t *buf, size_t n)
{
	if (n < 2) return false;
	g_d = DLEN(buf, n); n -= 2;
	if (g_d > n) return false;
	g_t = vp_plen(buf + g_d, n - g_d);
	if (g_t < 1 || g_t > 5 || (uint32_t)vp_absval(buf + g_d) > 65535) return false;
	g_n = NL(buf + g_d + g_t, n - g_d - g_t);
	if (g_n == 0) return false;
	return n - g_d - g_t - g_n + g_d <= 65535;
}
rdata_vec *vp_vec; wdns_rdata_t *vp_vec0[4];
void h_rdata(void)
{
	ENT ent = { 0 }, *e = &ent; rdata_vec vec; size_t n, k;
	__CPROVER_assume(n <= MAXB);
	uint8_t *buf = malloc(n);
	vec._v = vec._p = vp_vec0; vec._n = 0; vec._n_alloced = vec._hint = 4; e->rdatas = &vec;
	__CPROVER_assume(k <= 0x20000); vp_k = k;
	bool ok = rd_ok(buf, n);
	size_t d = g_d, t = g_t, m = g_n, sl = n - 2 - d - t - m;
	dnstable_res r = decode_rdata(e, buf, n);
	__CPROVER_assert(r == (ok ? dnstable_res_success : dnstable_res_failure), "success exactly for well-formed keys");
	if (ok) {
		__CPROVER_assert(e->rrtype == (uint32_t)vp_absval(buf + d), "the type");
		__CPROVER_assert(e->name.len == m && (k >= m || e->name.data[k] == REV(buf + d + t, k)), "the owner name");
		__CPROVER_assert(vec._n == 1 && vec._v[0]->len == sl + d, "one RDATA of the two parts' length");
		__CPROVER_assert(k >= sl + d || ((uint8_t *)vec._v[0])[2 + k] == (k < sl ? buf[d + t + m + k] : buf[k - sl]), "its bytes in wire order");
	}
	VP_PROBE();
}
#endif
#ifdef P_RRSET
#undef main
wdns_rdata_t *vp_vec0[4];
/* bounded: at most two RDATA */
void h_rrset(void)
{
	ENT ent = { 0 }, *e = &ent; rdata_vec vec; size_t n, k, o[3], l[2] = { 0 }; unsigned c = 0;
	__CPROVER_assume(n <= MAXB);
	uint8_t *buf = malloc(n);
	vec._v = vec._p = vp_vec0; vec._n = 0; vec._n_alloced = vec._hint = 4; e->rdatas = &vec;
	__CPROVER_assume(k <= 0x20000); vp_k = k;
	size_t a = NL(buf, n), t = 0, b = 0;
	bool ok = a > 0;
	if (ok) { t = vp_plen(buf + a, n - a); ok = t >= 1 && t <= 5 && (uint32_t)vp_absval(buf + a) <= 65535; }
	if (ok) { b = NL(buf + a + t, n - a - t); ok = b > 0; }
	o[0] = a + t + b;
	for (int i = 0; i < 2; i++) if (ok && o[i] < n) {
		size_t m = vp_plen(buf + o[i], n - o[i]);
		ok = m >= 1 && m <= 5 && (l[i] = (uint32_t)vp_absval(buf + o[i])) <= 65535 && l[i] <= n - o[i] - m;
		if (ok) { c++; o[i] += m; o[i + 1] = o[i] + l[i]; }
	} else o[i + 1] = o[i];
	__CPROVER_assume(!ok || o[2] == n);	/* bound */
	dnstable_res r = decode_rrset(e, buf, n);
	__CPROVER_assert(r == (ok ? dnstable_res_success : dnstable_res_failure), "success exactly for well-formed keys");
	if (ok) {
		__CPROVER_assert(e->rrtype == (uint32_t)vp_absval(buf + a), "the type");
		__CPROVER_assert(e->name.len == a && (k >= a || e->name.data[k] == REV(buf, k)), "the owner name");
		__CPROVER_assert(e->bailiwick.len == b && (k >= b || e->bailiwick.data[k] == REV(buf + a + t, k)), "the bailiwick");
		__CPROVER_assert(vec._n == c, "as many RDATA as encoded");
		for (int i = 0; i < 2; i++) if (i < c)
			__CPROVER_assert(vec._v[i]->len == l[i] && (k >= l[i] || ((uint8_t *)vec._v[i])[2 + k] == buf[o[i] + k]), "each with its bytes");
	}
	VP_PROBE();
}
#endif
#ifdef P_DISPATCH
/* the decoders as their caller sees them; the call is recorded */
unsigned g_calls; int g_a, g_b; const uint8_t *g_k, *g_v; size_t g_nk, g_nv; ENT *g_e;
#define UOK(K, p, n) (__CPROVER_uninterpreted_ok(K, p, n) ? 1 : 0)
#define DECK(f, K) static dnstable_res f(ENT *e, const uint8_t *buf, size_t n) \
	REQ(__CPROVER_rw_ok(e, sizeof(ENT)) && (n == 0 || __CPROVER_r_ok(buf, n))) \
	ENS(g_a == K && g_k == buf && g_nk == n) IFF(UOK(K, buf, n)) \
	ASG(g_a, g_k, g_nk, e->rrtype, e->time_first, e->time_last);
#define DECKV(f, K) static dnstable_res f(ENT *e, const uint8_t *buf, size_t n, const uint8_t *val, size_t nv) \
	REQ(__CPROVER_rw_ok(e, sizeof(ENT)) && (n == 0 || __CPROVER_r_ok(buf, n)) && (nv == 0 || __CPROVER_r_ok(val, nv))) \
	ENS(g_a == K && g_k == buf && g_nk == n && g_v == val && g_nv == nv) IFF(UOK(K, buf, n) && UOK(K, val, nv)) \
	ASG(g_a, g_k, g_nk, g_v, g_nv, e->version, e->v_type);
DECK(decode_rrset, 0) DECKV(decode_rrset_name_fwd, 1) DECK(decode_rdata, 2) DECKV(decode_rdata_name_rev, 3)
DECK(decode_time_range, 254) DECKV(decode_source_info, 253) DECKV(decode_version, 255)
static dnstable_res decode_val_triplet(ENT *e, const uint8_t *val, size_t n)
	REQ(__CPROVER_rw_ok(e, sizeof(ENT)) && (n == 0 || __CPROVER_r_ok(val, n)))
	ENS(g_b == 10 && g_v == val && g_nv == n) IFF(UOK(10, val, n))
	ASG(g_b, g_v, g_nv, e->time_first, e->time_last, e->count);
void h_dispatch(void)
{
	size_t nk, nv;
	__CPROVER_assume(nk <= MAXB && nv <= MAXB);
	uint8_t *k = malloc(nk), *v = malloc(nv);
	g_a = g_b = -1;
	ENT *e = dnstable_entry_decode(k, nk, v, nv);
	int t = nk ? k[0] : -1;
	const uint8_t *b = nk ? k + 1 : k; size_t n = nk ? nk - 1 : 0;
	bool trip = t == 0 || t == 2, vals = t == 1 || t == 3 || t == 253 || t == 255, ok = false;
	if (trip) ok = UOK(t, b, n) && UOK(10, v, nv);
	else if (vals) ok = UOK(t, b, n) && UOK(t, v, nv);
	else if (t == 254) ok = UOK(254, v, nv) != 0;
	__CPROVER_assert((e != NULL) == ok, "an entry exactly for the known types with a decodable key and value");
	__CPROVER_assert(!ok || e->e_type == (dnstable_entry_type)t, "of the type the key's first byte says");
	__CPROVER_assert(!ok || g_a == t, "decoded by that type's decoder");
	__CPROVER_assert(!ok || (t == 254 ? g_k == v && g_nk == nv : g_k == b && g_nk == n), "from the key after its type byte (time ranges: the value)");
	__CPROVER_assert(!ok || t == 254 || (g_v == v && g_nv == nv), "and the value");
	__CPROVER_assert(!ok || trip == (g_b == 10), "times and count from the value of RRsets and RDATA");
	__CPROVER_assert(!ok || !e->iszone, "not marked as zone data");
	VP_PROBE();
}
#endif

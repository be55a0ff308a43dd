/*
 * dnstable_entry_to_json_fmt: the functions it calls, as their contracts describe
 * them, on the tokens of the output.  A token is accepted only where JSON's
 * grammar has it, a value only if it is the entry's value for the key before it.
 */
#define DNSTABLE_JSON_H
#include "dnstable/dnstable-private.h"
enum { S_START, S_OBJ, S_KEY, S_VAL, S_ARR, S_ELEM, S_COMMA, S_END };
enum { K_COUNT, K_FIRST, K_LAST, K_ZFIRST, K_ZLAST, K_RRNAME, K_RRTYPE, K_BAIL, K_RDATA, K_RAW, K_RRSETNAME, K_RDATANAME, K_RRTYPES, K_INFO, K_ETYPE, K_VERSION, K_N };
static const char *const KEYS[K_N] = { "count", "time_first", "time_last", "zone_time_first", "zone_time_last", "rrname", "rrtype", "bailiwick", "rdata", "rdata_raw", "rrset_name", "rdata_name", "rrtypes", "source info", "entry_type", "version" };
/* (loop-free, so that it can stand inside a loop under contract) */
static size_t vp_strlen(const char *s)
{
#define S(i) if (!s[i]) return i;
	S(0) S(1) S(2) S(3) S(4) S(5) S(6) S(7) S(8) S(9) S(10) S(11)
#undef S
	__CPROVER_assert(0, "no longer string here");
	return 12;
}
#define strlen vp_strlen
static int vp_st; static unsigned vp_key, vp_keys, vp_arrs; static size_t vp_nelem;
/* the entry */
static unsigned x_type, x_rrtype, x_vtype, x_version; static const uint8_t *x_name, *x_bail; static size_t x_nname, x_nbail, x_n, x_rdlen; static uint64_t x_first, x_last, x_count; static bool x_zone, x_rfc, x_arr, x_raw, x_map;
static wdns_rdata_t *x_rd; static char *x_info;
/* what the dependencies gave last */
static size_t vp_cur, vp_stridx; static char *vp_strptr;	/* RDATA element read, RDATA text */
static const char *vp_namebuf; static int vp_namekind;
static const char *vp_mnemo; static unsigned vp_mtype; static bool vp_mnull;
static bool vp_conv; static uint64_t vp_convt;
static ubuf vp_out, vp_rbuf; static int vp_rawstage; static size_t vp_rawidx; static uint8_t *vp_rawptr; static bool vp_inited, vp_term; static char *vp_res;
static const uint8_t *vp_vbuf; static uint32_t vp_vval; static size_t vp_vlen_;
static int vp_nset; static size_t vp_k; static uint16_t vp_tk;

static char vp_rdtext[2]; static uint8_t vp_rawtext[2];
static void vp_free(void *p)
{
	__CPROVER_assert(p != NULL && (p == vp_strptr || p == vp_rawptr), "what is released was allocated, and is released once");
	if (p == vp_strptr) vp_strptr = NULL; else vp_rawptr = NULL;
}
#undef my_free
#define my_free(p) do { vp_free(p); (p) = NULL; } while (0)
static bool v_first(uint64_t v, unsigned k) { return v == ((k == K_FIRST || k == K_ZFIRST) ? x_first : x_last); }
static bool is_time(unsigned k) { return k == K_FIRST || k == K_LAST || k == K_ZFIRST || k == K_ZLAST; }
static void value(void)
{
	__CPROVER_assert(vp_st == S_KEY || vp_st == S_ARR || vp_st == S_COMMA, "JSON: a value follows a key, or a [ or comma in an array");
	if (vp_st == S_KEY) vp_st = S_VAL; else { vp_st = S_ELEM; vp_nelem++; }
}
static void vp_token(uint8_t c)
{
	switch (c) {
	case '{': __CPROVER_assert(vp_st == S_START, "JSON: { starts the output"); vp_st = S_OBJ; break;
	case '}': __CPROVER_assert(vp_st == S_VAL || vp_st == S_OBJ, "JSON: } follows a value"); vp_st = S_END; break;
	case '[': __CPROVER_assert(vp_st == S_KEY, "JSON: [ follows a key"); vp_st = S_ARR; vp_nelem = 0; vp_arrs |= 1u << vp_key; break;
	case ',': __CPROVER_assert(vp_st == S_ELEM, "JSON: a comma in an array follows an element"); vp_st = S_COMMA; break;
	case ']':
		__CPROVER_assert(vp_st == S_ARR || vp_st == S_ELEM, "JSON: ] follows [ or an element");
		__CPROVER_assert(IMP(vp_key == K_RDATA || vp_key == K_RAW, vp_nelem == x_n), "one array element for each RDATA");
		__CPROVER_assert(IMP(vp_key == K_RRTYPES, vp_nelem == (!x_map ? 0 : vp_nset == -1 ? 1 : vp_nset)), "one array element for each type of the index");
		vp_st = S_VAL; break;
	default: __CPROVER_assert(0, "no other token is appended directly");
	}
}
static void ubuf_append(ubuf *u, const uint8_t *p, size_t n)
{
	__CPROVER_assert(u == &vp_out && n <= 3 && (n == 0 || __CPROVER_r_ok(p, n)), "the output is made of tokens");
	if (n > 0) vp_token(p[0]);
	if (n > 1) vp_token(p[1]);
	if (n > 2) vp_token(p[2]);
}
static bool streq(const char *a, const char *b) { for (int i = 0; i < 16; i++) { if (a[i] != b[i]) return false; if (!a[i]) return true; } return false; }
static void declare_json_value(ubuf *u, const char *name, bool is_first)
{
	__CPROVER_assert(u == &vp_out && vp_st == (is_first ? S_OBJ : S_VAL), "JSON: a key follows { or a value");
	unsigned k = 0;
	while (k < K_N && !streq(name, KEYS[k])) k++;
	__CPROVER_assert(k < K_N, "the key is one of the format's");
	__CPROVER_assert(!(vp_keys >> k & 1), "no key occurs twice");
	vp_key = k; vp_keys |= 1u << k; vp_st = S_KEY;
}
static void append_json_value_int(ubuf *u, uint64_t v)
{
	__CPROVER_assert(u == &vp_out, "appended to the output");
	if (is_time(vp_key)) __CPROVER_assert(v_first(v, vp_key) && (!x_rfc || v > 253402300799ull), "a time as a number: the entry's time, in Unix format or without an RFC 3339 form");
	else if (vp_key == K_COUNT) __CPROVER_assert(v == x_count, "count is the entry's");
	else __CPROVER_assert(vp_key == K_VERSION && v == x_version, "version is the entry's");
	value();
}
static void append_json_value_string(ubuf *u, const char *s, size_t n)
{
	size_t idx = vp_st == S_KEY ? 0 : vp_nelem;
	__CPROVER_assert(u == &vp_out, "appended to the output");
	switch (vp_key) {
	case K_FIRST: case K_LAST: case K_ZFIRST: case K_ZLAST: __CPROVER_assert(x_rfc && vp_conv && v_first(vp_convt, vp_key) && vp_convt <= 253402300799ull && n == 20, "a time as a date: the entry's time, in RFC 3339 format"); break;
	case K_RRNAME: case K_RRSETNAME: case K_RDATANAME: __CPROVER_assert(s == vp_namebuf && vp_namekind == 1 && n == 1, "the name is the entry's"); break;
	case K_BAIL: __CPROVER_assert(s == vp_namebuf && vp_namekind == 2 && n == 1, "the bailiwick is the entry's"); break;
	case K_RRTYPE: case K_RRTYPES:
		if (vp_key == K_RRTYPES && vp_nset == -1) { __CPROVER_assert(n == 9 && s[0] == '<', "an index that cannot be decoded is reported"); break; }
		__CPROVER_assert(vp_key == K_RRTYPE ? vp_mtype == x_rrtype : IMP(idx == vp_k, vp_mtype == vp_tk), "the type is the entry's, or the index's next one");
		if (vp_mnull) __CPROVER_assert(s == vp_pbuf && vp_pnum == vp_mtype && n >= 5 && n <= 9 && s[0] == 'T' && s[1] == 'Y' && s[2] == 'P' && s[3] == 'E', "a type without a mnemonic as TYPE and its number");
		else __CPROVER_assert(s == vp_mnemo && n == 2, "the type's mnemonic");
		break;
	case K_RDATA: __CPROVER_assert(s == vp_strptr && vp_stridx == idx && n == 1, "the RDATA are the entry's, in order"); break;
	case K_RAW: __CPROVER_assert(s == (const char *)vp_rawptr && vp_rawidx == idx && vp_rawstage == (x_type == 0 ? 12 : 11) && n == 1, "the raw RDATA are the entry's, in order, for RRsets with the type"); break;
	case K_INFO: __CPROVER_assert(s == x_info && n == 1, "the source info is the entry's"); break;
	case K_ETYPE: { const char *w = dnstable_entry_type_to_string(x_vtype); __CPROVER_assert(w ? streq(s, w) : s == vp_pbuf && vp_pnum == x_vtype && s[0] == 'u', "the version's entry type"); break; }
	default: __CPROVER_assert(0, "no string is wanted here");
	}
	value();
}
/* for strings that need no escaping: everything but names, RDATA and source info */
static void append_json_value_string_noescape(ubuf *u, const char *s, size_t n)
{
	__CPROVER_assert(is_time(vp_key) || vp_key == K_RRTYPE || vp_key == K_RRTYPES || vp_key == K_RAW || vp_key == K_ETYPE, "only strings without special characters are appended without escaping");
	append_json_value_string(u, s, n);
}
static uint8_t *ubuf_data(ubuf *u) { return (uint8_t *)x_info; }
static ubuf *ubuf_init(unsigned hint)
{
	if (!vp_inited) { vp_inited = true; return &vp_out; }
	__CPROVER_assert(vp_rawstage == 0 || vp_rawstage >= 11, "one raw buffer at a time");
	vp_rawstage = 1; vp_rawidx = vp_cur;
	return &vp_rbuf;
}
static void ubuf_cterm(ubuf *u) { if (u == &vp_out) vp_term = true; else vp_rawstage += 7; }
static void ubuf_detach(ubuf *u, uint8_t **p, size_t *n)
{
	if (u == &vp_out) { __CPROVER_assert(vp_st == S_END && vp_term, "JSON: the output is a complete, terminated object"); vp_res = malloc(1); __CPROVER_assume(vp_res); *p = (uint8_t *)vp_res; *n = 1; return; }
	__CPROVER_assert(vp_rawstage >= 8, "the raw text is terminated");
	vp_rawstage += 2;
	__CPROVER_assert(vp_rawptr == NULL, "the last raw text was released"); vp_rawptr = vp_rawtext; vp_rawptr[0] = 'R'; vp_rawptr[1] = 0; *p = vp_rawptr; *n = 2;
}
static void ubuf_destroy(ubuf **u) { *u = NULL; }
static void fmt_hex_str(ubuf *u, uint8_t *s, size_t n)
	/* stage 1: nothing yet, 2: the RDATA bytes, 3: the bytes of the type's varint */
	REQ(u == &vp_rbuf && (vp_rawstage == 1 ? s == x_rd->data && n == x_rdlen : vp_rawstage == 2 && s == vp_vbuf && n == vp_vlen_ && vp_vval == x_rrtype))
	ENS(vp_rawstage == OLD(vp_rawstage) + 1) ASG(vp_rawstage);
size_t mtbl_varint_encode32(uint8_t *p, uint32_t v)
{
	size_t n = vp_vlen(v);
	__CPROVER_assert(__CPROVER_w_ok(p, n), "precondition of mtbl_varint_encode32");
	vp_vbuf = p; vp_vval = v; vp_vlen_ = n;
	return n;
}
size_t wdns_domain_to_str(const uint8_t *p, size_t n, char *o)
{
	__CPROVER_assert(__CPROVER_w_ok(o, WDNS_PRESLEN_NAME), "precondition of wdns_domain_to_str: room for the text");
	vp_namekind = p == x_name && n == x_nname ? 1 : p == x_bail && n == x_nbail ? 2 : 0;
	vp_namebuf = o; o[0] = 'N'; o[1] = 0;
	return 2;
}
char *wdns_rdata_to_str(const uint8_t *p, uint16_t n, uint16_t type, uint16_t cls)
{
	__CPROVER_assert(p == x_rd->data && n == x_rdlen && type == x_rrtype && cls == WDNS_CLASS_IN, "the RDATA, under the entry's type, are converted");
	__CPROVER_assert(vp_strptr == NULL, "the last RDATA text was released"); vp_strptr = vp_rdtext; vp_strptr[0] = 'D'; vp_strptr[1] = 0; vp_stridx = vp_cur;
	return vp_strptr;
}
static const char MN[3] = "MX";
const char *wdns_rrtype_to_str(uint16_t t) { int x; vp_mtype = t; vp_mnull = x != 0; vp_mnemo = MN; return vp_mnull ? NULL : MN; }
static struct tm *vp_gmtime_r(const time_t *t, struct tm *o)
{
	struct tm r; int x; vp_convt = *t; vp_conv = vp_convt <= 253402300799ull || x != 0; *o = r;
	__CPROVER_assume(r.tm_year >= -100000 && r.tm_year <= 100000 && r.tm_mon >= 0 && r.tm_mon < 12);
	return vp_conv ? o : NULL;
}
#define gmtime_r vp_gmtime_r
size_t my_uint64_to_str(uint64_t num, char *dst, size_t n, const char **start) { __CPROVER_assert(__CPROVER_w_ok(dst, n), "precondition of my_uint64_to_str"); return 0; }
/* the list of RDATA (the growable array itself is C22): element i is the i-th RDATA */
#undef VECTOR_GENERATE
#define VECTOR_GENERATE(name, type) \
typedef struct { size_t _n; } name; \
static size_t name##_size(name *v) { return x_n; } \
static type name##_value(name *v, size_t i) { __CPROVER_assert(i < x_n, "an RDATA of the entry is read"); vp_cur = i; return x_rd; } \
static type *name##_data(name *v) { return NULL; } \
static void name##_add(name *v, type e) { } static void name##_destroy(name **v) { } static name *name##_init(unsigned n) { return NULL; }
int rrtype_union_unpack(const uint8_t *p, size_t n, rrtype_unpacked_set *o)
	ENS(RET == vp_nset && vp_nset >= -1 && vp_nset <= 65535 && IMP(vp_nset > 0 && vp_k < vp_nset, o->rrtypes[vp_k] == vp_tk)) ASG(__CPROVER_object_whole(o));
#define ARRST(i, n) (vp_nelem == (size_t)(i) && vp_st == ((i) == 0 ? S_ARR : (i) < (n) ? S_COMMA : S_ELEM))
#define VPL_fmt_rrtypes_union_json __CPROVER_assigns(n, vp_st, vp_nelem, vp_mtype, vp_mnull, vp_mnemo, vp_pnum, vp_pbuf) __CPROVER_loop_invariant(n >= 0 && n <= n_rrtypes && ARRST(n, n_rrtypes)) __CPROVER_decreases(n_rrtypes - n)
#define VPL_dnstable_entry_to_json_fmt_rdata __CPROVER_assigns(i, vp_st, vp_nelem, vp_cur, vp_strptr, vp_stridx, __CPROVER_object_whole(vp_rdtext)) __CPROVER_loop_invariant(i <= n_rdatas && ARRST(i, n_rdatas) && vp_strptr == NULL) __CPROVER_decreases(n_rdatas - i)
#define VPL_dnstable_entry_to_json_fmt_raw __CPROVER_assigns(i, vp_st, vp_nelem, vp_cur, vp_rawstage, vp_rawidx, vp_rawptr, __CPROVER_object_whole(vp_rawtext), vp_vbuf, vp_vval, vp_vlen_) __CPROVER_loop_invariant(i <= n_rdatas && ARRST(i, n_rdatas) && vp_rawptr == NULL && (vp_rawstage == 0 || vp_rawstage == 12)) __CPROVER_decreases(n_rdatas - i)

#include "vp_proof.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <stdarg.h>
#include <inttypes.h>
#include <assert.h>
#include <time.h>
#ifdef VP_BOUNDED
# define MAXB 8
#else
# define MAXB 0x10000000ull
#endif
/*
 * The output buffer, as its users see it: what is appended, piece by piece
 * (ubuf_append itself is C22).  Each proof says below what a piece must be.
 */
#include "libmy/my_alloc.h"
#include "libmy/vector.h"
#define MY_UBUF_H
#define UBUF_H
typedef struct ubuf { size_t _n; } ubuf;
static void ubuf_append(ubuf *u, const uint8_t *p, size_t n);
static uint8_t vp_nondet_u8(void) { uint8_t c; return c; }
static ubuf *ubuf_init(unsigned hint);
static void ubuf_cterm(ubuf *u);
static void ubuf_detach(ubuf *u, uint8_t **p, size_t *n);
static void ubuf_destroy(ubuf **u);
static inline void ubuf_add(ubuf *u, uint8_t c) { ubuf_append(u, &c, 1); }
static inline void ubuf_add_cstr(ubuf *u, const char *s) { ubuf_append(u, (const uint8_t *)s, strlen(s)); }
#define ubuf_append_cstr_lit(u, s) ubuf_append(u, (const uint8_t *)s, sizeof(s) - 1)
static inline uint8_t *ubuf_data(ubuf *u);
static inline size_t ubuf_size(ubuf *u) { return u->_n; }
static inline char *ubuf_cstr(ubuf *u) { return (char *)ubuf_data(u); }
static char hexc(unsigned v) { return v < 10 ? '0' + v : 'a' + v - 10; }

/* printf, for the conversions of one byte in hexadecimal and of one unsigned number (the C library is a dependency) */
static unsigned vp_pnum; static const char *vp_pbuf;	/* the number last formatted, and where */
static int vp_sprintf(char *o, const char *f, unsigned v)
{
	size_t w = 0;
#define S if (*f && *f != '%') o[w++] = *f++;
	S S S S S S S S
#undef S
	if (*f == 0) { o[w] = 0; return w; }
	if (f[1] == '.' ? (f[2] == '2' && f[3] == 'x' && f[4] == 0) : (f[1] == '0' && f[2] == '2' && f[3] == 'x' && f[4] == 0)) {
		__CPROVER_assert(v < 256, "a byte is formatted as two hexadecimal digits");
		o[w] = hexc(v >> 4); o[w + 1] = hexc(v & 15); o[w + 2] = 0;
		return w + 2;
	}
	vp_pnum = v; vp_pbuf = o;
	unsigned n = v < 10 ? 1 : v < 100 ? 2 : v < 1000 ? 3 : v < 10000 ? 4 : 5;
	__CPROVER_assert(v < 100000, "a number of at most 5 digits");
	o[w] = '0'; if (n > 1) o[w + 1] = '0'; if (n > 2) o[w + 2] = '0'; if (n > 3) o[w + 3] = '0'; if (n > 4) o[w + 4] = '0';	/* digits */
	o[w + n] = 0;
	return w + n;
}
#define sprintf(o, f, ...) vp_sprintf(o, f, (unsigned)(__VA_ARGS__))
#define snprintf(o, n, f, ...) vp_sprintf(o, f, (unsigned)(__VA_ARGS__))

/* ---- append_json_string_escaped: the pieces, read back as the inside of a JSON string, are str[0..len) ---- */
#ifdef P_STRING
static const char *vp_str; static size_t vp_len, vp_dec, vp_p;	/* the string; characters emitted so far; an arbitrary position */
static bool plain(unsigned char c) { return c >= 0x20 && c != '"' && c != '\\'; }
static int unesc(unsigned char c) { switch (c) { case 'b': return '\b'; case 'f': return '\f'; case 'n': return '\n'; case 'r': return '\r'; case 't': return '\t'; case '"': return '"'; case '\\': return '\\'; case '/': return '/'; default: return -1; } }
static void ubuf_append(ubuf *u, const uint8_t *p, size_t n)
{
	if (n == 0) return;
	__CPROVER_assert(__CPROVER_r_ok(p, n), "precondition of ubuf_append: the bytes are readable");
	if (__CPROVER_same_object(p, vp_str)) {
		__CPROVER_assert((size_t)__CPROVER_POINTER_OFFSET(p) == vp_dec && n <= vp_len - vp_dec, "a run copied from the string starts where the last piece ended");
		__CPROVER_assert(IMP(vp_p >= vp_dec && vp_p - vp_dec < n, plain(vp_str[vp_p])), "a run copied as it is has no character that JSON wants escaped");
		vp_dec += n;
		return;
	}
	__CPROVER_assert(vp_dec < vp_len, "nothing but the string's characters is appended");
	unsigned char want = vp_str[vp_dec];
	if (n == 1) __CPROVER_assert(plain(p[0]) && p[0] == want, "a single character is the string's next one and needs no escape");
	else if (n == 2) __CPROVER_assert(p[0] == '\\' && unesc(p[1]) == want, "a two-character escape denotes the string's next character");
	else __CPROVER_assert(n == 6 && p[0] == '\\' && p[1] == 'u' && p[2] == '0' && p[3] == '0' && want < 0x80 && p[4] == hexc(want >> 4) && p[5] == hexc(want & 15), "a six-character escape denotes the string's next character");
	vp_dec++;
}
#define OFFS(p) ((size_t)__CPROVER_POINTER_OFFSET(p))
static size_t vp_so, vp_lo;
#define VPG_append_json_string_escaped vp_so = OFFS(scan); vp_lo = OFFS(scan_last); scan = str + vp_so; scan_last = str + vp_lo;	/* no change: tells the verifier the object */
#define VPL_append_json_string_escaped \
	__CPROVER_assigns(scan, scan_last, vp_so, vp_lo, vp_dec, vp_pnum, vp_pbuf) \
	__CPROVER_loop_invariant(__CPROVER_same_object(scan, str) && __CPROVER_same_object(scan_last, str) && OFFS(scan) <= len && OFFS(scan_last) <= OFFS(scan) && OFFS(scan_last) == vp_dec) \
	__CPROVER_loop_invariant((vp_p >= OFFS(scan_last) && vp_p < OFFS(scan)) ==> ((unsigned char)str[vp_p] >= 0x20 && str[vp_p] != '"' && str[vp_p] != '\\')) \
	__CPROVER_decreases(len - OFFS(scan))
#endif
/* ---- fmt_hex_str: two lowercase digits for each byte ---- */
#ifdef P_HEX
static const uint8_t *vp_s; static size_t vp_len, vp_out;
static void ubuf_append(ubuf *u, const uint8_t *p, size_t n)
{
	__CPROVER_assert(n == 2 && vp_out < vp_len && p[0] == hexc(vp_s[vp_out] >> 4) && p[1] == hexc(vp_s[vp_out] & 15), "two lowercase hexadecimal digits of the next byte are appended");
	vp_out++;
}
#define VPL_fmt_hex_str \
	__CPROVER_assigns(c, vp_out, vp_pnum, vp_pbuf) \
	__CPROVER_loop_invariant(c <= len_s && vp_out == c) \
	__CPROVER_decreases(len_s - c)
#endif
/* ---- dates ---- */
#ifdef P_TIME
static uint8_t vp_o[40]; static size_t vp_on;
static void ubuf_append(ubuf *u, const uint8_t *p, size_t n)
{
	__CPROVER_assert(vp_on + n <= sizeof(vp_o) && __CPROVER_r_ok(p, n), "precondition of ubuf_append");
	for (size_t i = 0; i < n; i++) vp_o[vp_on + i] = p[i];
	vp_on += n;
}
/* gmtime_r (C library): every time of the years 1970 to 9999 has a date, later ones may have none */
static struct tm vp_tm; static uint64_t vp_t; static bool vp_conv;
static struct tm *vp_gmtime_r(const time_t *t, struct tm *o)
{
	__CPROVER_assert((uint64_t)*t == vp_t, "the entry's time is converted");
	struct tm r; int fail;
	bool ok = vp_t <= 253402300799ull;
	if (!ok && fail) return NULL;
	__CPROVER_assume(r.tm_mon >= 0 && r.tm_mon <= 11 && r.tm_mday >= 1 && r.tm_mday <= 31 && r.tm_hour >= 0 && r.tm_hour <= 23 && r.tm_min >= 0 && r.tm_min <= 59 && r.tm_sec >= 0 && r.tm_sec <= 59);
	__CPROVER_assume(ok ? r.tm_year >= 70 && r.tm_year <= 8099 : vp_t <= INT64_MAX ? r.tm_year > 8099 : r.tm_year < 70);
	vp_conv = true; vp_tm = r; *o = r;
	return o;
}
#define gmtime_r vp_gmtime_r
#endif
#ifdef P_DEC
/*
 * vnum_to_str: the decimal form by its definition: q(0) is the number, q(i + 1)
 * the quotient of q(i) by 10, digit i from the right the remainder.  The counting
 * loop (at most 20 rounds, unrolled) records the chain and is checked against the
 * definition of quotient and remainder; the writing loop is cut by its invariant.
 */
static uint64_t vp_q[24];
static size_t vp_i;	/* an arbitrary digit */
static const uint64_t M[21] = { 18446744073709551615ull, 1844674407370955161ull, 184467440737095516ull, 18446744073709551ull, 1844674407370955ull, 184467440737095ull, 18446744073709ull, 1844674407370ull, 184467440737ull, 18446744073ull, 1844674407ull, 184467440ull, 18446744ull, 1844674ull, 184467ull, 18446ull, 1844ull, 184ull, 18ull, 1ull, 0 };
#define QR(x, q) ((q) <= M[1] && (q) * 10 <= (x) && (x) - (q) * 10 < 10)
#define VPG_vnum_to_str_count \
	__CPROVER_assert(ndigits >= 1 && ndigits <= 20, "at most 20 digits"); \
	__CPROVER_assert(QR(vp_q[ndigits - 1], tmp), "the rest after ndigits digits is the quotient"); __CPROVER_assume(QR(vp_q[ndigits - 1], tmp)); vp_q[ndigits] = tmp; \
	__CPROVER_assert(tmp <= M[ndigits], "its bound"); __CPROVER_assume(tmp <= M[ndigits]);
#define VPG_vnum_to_str_digit
#define VPL_vnum_to_str \
	__CPROVER_assigns(left, ndx, num, __CPROVER_object_whole(ptr)) \
	__CPROVER_loop_invariant(left <= ndigits && ndx == left - 1 && num == vp_q[ndigits - left]) \
	__CPROVER_loop_invariant((vp_i < ndigits && vp_i < ndigits - left) ==> ptr[ndigits - 1 - vp_i] == '0' + (char)(vp_q[vp_i] - 10 * vp_q[vp_i + 1])) \
	__CPROVER_decreases(left)
#endif
#ifdef P_OBJECT
# include "object.h"
#endif
#include "libmy/my_alloc.h"
#include "vp_loops.h"
#include "dnstable/entry.c"
#ifdef P_TIME
# include "libmy/my_format.c"
#endif
#ifndef P_OBJECT
static ubuf *ubuf_init(unsigned hint) { return NULL; }
static void ubuf_cterm(ubuf *u) { }
static void ubuf_detach(ubuf *u, uint8_t **p, size_t *n) { }
static void ubuf_destroy(ubuf **u) { }
static inline uint8_t *ubuf_data(ubuf *u) { return NULL; }
#endif

#ifdef P_STRING
void h_string(void)
{
	size_t n, p; __CPROVER_assume(n <= MAXB);
	char *s = malloc(n ? n : 1); __CPROVER_assume(s);
	ubuf u; vp_str = s; vp_len = n; vp_dec = 0; vp_p = p;
	append_json_string_escaped(&u, s, n);
	__CPROVER_assert(vp_dec == n, "postcondition of append_json_string_escaped: every character of the string is appended");
	VP_PROBE();
}
#endif
#ifdef P_HEX
void h_hex(void)
{
	size_t n; __CPROVER_assume(n <= MAXB);
	uint8_t *s = malloc(n ? n : 1); __CPROVER_assume(s);
	ubuf u; vp_s = s; vp_len = n; vp_out = 0;
	fmt_hex_str(&u, s, n);
	__CPROVER_assert(vp_out == n, "postcondition of fmt_hex_str: every byte is printed");
	VP_PROBE();
}
#endif
#ifdef P_TIME
static void check(size_t o)
{
	static const char T[] = "....-..-..T..:..:..Z";
	const struct tm *t = &vp_tm; unsigned y = 1900 + t->tm_year;
	__CPROVER_assert(vp_on == o + 20, "the date has 20 characters");
#define D(i, v) (vp_o[o + (i)] == '0' + (v) / 10 % 10 && vp_o[o + (i) + 1] == '0' + (v) % 10)
	__CPROVER_assert(D(0, y / 100) && D(2, y % 100), "the year");
	__CPROVER_assert(D(5, t->tm_mon + 1), "the month");
	__CPROVER_assert(D(8, t->tm_mday), "the day");
	__CPROVER_assert(D(11, t->tm_hour) && D(14, t->tm_min) && D(17, t->tm_sec), "the time of day");
	__CPROVER_assert(vp_o[o + 4] == '-' && vp_o[o + 7] == '-' && vp_o[o + 10] == 'T' && vp_o[o + 13] == ':' && vp_o[o + 16] == ':' && vp_o[o + 19] == 'Z', "the separators");
}
void h_time(void)
{
	ubuf u; uint64_t v; vp_t = v; vp_on = 0; vp_conv = false;
	__CPROVER_assume(v <= 253402300799ull);
	int j; bool json = j != 0;
	if (json) fmt_rfc3339_time_json(&u, v); else fmt_rfc3339_time(&u, v);
	__CPROVER_assert(vp_conv, "postcondition: a time up to the year 9999 is printed as its date");
	if (json) { __CPROVER_assert(vp_o[0] == '"' && vp_o[vp_on - 1] == '"', "a JSON string"); vp_on--; }
	check(json ? 1 : 0);
	VP_PROBE();
}
#endif
#ifdef P_LATE
/* a time past the year 9999: the number of seconds (append_json_value_int: the proof decimal) */
#endif
#ifdef P_DEC
static void ubuf_append(ubuf *u, const uint8_t *p, size_t n) { }
void h_dec(void)
{
	uint64_t v; size_t i; __CPROVER_assume(i < 20); vp_i = i; __CPROVER_assume(v <= MAXDEC);
	char b[21];
	vp_q[0] = v;
	size_t n = vnum_to_str(v, b);
	__CPROVER_assert(n >= 1 && n <= 20, "1 to 20 digits");
	__CPROVER_assert(vp_q[n] == 0 && (n == 1 || vp_q[n - 1] != 0), "every digit, no leading zero");
	__CPROVER_assert(b[n] == 0, "NUL-terminated");
	__CPROVER_assert(IMP(i < n, b[n - 1 - i] == '0' + (char)(vp_q[i] - 10 * vp_q[i + 1])), "digit i from the right");
	VP_PROBE();
}
#endif
#ifdef P_OBJECT
void h_object(void)
{
	struct dnstable_entry e; rdata_vec rv; ubuf map; uint8_t nm[1], bl[1]; char info[2] = "i"; dnstable_date_format_type df; int a, r; size_t n, k; uint16_t l, tk; int ns;
	e.e_type = XT;
	__CPROVER_assume(e.rrtype <= 65535 && (unsigned)e.v_type <= 255 && e.name.len <= 255 && e.bailiwick.len <= 255 && n <= MAXB && IMP(e.e_type == 2, n == 1));
	__CPROVER_assume(df == dnstable_date_format_unix || df == dnstable_date_format_rfc3339);
	int z, m; e.iszone = z != 0;
	e.rdatas = &rv; e.rrtype_map = m ? &map : NULL; e.source_info = &map; e.name.data = nm; e.bailiwick.data = bl;
	wdns_rdata_t *rd = malloc(sizeof(*rd) + l); __CPROVER_assume(rd); rd->len = l;
	x_type = e.e_type; x_rrtype = e.rrtype; x_vtype = e.v_type; x_version = e.version; x_name = nm; x_bail = bl; x_nname = e.name.len; x_nbail = e.bailiwick.len;
	x_n = n; x_rdlen = l; x_rd = rd; x_first = e.time_first; x_last = e.time_last; x_count = e.count; x_zone = e.iszone; x_rfc = df == dnstable_date_format_rfc3339; x_arr = a != 0; x_raw = r != 0; x_map = e.rrtype_map != NULL; x_info = info;
	vp_strptr = NULL; vp_rawptr = NULL;
	vp_st = S_START; vp_keys = vp_arrs = 0; vp_rawstage = 0; vp_inited = vp_term = false; vp_k = k; vp_tk = tk; vp_nset = ns;
	char *s = dnstable_entry_to_json_fmt(&e, df, x_arr, x_raw);
	__CPROVER_assert(vp_strptr == NULL && vp_rawptr == NULL, "postcondition: what was allocated on the way is released");
	__CPROVER_assert(s != NULL && s == vp_res, "postcondition: the text is returned");
#define B(k) (1u << (k))
	unsigned times = x_zone ? B(K_ZFIRST) | B(K_ZLAST) : B(K_FIRST) | B(K_LAST), both = B(K_COUNT) | times | B(K_RRNAME) | B(K_RRTYPE) | B(K_RDATA) | (x_raw ? B(K_RAW) : 0);
	unsigned want = x_type == 0 ? both | B(K_BAIL) : x_type == 2 ? both : x_type == 1 ? B(K_RRSETNAME) | B(K_RRTYPES) : x_type == 3 ? B(K_RDATANAME) | B(K_RRTYPES) : x_type == 254 ? B(K_FIRST) | B(K_LAST) : x_type == 253 ? B(K_INFO) : B(K_ETYPE) | B(K_VERSION);
	__CPROVER_assert(vp_keys == want, "postcondition: exactly the keys of the entry's type and the settings");
	unsigned arrs = x_type == 1 || x_type == 3 ? B(K_RRTYPES) : x_type == 0 || (x_type == 2 && x_arr) ? B(K_RDATA) | (x_raw ? B(K_RAW) : 0) : 0;
	__CPROVER_assert(vp_arrs == arrs, "postcondition: arrays exactly where the format has them");
	VP_PROBE();
}
#endif

/*
 * Executable form of the C06 contract: random entries, decoded by the real
 * decoder, rendered in every configuration, and compared with a reference
 * (a strict JSON parser; the documented text lines).
 */
#include "vp_gen.h"
#include <dnstable.h>
#include "dnstable/dnstable-private.h"

struct str { size_t n, cap; char *d; };
static void s_put(struct str *s, const void *p, size_t n)
{
	if (s->n + n + 1 > s->cap) { s->cap = 2 * (s->n + n) + 64; s->d = realloc(s->d, s->cap); }
	if (n) memcpy(s->d + s->n, p, n);
	s->n += n; s->d[s->n] = 0;
}
static void s_str(struct str *s, const char *c) { s_put(s, c, strlen(c)); }
static void s_num(struct str *s, uint64_t v) { char b[32]; sprintf(b, "%llu", (unsigned long long)v); s_str(s, b); }
static void s_hex(struct str *s, const uint8_t *p, size_t n) { for (size_t i = 0; i < n; i++) { char b[4] = { "0123456789abcdef"[p[i] >> 4], "0123456789abcdef"[p[i] & 15], 0 }; s_str(s, b); } }
/* values in a canonical form: n<digits>; s<length>:<bytes>; [ ... ] */
static void c_num(struct str *s, uint64_t v) { s_str(s, "n"); s_num(s, v); s_str(s, ";"); }
static void c_str(struct str *s, const char *p, size_t n) { char b[32]; sprintf(b, "s%zu:", n); s_str(s, b); s_put(s, p, n); s_str(s, ";"); }

/* ---- fields ---- */
#define MAXF 24
struct fields { unsigned n; struct str key[MAXF], val[MAXF]; };
static struct fields W, G;
static struct str *field(struct fields *f, const char *k, size_t n)
{
	if (f->n == MAXF) abort();
	f->key[f->n].n = f->val[f->n].n = 0;
	s_put(&f->key[f->n], k, n); s_put(&f->val[f->n], "", 0);
	return &f->val[f->n++];
}
#define F(k) field(&W, k, strlen(k))

/* ---- a strict parser for one JSON object of strings, whole numbers and arrays of them ---- */
static const char *J, *JE;
static void ws(void) { while (J < JE && (*J == ' ' || *J == '\t' || *J == '\n' || *J == '\r')) J++; }
static bool p_string(struct str *o)
{
	o->n = 0; s_put(o, "", 0);
	if (J >= JE || *J != '"') return false;
	for (J++; J < JE && *J != '"'; ) {
		unsigned char c = *J++;
		if (c < 0x20) return false;
		if (c == '\\') {
			if (J >= JE) return false;
			switch (*J++) {
			case '"': c = '"'; break; case '\\': c = '\\'; break; case '/': c = '/'; break;
			case 'b': c = '\b'; break; case 'f': c = '\f'; break; case 'n': c = '\n'; break; case 'r': c = '\r'; break; case 't': c = '\t'; break;
			case 'u': {
				unsigned v = 0;
				for (int i = 0; i < 4; i++) {
					if (J >= JE) return false;
					char h = *J++;
					if (h >= '0' && h <= '9') v = v * 16 + (h - '0');
					else if (h >= 'a' && h <= 'f') v = v * 16 + (h - 'a' + 10);
					else if (h >= 'A' && h <= 'F') v = v * 16 + (h - 'A' + 10);
					else return false;
				}
				if (v > 127) return false;	/* never needed: other bytes are passed on */
				c = v; break; }
			default: return false;
			}
		}
		s_put(o, &c, 1);
	}
	if (J >= JE) return false;
	J++;
	return true;
}
static bool p_value(struct str *o, bool nested)
{
	static struct str t;
	ws();
	if (J >= JE) return false;
	if (*J == '"') { if (!p_string(&t)) return false; c_str(o, t.d, t.n); return true; }
	if (*J >= '0' && *J <= '9') {
		if (*J == '0' && J + 1 < JE && J[1] >= '0' && J[1] <= '9') return false;
		s_str(o, "n");
		while (J < JE && *J >= '0' && *J <= '9') s_put(o, J++, 1);
		s_str(o, ";");
		return true;
	}
	if (*J == '[' && !nested) {
		J++; s_str(o, "["); ws();
		if (J < JE && *J == ']') { J++; s_str(o, "]"); return true; }
		for (;;) {
			if (!p_value(o, true)) return false;
			ws();
			if (J < JE && *J == ',') { J++; continue; }
			if (J < JE && *J == ']') { J++; s_str(o, "]"); return true; }
			return false;
		}
	}
	return false;
}
static bool p_object(const char *s, size_t n)
{
	static struct str k;
	J = s; JE = s + n; G.n = 0;
	ws();
	if (J >= JE || *J++ != '{') return false;
	ws();
	if (J < JE && *J == '}') J++;
	else for (;;) {
		ws();
		if (!p_string(&k)) return false;
		ws();
		if (J >= JE || *J++ != ':') return false;
		if (G.n == MAXF) return false;
		if (!p_value(field(&G, k.d, k.n), false)) return false;
		ws();
		if (J < JE && *J == ',') { J++; continue; }
		if (J < JE && *J == '}') { J++; break; }
		return false;
	}
	ws();
	return J == JE;
}

/* ---- dates ---- */
static void date(char *o, uint64_t v, const char *fmt)
{
	int64_t days = v / 86400; unsigned s = v % 86400;
	int64_t y = 1970;
	y += days / 146097 * 400; days %= 146097;
	for (;; y++) { bool leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; if (days < 365 + leap) break; days -= 365 + leap; }
	bool leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
	int m = 0; static const int L[12] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
	while (days >= L[m] + (m == 1 && leap)) { days -= L[m] + (m == 1 && leap); m++; }
	sprintf(o, fmt, (long long)y, m + 1, (int)days + 1, s / 3600, s / 60 % 60, s % 60);
}
#define Y9999 253402300799ull
static void c_time(struct str *o, uint64_t v, bool rfc)
{
	char b[64];
	if (!rfc || v > Y9999) { c_num(o, v); return; }
	date(b, v, "%04lld-%02d-%02dT%02d:%02d:%02dZ"); c_str(o, b, strlen(b));
}
static void t_time(struct str *o, uint64_t v, bool rfc)
{
	char b[64];
	if (v > Y9999 && (rfc || v > 67767976233532799ull)) { s_num(o, v); return; }
	date(b, v, rfc ? "%04lld-%02d-%02dT%02d:%02d:%02dZ" : "%lld-%02d-%02d %02d:%02d:%02d -0000"); s_str(o, b);
}
static uint64_t gen_time(void)
{
	switch (vp_range(8)) {
	case 0: return vp_edge64();
	case 1: return Y9999 - 2 + vp_range(5);
	case 2: return vp_bool() ? 67767976233532799ull : 67768036191676800ull;	/* the last second of the year 2^31-1, and one past every date */
	case 3: return (uint64_t)vp_range(4100) * 86400 * 365 + vp_u32() % 100000000;
	case 4: return vp_u64() % (Y9999 + 1);
	default: return vp_u32();
	}
}
/* ---- one entry, as its fields ---- */
static struct { int type; uint8_t name[256], bail[256]; size_t nname, nbail; unsigned rrtype; struct str rd[6]; unsigned nrd; uint64_t first, last, count; uint32_t ver; unsigned vtype; struct str info, index; bool zone; } E;
static struct vp_buf K, V;
static struct str KB;
static void gen_name(uint8_t *o, size_t *n) { static struct vp_buf t; t.n = 0; vb_name(&t, 5, true); memcpy(o, t.d, t.n); *n = t.n; }
static void gen_bytes(struct str *s, size_t n)
{
	static const char C[] = "\"\\/\b\f\n\r\t\x01\x1f\x1e\x10\x7f \x20!~{}[]:,'";
	s->n = 0; s_put(s, "", 0);
	while (n--) { uint8_t c = vp_range(3) ? (uint8_t)C[vp_range(sizeof(C) - 1)] : vp_u8(); s_put(s, &c, 1); }
}
static void gen(void)
{
	static const int T[] = { 0, 2, 0, 2, 1, 3, 254, 253, 255, 0 };
	static uint8_t tmp[256];
	E.type = T[vp_range(10)]; E.nrd = 0; E.zone = vp_bool();
	gen_name(E.name, &E.nname); gen_name(E.bail, &E.nbail);
	E.rrtype = vp_range(3) ? 16 : vp_rrtype();
	E.first = gen_time(); E.last = gen_time(); E.count = vp_range(3) ? vp_edge64() : vp_range(2000);
	K.n = V.n = 0; KB.n = 0;
	uint8_t t = E.type; s_put(&KB, &t, 1);
	if (E.type == 0 || E.type == 2) { vb_var(&V, E.first); vb_var(&V, E.last); vb_var(&V, E.count); if (!E.count) E.count = 1; if (!E.last) E.last = E.first; }
	switch (E.type) {
	case 0:
		vp_namerev(E.name, E.nname, tmp); vb_put(&K, tmp, E.nname); vb_var(&K, E.rrtype);
		vp_namerev(E.bail, E.nbail, tmp); vb_put(&K, tmp, E.nbail); s_put(&KB, K.d, K.n);
		E.nrd = vp_range(6);
		for (unsigned i = 0; i < E.nrd; i++) {
			gen_bytes(&E.rd[i], vp_range(60) ? vp_range(20) : vp_range(3) ? vp_range(700) : vp_range(65536));
			K.n = 0; vb_var(&K, E.rd[i].n); s_put(&KB, K.d, K.n); s_put(&KB, E.rd[i].d, E.rd[i].n);
		}
		break;
	case 2:
		E.nrd = 1; gen_bytes(&E.rd[0], vp_range(60) ? vp_range(20) : vp_range(3) ? vp_range(700) : vp_range(65536));
		s_put(&KB, E.rd[0].d, E.rd[0].n);
		vb_var(&K, E.rrtype); vp_namerev(E.name, E.nname, tmp); vb_put(&K, tmp, E.nname); vb_le16(&K, E.rd[0].n); s_put(&KB, K.d, K.n);
		break;
	case 1: case 3:
		if (E.type == 3) { vp_namerev(E.name, E.nname, tmp); s_put(&KB, tmp, E.nname); } else s_put(&KB, E.name, E.nname);
		E.index.n = 0; s_put(&E.index, "", 0);
		if (vp_range(6)) { static uint8_t set[65536]; vb_genindex(&V, set); if (vp_range(8) == 0 && V.n) V.d[vp_range(V.n)] = vp_u8(); s_put(&E.index, V.d, V.n); }
		break;
	case 253: gen_bytes(&E.info, vp_range(30)); s_put(&KB, E.info.d, E.info.n); E.info.n = strlen(E.info.d); break;
	case 254: vb_var(&V, E.first); vb_var(&V, E.last); break;
	case 255: { static const uint8_t vt[] = { 0, 1, 2, 3, 253, 254, 255 }; t = vp_range(2) ? vt[vp_range(7)] : vp_u8(); E.vtype = t; s_put(&KB, &t, 1); E.ver = vp_edge32(); vb_var(&V, E.ver); break; }
	}
}
static const char *mnemonic(unsigned t) { static char b[16]; const char *s = wdns_rrtype_to_str(t); if (s) return s; sprintf(b, "TYPE%u", t); return b; }
static const char *typestr(unsigned t) { return t == 0 ? "rrset" : t == 1 ? "rrset_name" : t == 2 ? "rdata" : t == 3 ? "rdata_name" : t == 253 ? "source_info" : t == 254 ? "time_range" : t == 255 ? "version" : NULL; }
static void raw(struct str *o, unsigned i)
{
	static struct str h; static struct vp_buf t;
	h.n = 0; s_put(&h, "", 0);
	s_hex(&h, (uint8_t *)E.rd[i].d, E.rd[i].n);
	if (E.type == 0) { t.n = 0; vb_var(&t, E.rrtype); s_hex(&h, t.d, t.n); }
	c_str(o, h.d, h.n);
}
static void rd(struct str *o, unsigned i) { char *s = wdns_rdata_to_str((uint8_t *)E.rd[i].d, E.rd[i].n, E.rrtype, WDNS_CLASS_IN); c_str(o, s, strlen(s)); free(s); }
static void want(bool rfc, bool arr, bool addraw)
{
	char nm[WDNS_PRESLEN_NAME]; struct str *o;
	W.n = 0;
	if (E.type == 0 || E.type == 2) {
		c_num(F("count"), E.count);
		c_time(F(E.zone ? "zone_time_first" : "time_first"), E.first, rfc);
		c_time(F(E.zone ? "zone_time_last" : "time_last"), E.last, rfc);
		wdns_domain_to_str(E.name, E.nname, nm); c_str(F("rrname"), nm, strlen(nm));
		c_str(F("rrtype"), mnemonic(E.rrtype), strlen(mnemonic(E.rrtype)));
		if (E.type == 0) { wdns_domain_to_str(E.bail, E.nbail, nm); c_str(F("bailiwick"), nm, strlen(nm)); }
		bool a = E.type == 0 || arr;
		o = F("rdata"); if (a) s_str(o, "["); for (unsigned i = 0; i < E.nrd; i++) rd(o, i); if (a) s_str(o, "]");
		if (addraw) { o = F("rdata_raw"); if (a) s_str(o, "["); for (unsigned i = 0; i < E.nrd; i++) raw(o, i); if (a) s_str(o, "]"); }
	} else if (E.type == 1 || E.type == 3) {
		static uint8_t set[65536];
		wdns_domain_to_str(E.name, E.nname, nm); c_str(F(E.type == 1 ? "rrset_name" : "rdata_name"), nm, strlen(nm));
		o = F("rrtypes"); s_str(o, "[");
		int n = vp_ref_index((uint8_t *)E.index.d, E.index.n, set);
		if (n < 0) c_str(o, "<failure>", 9);
		else for (unsigned t = 0; t < 65536; t++) if (set[t]) c_str(o, mnemonic(t), strlen(mnemonic(t)));
		s_str(o, "]");
	} else if (E.type == 254) { c_time(F("time_first"), E.first, rfc); c_time(F("time_last"), E.last, rfc); }
	else if (E.type == 253) c_str(F("source info"), E.info.d, E.info.n);
	else { char b[32]; sprintf(b, "unknown-%u", E.vtype); const char *s = typestr(E.vtype) ? typestr(E.vtype) : b; c_str(F("entry_type"), s, strlen(s)); c_num(F("version"), E.ver); }
}
static void want_text(struct str *o, bool rfc)
{
	char nm[WDNS_PRESLEN_NAME], bl[WDNS_PRESLEN_NAME];
	o->n = 0; s_put(o, "", 0);
	wdns_domain_to_str(E.name, E.nname, nm); wdns_domain_to_str(E.bail, E.nbail, bl);
	if (E.type == 0) {
		s_str(o, ";;  bailiwick: "); s_str(o, bl); s_str(o, "\n;;      count: "); s_num(o, E.count);
		s_str(o, E.zone ? "\n;; first seen in zone file: " : "\n;; first seen: "); t_time(o, E.first, rfc);
		s_str(o, E.zone ? "\n;;  last seen in zone file: " : "\n;;  last seen: "); t_time(o, E.last, rfc); s_str(o, "\n");
	}
	if (E.type == 0 || E.type == 2) for (unsigned i = 0; i < E.nrd; i++) {
		char *s = wdns_rdata_to_str((uint8_t *)E.rd[i].d, E.rd[i].n, E.rrtype, WDNS_CLASS_IN);
		s_str(o, nm); s_str(o, " IN "); s_str(o, mnemonic(E.rrtype)); s_str(o, " "); s_str(o, s); s_str(o, "\n"); free(s);
	} else if (E.type == 1 || E.type == 3) {
		static uint8_t set[65536]; bool any = false;
		s_str(o, nm); s_str(o, " RRtypes=[");
		int n = vp_ref_index((uint8_t *)E.index.d, E.index.n, set);
		if (n < 0) s_str(o, "<failure>");
		else for (unsigned t = 0; t < 65536; t++) if (set[t]) { if (any) s_str(o, " "); s_str(o, mnemonic(t)); any = true; }
		s_str(o, E.type == 1 ? "]  ;; rrset name fwd\n" : "]  ;; rdata name rev\n");
	} else if (E.type == 254) { s_str(o, ";; Earliest time_first: "); t_time(o, E.first, rfc); s_str(o, "\n;; Latest time_last: "); t_time(o, E.last, rfc); s_str(o, "\n"); }
	else if (E.type == 253) { s_str(o, ";; source info: "); s_put(o, E.info.d, E.info.n); s_str(o, "\n"); }
	else if (E.type == 255) { s_str(o, ";; Version type "); if (typestr(E.vtype)) s_str(o, typestr(E.vtype)); else s_num(o, E.vtype); s_str(o, ": "); s_num(o, E.ver); s_str(o, "\n"); }
}
static void check_json(char *s, bool rfc, bool arr, bool addraw)
{
	VP_CHECK(s != NULL, "no JSON");
	want(rfc, arr, addraw);
	VP_CHECK(p_object(s, strlen(s)), "not a valid JSON object: %.400s", s);
	VP_CHECK(G.n == W.n, "%u fields, want %u: %.400s", G.n, W.n, s);
	for (unsigned i = 0; i < W.n; i++) {
		unsigned j = 0, m = 0, at = 0;
		for (; j < G.n; j++) if (G.key[j].n == W.key[i].n && memcmp(G.key[j].d, W.key[i].d, W.key[i].n) == 0) { m++; at = j; }
		VP_CHECK(m == 1, "field \"%s\" occurs %u times: %.400s", W.key[i].d, m, s);
		VP_CHECK(G.val[at].n == W.val[i].n && memcmp(G.val[at].d, W.val[i].d, W.val[i].n) == 0, "field \"%s\" is %.300s, want %.300s", W.key[i].d, G.val[at].d, W.val[i].d);
	}
	free(s);
}
static void check_text(char *s, bool rfc)
{
	static struct str w;
	VP_CHECK(s != NULL, "no text");
	want_text(&w, rfc);
	VP_CHECK(strlen(s) == w.n && memcmp(s, w.d, w.n) == 0, "text is \"%.600s\", want \"%.600s\"", s, w.d);
	free(s);
}
void vp_case(void)
{
	gen();
	uint8_t *k = vp_dup(KB.d, KB.n), *v = vp_dup(V.d, V.n);
	vp_notehex("key", k, KB.n > 500 ? 500 : KB.n); vp_notehex("val", v, V.n > 300 ? 300 : V.n);
	struct dnstable_entry *e = dnstable_entry_decode(k, KB.n, v, V.n);
	free(k); free(v);
	VP_CHECK(e != NULL, "entry not decoded");
	if (E.zone || vp_bool()) dnstable_entry_set_iszone(e, E.zone);
	struct dnstable_formatter *f = dnstable_formatter_init();
	if (vp_range(4) == 0) check_json(dnstable_entry_format(f, e), false, false, false);
	if (vp_range(4) == 0) { check_json(dnstable_entry_to_json(e), false, false, false); check_text(dnstable_entry_to_text(e), false); }
	for (int i = 0, reps = E.nrd && KB.n > 3000 ? 2 : 4; i < reps; i++) {
		bool rfc = vp_bool(), arr = vp_bool(), addraw = vp_bool();
		dnstable_formatter_set_date_format(f, rfc ? dnstable_date_format_rfc3339 : dnstable_date_format_unix);
		dnstable_formatter_set_rdata_array(f, arr);
		dnstable_formatter_set_raw_rdata(f, addraw);
		vp_note("rfc3339 %d, array %d, raw %d, zone %d", rfc, arr, addraw, E.zone);
		dnstable_formatter_set_output_format(f, dnstable_output_format_json);
		check_json(dnstable_entry_format(f, e), rfc, arr, addraw);
		dnstable_formatter_set_output_format(f, dnstable_output_format_text);
		check_text(dnstable_entry_format(f, e), rfc);
	}
	dnstable_formatter_destroy(&f);
	dnstable_entry_destroy(&e);
	vp_nontrivial();
}

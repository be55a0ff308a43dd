/*
 * Databases, queries and what a query means (a brute-force reference written
 * from the documentation: man/dnstable_query.3, man/dnstable-encoding.5).
 * Shared by the oracles of the search properties.
 */
#ifndef VP_QUERY_H
#define VP_QUERY_H
#include <arpa/inet.h>
#include "vp_gen.h"
#include <dnstable.h>
#include <wdns.h>
#include "vp_mtbl.h"

struct vq_ent {
	int type;			/* 0 RRset, 2 RDATA */
	uint8_t name[256], bail[256]; size_t nname, nbail;
	uint16_t rrtype;
	uint8_t data[300], slice[16]; size_t ndata, nslice;	/* RDATA */
	uint8_t rds[8][32]; size_t nrds[8], n_rds;		/* RRset */
	uint64_t first, last, count;
	uint8_t key[900]; size_t nkey;
};
#define VQ_MAX 48
struct vq_db { struct vq_ent e[VQ_MAX]; size_t n; };

static const uint16_t vq_nametypes[] = { 2, 5, 39, 12, 15, 33, 6, 64, 65, 47, 17, 30 };
static inline bool vq_isname(uint16_t t) { for (size_t i = 0; i < 12; i++) if (vq_nametypes[i] == t) return true; return false; }

/* ---- names ---- */
static const char *const vq_labels[] = { "a", "b", "ab", "*", "+", "c", "x\001*", "\377", "\377\377", "com", "A", "\001+", "d\001+", "e", "f", "-" };
static unsigned vq_nlab = 16;
static inline void vq_label(struct vp_buf *o)
{
	if (vp_range(60) == 0) { vb_u8(o, 63); for (int i = 0; i < 63; i++) vb_u8(o, vp_range(40) ? 255 : vp_u8()); return; }
	const char *s = vq_labels[vp_range(vp_range(3) ? 3 : vq_nlab)];
	vb_u8(o, strlen(s)); vb_put(o, s, strlen(s));
}
static inline size_t vq_name(uint8_t *out, unsigned max)
{
	static struct vp_buf b; b.n = 0;
	unsigned n = vp_range(max + 1);
	for (unsigned i = 0; i < n; i++) { size_t was = b.n; vq_label(&b); if (b.n > 254) { b.n = was; break; } }
	vb_u8(&b, 0);
	memcpy(out, b.d, b.n); return b.n;
}
/* a name related to another: shared tail or head, or the same */
static inline size_t vq_relname(uint8_t *out, const uint8_t *in, size_t nin)
{
	uint8_t t[256]; size_t n;
	switch (vp_range(5)) {
	case 0: memcpy(out, in, nin); return nin;
	case 1: n = vq_name(t, 2); if (n - 1 + nin > 255) break; memcpy(out, t, n - 1); memcpy(out + n - 1, in, nin); return n - 1 + nin;	/* child */
	case 2: n = vq_name(t, 2); if (nin - 1 + n > 255) break; memcpy(out, in, nin - 1); memcpy(out + nin - 1, t, n); return nin - 1 + n;	/* same head */
	case 3: { size_t p = in[0] ? 1u + in[0] : 0; memcpy(out, in + p, nin - p); return nin - p; }	/* parent */
	}
	return vq_name(out, 4);
}
static inline void vq_text(char *s, const uint8_t *n, size_t len)
{
	char *o = s;
	(void)len;
	if (*n == 0) { strcpy(s, "."); return; }
	for (; *n; ) {
		unsigned l = *n++;
		while (l--) {
			uint8_t c = *n++;
			if (c == '.' || c == '\\') { *o++ = '\\'; *o++ = c; }
			else if (c > 32 && c < 127) *o++ = c;
			else o += sprintf(o, "\\%03u", c);
		}
		*o++ = '.';
	}
	*o = 0;
}
static inline void vq_lower(uint8_t *n, size_t len)
{
	for (size_t i = 0; i < len; ) { unsigned l = n[i++]; while (l-- && i < len) { if (n[i] >= 'A' && n[i] <= 'Z') n[i] += 32; i++; } }
}

/* ---- databases ---- */
static inline void vq_key(struct vq_ent *e)
{
	static struct vp_buf b; uint8_t r[256];
	b.n = 0;
	vb_u8(&b, e->type);
	if (e->type == 0) {
		vp_namerev(e->name, e->nname, r); vb_put(&b, r, e->nname);
		vb_var(&b, e->rrtype);
		vp_namerev(e->bail, e->nbail, r); vb_put(&b, r, e->nbail);
		for (size_t i = 0; i < e->n_rds; i++) { vb_var(&b, e->nrds[i]); vb_put(&b, e->rds[i], e->nrds[i]); }
	} else {
		vb_put(&b, e->data, e->ndata);
		vb_var(&b, e->rrtype);
		vp_namerev(e->name, e->nname, r); vb_put(&b, r, e->nname);
		vb_put(&b, e->slice, e->nslice);
		vb_le16(&b, e->ndata);
	}
	if (b.n > sizeof e->key) abort();
	memcpy(e->key, b.d, b.n); e->nkey = b.n;
}
static unsigned vq_tmax = 12;	/* times are drawn from 1..vq_tmax (and rarely anything) */
static inline uint64_t vq_time(void) { return 1 + vp_range(vq_tmax); }
static inline void vq_times(struct vq_ent *e)
{
	e->first = vq_time(); e->last = e->first + vp_range(vq_tmax); e->count = 1 + vp_range(9);
}
static inline void vq_ip(uint8_t *p, unsigned len)
{
	static const uint8_t pool[][4] = { { 10, 1, 255, 255 }, { 10, 2, 0, 0 }, { 10, 1, 0, 1 }, { 10, 1, 0, 2 }, { 0, 0, 0, 0 }, { 255, 255, 255, 255 }, { 192, 168, 1, 1 }, { 192, 168, 1, 2 }, { 1, 'a', 0, 0 }, { 10, 1, 0, 255 } };
	memcpy(p, pool[vp_range(10)], 4);
	if (len == 16) {
		static const uint8_t mid[] = { 0, 1, 1, 28, 2, 255, 63, 64 };
		for (int i = 4; i < 16; i++) p[i] = vp_range(3) ? 0 : mid[vp_range(8)];
		if (vp_range(3) == 0) memset(p + 4, 255, 12);
		if (vp_range(2)) { p[4] = 1; }	/* continues like an A key */
		if (vp_range(4) == 0) { p[5] = vp_range(4); }
	}
	if (vp_range(12) == 0) p[len - 1] = vp_u8();
}
static inline void vq_genent(struct vq_db *db, struct vq_ent *e, int kind)
{
	static const uint16_t ot[] = { 16, 43, 46, 257, 65535, 300, 1, 28, 255, 127, 128 };
	struct vq_ent *o = db->n ? &db->e[vp_range(db->n)] : NULL;
	memset(e, 0, sizeof *e);
	vq_times(e);
	if (o) e->nname = vq_relname(e->name, o->name, o->nname); else e->nname = vq_name(e->name, 4);
	if (kind == 0) {	/* RRset */
		static const uint16_t t[] = { 1, 2, 28, 15, 16, 257, 6, 46, 65535, 128, 300, 255 };
		e->type = 0; e->rrtype = t[vp_range(vp_range(3) ? 4 : 12)];
		size_t p = 0; while (e->name[p] && vp_bool()) p += 1u + e->name[p];
		if (vp_range(6) == 0 && o) { memcpy(e->bail, o->name, o->nname); e->nbail = o->nname; }
		else { memcpy(e->bail, e->name + p, e->nname - p); e->nbail = e->nname - p; }
		e->n_rds = vp_range(3);
		for (size_t i = 0; i < e->n_rds; i++) { e->nrds[i] = vp_range(6); for (size_t j = 0; j < e->nrds[i]; j++) e->rds[i][j] = vp_u8(); }
	} else {
		e->type = 2;
		if (kind == 1) {	/* addresses */
			unsigned len = vp_range(3) == 0 ? 16 : 4;
			if (vp_range(4) == 0) len = 16;
			e->rrtype = len == 4 ? 1 : 28; e->ndata = len;
			if (o && o->type == 2 && vp_bool()) { memset(e->data, 0, len); memcpy(e->data, o->data, o->ndata < len ? o->ndata : len); if (vp_bool()) e->data[vp_range(len)] += 1; }
			else vq_ip(e->data, len);
		} else if (kind == 2) {	/* a name type */
			e->rrtype = vq_nametypes[vp_range(12)];
			if (o && o->type == 2 && vq_isname(o->rrtype)) e->ndata = vq_relname(e->data, o->data, vp_namelen(o->data, o->ndata));
			else e->ndata = vq_name(e->data, 3);
			switch (e->rrtype) {
			case 15: e->nslice = 2; break;
			case 33: e->nslice = 6; break;
			case 64: case 65: e->nslice = 2; { unsigned k = vp_range(6); while (k--) e->data[e->ndata++] = vp_u8(); } break;
			case 6: case 17: { uint8_t t[256]; size_t n = vq_name(t, 1); if (n < 40) { memcpy(e->data + e->ndata, t, n); e->ndata += n; } if (e->rrtype == 6) { memset(e->data + e->ndata, vp_u8(), 4); e->ndata += 4; } break; }
			case 47: case 30: { unsigned k = vp_range(6); while (k--) e->data[e->ndata++] = vp_u8(); break; }
			}
			for (size_t i = 0; i < e->nslice; i++) e->slice[i] = vp_range(3);
		} else {	/* anything else, often looking like one of the above */
			do e->rrtype = ot[vp_range(6)]; while (vq_isname(e->rrtype));
			if (o && o->type == 2 && vp_bool()) { e->ndata = o->ndata; memcpy(e->data, o->data, o->ndata); if (vp_bool() && e->ndata < 280) { unsigned k = vp_range(4); while (k--) e->data[e->ndata++] = vp_range(3) ? vp_range(3) : vp_u8(); } }
			else if (vp_range(3) == 0) { vq_ip(e->data, 4); e->ndata = 4; e->data[e->ndata++] = vp_bool() ? 1 : 2; unsigned k = vp_range(70); while (k--) e->data[e->ndata++] = vp_range(4) ? vp_range(3) : vp_u8(); }
			else if (vp_range(3) == 0) { vq_ip(e->data, 4); e->ndata = vp_range(5); }
			else { unsigned k = vp_range(20); while (k--) e->data[e->ndata++] = vp_range(4) ? vp_range(5) : vp_u8(); }
		}
	}
	vq_key(e);
}
/* kinds: string of entry kinds to draw from ('0' RRset, '1' address, '2' name type, '3' other) */
static inline void vq_gendb(struct vq_db *db, unsigned max, const char *kinds)
{
	unsigned n = 1 + vp_range(max), kn = strlen(kinds);
	db->n = 0;
	for (unsigned i = 0; i < n; i++) {
		struct vq_ent *e = &db->e[db->n];
		vq_genent(db, e, kinds[vp_range(kn)] - '0');
		size_t j = 0;
		while (j < db->n && !(db->e[j].nkey == e->nkey && memcmp(db->e[j].key, e->key, e->nkey) == 0)) j++;
		if (j == db->n) db->n++;
	}
}
static inline void vq_addkv(struct vp_tab *t, const uint8_t *k, size_t nk, const uint8_t *v, size_t nv) { vp_tab_add(t, k, nk, v, nv); }
static inline void vq_tripl(struct vp_buf *b, uint64_t f, uint64_t l, uint64_t c) { b->n = 0; vb_var(b, f); vb_var(b, l); vb_var(b, c); }
/* the table of the entries (those with use[i], if given) with their name indexes, version entries and time range */
static inline void vq_table(const struct vq_db *db, struct vp_tab *t, const bool *use, const struct vq_ent *times)
{
	static struct vp_buf v, k; static uint8_t set[65536];
	uint64_t mn = UINT64_MAX, mx = 0; bool any = false;
	for (size_t i = 0; i < db->n; i++) {
		const struct vq_ent *e = &db->e[i], *x = times ? &times[i] : e;
		if (use && !use[i]) continue;
		vq_tripl(&v, x->first, x->last, x->count);
		vq_addkv(t, e->key, e->nkey, v.d, v.n);
		any = true; if (x->first < mn) mn = x->first; if (x->last > mx) mx = x->last;
		/* index: once per name, with the union of the types */
		const uint8_t *nm; size_t nn;
		if (e->type == 0) nm = e->name, nn = e->nname;
		else if (vq_isname(e->rrtype)) nm = e->data, nn = vp_namelen(e->data, e->ndata);
		else continue;
		bool dup = false;
		memset(set, 0, sizeof set);
		for (size_t j = 0; j < db->n; j++) {
			const struct vq_ent *o = &db->e[j];
			if ((use && !use[j]) || o->type != e->type) continue;
			if (o->type == 2 && !vq_isname(o->rrtype)) continue;
			const uint8_t *m2 = o->type == 0 ? o->name : o->data; size_t n2 = o->type == 0 ? o->nname : vp_namelen(o->data, o->ndata);
			if (n2 != nn || memcmp(m2, nm, nn) != 0) continue;
			set[o->rrtype] = 1;
			if (j < i) dup = true;
		}
		if (dup) continue;
		k.n = 0; v.n = 0;
		if (e->type == 0) { vb_u8(&k, 1); vb_put(&k, nm, nn); }
		else { uint8_t r[256]; vp_namerev(nm, nn, r); vb_u8(&k, 3); vb_put(&k, r, nn); }
		unsigned c = 0, one = 0; for (unsigned q = 0; q < 65536; q++) if (set[q]) { c++; one = q; }
		if (nn % 3 == 0) v.n = 0;	/* old databases: no types recorded */
		else if (c == 1 && one < 256) vb_u8(&v, one);
		else if (c == 1) vb_le16(&v, one);
		else vb_index(&v, set);
		vq_addkv(t, k.d, k.n, v.d, v.n);
	}
	if (any) { k.n = v.n = 0; vb_u8(&k, 254); vb_var(&v, mn); vb_var(&v, mx); vq_addkv(t, k.d, k.n, v.d, v.n); }
	k.n = v.n = 0; vb_u8(&k, 255); vb_u8(&k, 0); vb_var(&v, 1); vq_addkv(t, k.d, k.n, v.d, v.n);
	vp_tab_sort(t, false);
}

/* ---- queries ---- */
struct vq_spec {
	int kind;			/* 0 RRset name, 1 RDATA name, 2 RDATA IP, 3 RDATA raw */
	uint8_t name[256]; size_t nname; bool cs;
	uint8_t lo[16], hi[16]; unsigned iplen;
	uint8_t raw[300]; size_t nraw;
	bool has_type; uint16_t rrtype;
	bool has_bail; uint8_t bail[256]; size_t nbail;
	bool fb, fa, lb, la; uint64_t tfb, tfa, tlb, tla;
	uint64_t offset;
	char text[2048], btext[1100], ttext[16];
};
static inline bool vq_wild(const uint8_t *l) { return l[0] == 1 && (l[1] == '*' || l[1] == '+'); }
static inline unsigned vq_count(const uint8_t *n) { unsigned c = 0; while (*n) { c++; n += 1u + *n; } return c; }
/* does the name p (length n) match the query name? */
static inline bool vq_namematch(const struct vq_spec *s, const uint8_t *p, size_t n)
{
	uint8_t q[256]; size_t nq = s->nname;
	memcpy(q, s->name, nq);
	if (!s->cs) vq_lower(q, nq);
	unsigned lp = vq_count(p), lq = vq_count(q);
	if (lq > 0 && vq_wild(q)) {	/* ends in the rest */
		bool plus = q[1] == '+';
		const uint8_t *r = q + 2; unsigned lr = lq - 1;
		if (lp < lr || (plus && lp != lr + 1)) return false;
		const uint8_t *x = p; for (unsigned i = 0; i < lp - lr; i++) x += 1u + *x;
		return (size_t)(p + n - x) == nq - 2 && memcmp(x, r, nq - 2) == 0;
	}
	const uint8_t *last = q; for (unsigned i = 0; i + 1 < lq; i++) last += 1u + *last;
	if (lq > 0 && vq_wild(last)) {	/* begins with the rest */
		bool plus = last[1] == '+';
		size_t h = last - q;
		if (lp < lq - 1 || (plus && lp != lq)) return false;
		return n > h && memcmp(p, q, h) == 0;
	}
	return n == nq && memcmp(p, q, n) == 0;
}
static inline bool vq_match_main(const struct vq_spec *s, const struct vq_ent *e)
{
	switch (s->kind) {
	case 0: return e->type == 0 && vq_namematch(s, e->name, e->nname);
	case 1: return e->type == 2 && vq_isname(e->rrtype) && vq_namematch(s, e->data, vp_namelen(e->data, e->ndata));
	case 2: return e->type == 2 && e->rrtype == (s->iplen == 4 ? 1 : 28) && e->ndata == s->iplen && memcmp(e->data, s->lo, s->iplen) >= 0 && memcmp(e->data, s->hi, s->iplen) <= 0;
	case 3: return e->type == 2 && e->ndata >= s->nraw && memcmp(e->data, s->raw, s->nraw) == 0;
	}
	return false;
}
static inline bool vq_match_type(const struct vq_spec *s, const struct vq_ent *e)
{
	if (s->has_type && e->rrtype != s->rrtype) return false;
	if (s->has_bail) {
		uint8_t b[256]; memcpy(b, s->bail, s->nbail); vq_lower(b, s->nbail);
		if (e->nbail != s->nbail || memcmp(e->bail, b, s->nbail) != 0) return false;
	}
	return true;
}
static inline bool vq_match_time(const struct vq_spec *s, uint64_t first, uint64_t last)
{
	return !(s->fb && first > s->tfb) && !(s->fa && first < s->tfa) && !(s->lb && last > s->tlb) && !(s->la && last < s->tla);
}
static inline void vq_genwild(struct vq_spec *s)
{
	uint8_t t[256]; size_t n = s->nname;
	switch (vp_range(6)) {
	case 0: case 1: {	/* left */
		size_t p = 0; while (s->name[p] && vp_range(3)) p += 1u + s->name[p];
		if (n - p + 2 > 255) return;
		t[0] = 1; t[1] = vp_bool() ? '*' : '+'; memcpy(t + 2, s->name + p, n - p);
		memcpy(s->name, t, n - p + 2); s->nname = n - p + 2; return; }
	case 2: case 3: {	/* right */
		size_t p = 0; while (s->name[p] && vp_range(3)) p += 1u + s->name[p];
		if (p + 3 > 255) return;
		s->name[p] = 1; s->name[p + 1] = vp_bool() ? '*' : '+'; s->name[p + 2] = 0; s->nname = p + 3; return; }
	}
}
static inline void vq_genspec(struct vq_spec *s, const struct vq_db *db, int kind)
{
	memset(s, 0, sizeof *s);
	s->kind = kind;
	const struct vq_ent *o = &db->e[vp_range(db->n)];
	for (unsigned tries = 0; tries < 8 && (kind == 0) != (o->type == 0); tries++) o = &db->e[vp_range(db->n)];
	switch (kind) {
	case 0:
		s->nname = vp_range(4) ? (memcpy(s->name, o->name, o->nname), o->nname) : vq_relname(s->name, o->name, o->nname);
		vq_genwild(s); break;
	case 1: {
		size_t l = o->type == 2 && vq_isname(o->rrtype) ? vp_namelen(o->data, o->ndata) : 0;
		if (l == 0) s->nname = vq_name(s->name, 3);
		else s->nname = vp_range(4) ? (memcpy(s->name, o->data, l), l) : vq_relname(s->name, o->data, l);
		vq_genwild(s); break; }
	case 2: {
		char a[64], b[64];
		s->iplen = vp_range(3) ? 4 : 16;
		int af = s->iplen == 4 ? AF_INET : AF_INET6;
		if (o->type == 2 && o->ndata >= 4 && vp_range(4)) { memcpy(s->lo, o->data, o->ndata < s->iplen ? o->ndata : s->iplen); } else vq_ip(s->lo, s->iplen);
		memcpy(s->hi, s->lo, s->iplen);
		inet_ntop(af, s->lo, a, sizeof a);
		switch (vp_range(3)) {
		case 0: strcpy(s->text, a); break;
		case 1: {
			const struct vq_ent *o2 = &db->e[vp_range(db->n)];
			if (o2->type == 2 && o2->ndata >= 4 && vp_range(3)) { memset(s->hi, 0, 16); memcpy(s->hi, o2->data, o2->ndata < s->iplen ? o2->ndata : s->iplen); } else vq_ip(s->hi, s->iplen);
			if (memcmp(s->lo, s->hi, s->iplen) > 0 && vp_range(8)) { uint8_t t[16]; memcpy(t, s->lo, 16); memcpy(s->lo, s->hi, 16); memcpy(s->hi, t, 16); }
			inet_ntop(af, s->lo, a, sizeof a); inet_ntop(af, s->hi, b, sizeof b);
			sprintf(s->text, "%s-%s", a, b); break; }
		default: {
			unsigned pl = vp_range(s->iplen * 8 + 1);
			sprintf(s->text, "%s/%u", a, pl);
			for (unsigned i = 0; i < s->iplen * 8; i++) if (i >= pl) { s->lo[i / 8] &= ~(0x80 >> i % 8); s->hi[i / 8] |= 0x80 >> i % 8; }
			break; }
		}
		break; }
	case 3: {
		if (o->type == 2) { s->nraw = vp_range(4) ? o->ndata : vp_range(o->ndata + 1); memcpy(s->raw, o->data, s->nraw); }
		else { s->nraw = vp_range(5); for (size_t i = 0; i < s->nraw; i++) s->raw[i] = vp_range(4); }
		if (s->nraw == 0) { s->nraw = 1; s->raw[0] = vp_range(3); }	/* at least one byte */
		char *t = s->text; for (size_t i = 0; i < s->nraw; i++) t += sprintf(t, vp_bool() ? "%02x" : "%02X", s->raw[i]);
		break; }
	}
	if (kind < 2) {
		/* a name of several labels with wildcards at both ends has no defined meaning */
		unsigned nl = vq_count(s->name);
		if (nl >= 2 && vq_wild(s->name)) {
			uint8_t *last = s->name; for (unsigned i = 0; i + 1 < nl; i++) last += 1u + *last;
			if (vq_wild(last)) last[1] = 'a';
		}
		s->cs = vp_range(4) == 0;
		if (!s->cs) for (size_t i = 0; s->name[i]; i += 1u + s->name[i]) for (unsigned j = 1; j <= s->name[i]; j++)
			if (s->name[i + j] >= 'a' && s->name[i + j] <= 'z' && vp_range(6) == 0) s->name[i + j] -= 32;
		vq_text(s->text, s->name, s->nname);
		if (s->nname > 1 && vp_bool()) { size_t l = strlen(s->text); if (l > 1 && s->text[l - 2] != '\\') s->text[l - 1] = 0; }	/* final dot is optional */
	}
}
static inline void vq_genrrtype(struct vq_spec *s, const struct vq_db *db)
{
	static const char *const any[] = { "ANY", "any", "TYPE255", "type255", "ANY-DNSSEC", "any-dnssec" };
	if (vp_range(6) == 0) { strcpy(s->ttext, any[vp_range(6)]); return; }
	const struct vq_ent *o = &db->e[vp_range(db->n)];
	s->rrtype = vp_range(5) ? o->rrtype : 2;
	if (s->rrtype == 0 || s->rrtype == 255) return;
	if (s->kind == 1 && !vq_isname(s->rrtype)) s->rrtype = vq_nametypes[vp_range(12)];
	s->has_type = true;
	const char *m = wdns_rrtype_to_str(s->rrtype);
	if (m && vp_range(4)) { strcpy(s->ttext, m); if (vp_bool()) for (char *c = s->ttext; *c; c++) if (*c >= 'A' && *c <= 'Z') *c += 32; }
	else sprintf(s->ttext, "TYPE%u", s->rrtype);
}
static inline void vq_genbail(struct vq_spec *s, const struct vq_db *db)
{
	const struct vq_ent *o = &db->e[vp_range(db->n)];
	if (o->type != 0) return;
	s->has_bail = true; s->nbail = o->nbail; memcpy(s->bail, o->bail, o->nbail);
	if (vp_bool()) for (size_t i = 0; s->bail[i]; i += 1u + s->bail[i]) for (unsigned j = 1; j <= s->bail[i]; j++)
		if (s->bail[i + j] >= 'a' && s->bail[i + j] <= 'z' && vp_range(3) == 0) s->bail[i + j] -= 32;
	vq_text(s->btext, s->bail, s->nbail);
}
static inline void vq_gentimes(struct vq_spec *s)
{
	unsigned m = vp_range(16);
	s->fb = m & 1; s->fa = m & 2; s->lb = m & 4; s->la = m & 8;
#define T (vp_range(10) ? vp_range(2 * vq_tmax + 2) : vp_range(3) ? vp_edge64() : UINT64_MAX)
	s->tfb = T; s->tfa = T; s->tlb = T; s->tla = T;
#undef T
}
static inline void vq_notespec(const struct vq_spec *s)
{
	vp_note("%s \"%s\"%s%s%s%s%s offset %llu", s->kind == 0 ? "rrset" : s->kind == 1 ? "rdata name" : s->kind == 2 ? "rdata ip" : "rdata raw", s->text,
		s->cs ? " (case-sensitive)" : "", s->ttext[0] ? " type " : "", s->ttext, s->has_bail ? " bailiwick " : "", s->btext, (unsigned long long)s->offset);
	if (s->fb || s->fa || s->lb || s->la) {
		char b[200]; int n = 0;
		if (s->fb) n += sprintf(b + n, "first<=%llu ", (unsigned long long)s->tfb);
		if (s->fa) n += sprintf(b + n, "first>=%llu ", (unsigned long long)s->tfa);
		if (s->lb) n += sprintf(b + n, "last<=%llu ", (unsigned long long)s->tlb);
		if (s->la) n += sprintf(b + n, "last>=%llu ", (unsigned long long)s->tla);
		vp_note("%s", b);
	}
}
static inline void vq_notedb(const struct vq_db *db) { for (size_t i = 0; i < db->n; i++) { char t[80]; sprintf(t, "entry %zu first %llu last %llu count %llu key", i, (unsigned long long)db->e[i].first, (unsigned long long)db->e[i].last, (unsigned long long)db->e[i].count); vp_notehex(t, db->e[i].key, db->e[i].nkey); } }
static inline struct dnstable_query *vq_query(const struct vq_spec *s)
{
	static const dnstable_query_type T[] = { DNSTABLE_QUERY_TYPE_RRSET, DNSTABLE_QUERY_TYPE_RDATA_NAME, DNSTABLE_QUERY_TYPE_RDATA_IP, DNSTABLE_QUERY_TYPE_RDATA_RAW };
	struct dnstable_query *q = dnstable_query_init(T[s->kind]);
	if (s->cs) dnstable_query_set_case_sensitive(q, true);
	VP_CHECK(dnstable_query_set_data(q, s->text) == dnstable_res_success, "set_data(\"%s\") refused", s->text);
	if (s->ttext[0]) VP_CHECK(dnstable_query_set_rrtype(q, s->ttext) == dnstable_res_success, "set_rrtype(\"%s\") refused", s->ttext);
	if (s->has_bail) VP_CHECK(dnstable_query_set_bailiwick(q, s->btext) == dnstable_res_success, "set_bailiwick(\"%s\") refused", s->btext);
#define P(on, v, name) if (s->on) VP_CHECK(dnstable_query_set_filter_parameter(q, DNSTABLE_FILTER_PARAMETER_TIME_##name, &s->v, 8) == dnstable_res_success, "set " #name)
	P(fb, tfb, FIRST_BEFORE); P(fa, tfa, FIRST_AFTER); P(lb, tlb, LAST_BEFORE); P(la, tla, LAST_AFTER);
#undef P
	if (s->offset) VP_CHECK(dnstable_query_set_offset(q, s->offset) == dnstable_res_success, "set_offset");
	return q;
}
/* ---- results, as canonical byte strings ---- */
struct vq_res { uint8_t *d; size_t n; };
struct vq_list { struct vq_res r[400]; size_t n; };
static inline void vq_listadd(struct vq_list *l, const struct vp_buf *b) { if (l->n >= 400) vp_fail("more than 400 results"); l->r[l->n].d = malloc(b->n + 1); memcpy(l->r[l->n].d, b->d, b->n); l->r[l->n++].n = b->n; }
static inline void vq_listfree(struct vq_list *l) { for (size_t i = 0; i < l->n; i++) free(l->r[i].d); l->n = 0; }
static inline void vq_canon(struct vp_buf *b, int type, const uint8_t *nm, size_t nn, uint16_t t, const uint8_t *bl, size_t nb, uint64_t f, uint64_t l, uint64_t c)
{
	b->n = 0; vb_u8(b, type); vb_u8(b, nn); vb_put(b, nm, nn); vb_le16(b, t); vb_u8(b, nb); vb_put(b, bl, nb); vb_put(b, &f, 8); vb_put(b, &l, 8); vb_put(b, &c, 8);
}
static inline void vq_expect(struct vq_list *l, const struct vq_ent *e, uint64_t f, uint64_t la, uint64_t c)
{
	static struct vp_buf b;
	vq_canon(&b, e->type, e->name, e->nname, e->rrtype, e->bail, e->type == 0 ? e->nbail : 0, f, la, c);
	if (e->type == 0) for (size_t i = 0; i < e->n_rds; i++) { vb_le16(&b, e->nrds[i]); vb_put(&b, e->rds[i], e->nrds[i]); }
	else { vb_le16(&b, e->nslice + e->ndata); vb_put(&b, e->slice, e->nslice); vb_put(&b, e->data, e->ndata); }
	vq_listadd(l, &b);
}
static inline void vq_got(struct vq_list *l, struct dnstable_entry *e)
{
	static struct vp_buf b;
	const uint8_t *nm, *bl = NULL, *rd; size_t nn, nb = 0, nr, rl; uint16_t t; uint64_t f, la, c;
	int ty = dnstable_entry_get_type(e);
	VP_CHECK(ty == 0 || ty == 2, "a result of type %d", ty);
	VP_CHECK(dnstable_entry_get_rrname(e, &nm, &nn) && dnstable_entry_get_rrtype(e, &t) && dnstable_entry_get_num_rdata(e, &nr) && dnstable_entry_get_time_first(e, &f) && dnstable_entry_get_time_last(e, &la) && dnstable_entry_get_count(e, &c), "result accessors");
	if (ty == 0) VP_CHECK(dnstable_entry_get_bailiwick(e, &bl, &nb), "bailiwick");
	vq_canon(&b, ty, nm, nn, t, bl, nb, f, la, c);
	for (size_t i = 0; i < nr; i++) { VP_CHECK(dnstable_entry_get_rdata(e, i, &rd, &rl), "rdata"); vb_le16(&b, rl); vb_put(&b, rd, rl); }
	vq_listadd(l, &b);
}
static inline int vq_rescmp(const void *a, const void *b) { const struct vq_res *x = a, *y = b; return vp_keycmp(x->d, x->n, y->d, y->n); }
static inline void vq_sort(struct vq_list *l) { qsort(l->r, l->n, sizeof *l->r, vq_rescmp); }
static inline bool vq_same(const struct vq_list *a, const struct vq_list *b)
{
	if (a->n != b->n) return false;
	for (size_t i = 0; i < a->n; i++) if (vq_rescmp(&a->r[i], &b->r[i]) != 0) return false;
	return true;
}
static inline void vq_dumplist(const char *n, const struct vq_list *l) { for (size_t i = 0; i < l->n; i++) vp_notehex(n, l->r[i].d, l->r[i].n); }
/* run to the end; the entries arrive as accessor values */
static inline void vq_run(struct dnstable_iter *it, struct vq_list *out)
{
	struct dnstable_entry *e = NULL;
	VP_CHECK(it != NULL, "no iterator");
	while (dnstable_iter_next(it, &e) == dnstable_res_success) { vq_got(out, e); dnstable_entry_destroy(&e); }
	e = NULL;
	VP_CHECK(dnstable_iter_next(it, &e) != dnstable_res_success, "the search yields results after its end");
}
static inline void vq_compare(struct vq_list *got, struct vq_list *want, const char *what)
{
	vq_sort(got); vq_sort(want);
	if (!vq_same(got, want)) {
		vq_dumplist("got", got); vq_dumplist("want", want);
		size_t i = 0, j = 0; const char *k = "?";
		while (i < got->n && j < want->n) { int c = vq_rescmp(&got->r[i], &want->r[j]); if (c == 0) { i++; j++; } else { k = c < 0 ? "unexpected" : "missing"; goto out; } }
		k = i < got->n ? "unexpected" : "missing";
out:
		vp_fail("%s: %s result (%zu returned, %zu expected)", what, k, got->n, want->n);
	}
}

/* does the entry, with the given times, satisfy every restriction of the query? */
static inline bool vq_match(const struct vq_spec *s, const struct vq_ent *e, uint64_t f, uint64_t l) { return vq_match_main(s, e) && vq_match_type(s, e) && vq_match_time(s, f, l); }
/* one search over one source against the reference; the multiset of results must agree */
static inline void vq_search(const struct vq_db *db, const struct vq_spec *s, struct vp_tab *t, const char *what)
{
	static struct vq_list got, want;
	struct mtbl_source *src = vp_tab_source(t);
	struct dnstable_query *q = vq_query(s);
	struct dnstable_iter *it = dnstable_query_iter(q, src);
	got.n = want.n = 0;
	vq_run(it, &got);
	for (size_t i = 0; i < db->n; i++) if (vq_match(s, &db->e[i], db->e[i].first, db->e[i].last)) vq_expect(&want, &db->e[i], db->e[i].first, db->e[i].last, db->e[i].count);
	if (want.n) vp_nontrivial();
	vq_compare(&got, &want, what);
	vq_listfree(&got); vq_listfree(&want);
	dnstable_iter_destroy(&it); dnstable_query_destroy(&q); mtbl_source_destroy(&src);
	VP_CHECK(vp_live_iters == 0 && vp_live_sources == 0, "the search leaves %ld iterators and %ld sources behind", vp_live_iters, vp_live_sources);
}
/* the verdict of dnstable_query_filter about every entry: all restrictions except the looked-up name, address or bytes */
static inline void vq_filter(const struct vq_db *db, const struct vq_spec *s)
{
	static struct vp_buf v;
	struct dnstable_query *q = vq_query(s);
	for (size_t i = 0; i < db->n; i++) {
		const struct vq_ent *e = &db->e[i];
		bool pass = vp_bool(), want;
		if ((s->kind == 0) != (e->type == 0)) continue;
		vq_tripl(&v, e->first, e->last, e->count);
		struct dnstable_entry *x = dnstable_entry_decode(e->key, e->nkey, v.d, v.n);
		VP_CHECK(x != NULL, "entry %zu does not decode", i);
		VP_CHECK(dnstable_query_filter(q, x, &pass) == dnstable_res_success, "dnstable_query_filter fails for entry %zu", i);
		want = vq_match_type(s, e) && vq_match_time(s, e->first, e->last);
		if (s->kind == 1 && !vq_isname(e->rrtype)) want = false;
		if (s->kind == 2 && e->rrtype != (s->iplen == 4 ? 1 : 28)) want = false;
		VP_CHECK(pass == want, "dnstable_query_filter says %d for entry %zu, the restrictions say %d", pass, i, want);
		dnstable_entry_destroy(&x);
	}
	dnstable_query_destroy(&q);
}
#endif

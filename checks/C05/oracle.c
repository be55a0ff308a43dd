#include "vp_gen.h"
#include <dnstable.h>
#include "dnstable/dnstable-private.h"

/* ---- reference decoding ---- */
static struct { bool ok; int type; uint8_t name[256]; size_t nname; uint8_t bail[256]; size_t nbail; uint32_t rrtype;
	const uint8_t *rd[4096]; size_t rdlen[4096]; size_t nrd; uint8_t comb[70000]; uint64_t first, last, count; uint32_t ver; int vtype; } R;
static void trip(const uint8_t *v, size_t n)
{
	uint64_t x[3]; size_t p = 0;
	for (int i = 0; i < 3; i++) { size_t l = vp_rdvar(v + p, n - p, 10, &x[i]); if (!l) { R.ok = false; return; } p += l; }
	if (p != n) { R.ok = false; return; }
	R.first = x[0]; R.last = x[1] ? x[1] : x[0]; R.count = x[2] ? x[2] : 1;
}
static bool num32(const uint8_t *b, size_t n, size_t *p, uint32_t *v)
{
	uint64_t x; size_t l = vp_rdvar(b + *p, n - *p, 5, &x);
	*p += l; *v = (uint32_t)x; return l > 0;
}
static void ref(const uint8_t *k, size_t nk, const uint8_t *v, size_t nv)
{
	R.ok = false; R.nrd = 0;
	if (nk == 0) return;
	R.type = k[0];
	const uint8_t *b = k + 1; size_t n = nk - 1, p = 0, l;
	switch (k[0]) {
	case 0:
		if (!(l = vp_namelen(b, n))) return;
		vp_namerev(b, l, R.name); R.nname = l; p = l;
		if (!num32(b, n, &p, &R.rrtype) || R.rrtype > 65535) return;
		if (!(l = vp_namelen(b + p, n - p))) return;
		vp_namerev(b + p, l, R.bail); R.nbail = l; p += l;
		while (p < n) {
			uint32_t rl;
			if (!num32(b, n, &p, &rl) || rl > 65535 || rl > n - p) return;
			R.rd[R.nrd] = b + p; R.rdlen[R.nrd++] = rl; p += rl;
		}
		R.ok = true; trip(v, nv); return;
	case 1: case 3:
		if (vp_namelen(b, n) != n || n == 0) return;
		if (k[0] == 1) memcpy(R.name, b, n); else vp_namerev(b, n, R.name);
		R.nname = n; R.ok = true; return;
	case 2: {
		if (n < 2) return;
		size_t dl = b[n - 2] | b[n - 1] << 8; n -= 2;
		if (dl > n) return;
		p = dl;
		if (!num32(b, n, &p, &R.rrtype) || R.rrtype > 65535) return;
		if (!(l = vp_namelen(b + p, n - p))) return;
		vp_namerev(b + p, l, R.name); R.nname = l; p += l;
		if (n - p + dl > 65535) return;
		memcpy(R.comb, b + p, n - p); memcpy(R.comb + (n - p), b, dl);
		R.rd[0] = R.comb; R.rdlen[0] = n - p + dl; R.nrd = 1;
		R.ok = true; trip(v, nv); return; }
	case 254: {
		uint64_t x, y; size_t a = vp_rdvar(v, nv, 10, &x), c = a ? vp_rdvar(v + a, nv - a, 10, &y) : 0;
		if (!a || !c || a + c != nv) return;
		R.first = x; R.last = y; R.ok = true; return; }
	case 253: R.ok = true; return;
	case 255:
		if (n != 1 || nv == 0) return;
		R.vtype = b[0];
		if (!num32(v, nv, &p, &R.ver) || p != nv) return;
		R.ok = true; return;
	default: return;
	}
}
/* ---- generation ---- */
static void rdata(struct vp_buf *o, size_t n) { while (n--) vb_u8(o, vp_u8()); }
static void gen_key(struct vp_buf *o, int type)
{
	uint8_t tmp[300]; static struct vp_buf t;
	vb_u8(o, type);
	switch (type) {
	case 0:
		vb_name(o, 5, true);
		vb_var(o, vp_range(30) ? vp_rrtype() : vp_edge32());
		vb_name(o, 4, true);
		for (unsigned i = vp_range(5); i-- > 0; ) { size_t n = vp_range(50) ? vp_range(20) : vp_range(400); vb_var(o, n); rdata(o, n); }
		break;
	case 1: case 3: vb_name(o, 6, true); break;
	case 2: {
		size_t dl = vp_range(12), sl = vp_range(3) ? 0 : vp_range(9);
		rdata(o, dl);
		vb_var(o, vp_range(30) ? vp_rrtype() : vp_edge32());
		vb_name(o, 4, true);
		rdata(o, sl);
		vb_le16(o, dl);
		break; }
	case 253: rdata(o, vp_range(20)); break;
	case 255: rdata(o, vp_range(20) ? 1 : vp_range(4)); break;
	default: rdata(o, vp_range(4)); break;
	}
	(void)tmp; (void)t;
}
static void gen_val(struct vp_buf *o, int type)
{
	static uint8_t set[65536];
	switch (type) {
	case 0: case 2: { uint64_t a = vp_edge64(), b = vp_edge64(), c = vp_edge64(); vb_var(o, a); vb_var(o, b); vb_var(o, c); break; }
	case 254: { uint64_t a = vp_edge64(), b = vp_edge64(); vb_var(o, a); vb_var(o, b); break; }
	case 1: case 3: if (vp_bool()) vb_genindex(o, set); if (o->n > 2000) o->n = 0; break;
	case 255: vb_var(o, vp_edge32()); break;
	default: rdata(o, vp_range(4));
	}
}
static void mutate(struct vp_buf *b)
{
	unsigned k = vp_range(8);
	if (b->n == 0) return;
	switch (k) {
	case 0: case 1: b->n -= 1 + vp_range(b->n > 6 ? 6 : b->n); break;
	case 2: b->d[b->n - 1] |= 0x80; break;
	case 3: b->d[vp_range(b->n)] = vp_u8(); break;
	case 4: b->d[vp_range(b->n)] ^= 1u << vp_range(8); break;
	case 5: vb_u8(b, vp_u8()); break;
	case 6: { unsigned at = vp_range(b->n); memmove(b->d + at + 1, b->d + at, b->n - at); b->n++; b->d[at] = vp_u8(); break; }
	case 7: { unsigned at = vp_range(b->n); memmove(b->d + at, b->d + at + 1, b->n - at - 1); b->n--; break; }
	}
}
static struct vp_buf K, V;
void vp_case(void)
{
	static const int T[] = { 0, 2, 0, 1, 3, 254, 253, 255, 2, 7 };
	int type = T[vp_range(10)];
	unsigned shape = vp_range(64);
	K.n = V.n = 0;
	if (shape == 0) { vb_u8(&K, 0); K.n = 1; for (unsigned i = 0; i < 300; i++) vb_u8(&K, i % 64 == 0 ? 63 : 'x'); K.d[0] = vp_bool() ? 1 : 3; K.n = 1 + 255 + vp_range(40); if (vp_bool()) K.d[K.n - 1] = 0; }
	else if (shape == 1) { type = 2; vb_u8(&K, 2); /* two long parts */
		static struct vp_buf big; size_t dl = 60000 + vp_range(5536); (void)big;
		static uint8_t long_[70000 * 2]; size_t n = 0; long_[n++] = 2; memset(long_ + n, 'd', dl); n += dl; long_[n++] = 1; long_[n++] = 0;
		size_t sl = vp_range(12000); memset(long_ + n, 's', sl); n += sl; long_[n++] = dl; long_[n++] = dl >> 8;
		V.n = 0; gen_val(&V, 2);
		uint8_t *k = vp_dup(long_, n), *v = vp_dup(V.d, V.n);
		ref(k, n, v, V.n);
		struct dnstable_entry *e = dnstable_entry_decode(k, n, v, V.n);
		VP_CHECK((e != NULL) == R.ok, "long RDATA key (%zu + %zu bytes): decoded %d, want %d", dl, sl, e != NULL, R.ok);
		if (e) { const uint8_t *rd; size_t rl; VP_CHECK(dnstable_entry_get_rdata(e, 0, &rd, &rl) == dnstable_res_success && rl == R.rdlen[0] && memcmp(rd, R.rd[0], rl) == 0, "long RDATA differs"); }
		dnstable_entry_destroy(&e); free(k); free(v); return; }
	else if (shape == 2) {	/* an RRset with long RDATA */
		static uint8_t long_[140000]; size_t n = 0; unsigned k = 1 + vp_range(2);
		memcpy(long_, "\0\1a\0\20\1a\0", n = 8);
		while (k--) { static struct vp_buf l; size_t x = vp_range(2) ? 32000 + vp_range(33600) : vp_range(300); l.n = 0; vb_var(&l, x); memcpy(long_ + n, l.d, l.n); n += l.n; memset(long_ + n, 'r', x); if (x) long_[n + x - 1] = 'e'; n += x; }
		V.n = 0; gen_val(&V, 0);
		uint8_t *q = vp_dup(long_, n), *v = vp_dup(V.d, V.n);
		ref(q, n, v, V.n);
		struct dnstable_entry *e = dnstable_entry_decode(q, n, v, V.n);
		VP_CHECK((e != NULL) == R.ok, "RRset key with long RDATA (%zu bytes): decoded %d, want %d", n, e != NULL, R.ok);
		for (size_t i = 0; e && i < R.nrd; i++) { const uint8_t *rd; size_t rl; VP_CHECK(dnstable_entry_get_rdata(e, i, &rd, &rl) == dnstable_res_success && rl == R.rdlen[i] && memcmp(rd, R.rd[i], rl) == 0, "long RDATA %zu of an RRset differs", i); }
		dnstable_entry_destroy(&e); free(q); free(v); return; }
	else { gen_key(&K, type); gen_val(&V, type); }
	unsigned muts = vp_range(3) ? 0 : 1 + vp_range(2);
	while (muts--) mutate(vp_bool() ? &K : &V);
	if (vp_range(200) == 0) K.n = 0;
	uint8_t *k = vp_dup(K.d, K.n), *v = vp_dup(V.d, V.n);
	vp_notehex("key", k, K.n); vp_notehex("val", v, V.n > 500 ? 500 : V.n);
	ref(k, K.n, v, V.n);
	struct dnstable_entry *e = dnstable_entry_decode(k, K.n, v, V.n);
	VP_CHECK((e != NULL) == R.ok, "decoded: %d, want %d", e != NULL, R.ok);
	if (K.n) { size_t off = 0; (void)off; }
	/* the entry owns its data */
	uint8_t *kc = vp_dup(K.d, K.n), *vc = vp_dup(V.d, V.n);
	if (e != NULL) {
		size_t delta = 0; (void)delta;
		for (size_t i = 0; i < R.nrd; i++) if (R.rd[i] >= k && R.rd[i] < k + K.n + 1) R.rd[i] = kc + (R.rd[i] - k);
		memset(k, 0xEE, K.n); memset(v, 0xEE, V.n);
		int t = R.type;
		const uint8_t *p; size_t n; uint64_t x; uint16_t rt; uint32_t ver; dnstable_entry_type vt; const char *si;
		VP_CHECK((int)dnstable_entry_get_type(e) == t, "type %d, want %d", dnstable_entry_get_type(e), t);
		bool both = t == 0 || t == 2;
		VP_CHECK((dnstable_entry_get_rrname(e, &p, &n) == dnstable_res_success) == (both || t == 1), "get_rrname applies wrongly");
		if (both || t == 1) VP_CHECK(n == R.nname && memcmp(p, R.name, n) == 0, "owner name differs");
		VP_CHECK((dnstable_entry_get_rdata_name(e, &p, &n) == dnstable_res_success) == (t == 3), "get_rdata_name applies wrongly");
		if (t == 3) VP_CHECK(n == R.nname && memcmp(p, R.name, n) == 0, "RDATA name differs");
		VP_CHECK((dnstable_entry_get_bailiwick(e, &p, &n) == dnstable_res_success) == (t == 0), "get_bailiwick applies wrongly");
		if (t == 0) VP_CHECK(n == R.nbail && memcmp(p, R.bail, n) == 0, "bailiwick differs");
		VP_CHECK((dnstable_entry_get_rrtype(e, &rt) == dnstable_res_success) == both, "get_rrtype applies wrongly");
		if (both) VP_CHECK(rt == R.rrtype, "rrtype %u, want %u", rt, R.rrtype);
		VP_CHECK((dnstable_entry_get_num_rdata(e, &n) == dnstable_res_success) == both, "get_num_rdata applies wrongly");
		if (both) {
			VP_CHECK(n == R.nrd, "%zu RDATA, want %zu", n, R.nrd);
			for (size_t i = 0; i < R.nrd; i++) VP_CHECK(dnstable_entry_get_rdata(e, i, &p, &n) == dnstable_res_success && n == R.rdlen[i] && memcmp(p, R.rd[i], n) == 0, "RDATA %zu differs", i);
		}
		size_t beyond = R.nrd + (both ? vp_range(3) : vp_range(2));
		VP_CHECK(dnstable_entry_get_rdata(e, beyond, &p, &n) == dnstable_res_failure, "RDATA %zu of %zu exists", beyond, R.nrd);
		VP_CHECK((dnstable_entry_get_time_first(e, &x) == dnstable_res_success) == (both || t == 254), "get_time_first applies wrongly");
		if (both || t == 254) VP_CHECK(x == R.first, "time_first differs");
		VP_CHECK((dnstable_entry_get_time_last(e, &x) == dnstable_res_success) == (both || t == 254), "get_time_last applies wrongly");
		if (both || t == 254) VP_CHECK(x == R.last, "time_last differs");
		VP_CHECK((dnstable_entry_get_count(e, &x) == dnstable_res_success) == both, "get_count applies wrongly");
		if (both) VP_CHECK(x == R.count, "count differs");
		VP_CHECK((dnstable_entry_get_source_info(e, &si) == dnstable_res_success) == (t == 253), "get_source_info applies wrongly");
		if (t == 253) VP_CHECK(memcmp(si, kc + 1, K.n - 1) == 0 && ((K.n > 1 && kc[K.n - 1] == 0) || si[K.n - 1] == 0), "source info differs");
		VP_CHECK((dnstable_entry_get_version(e, &ver) == dnstable_res_success) == (t == 255), "get_version applies wrongly");
		if (t == 255) VP_CHECK(ver == R.ver, "version differs");
		VP_CHECK((dnstable_entry_get_version_type(e, &vt) == dnstable_res_success) == (t == 255), "get_version_type applies wrongly");
		if (t == 255) VP_CHECK((int)vt == R.vtype, "version type differs");
		vp_nontrivial();
	}
	dnstable_entry_destroy(&e);
	VP_CHECK(e == NULL, "destroy leaves the pointer");
	free(k); free(v); free(kc); free(vc);
}

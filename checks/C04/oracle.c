#include "vp_gen.h"
#include <setjmp.h>
#include "dnstable/dnstable-private.h"
/* a failed assertion stops the process; here it ends the call */
static jmp_buf stop_; static bool catching;
#undef assert
#define assert(c) do { if (!(c)) { if (catching) longjmp(stop_, 1); vp_fail("merge stops the process: assertion %s", #c); } } while (0)
#include "dnstable/merge.c"
#undef assert

static uint8_t s0[65536], s1[65536], s2[65536];
static struct vp_buf B;
struct val { uint8_t *p; size_t n; };
static struct val take(void) { struct val v = { vp_dup(B.d, B.n), B.n }; B.n = 0; return v; }
static struct val merge(const uint8_t *k, size_t nk, struct val a, struct val b)
{
	struct val r = { NULL, 12345 };
	dnstable_merge_func(NULL, k, nk, a.p, a.n, b.p, b.n, &r.p, &r.n);
	return r;
}
static int type;
static void gen(struct vp_buf *o, uint8_t *set)
{
	switch (type) {
	case 0: case 2: { uint64_t a = vp_edge64(), b = vp_edge64(), c = vp_edge64(); vb_var(o, a); vb_var(o, b); vb_var(o, c); break; }
	case 1: case 3: if (vp_range(8)) vb_genindex(o, set); break;
	case 254: if (vp_range(8)) { uint64_t a = vp_edge64(), b = vp_edge64(); vb_var(o, a); vb_var(o, b); } break;
	case 255: if (vp_range(6)) vb_var(o, vp_edge32()); break;
	default: { unsigned n = vp_range(9); while (n--) vb_u8(o, vp_u8()); } break;
	}
}
static uint64_t mn(uint64_t a, uint64_t b) { return a < b ? a : b; }
static uint64_t mx(uint64_t a, uint64_t b) { return a > b ? a : b; }
/* the merged value, from the statement */
static bool want(const uint8_t *k, size_t nk, struct val a, struct val b, struct vp_buf *o)
{
	uint64_t x[3], y[3]; size_t i, p;
	o->n = 0;
	switch (nk ? k[0] : 77) {
	case 0: case 2:
		for (i = p = 0; i < 3; i++) p += vp_rdvar(a.p + p, a.n - p, 10, &x[i]);
		for (i = p = 0; i < 3; i++) p += vp_rdvar(b.p + p, b.n - p, 10, &y[i]);
		vb_var(o, mn(x[0], y[0])); vb_var(o, mx(x[1], y[1])); vb_var(o, x[2] + y[2]);
		return true;
	case 254:
		if (nk != 1 || a.n == 0 || b.n == 0) return true;
		for (i = p = 0; i < 2; i++) p += vp_rdvar(a.p + p, a.n - p, 10, &x[i]);
		for (i = p = 0; i < 2; i++) p += vp_rdvar(b.p + p, b.n - p, 10, &y[i]);
		vb_var(o, mn(x[0], y[0])); vb_var(o, mx(x[1], y[1]));
		return true;
	case 255:
		if (nk != 2 || a.n == 0 || b.n == 0 || k[1] > 3) return true;
		vp_rdvar(a.p, a.n, 5, &x[0]); vp_rdvar(b.p, b.n, 5, &y[0]);
		vb_var(o, mn((uint32_t)x[0], (uint32_t)y[0]));
		return true;
	default: return true;
	}
}
static void check_index(struct val a, struct val b, struct val r)
{
	if (a.n == 0 || b.n == 0) { VP_CHECK(r.p != NULL && r.n == 0, "merging with an empty index gives %zu bytes", r.n); return; }
	int na = vp_ref_index(a.p, a.n, s0), nb = vp_ref_index(b.p, b.n, s1);
	if (na < 0 || nb < 0) {
		bool same = a.n == b.n && memcmp(a.p, b.p, a.n) == 0;
		VP_CHECK(r.p == NULL || (same && r.n == a.n && memcmp(r.p, a.p, a.n) == 0), "ill-formed index merged into %zu bytes", r.n);
		return;
	}
	if (na == 0 || nb == 0) return;
	int u = 0;
	for (int t = 0; t < 65536; t++) u += s0[t] |= s1[t];
	if (u == 65536) return;
	VP_CHECK(r.p != NULL, "well-formed indexes (%d, %d types) failed to merge", na, nb);
	int nr = vp_ref_index(r.p, r.n, s2);
	VP_CHECK(nr == u && r.n > 0, "merged index has %d types, want %d", nr, u);
	for (int t = 0; t < 65536; t++) VP_CHECK(s2[t] == s0[t], "type %d: in merged index %d, in inputs %d", t, s2[t], s0[t]);
	/* canonical blocks: ascending, no empty block */
	rrtype_unpacked_set *rs = malloc(sizeof(*rs));
	VP_CHECK(rrtype_union_unpack(r.p, r.n, rs) == u, "merged index is not decodable");
	free(rs);
}
static bool same(struct val x, struct val y)
{
	if (x.n == y.n && memcmp(x.p, y.p, x.n) == 0) return true;
	if (type != 1 && type != 3) return false;
	if (!x.n || !y.n) return false;
	return vp_ref_index(x.p, x.n, s0) == vp_ref_index(y.p, y.n, s1) && memcmp(s0, s1, 65536) == 0;
}
static void mutate(struct val *v)
{
	if (vp_range(3) == 0 && v->n) { uint8_t *q = vp_dup(v->p, --v->n); free(v->p); v->p = q; return; }
	if (vp_range(2) && v->n) { v->p[vp_range(v->n)] ^= 1u << vp_range(8); return; }
	if (v->n) v->p[v->n - 1] |= 0x80;
}
void vp_case(void)
{
	static const int types[] = { 0, 1, 2, 3, 254, 255, 1, 3, 253, 7 };
	type = types[vp_range(10)];
	uint8_t kb[24]; size_t nk = 1 + (vp_range(6) ? 0 : vp_range(8));
	if (type == 255 && vp_range(8)) nk = 2;
	if (type < 4) nk += vp_range(8);
	if (vp_range(60) == 0) nk = 0;
	for (size_t i = 0; i < nk; i++) kb[i] = i ? vp_u8() : type;
	if (type == 255 && nk == 2) kb[1] = vp_range(6) ? vp_range(4) : vp_u8();
	uint8_t *k = vp_dup(kb, nk);
	int eff = nk == 0 ? -1 : type;
	struct val a, b, c;
	gen(&B, s0); a = take(); gen(&B, s0); b = take(); gen(&B, s0); c = take();
	if ((eff == 1 || eff == 3) && a.n && vp_range(3) == 0) {	/* nearly equal values: one bit apart, anywhere */
		free(b.p); b.n = a.n; b.p = vp_dup(a.p, a.n);
		if (vp_range(8)) b.p[vp_bool() ? b.n - 1 - vp_range(b.n < 34 ? b.n : 34) : vp_range(b.n)] ^= 1u << vp_range(8);
	}
	vp_notehex("key", k, nk); vp_notehex("a", a.p, a.n > 300 ? 300 : a.n); vp_notehex("b", b.p, b.n > 300 ? 300 : b.n); vp_notehex("c", c.p, c.n > 300 ? 300 : c.n);
	bool isidx = eff == 1 || eff == 3;
	if (vp_range(6) == 0 && nk) {	/* ill-formed input: no merged value, no stray read */
		struct val *v = vp_bool() ? &a : &b;
		mutate(v); if (vp_bool()) mutate(v);
		if (isidx) { struct val r = merge(k, nk, a, b); check_index(a, b, r); free(r.p); }
		else if (a.n && b.n) {
			static struct val r; r.p = NULL; r.n = 0;
			uint64_t t; size_t p = 0, q = 0, l; int want_n = type == 254 ? (nk == 1 ? 2 : 0) : type < 4 ? 3 : 0; bool ok = true;
			for (int i = 0; i < want_n; i++) { l = vp_rdvar(a.p + p, a.n - p, 10, &t); ok &= l > 0; p += l; l = vp_rdvar(b.p + q, b.n - q, 10, &t); ok &= l > 0; q += l; }
			if (want_n && (p != a.n || q != b.n)) ok = false;
			if (type == 255 && nk == 2 && kb[1] < 4) ok = vp_rdvar(a.p, a.n, 5, &t) == a.n && vp_rdvar(b.p, b.n, 5, &t) == b.n;
			bool stopped = false;
			catching = true; if (setjmp(stop_)) stopped = true; else r = merge(k, nk, a, b);
			catching = false;
			if (!ok) VP_CHECK(stopped || r.p == NULL, "undecodable value merged into %zu bytes", r.n);
			else VP_CHECK(!stopped && r.p != NULL, "decodable values not merged");
			free(r.p);
		}
		free(a.p); free(b.p); free(c.p); free(k);
		vp_nontrivial();
		return;
	}
	struct val ab = merge(k, nk, a, b), ba = merge(k, nk, b, a);
	if (isidx) {
		check_index(a, b, ab);
		bool deg = false;	/* an index without types, or a union of all 65536 */
		int na = vp_ref_index(a.p, a.n, s0), nb = vp_ref_index(b.p, b.n, s1); vp_ref_index(c.p, c.n, s2);
		int u = 0; for (int t = 0; t < 65536; t++) u += s0[t] | s1[t] | s2[t];
		deg = u == 65536 || na < 0 || nb < 0;
		if (deg) goto out;
	} else {
		static struct vp_buf W;
		want(k, nk, a, b, &W);
		VP_CHECK(ab.p != NULL && ab.n == W.n && memcmp(ab.p, W.d, W.n) == 0, "merged value has %zu bytes, want %zu, or differs", ab.n, W.n);
	}
	VP_CHECK(ab.p && ba.p && same(ab, ba), "the order of the two values matters");
	struct val x = { vp_dup(ab.p, ab.n), ab.n };
	struct val ab_c = merge(k, nk, x, c), bc = merge(k, nk, b, c);
	VP_CHECK(bc.p != NULL, "second merge fails");
	struct val y = { vp_dup(bc.p, bc.n), bc.n };
	struct val a_bc = merge(k, nk, a, y), aa = merge(k, nk, a, a);
	VP_CHECK(ab_c.p && a_bc.p && same(ab_c, a_bc), "the grouping of three values matters");
	if (isidx) VP_CHECK(aa.p && same(aa, a), "an index merged with itself changes");
	free(x.p); free(y.p); free(ab_c.p); free(bc.p); free(a_bc.p); free(aa.p);
	vp_nontrivial();
out:
	free(a.p); free(b.p); free(c.p); free(ab.p); free(ba.p); free(k);
}

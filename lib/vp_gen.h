/* Generators and independent references shared by the oracles. */
#ifndef VP_GEN_H
#define VP_GEN_H
#include "vp_case.h"

struct vp_buf { uint8_t d[20000]; size_t n; };
static inline void vb_put(struct vp_buf *b, const void *p, size_t n) { if (b->n + n > sizeof(b->d)) abort(); if (n) memcpy(b->d + b->n, p, n); b->n += n; }
static inline void vb_u8(struct vp_buf *b, uint8_t c) { vb_put(b, &c, 1); }
static inline void vb_var(struct vp_buf *b, uint64_t v) { while (v >= 128) { vb_u8(b, (uint8_t)(v | 128)); v >>= 7; } vb_u8(b, (uint8_t)v); }
static inline void vb_le16(struct vp_buf *b, uint16_t v) { vb_u8(b, v & 255); vb_u8(b, v >> 8); }
/* reads one base-128 number of at most max bytes (and at most n); 0: none */
static inline size_t vp_rdvar(const uint8_t *p, size_t n, unsigned max, uint64_t *v)
{
	*v = 0;
	for (size_t i = 0; i < n && i < max; i++) {
		*v |= (uint64_t)(p[i] & 127) << (7 * i);
		if (!(p[i] & 128)) return i + 1;
	}
	return 0;
}

/* ---- RRtype index ---- */
/* fills set[65536] and returns the number of types, -1 if ill-formed */
static inline int vp_ref_index(const uint8_t *m, size_t n, uint8_t *set)
{
	memset(set, 0, 65536);
	if (n == 0) return 0;
	if (n == 1) { set[m[0]] = 1; return 1; }
	if (n == 2) { set[m[0] | m[1] << 8] = 1; return 1; }
	int last = -1, cnt = 0; size_t p = 0;
	while (p < n) {
		if (n - p < 2) return -1;
		int w = m[p], l = m[p + 1];
		if (w <= last || l < 1 || l > 32 || (size_t)l > n - p - 2) return -1;
		for (int b = 0; b < l * 8; b++) if (m[p + 2 + b / 8] >> (7 - b % 8) & 1) { set[w * 256 + b] = 1; cnt++; }
		last = w; p += 2 + l;
	}
	return cnt == 65536 ? -1 : cnt;
}
/* window blocks of set (canonical) */
static inline void vb_index(struct vp_buf *o, const uint8_t *set)
{
	for (int w = 0; w < 256; w++) {
		int top = -1; uint8_t bm[32] = { 0 };
		for (int b = 0; b < 256; b++) if (set[w * 256 + b]) { bm[b / 8] |= 0x80 >> b % 8; top = b / 8; }
		if (top < 0) continue;
		vb_u8(o, w); vb_u8(o, top + 1); vb_put(o, bm, top + 1);
	}
}
/* a few types around the ones the code knows */
static inline uint16_t vp_rrtype(void)
{
	static const uint16_t t[] = { 1, 2, 5, 6, 12, 15, 16, 28, 33, 39, 43, 46, 47, 48, 50, 51, 64, 65, 32769, 255, 257, 256, 0, 65535, 128, 127, 16384, 17, 30 };
	return vp_range(4) ? t[vp_range(sizeof(t) / sizeof(t[0]))] : vp_u16();
}
static inline void vb_genindex(struct vp_buf *o, uint8_t *set)
{
	unsigned k = vp_range(16);
	memset(set, 0, 65536);
	if (k < 2) { set[vp_range(2) ? 1 + vp_range(6) : vp_u8()] = 1; for (int t = 0; t < 256; t++) if (set[t]) vb_u8(o, t); return; }
	if (k < 4) { uint16_t t = vp_rrtype(); set[t] = 1; vb_le16(o, t); return; }
	unsigned n = 1 + vp_range(k < 10 ? 6 : 24);
	for (unsigned i = 0; i < n; i++) set[vp_rrtype()] = 1;
	if (k == 15) {	/* dense */
		unsigned lo = vp_u16(), len = vp_u16(), step = 1 + vp_range(4) * vp_range(70);
		for (unsigned t = lo; t < 65536 && t - lo < len; t += step) set[t] = 1;
	}
	if (k == 14 && vp_range(4) == 0) { uint16_t hole = vp_u16(); memset(set, 1, 65536); set[hole] = 0; }
	size_t before = o->n;
	vb_index(o, set);
	if (k == 13 && o->n - before < 300) {	/* trailing zero bytes in the last bitmap: legal, not canonical */
		size_t p = before; size_t last = p;
		while (p < o->n) { last = p; p += 2 + o->d[p + 1]; }
		while (o->d[last + 1] < 32 && vp_range(3)) { o->d[last + 1]++; vb_u8(o, 0); }
	}
}

/* ---- names (wire form) ---- */
static inline void vb_label(struct vp_buf *o, bool anybytes)
{
	static const char *const L[] = { "a", "b", "ab", "www", "com", "x-y", "*", "a.b", "z", "c\\d", "\001*", "a1", "org" };
	if (anybytes && vp_range(3) == 0) {
		unsigned l = vp_range(8) ? 1 + vp_range(4) : 1 + vp_range(63);
		vb_u8(o, l);
		for (unsigned i = 0; i < l; i++) { uint8_t c = vp_u8(); if (c >= 'A' && c <= 'Z') c += 32; vb_u8(o, c); }
	} else {
		const char *s = L[vp_range(sizeof(L) / sizeof(L[0]))];
		vb_u8(o, strlen(s)); vb_put(o, s, strlen(s));
	}
}
/* a well-formed name of at most 255 bytes with up to max labels */
static inline void vb_name(struct vp_buf *o, unsigned max, bool anybytes)
{
	size_t start = o->n;
	unsigned n = vp_range(max + 1);
	if (vp_range(40) == 0) n = 127;
	for (unsigned i = 0; i < n; i++) {
		size_t was = o->n;
		vb_label(o, anybytes);
		if (o->n - start > 254) { o->n = was; break; }
	}
	vb_u8(o, 0);
}
/* length of the uncompressed name at p, 0 if malformed */
static inline size_t vp_namelen(const uint8_t *p, size_t n)
{
	size_t i = 0;
	for (;;) {
		if (i >= n || p[i] > 63) return 0;
		if (p[i] == 0) return i + 1 <= 255 ? i + 1 : 0;
		i += 1u + p[i];
		if (i >= 255) return 0;
	}
}
/* labels in reverse order */
static inline void vp_namerev(const uint8_t *in, size_t len, uint8_t *out)
{
	size_t w = len - 1;
	out[w] = 0;
	for (size_t i = 0; in[i]; i += 1u + in[i]) { w -= 1u + in[i]; memcpy(out + w, in + i, 1u + in[i]); }
}
#endif

#include "vp_case.h"
#include "dnstable/entry.c"

/* independent reader: fills set[] and returns the number of types, -1 if ill-formed */
static int ref(const uint8_t *m, size_t n, uint8_t *set)
{
	memset(set, 0, 65536);
	if (n == 0) return 0;
	if (n == 1) { set[m[0]] = 1; return 1; }
	if (n == 2) { set[m[0] | m[1] << 8] = 1; return 1; }
	int last = -1, cnt = 0; size_t p = 0;
	while (p < n) {
		if (n - p < 2) return -1;
		int w = m[p], l = m[p + 1];
		if (w <= last || l < 1 || l > 32 || (size_t)l > n - p - 2) return -1;
		for (int b = 0; b < l * 8; b++) if (m[p + 2 + b / 8] >> (7 - b % 8) & 1) { set[w * 256 + b] = 1; cnt++; }
		last = w; p += 2 + l;
	}
	return cnt == 65536 ? -1 : cnt;
}
static uint8_t set[65536], seen[65536];
static rrtype_unpacked_set out;
void vp_case(void)
{
	uint8_t buf[9000]; size_t n = 0;
	unsigned kind = vp_range(8);
	if (kind == 0) { n = vp_range(4); for (size_t i = 0; i < n; i++) buf[i] = vp_u8(); }
	else if (kind == 1) { n = vp_range(40); for (size_t i = 0; i < n; i++) buf[i] = vp_range(3) ? vp_range(8) : vp_u8(); }
	else {
		/* window blocks, mostly well-formed */
		int w = kind == 2 ? 0 : (int)vp_range(4), full = kind == 3 && vp_range(20) == 0;
		unsigned blocks = full ? 256 : 1 + vp_range(kind == 4 ? 12 : 4);
		if (full) w = 0;
		for (unsigned b = 0; b < blocks && w < 256; b++) {
			unsigned l = full ? 32 : vp_range(16) == 0 ? vp_range(36) : 1 + vp_range(vp_bool() ? 32 : 4);
			buf[n++] = w; buf[n++] = l;
			for (unsigned i = 0; i < l; i++) buf[n++] = full ? 255 : vp_range(3) ? vp_u8() : vp_bool() ? 0 : 255;
			w += (!full && vp_range(24) == 0) ? 0 : 1 + (full ? 0 : vp_range(3) ? 0 : vp_range(80));
		}
		if (full && vp_bool()) buf[vp_range(n)] ^= 1u << vp_range(8);
		if (vp_range(12) == 0 && n > 0) n -= vp_range(n < 5 ? n : 5) ;
	}
	uint8_t *m = vp_dup(buf, n);
	vp_notehex("index", m, n > 600 ? 600 : n);
	int want = ref(m, n, set);
	int got = rrtype_union_unpack(m, n, &out);
	VP_CHECK(got == want, "unpack returns %d, want %d", got, want);
	if (want >= 0) {
		int prev = -1;
		for (int i = 0; i < got; i++) {
			VP_CHECK((int)out.rrtypes[i] > prev, "types out of order: %d after %d", out.rrtypes[i], prev);
			prev = out.rrtypes[i];
			VP_CHECK(set[prev], "type %d is not in the index", prev);
		}
	}
	bool rev = vp_bool();
	dnstable_entry_type et = rev ? DNSTABLE_ENTRY_TYPE_RDATA_NAME_REV : DNSTABLE_ENTRY_TYPE_RRSET_NAME_FWD;
	unsigned step = 1 + (vp_range(8) ? vp_range(97) : 0);
	for (unsigned t = step > 1 ? vp_range(step) : 0; t < 65536; t += t < 600 || t >= 65000 ? 1 : step) {
		bool a = rrtype_test(et, t, m, n);
		if (n == 0) {
			bool w = !rev || t == 2 || t == 5 || t == 6 || t == 12 || t == 15 || t == 33 || t == 39 || t == 64 || t == 65;
			VP_CHECK(a == w, "empty index, type %u: %d, want %d", t, a, w);
		} else if (want >= 0)
			VP_CHECK(a == (bool)set[t], "type %u: membership %d, want %d", t, a, set[t]);
	}
	if (want > 0 && n > 2)
		for (int i = 0; i < got; i += 1 + got / 64) VP_CHECK(rrtype_test(et, out.rrtypes[i], m, n), "type %u decoded but not a member", out.rrtypes[i]);
	if (n) vp_nontrivial();
	free(m);
}

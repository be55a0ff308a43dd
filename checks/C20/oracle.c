#include "vp_case.h"
#include "libmy/my_alloc.h"
#include "libmy/hex_decode.h"
#include "libmy/my_format.c"
void vp_case(void)
{
	char want[64], fmt[8];
	switch (vp_range(4)) {
	case 0: {	/* decimal */
		uint64_t v = vp_edge64(); size_t n = vp_range(25); const char *st = NULL; bool ask = vp_bool();
		vp_note("decimal %llu room %zu", (unsigned long long)v, n);
		int l = snprintf(want, sizeof(want), "%llu", (unsigned long long)v);
		char *d = malloc(n); memset(d, '#', n);
		size_t r = my_uint64_to_str(v, d, n, ask ? &st : NULL), e = n == 0 ? 0 : (size_t)l < n - 1 ? (size_t)l : n - 1;
		VP_CHECK(r == e, "%zu digits, want %zu", r, e);
		if (ask) VP_CHECK(st == (n ? d + n - 1 - e : d), "wrong start of the text");
		if (n) {
			VP_CHECK(d[n - 1] == 0 && !memcmp(d + n - 1 - e, want + l - e, e), "wrong digits %s", d + n - 1 - e);
			for (size_t i = 0; i + 1 + e < n; i++) VP_CHECK(d[i] == '#', "wrote in front of the number");
		}
		free(d); break; }
	case 1: {	/* bytes to hex */
		size_t len = vp_range(20), n = vp_range(45); bool up = vp_bool(); uint8_t *s = vp_bytes(len);
		vp_notehex("bytes", s, len); vp_note("room %zu", n);
		char *d = malloc(n);
		size_t fit = n == 0 ? 0 : 2 * len <= n - 1 ? len : (n - 1) / 2;
		size_t r = my_bytes_to_hex_str(s, len, up, d, n);
		VP_CHECK(r == 2 * fit, "%zu characters, want %zu", r, 2 * fit);
		for (size_t i = 0; i < fit; i++) { snprintf(want, sizeof(want), up ? "%02X" : "%02x", s[i]); VP_CHECK(d[2 * i] == want[0] && d[2 * i + 1] == want[1], "byte %zu", i); }
		if (n) VP_CHECK(d[r] == 0, "not terminated");
		free(d); free(s); break; }
	case 2: {	/* 16 bit to hex */
		uint16_t v = vp_u16(); size_t n = vp_range(8); bool up = vp_bool(); char *d = malloc(n);
		snprintf(want, sizeof(want), up ? "%04X" : "%04x", v);
		size_t r = my_uint16_to_hex_str(v, up, d, n), e = n >= 5 ? 4 : n >= 3 ? 2 : 0;
		vp_note("hex16 %u room %zu", v, n);
		VP_CHECK(r == e && !memcmp(d, want, e) && (n == 0 || d[e] == 0), "got %zu characters", r);
		free(d); break; }
	default: {	/* hex to bytes */
		size_t len = vp_range(30); char *t = malloc(len + 1); bool ok = len > 0 && len % 2 == 0; static const char H[] = "0123456789abcdefABCDEF";
		for (size_t i = 0; i < len; i++) {
			int c = vp_range(16) ? H[vp_range(22)] : vp_u8();
			if (c == 0) c = '/';
			t[i] = c; if (!strchr(H, c)) ok = false;
		}
		t[len] = 0;
		vp_note("hex text \"%s\"", t);
		uint8_t *raw = NULL; size_t n = 0;
		bool r = hex_decode(t, &raw, &n);
		VP_CHECK(r == ok, "hex_decode says %d, want %d", r, ok);
		if (ok) {
			VP_CHECK(n == len / 2, "%zu bytes, want %zu", n, len / 2);
			for (size_t i = 0; i < n; i++) { unsigned x; sscanf((memcpy(fmt, t + 2 * i, 2), fmt[2] = 0, fmt), "%x", &x); VP_CHECK(raw[i] == x, "byte %zu", i); }
			free(raw);
		}
		free(t); }
	}
	vp_nontrivial();
}

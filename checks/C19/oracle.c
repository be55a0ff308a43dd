#include "vp_case.h"
#include "libmy/b32_encode.c"
#define base32_alphabet base32_alphabet_d
#include "libmy/b32_decode.c"
#include "libmy/b64_encode.c"
#include "libmy/b64_decode.c"
static const char A32[] = "0123456789ABCDEFGHIJKLMNOPQRSTUV", A64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static int idx(const char *a, int c) { const char *p = c ? strchr(a, c) : NULL; return p ? p - a : -1; }
static size_t bits_enc(const char *a, unsigned w, const uint8_t *d, size_t n, char *o)	/* without padding */
{
	size_t k = 0; unsigned acc = 0, nb = 0;
	for (size_t i = 0; i < n; i++) { acc = acc << 8 | d[i]; nb += 8; while (nb >= w) { o[k++] = a[acc >> (nb - w) & ((1u << w) - 1)]; nb -= w; } acc &= 255; }
	if (nb) o[k++] = a[acc << (w - nb) & ((1u << w) - 1)];
	return k;
}
static void b64(const uint8_t *d, size_t n)
{
	char *want = malloc(n * 2 + 8); size_t k = bits_enc(A64, 6, d, n, want);
	while (k % 4) want[k++] = '=';
	char *got = malloc(k ? k : 1); size_t g = 0;
	base64_encodestate es; base64_init_encodestate(&es);
	for (size_t i = 0; i < n || vp_range(4) == 3; ) {
		size_t m = n - i ? vp_range(n - i + 1) : 0;
		if (vp_range(3) == 0) m = n - i;
		char *piece = (char *)vp_dup(d + i, m), *o = malloc(m * 2 + 2);
		int r = base64_encode_block(piece, m, o, &es);
		VP_CHECK(r >= 0 && g + r <= k, "base64 text too long");
		memcpy(got + g, o, r); g += r; i += m; free(piece); free(o);
	}
	char end[4]; int r = base64_encode_blockend(end, &es);
	VP_CHECK(r >= 0 && g + r == k, "base64 text of %zu bytes, want %zu", g + r, k);
	memcpy(got + g, end, r);
	VP_CHECK(!memcmp(got, want, k), "base64 text differs");
	/* decode, divided, with foreign characters thrown in */
	char *txt = malloc(k * 3 + 8); size_t t = 0;
	bool noise = vp_bool();
	for (size_t i = 0; i < k; i++) { while (noise && vp_range(6) == 0 && t < k * 2) { int c = vp_range(8) ? vp_u8() : '{'; if (idx(A64, c) < 0) txt[t++] = c; } txt[t++] = want[i]; }
	uint8_t *out = malloc(n + 1); size_t w = 0;
	base64_decodestate ds; base64_init_decodestate(&ds);
	for (size_t i = 0; i < t; ) {
		size_t m = vp_range(3) ? 1 + vp_range(t - i) : t - i;
		char *piece = (char *)vp_dup(txt + i, m), *o = calloc(m / 4 * 3 + 4, 1);
		int q = base64_decode_block(piece, m, o, &ds);
		VP_CHECK(q >= 0 && w + q <= n, "base64 decodes to too many bytes");
		memcpy(out + w, o, q); w += q; i += m; free(piece); free(o);
	}
	VP_CHECK(w == n && !memcmp(out, d, n), "base64 decodes to %zu bytes, want %zu", w, n);
	free(want); free(got); free(txt); free(out);
}
static void b32(const uint8_t *d, size_t n)
{
	char *want = malloc(n * 2 + 8); size_t k = bits_enc(A32, 5, d, n, want);
	size_t room = vp_range(4) ? k + vp_range(5) : vp_range(k + 1);
	char *got = malloc(room + 1); got[room] = 'x';
	size_t r = base32_encode(got, room, d, n);
	VP_CHECK(r == (room < k ? room : k), "base32 text of %zu bytes in %zu, want %zu", r, room, k);
	VP_CHECK(!memcmp(got, want, r) && got[room] == 'x', "base32 text differs");
	char *txt = malloc(k + 8); memcpy(txt, want, k); size_t t = k;
	for (size_t i = 0; i < k; i++) if (vp_range(3) == 0 && txt[i] >= 'A') txt[i] += 32;
	if (vp_bool()) while (t % 8) txt[t++] = '=';
	bool bad = k && vp_range(4) == 0; size_t at = 0;
	if (bad) { int c = vp_u8(); at = vp_range(k); if (c == '=' || (c < 128 && idx(A32, c >= 'a' && c <= 'z' ? c - 32 : c) >= 0)) c = 'W'; txt[at] = c; }
	char *piece = (char *)vp_dup(txt, t);
	size_t oroom = vp_range(4) ? n + vp_range(9) : vp_range(n + 1);
	uint8_t *out = malloc(oroom + 1); out[oroom] = 'y';
	size_t w = base32_decode(out, oroom, piece, t);
	VP_CHECK(out[oroom] == 'y', "base32_decode wrote past its buffer");
	if (bad) {
		if (oroom >= n) VP_CHECK(w == (size_t)-1, "a foreign character was accepted");
	} else {
		VP_CHECK(w == (oroom < n ? oroom : n), "base32 decodes to %zu bytes in %zu, want %zu", w, oroom, n);
		VP_CHECK(!memcmp(out, d, w), "base32 decodes to other bytes");
	}
	free(want); free(got); free(txt); free(piece); free(out);
}
void vp_case(void)
{
	size_t n = vp_range(40); uint8_t *d = vp_bytes(n);
	vp_notehex("data", d, n);
	b64(d, n); b32(d, n);
	int c = (signed char)vp_u8();
	VP_CHECK(base64_decode_value(c) == (c == '=' ? -2 : idx(A64, c)), "value of character %d", c);
	if (n) vp_nontrivial();
	free(d);
}

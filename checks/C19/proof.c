#include "vp_proof.h"
#include <string.h>
#include "libmy/b64_encode.h"
#include "libmy/b64_decode.h"
static int digit(char c) { return c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' ? 62 : c == '/' ? 63 : -1; }
static char text(unsigned v) { return v < 26 ? 'A' + v : v < 52 ? 'a' + v - 26 : v < 62 ? '0' + v - 52 : v == 62 ? '+' : v == 63 ? '/' : '='; }
int base64_decode_value(char value_in) ENS(RET == (value_in == '=' ? -2 : digit(value_in))) ASG();
void base64_init_encodestate(base64_encodestate *s) REQ(FRESH(s, sizeof(*s))) ENS(s->step == step_A && s->result == 0) ASG(*s);
void base64_init_decodestate(base64_decodestate *s) REQ(FRESH(s, sizeof(*s))) ENS(s->step == step_a && s->plainchar == 0) ASG(*s);
#define PEND(s) ((s)->step == step_A ? 0 : (s)->step == step_B ? 3 : 2)
/* memchr, as the C library specifies it */
void *memchr(const void *s, int c, size_t n) { for (size_t i = 0; i < n; i++) if (((const unsigned char *)s)[i] == (unsigned char)c) return (char *)s + i; return NULL; }
#include "libmy/b64_encode.c"
#include "libmy/b64_decode.c"
#include "libmy/b32_encode.c"
#define base32_alphabet base32_alphabet_d
#include "libmy/b32_decode.c"

void h_dval(void) { char c; base64_decode_value(c); VP_PROBE(); }
/* (these two from the initial value of their static table, which --dfcc would forget) */
void h_eval(void) { char c; __CPROVER_assume(c >= 0); __CPROVER_assert(base64_encode_value(c) == text(c), "the digit of the value"); VP_PROBE(); }
void h_einit(void) { base64_encodestate *s; base64_init_encodestate(s); VP_PROBE(); }
void h_dinit(void) { base64_decodestate *s; base64_init_decodestate(s); VP_PROBE(); }
void h_end(void)
{
	char o[3]; base64_encodestate s;
	__CPROVER_assume(s.step >= step_A && s.step <= step_C && s.result >= 0 && s.result <= 63);
	int want = s.step == step_A ? 0 : s.step == step_B ? 3 : 2;
	__CPROVER_assert(base64_encode_blockend(o + 3 - want, &s) == want, "length of the end");
	__CPROVER_assert(want == 0 || o[3 - want] == text(s.result) && o[4 - want] == '=' && o[2] == '=', "pending digit and padding");
	VP_PROBE();
}
/*
 * One call of the encoder from any state: a state with r pending bits holds
 * them; the output and the new pending bits are the digits of pending || input.
 */
#define NB 7
void h_eblock(void)
{
	char in[NB], out[NB * 2]; base64_encodestate s; int n, k;
	__CPROVER_assume(n >= 0 && n <= NB && s.step >= step_A && s.step <= step_C);
	unsigned r = s.step == step_A ? 0 : s.step == step_B ? 2 : 4;	/* pending bits, at the top of result's 6 */
	__CPROVER_assume(r == 0 || s.result >= 0 && s.result <= 63 && (s.result & (63 >> r)) == 0);
	unsigned __int128 acc = r ? (unsigned)s.result >> (6 - r) : 0; unsigned bits = r;
	char *p = in + NB - n;
	for (int i = 0; i < NB; i++) if (i < n) { acc = acc << 8 | (uint8_t)p[i]; bits += 8; }
	int m = base64_encode_block(p, n, out, &s);
	__CPROVER_assert(m == (int)bits / 6, "as many digits as there are complete ones");
	__CPROVER_assume(k >= 0 && k < m);
	__CPROVER_assert(out[k] == text((unsigned)(acc >> (bits - 6 * (k + 1))) & 63), "the digits of the data");
	unsigned left = bits % 6;
	__CPROVER_assert(s.step == (left == 0 ? step_A : left == 2 ? step_B : step_C), "the bits left over, counted");
	__CPROVER_assert(left == 0 || s.result == (((unsigned)acc & ((1u << left) - 1)) << (6 - left)), "and kept");
	VP_PROBE();
}
#define ND 5
void h_dblock(void)
{
	char in[ND], out[ND], *p; base64_decodestate s; int n, k;
	__CPROVER_assume(n >= 0 && n <= ND && s.step >= step_a && s.step <= step_d);
	unsigned r = s.step == step_a ? 0 : s.step == step_b ? 6 : s.step == step_c ? 4 : 2;
	__CPROVER_assume(((uint8_t)s.plainchar & ((1u << (8 - r)) - 1)) == 0);
	uint64_t acc = r ? (uint8_t)s.plainchar >> (8 - r) : 0; unsigned bits = r, before = r;
	p = in + ND - n;
	for (int i = 0; i < ND; i++) if (i < n && digit(p[i]) >= 0) { acc = acc << 6 | digit(p[i]); bits += 6; }
	int m = base64_decode_block(p, n, out, &s);
	__CPROVER_assert(m == (int)(bits / 8), "as many bytes as there are complete ones");
	__CPROVER_assert(s.step == (bits % 8 == 0 ? step_a : bits % 8 == 6 ? step_b : bits % 8 == 4 ? step_c : step_d), "the bits left over, counted");
	__CPROVER_assert(bits % 8 == 0 || (uint8_t)s.plainchar == (uint8_t)(acc << (8 - bits % 8)), "and kept");
	__CPROVER_assume(k >= 0 && k < m);
	__CPROVER_assert((uint8_t)out[k] == (uint8_t)(acc >> (bits - 8 * (k + 1))), "the bytes of the text");
	VP_PROBE();
}
#define N32 6
static char d32(unsigned v) { return v < 10 ? '0' + v : 'A' + v - 10; }
void h_b32(void)
{
	uint8_t in[N32], *p = in, out[N32 + 2]; char t[12]; size_t n, room, k, oroom;
	__CPROVER_assume(n <= N32 && room <= 12 && oroom <= N32 + 2);
	p = in + N32 - n;
	uint64_t acc = 0; for (int i = 0; i < N32; i++) if (i < n) acc = acc << 8 | p[i];
	size_t full = (8 * n + 4) / 5, m = base32_encode(t + 12 - room, room, p, n);
	__CPROVER_assert(m == (full < room ? full : room), "base32: length of the text");
	if (k < m) __CPROVER_assert(t[12 - room + k] == d32((unsigned)((acc << 5) >> (8 * n + 5 - 5 * (k + 1))) & 31), "base32: the digits of the data");
	if (m == full) {
		size_t w = base32_decode(out + N32 + 2 - oroom, oroom, t + 12 - room, m);
		__CPROVER_assert(w == (n < oroom ? n : oroom), "base32: number of bytes decoded");
		__CPROVER_assert(k >= w || out[N32 + 2 - oroom + k] == p[k], "base32: decoding inverts encoding");
	}
	VP_PROBE();
}

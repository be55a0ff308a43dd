#include "vp_proof.h"
#include <assert.h>
#include <string.h>
/* the C library's functions used, as the standard specifies them */
char *strstr(const char *h, const char *n)
{
	for (;; h++) {
		size_t i = 0;
		while (n[i] && h[i] == n[i]) i++;
		if (!n[i]) return (char *)h;
		if (!*h) return NULL;
	}
}
#define VP_UBUF_CAP 16
#include "vp_ubuf_model.h"
#include "libmy/string_replace.h"
#define NS 4
#define NO 2
#define NN 2
static unsigned len(const char *s, unsigned max) { unsigned i = 0; while (i < max && s[i]) i++; return i; }
/* bounded: every string of at most 4, searched for every text of at most 2, replaced by at most 2 characters */
void h_replace(void)
{
	char S[NS + 1], O[NO + 1], W[NN + 1], want[NS * NN + NS + 1]; unsigned n, o, w, m = 0;
	__CPROVER_assume(n <= NS && o <= NO && w <= NN);
	char *s = S + NS - n, *old = O + NO - o, *new = W + NN - w; S[NS] = O[NO] = W[NN] = 0;
	__CPROVER_assume(len(s, NS) == n && len(old, NO) == o && len(new, NN) == w);
	for (unsigned i = 0; i < NS; ) {
		if (i >= n) break;
		if (o && i + o <= n && s[i] == old[0] && (o < 2 || s[i + 1] == old[1])) {
			if (w > 0) want[m++] = new[0];
			if (w > 1) want[m++] = new[1];
			i += o;
		} else want[m++] = s[i++];
	}
	want[m] = 0;
	char *r = string_replace(s, old, new);
	unsigned k; __CPROVER_assume(k <= m);
	__CPROVER_assert(r[k] == want[k], "every occurrence, left to right, and nothing else is replaced");
	VP_PROBE();
}

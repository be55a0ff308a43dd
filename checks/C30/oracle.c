#include "vp_case.h"
#include "libmy/my_alloc.h"
#include "libmy/string_replace.h"
static char *str(unsigned max) { unsigned n = vp_range(max + 1); char *s = malloc(n + 1); bool wide = vp_range(4) == 0; for (unsigned i = 0; i < n; i++) { s[i] = wide ? vp_u8() : "ab"[vp_range(2)]; if (!s[i]) s[i] = 'a'; } s[n] = 0; return s; }
void vp_case(void)
{
	char *s = str(vp_range(6) ? 12 : 90), *old = str(3), *new = str(vp_range(6) ? 4 : 40);
	vp_note("\"%s\": \"%s\" -> \"%s\"", s, old, new);
	size_t n = strlen(s), o = strlen(old), w = strlen(new), m = 0;
	char *want = malloc(n * (w + 1) + 1);
	for (size_t i = 0; i < n; ) if (o && i + o <= n && !memcmp(s + i, old, o)) { memcpy(want + m, new, w); m += w; i += o; } else want[m++] = s[i++];
	want[m] = 0;
	char *r = string_replace(s, old, new);
	VP_CHECK(!strcmp(r, want), "got \"%s\", want \"%s\"", r, want);
	VP_CHECK(r != s, "not a copy");
	if (m != n || memcmp(s, want, n)) vp_nontrivial();
	free(r); free(want); free(s); free(old); free(new);
}

/*
 * Executable stand-in for libmtbl: in-memory sorted tables.  Keys and values
 * handed out live in their own exact-size allocations that are released on the
 * next call, so the sanitizer sees overreads and stale uses.
 */
#include <assert.h>
#include <stdlib.h>
#include <string.h>
#include "vp_mtbl.h"

bool vp_seek_fails_at_end;
long vp_live_iters, vp_live_sources, vp_live_readers;
unsigned long vp_tab_nexts, vp_tab_seeks, vp_merge_calls;
unsigned vp_fileset_reloads;
unsigned long vp_merger_adds, vp_fileset_kept, vp_fileset_dropped;
void (*vp_tab_step_hook)(void);

struct mtbl_iter { mtbl_iter_seek_func seek; mtbl_iter_next_func next; mtbl_iter_free_func free; void *clos; };
struct mtbl_source {
	mtbl_source_iter_func iter; mtbl_source_get_func get; mtbl_source_get_prefix_func prefix;
	mtbl_source_get_range_func range; mtbl_source_free_func free; void *clos;
};

static void *xdup(const void *p, size_t n) { void *q = malloc(n); if (!q) abort(); if (n) memcpy(q, p, n); return q; }

int vp_keycmp(const uint8_t *a, size_t la, const uint8_t *b, size_t lb)
{
	for (size_t i = 0; i < la && i < lb; i++) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
	return la < lb ? -1 : la > lb;
}

struct mtbl_iter *mtbl_iter_init(mtbl_iter_seek_func s, mtbl_iter_next_func n, mtbl_iter_free_func f, void *c)
{
	struct mtbl_iter *it = calloc(1, sizeof(*it));
	it->seek = s; it->next = n; it->free = f; it->clos = c;
	vp_live_iters++;
	return it;
}
void mtbl_iter_destroy(struct mtbl_iter **it)
{
	if (*it) { if ((*it)->free) (*it)->free((*it)->clos); free(*it); *it = NULL; vp_live_iters--; }
}
mtbl_res mtbl_iter_seek(struct mtbl_iter *it, const uint8_t *k, size_t n)
{
	if (it == NULL) return mtbl_res_failure;
	return it->seek(it->clos, k, n);
}
mtbl_res mtbl_iter_next(struct mtbl_iter *it, const uint8_t **k, size_t *nk, const uint8_t **v, size_t *nv)
{
	if (it == NULL) return mtbl_res_failure;
	return it->next(it->clos, k, nk, v, nv);
}
struct mtbl_source *mtbl_source_init(mtbl_source_iter_func i, mtbl_source_get_func g, mtbl_source_get_prefix_func p,
	mtbl_source_get_range_func r, mtbl_source_free_func f, void *c)
{
	struct mtbl_source *s = calloc(1, sizeof(*s));
	s->iter = i; s->get = g; s->prefix = p; s->range = r; s->free = f; s->clos = c;
	vp_live_sources++;
	return s;
}
void mtbl_source_destroy(struct mtbl_source **s)
{
	if (*s) { if ((*s)->free) (*s)->free((*s)->clos); free(*s); *s = NULL; vp_live_sources--; }
}
struct mtbl_iter *mtbl_source_iter(const struct mtbl_source *s) { return s->iter(s->clos); }
struct mtbl_iter *mtbl_source_get(const struct mtbl_source *s, const uint8_t *k, size_t n) { return s->get(s->clos, k, n); }
struct mtbl_iter *mtbl_source_get_prefix(const struct mtbl_source *s, const uint8_t *k, size_t n) { return s->prefix(s->clos, k, n); }
struct mtbl_iter *mtbl_source_get_range(const struct mtbl_source *s, const uint8_t *k, size_t n, const uint8_t *k2, size_t n2) { return s->range(s->clos, k, n, k2, n2); }

/* ---- bounds shared by table and merged iterators ---- */
enum mode { ALL, GET, PREFIX, RANGE };
struct bound { enum mode m; uint8_t *k0, *k1; size_t n0, n1; };
static void bound_set(struct bound *b, enum mode m, const uint8_t *k0, size_t n0, const uint8_t *k1, size_t n1)
{
	b->m = m; b->k0 = xdup(k0, n0); b->n0 = n0; b->k1 = xdup(k1, n1); b->n1 = n1;
}
static void bound_free(struct bound *b) { free(b->k0); free(b->k1); }
static bool below(const struct bound *b, const uint8_t *k, size_t n) { return b->m != ALL && vp_keycmp(k, n, b->k0, b->n0) < 0; }
static bool beyond(const struct bound *b, const uint8_t *k, size_t n)
{
	switch (b->m) {
	case ALL: return false;
	case GET: return vp_keycmp(k, n, b->k0, b->n0) > 0;
	case PREFIX: return vp_keycmp(k, n, b->k0, b->n0) > 0 && !(n >= b->n0 && memcmp(k, b->k0, b->n0) == 0);
	case RANGE: return vp_keycmp(k, n, b->k1, b->n1) > 0;
	}
	return true;
}

/* ---- tables ---- */
void vp_tab_add(struct vp_tab *t, const uint8_t *k, size_t nk, const uint8_t *v, size_t nv)
{
	if (t->n == t->cap) { t->cap = t->cap ? 2 * t->cap : 8; t->e = realloc(t->e, t->cap * sizeof(*t->e)); }
	t->e[t->n++] = (struct vp_ent){ xdup(k, nk), nk, xdup(v, nv), nv };
}
void vp_tab_sort(struct vp_tab *t, bool dups)
{
	for (size_t i = 1; i < t->n; i++) {
		struct vp_ent x = t->e[i];
		size_t j = i;
		while (j > 0 && vp_keycmp(t->e[j-1].key, t->e[j-1].len_key, x.key, x.len_key) > 0) { t->e[j] = t->e[j-1]; j--; }
		t->e[j] = x;
	}
	if (dups || t->n == 0) return;
	size_t o = 1;
	for (size_t i = 1; i < t->n; i++) {
		if (vp_keycmp(t->e[o-1].key, t->e[o-1].len_key, t->e[i].key, t->e[i].len_key) == 0) { free(t->e[i].key); free(t->e[i].val); }
		else t->e[o++] = t->e[i];
	}
	t->n = o;
}
void vp_tab_free(struct vp_tab *t)
{
	for (size_t i = 0; i < t->n; i++) { free(t->e[i].key); free(t->e[i].val); }
	free(t->e); t->e = NULL; t->n = t->cap = 0;
}
struct tab_iter { const struct vp_tab *t; size_t pos; struct bound b; uint8_t *k, *v; };
static mtbl_res tab_seek(void *c, const uint8_t *k, size_t n)
{
	struct tab_iter *it = c;
	vp_tab_seeks++;
	size_t i = 0;
	while (i < it->t->n && (vp_keycmp(it->t->e[i].key, it->t->e[i].len_key, k, n) < 0 || below(&it->b, it->t->e[i].key, it->t->e[i].len_key))) i++;
	it->pos = i;
	if (vp_seek_fails_at_end && (i >= it->t->n || beyond(&it->b, it->t->e[i].key, it->t->e[i].len_key))) return mtbl_res_failure;
	return mtbl_res_success;
}
static mtbl_res tab_next(void *c, const uint8_t **k, size_t *nk, const uint8_t **v, size_t *nv)
{
	struct tab_iter *it = c;
	vp_tab_nexts++;
	if (vp_tab_step_hook) vp_tab_step_hook();
	if (it->pos >= it->t->n) return mtbl_res_failure;
	const struct vp_ent *e = &it->t->e[it->pos];
	if (beyond(&it->b, e->key, e->len_key)) return mtbl_res_failure;
	it->pos++;
	free(it->k); free(it->v);
	it->k = xdup(e->key, e->len_key); it->v = xdup(e->val, e->len_val);
	*k = it->k; *nk = e->len_key; *v = it->v; *nv = e->len_val;
	return mtbl_res_success;
}
static void tab_free(void *c) { struct tab_iter *it = c; free(it->k); free(it->v); bound_free(&it->b); free(it); }
static struct mtbl_iter *tab_open(const struct vp_tab *t, enum mode m, const uint8_t *k0, size_t n0, const uint8_t *k1, size_t n1)
{
	struct tab_iter *it = calloc(1, sizeof(*it));
	it->t = t; bound_set(&it->b, m, k0, n0, k1, n1);
	while (it->pos < t->n && below(&it->b, t->e[it->pos].key, t->e[it->pos].len_key)) it->pos++;
	return mtbl_iter_init(tab_seek, tab_next, tab_free, it);
}
static struct mtbl_iter *tab_s_iter(void *c) { return tab_open(c, ALL, NULL, 0, NULL, 0); }
static struct mtbl_iter *tab_s_get(void *c, const uint8_t *k, size_t n) { return tab_open(c, GET, k, n, NULL, 0); }
static struct mtbl_iter *tab_s_prefix(void *c, const uint8_t *k, size_t n) { return tab_open(c, PREFIX, k, n, NULL, 0); }
static struct mtbl_iter *tab_s_range(void *c, const uint8_t *k, size_t n, const uint8_t *k2, size_t n2) { return tab_open(c, RANGE, k, n, k2, n2); }
struct mtbl_source *vp_tab_source(const struct vp_tab *t)
{
	return mtbl_source_init(tab_s_iter, tab_s_get, tab_s_prefix, tab_s_range, NULL, (void *)t);
}

/* ---- readers ---- */
struct mtbl_reader { struct mtbl_source *s; char *name; };
struct mtbl_reader *vp_reader_from_tab(const struct vp_tab *t, const char *name)
{
	struct mtbl_reader *r = calloc(1, sizeof(*r));
	r->s = vp_tab_source(t); r->name = strdup(name); vp_live_readers++;
	return r;
}
void mtbl_reader_destroy(struct mtbl_reader **r)
{
	if (*r) { mtbl_source_destroy(&(*r)->s); free((*r)->name); free(*r); *r = NULL; vp_live_readers--; }
}
const struct mtbl_source *mtbl_reader_source(struct mtbl_reader *r) { return r->s; }
struct mtbl_reader *mtbl_reader_init(const char *fname, const struct mtbl_reader_options *o) { (void)fname; (void)o; return NULL; }

/* ---- mergers ---- */
struct mtbl_merger_options { mtbl_merge_func merge; void *clos; mtbl_dupsort_func dupsort; void *dclos; };
struct mtbl_merger { struct mtbl_merger_options o; const struct mtbl_source **s; size_t n; struct mtbl_source *source; };
struct mtbl_merger_options *mtbl_merger_options_init(void) { return calloc(1, sizeof(struct mtbl_merger_options)); }
void mtbl_merger_options_destroy(struct mtbl_merger_options **o) { free(*o); *o = NULL; }
void mtbl_merger_options_set_merge_func(struct mtbl_merger_options *o, mtbl_merge_func f, void *c) { o->merge = f; o->clos = c; }

struct m_in { struct mtbl_iter *it; uint8_t *k, *v; size_t nk, nv; bool have, done; };
struct m_iter { struct mtbl_merger *m; struct m_in *in; size_t n; uint8_t *k, *v; size_t nk, nv; };
static void in_pull(struct m_in *x)
{
	const uint8_t *k, *v; size_t nk, nv;
	free(x->k); free(x->v); x->k = x->v = NULL; x->have = false;
	if (mtbl_iter_next(x->it, &k, &nk, &v, &nv) != mtbl_res_success) return;
	x->k = xdup(k, nk); x->v = xdup(v, nv); x->nk = nk; x->nv = nv; x->have = true;
}
static mtbl_res m_next(void *c, const uint8_t **k, size_t *nk, const uint8_t **v, size_t *nv)
{
	struct m_iter *it = c;
	struct m_in *best = NULL;
	free(it->k); free(it->v); it->k = it->v = NULL;
	for (size_t i = 0; i < it->n; i++) {
		struct m_in *x = &it->in[i];
		if (!x->have) continue;
		if (best == NULL) { best = x; continue; }
		int r = vp_keycmp(x->k, x->nk, best->k, best->nk);
		if (r == 0 && it->m->o.merge == NULL && it->m->o.dupsort != NULL)
			r = it->m->o.dupsort(it->m->o.dclos, x->k, x->nk, x->v, x->nv, best->v, best->nv);
		if (r < 0) best = x;
	}
	if (best == NULL) return mtbl_res_failure;
	it->k = xdup(best->k, best->nk); it->nk = best->nk;
	it->v = xdup(best->v, best->nv); it->nv = best->nv;
	in_pull(best);
	if (it->m->o.merge != NULL) {
		for (size_t i = 0; i < it->n; i++) {
			struct m_in *x = &it->in[i];
			while (x->have && vp_keycmp(x->k, x->nk, it->k, it->nk) == 0) {
				uint8_t *mv = NULL; size_t mn = 0;
				it->m->o.merge(it->m->o.clos, it->k, it->nk, it->v, it->nv, x->v, x->nv, &mv, &mn);
				vp_merge_calls++;
				free(it->v); it->v = NULL;
				if (mv == NULL) return mtbl_res_failure;
				it->v = xdup(mv, mn); it->nv = mn;
				free(mv);
				in_pull(x);
			}
		}
	}
	*k = it->k; *nk = it->nk; *v = it->v; *nv = it->nv;
	return mtbl_res_success;
}
static mtbl_res m_seek(void *c, const uint8_t *k, size_t n)
{
	struct m_iter *it = c;
	bool any = false;
	for (size_t i = 0; i < it->n; i++) {
		struct m_in *x = &it->in[i];
		if (mtbl_iter_seek(x->it, k, n) == mtbl_res_success) in_pull(x);
		else { free(x->k); free(x->v); x->k = x->v = NULL; x->have = false; }
		any |= x->have;
	}
	return (!any && vp_seek_fails_at_end) ? mtbl_res_failure : mtbl_res_success;
}
static void m_free(void *c)
{
	struct m_iter *it = c;
	for (size_t i = 0; i < it->n; i++) { mtbl_iter_destroy(&it->in[i].it); free(it->in[i].k); free(it->in[i].v); }
	free(it->in); free(it->k); free(it->v); free(it);
}
static struct mtbl_iter *m_open(struct mtbl_merger *m, enum mode md, const uint8_t *k0, size_t n0, const uint8_t *k1, size_t n1)
{
	struct m_iter *it = calloc(1, sizeof(*it));
	it->m = m; it->n = m->n; it->in = calloc(m->n + 1, sizeof(*it->in));
	for (size_t i = 0; i < m->n; i++) {
		const struct mtbl_source *s = m->s[i];
		it->in[i].it = md == ALL ? mtbl_source_iter(s) : md == GET ? mtbl_source_get(s, k0, n0) :
			md == PREFIX ? mtbl_source_get_prefix(s, k0, n0) : mtbl_source_get_range(s, k0, n0, k1, n1);
		in_pull(&it->in[i]);
	}
	return mtbl_iter_init(m_seek, m_next, m_free, it);
}
static struct mtbl_iter *m_s_iter(void *c) { return m_open(c, ALL, NULL, 0, NULL, 0); }
static struct mtbl_iter *m_s_get(void *c, const uint8_t *k, size_t n) { return m_open(c, GET, k, n, NULL, 0); }
static struct mtbl_iter *m_s_prefix(void *c, const uint8_t *k, size_t n) { return m_open(c, PREFIX, k, n, NULL, 0); }
static struct mtbl_iter *m_s_range(void *c, const uint8_t *k, size_t n, const uint8_t *k2, size_t n2) { return m_open(c, RANGE, k, n, k2, n2); }
struct mtbl_merger *mtbl_merger_init(const struct mtbl_merger_options *o)
{
	struct mtbl_merger *m = calloc(1, sizeof(*m));
	m->o = *o;
	m->source = mtbl_source_init(m_s_iter, m_s_get, m_s_prefix, m_s_range, NULL, m);
	return m;
}
void mtbl_merger_destroy(struct mtbl_merger **m)
{
	if (*m) { mtbl_source_destroy(&(*m)->source); free((*m)->s); free(*m); *m = NULL; }
}
void mtbl_merger_add_source(struct mtbl_merger *m, const struct mtbl_source *s)
{
	m->s = realloc(m->s, (m->n + 1) * sizeof(*m->s)); m->s[m->n++] = s; vp_merger_adds++;
}
const struct mtbl_source *mtbl_merger_source(struct mtbl_merger *m) { return m->source; }

/* ---- filesets ---- */
struct mtbl_fileset_options { struct mtbl_merger_options mo; mtbl_filename_filter_func ff; void *ffc; mtbl_reader_filter_func rf; void *rfc; };
struct mtbl_fileset { struct mtbl_fileset_options o; struct mtbl_reader **r; size_t n; struct mtbl_merger *m; };
struct mtbl_fileset_options *mtbl_fileset_options_init(void) { return calloc(1, sizeof(struct mtbl_fileset_options)); }
void mtbl_fileset_options_destroy(struct mtbl_fileset_options **o) { free(*o); *o = NULL; }
void mtbl_fileset_options_set_merge_func(struct mtbl_fileset_options *o, mtbl_merge_func f, void *c) { o->mo.merge = f; o->mo.clos = c; }
void mtbl_fileset_options_set_dupsort_func(struct mtbl_fileset_options *o, mtbl_dupsort_func f, void *c) { o->mo.dupsort = f; o->mo.dclos = c; }
void mtbl_fileset_options_set_filename_filter_func(struct mtbl_fileset_options *o, mtbl_filename_filter_func f, void *c) { o->ff = f; o->ffc = c; }
void mtbl_fileset_options_set_reader_filter_func(struct mtbl_fileset_options *o, mtbl_reader_filter_func f, void *c) { o->rf = f; o->rfc = c; }
struct mtbl_fileset *vp_fileset(struct mtbl_reader **r, size_t n, const struct mtbl_fileset_options *o)
{
	struct mtbl_fileset *fs = calloc(1, sizeof(*fs));
	fs->o = *o;
	fs->r = xdup(r, n * sizeof(*r)); fs->n = n;
	fs->m = mtbl_merger_init(&o->mo);
	for (size_t i = 0; i < n; i++) {
		if (o->ff && !o->ff(r[i]->name, o->ffc)) continue;
		if (o->rf && !o->rf(r[i], o->rfc)) { vp_fileset_dropped++; continue; }
		mtbl_merger_add_source(fs->m, r[i]->s); vp_merger_adds--; vp_fileset_kept++;
	}
	return fs;
}
static struct { char *name; struct mtbl_reader **r; size_t n; } reg[4];
void vp_register_setfile(const char *fname, struct mtbl_reader **r, size_t n)
{
	for (int i = 0; i < 4; i++) if (reg[i].name == NULL) { reg[i].name = strdup(fname); reg[i].r = r; reg[i].n = n; return; }
	abort();
}
void vp_reset_registry(void) { for (int i = 0; i < 4; i++) { free(reg[i].name); reg[i].name = NULL; } }
struct mtbl_fileset *mtbl_fileset_init(const char *fname, const struct mtbl_fileset_options *o)
{
	for (int i = 0; i < 4; i++) if (reg[i].name && strcmp(reg[i].name, fname) == 0) return vp_fileset(reg[i].r, reg[i].n, o);
	return NULL;
}
struct mtbl_fileset *mtbl_fileset_dup(struct mtbl_fileset *fs, const struct mtbl_fileset_options *o) { return vp_fileset(fs->r, fs->n, o); }
void mtbl_fileset_destroy(struct mtbl_fileset **fs)
{
	if (*fs) { mtbl_merger_destroy(&(*fs)->m); free((*fs)->r); free(*fs); *fs = NULL; }
}
void mtbl_fileset_reload(struct mtbl_fileset *fs) { (void)fs; vp_fileset_reloads++; }
void mtbl_fileset_reload_now(struct mtbl_fileset *fs) { (void)fs; vp_fileset_reloads++; }
const struct mtbl_source *mtbl_fileset_source(struct mtbl_fileset *fs) { return mtbl_merger_source(fs->m); }

/* ---- varints (the format libmtbl documents) ---- */
unsigned mtbl_varint_length(uint64_t v) { unsigned n = 1; while (v >= 128) { v >>= 7; n++; } return n; }
unsigned mtbl_varint_length_packed(const uint8_t *b, size_t n)
{
	for (size_t i = 0; i < n; i++) if (!(b[i] & 0x80)) return i + 1;
	return 0;
}
size_t mtbl_varint_encode64(uint8_t *b, uint64_t v) { size_t n = 0; while (v >= 128) { b[n++] = v | 0x80; v >>= 7; } b[n++] = v; return n; }
size_t mtbl_varint_encode32(uint8_t *b, uint32_t v) { return mtbl_varint_encode64(b, v); }
size_t mtbl_varint_decode64(const uint8_t *b, uint64_t *v)
{
	unsigned n = mtbl_varint_length_packed(b, 10);
	uint64_t x = b[0] & 127;
	for (unsigned i = 1; i < n; i++) x |= (uint64_t)(b[i] & 127) << (7 * i);
	*v = x;
	return n;
}
size_t mtbl_varint_decode32(const uint8_t *b, uint32_t *v)
{
	unsigned n = mtbl_varint_length_packed(b, 5);
	uint64_t x = b[0] & 127;
	for (unsigned i = 1; i < n; i++) x |= (uint64_t)(b[i] & 127) << (7 * i);
	*v = (uint32_t)x;
	return n;
}

/*
 * Contracts on dnstable/reader.c and dnstable/iter.c (the files as they are, included
 * below), for C16.  Entry number i of the source is delivered as key length i + 1;
 * whether it decodes is arbitrary.
 */
#include "vp_proof.h"
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <assert.h>
#include <mtbl.h>
#include <wdns.h>
#include "dnstable/dnstable-private.h"
#include "libmy/my_alloc.h"
#define MAXB 0x100000000ull
size_t vp_pos, vp_start, vp_n, vp_g; _Bool vp_gdec; static _Bool vp_lastdec; static size_t vp_decoded;
static uint8_t vp_dummy[1];
struct mtbl_iter { int d; } vp_mit; struct dnstable_entry { int d; } vp_ent;
mtbl_res mtbl_iter_next(struct mtbl_iter *it, const uint8_t **k, size_t *nk, const uint8_t **v, size_t *nv)
{
	__CPROVER_assert(it == &vp_mit, "the iterator of the source is read");
	if (vp_pos >= vp_n) return mtbl_res_failure;
	*k = vp_dummy; *v = vp_dummy; *nk = vp_pos + 1; *nv = vp_pos + 1;
	vp_pos++;
	return mtbl_res_success;
}
struct dnstable_entry *dnstable_entry_decode(const uint8_t *k, size_t nk, const uint8_t *v, size_t nv)
{
	__CPROVER_assert(k == vp_dummy && v == vp_dummy && nk == vp_pos && nv == vp_pos, "the entry just read is decoded");
	vp_decoded = nk - 1;
	_Bool d;
	vp_lastdec = nk - 1 == vp_g ? vp_gdec : d;
	return vp_lastdec ? &vp_ent : NULL;
}
/* sources: how an iterator was asked for */
struct mtbl_source { int d; } vp_src; int vp_kind, vp_byte; unsigned vp_opens, vp_closes, vp_frees;
struct mtbl_iter *mtbl_source_iter(const struct mtbl_source *s) { __CPROVER_assert(s == &vp_src, "the reader's source"); vp_kind = 1; vp_opens++; return &vp_mit; }
struct mtbl_iter *mtbl_source_get_prefix(const struct mtbl_source *s, const uint8_t *k, size_t n) { __CPROVER_assert(s == &vp_src && n == 1 && __CPROVER_r_ok(k, 1), "the reader's source, one byte of prefix"); vp_kind = 3; vp_byte = k[0]; vp_opens++; return &vp_mit; }
void mtbl_iter_destroy(struct mtbl_iter **p) { if (*p) vp_closes++; *p = NULL; }
struct mtbl_fileset { int d; } vp_fs; struct mtbl_fileset_options { int d; } vp_fopt;
struct mtbl_fileset_options *mtbl_fileset_options_init(void) { return &vp_fopt; }
void mtbl_fileset_options_destroy(struct mtbl_fileset_options **p) { *p = NULL; }
mtbl_merge_func vp_mf; unsigned vp_reloads, vp_fsclosed; const char *vp_setname;
void mtbl_fileset_options_set_merge_func(struct mtbl_fileset_options *o, mtbl_merge_func f, void *c) { vp_mf = f; }
struct mtbl_fileset *mtbl_fileset_init(const char *fn, const struct mtbl_fileset_options *o) { __CPROVER_assert(o == &vp_fopt && vp_mf == dnstable_merge_func, "entries of several files are merged"); vp_setname = fn; return &vp_fs; }
const struct mtbl_source *mtbl_fileset_source(struct mtbl_fileset *f) { __CPROVER_assert(f == &vp_fs, "the set's source"); return &vp_src; }
void mtbl_fileset_reload_now(struct mtbl_fileset *f) { vp_reloads++; }
void mtbl_fileset_destroy(struct mtbl_fileset **f) { if (*f) vp_fsclosed++; *f = NULL; }
int vp_q;
#define VPL_reader_iter_next \
	__CPROVER_assigns(vp_pos, vp_decoded, vp_lastdec, *ent) \
	__CPROVER_loop_invariant(vp_start <= vp_pos && vp_pos <= vp_n && vp_n <= MAXB && IMP(vp_start <= vp_g && vp_g < vp_pos, !vp_gdec)) \
	__CPROVER_decreases(vp_n - vp_pos)
#include "vp_loops.h"
#ifdef P_ITER
# include "dnstable/iter.c"
#else
/* dnstable/iter.c as its own proof (`step_interface') has it */
struct dnstable_iter { dnstable_iter_next_func n; dnstable_iter_free_func f; void *c; } vp_dit;
struct dnstable_iter *dnstable_iter_init(dnstable_iter_next_func n, dnstable_iter_free_func f, void *c) { vp_dit.n = n; vp_dit.f = f; vp_dit.c = c; return &vp_dit; }
struct dnstable_iter *dnstable_query_iter(struct dnstable_query *q, const struct mtbl_source *s) { __CPROVER_assert((void *)q == &vp_q && s == &vp_src, "the query and the source"); vp_kind = 7; return &vp_dit; }
struct dnstable_iter *dnstable_query_iter_fileset(struct dnstable_query *q, struct mtbl_fileset *f) { __CPROVER_assert((void *)q == &vp_q && f == &vp_fs, "the query and the set"); vp_kind = 8; return &vp_dit; }
# include "dnstable/reader.c"
#endif

#ifdef P_STREAM
#define CIT ((struct reader_iter *)clos)
/* a step: the next decodable entry, none passed over, or the end */
static dnstable_res reader_iter_next(void *clos, struct dnstable_entry **ent)
	REQ(FRESH(clos, sizeof(struct reader_iter)) && CIT->m_it == &vp_mit && FRESH(ent, 8))
	REQ(vp_pos == vp_start && vp_pos <= vp_n && vp_n <= MAXB)
	ENS(IMP(RET == dnstable_res_success, *ent == &vp_ent && vp_pos >= vp_start + 1 && vp_lastdec && vp_decoded == vp_pos - 1 && IMP(vp_g == vp_decoded, vp_gdec) && IMP(vp_start <= vp_g && vp_g < vp_pos - 1, !vp_gdec)))
	ENS(IMP(RET != dnstable_res_success, RET == dnstable_res_failure && vp_pos == vp_n && IMP(vp_start <= vp_g && vp_g < vp_n, !vp_gdec)))
	ASG(*ent, vp_pos, vp_decoded, vp_lastdec);
void h_next(void) { void *c; struct dnstable_entry **e; size_t a, b, g; _Bool d; vp_start = vp_pos = a; vp_n = b; vp_g = g; vp_gdec = d; reader_iter_next(c, e); VP_PROBE(); }
#endif

#ifdef P_OPEN
/* each kind of iterator is over exactly the reader's entries with that type byte (all of them for the plain one), stepped and released by the functions above */
void h_open(void)
{
	struct dnstable_reader R; struct dnstable_iter *d; int k; vp_opens = vp_closes = 0; vp_kind = 0; vp_byte = -1;
	R.source = &vp_src; bool x; R.fs = x ? &vp_fs : NULL;
	int want;
	if (k == 0) { d = dnstable_reader_iter(&R); want = -1; }
	else if (k == 1) { d = dnstable_reader_iter_rrset(&R); want = 0; }
	else if (k == 2) { d = dnstable_reader_iter_rrset_names(&R); want = 1; }
	else if (k == 3) { d = dnstable_reader_iter_rdata(&R); want = 2; }
	else if (k == 4) { d = dnstable_reader_iter_rdata_names(&R); want = 3; }
	else if (k == 5) { d = dnstable_reader_iter_time_range(&R); want = 254; }
	else if (k == 6) { d = dnstable_reader_iter_version(&R); want = 255; }
	else { d = dnstable_reader_iter_source_info(&R); want = 253; }
	__CPROVER_assert(vp_opens == 1 && vp_kind == (want < 0 ? 1 : 3) && vp_byte == want, "dnstable_reader_iter_*: the entries of exactly that kind");
	__CPROVER_assert(d == &vp_dit && d->n == reader_iter_next && d->f == reader_iter_free && ((struct reader_iter *)d->c)->m_it == &vp_mit, "dnstable_reader_iter_*: an iterator over them");
	reader_iter_free(d->c);
	__CPROVER_assert(vp_closes == 1, "reader_iter_free: releases the source's iterator");
	VP_PROBE();
}
/* a reader over a table, or over a set file: searches and reloads go to the right place, and it is released */
void h_reader(void)
{
	int x_; bool set = x_ != 0; char name[2] = "s"; vp_reloads = vp_fsclosed = 0; vp_kind = 0;
	struct dnstable_reader *r = set ? dnstable_reader_init_setfile(name) : dnstable_reader_init(&vp_src);
	__CPROVER_assert(r->source == &vp_src && r->fs == (set ? &vp_fs : NULL) && IMP(set, vp_setname == name), "dnstable_reader_init, _init_setfile: the source to read");
	__CPROVER_assert(dnstable_reader_query(r, (void *)&vp_q) == &vp_dit && vp_kind == (set ? 8 : 7), "dnstable_reader_query: searches the table or the set");
	dnstable_reader_reload_setfile(r);
	__CPROVER_assert(vp_reloads == set, "dnstable_reader_reload_setfile: reloads a set");
	dnstable_reader_destroy(&r);
	__CPROVER_assert(r == NULL && vp_fsclosed == set, "dnstable_reader_destroy: releases the set");
	dnstable_reader_destroy(&r);
	VP_PROBE();
}
#endif

#ifdef P_ITER
int vp_clos; dnstable_res vp_r; unsigned vp_nexts, vp_stats; struct dnstable_entry *vp_e;
static dnstable_res vp_next(void *c, struct dnstable_entry **e) { __CPROVER_assert(c == &vp_clos && e == &vp_e, "the iterator's own data and the caller's place for the entry"); vp_nexts++; return vp_r; }
static void vp_free(void *c) { __CPROVER_assert(c == &vp_clos, "the iterator's own data"); vp_frees++; }
static dnstable_res vp_stat(void *c, dnstable_stat_stage s, dnstable_stat_category t, bool *ex, uint64_t *n) { vp_stats++; *ex = 1; *n = (unsigned)s + 1000ull * (unsigned)t; return vp_r; }
void h_iter(void)
{
	int r; vp_r = r; vp_nexts = vp_frees = vp_stats = 0; int x_, y_; bool hasfree = x_ != 0, hasstat = y_ != 0, ex = 0; uint64_t n = 77;
	struct dnstable_iter *it = dnstable_iter_init(vp_next, hasfree ? vp_free : NULL, &vp_clos);
	__CPROVER_assert(dnstable_iter_next(it, &vp_e) == vp_r && vp_nexts == 1, "dnstable_iter_next: a step of the iterator");
	__CPROVER_assert(dnstable_iter_next(NULL, &vp_e) == dnstable_res_failure && vp_nexts == 1, "dnstable_iter_next: no iterator has no entry");
	if (hasstat) dnstable_iter_set_stat_func(it, vp_stat);
	dnstable_iter_set_stat_func(NULL, vp_stat);
	dnstable_stat_stage s; dnstable_stat_category t; __CPROVER_assume(s <= 20 && t <= 20);
	dnstable_res g = dnstable_iter_get_count(it, s, t, &ex, &n);
	__CPROVER_assert(hasstat ? g == vp_r && vp_stats == 1 && ex && n == (unsigned)s + 1000ull * (unsigned)t : g == dnstable_res_failure && !vp_stats && n == 77 && !ex, "dnstable_iter_get_count: the iterator's counter, if it has any");
	__CPROVER_assert(dnstable_iter_get_count(NULL, s, t, &ex, &n) == dnstable_res_failure && dnstable_iter_get_count(it, s, t, &ex, NULL) == dnstable_res_failure, "dnstable_iter_get_count: refused without iterator or place");
	dnstable_iter_destroy(&it);
	__CPROVER_assert(it == NULL && vp_frees == hasfree, "dnstable_iter_destroy: releases the iterator's data once");
	dnstable_iter_destroy(&it);
	__CPROVER_assert(vp_frees == hasfree, "dnstable_iter_destroy: nothing left to release");
	VP_PROBE();
}
#endif

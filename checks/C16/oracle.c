/* readers over random tables with corrupt entries in them; the decoding of one entry is the subject of C05 and taken as given here */
#include "vp_query.h"
static void canon(struct vp_buf *b, struct dnstable_entry *e)
{
	const uint8_t *p; size_t n; uint16_t u; uint64_t v; uint32_t w; (void)w;
	b->n = 0; vb_u8(b, dnstable_entry_get_type(e));
	if (dnstable_entry_get_rrname(e, &p, &n)) { vb_u8(b, 1); vb_le16(b, n); vb_put(b, p, n); }
	if (dnstable_entry_get_rrtype(e, &u)) { vb_u8(b, 2); vb_le16(b, u); }
	if (dnstable_entry_get_bailiwick(e, &p, &n)) { vb_u8(b, 3); vb_le16(b, n); vb_put(b, p, n); }
	size_t r = 0;
	if (dnstable_entry_get_num_rdata(e, &r)) for (size_t i = 0; i < r; i++) if (dnstable_entry_get_rdata(e, i, &p, &n)) { vb_u8(b, 4); vb_le16(b, n); vb_put(b, p, n); }
	if (dnstable_entry_get_rdata_name(e, &p, &n)) { vb_u8(b, 5); vb_le16(b, n); vb_put(b, p, n); }
	if (dnstable_entry_get_time_first(e, &v)) { vb_u8(b, 6); vb_var(b, v); }
	if (dnstable_entry_get_time_last(e, &v)) { vb_u8(b, 7); vb_var(b, v); }
	if (dnstable_entry_get_count(e, &v)) { vb_u8(b, 8); vb_var(b, v); }
	if (dnstable_entry_get_version(e, &w)) { vb_u8(b, 9); vb_var(b, w); }
}
static void corrupt(struct vp_tab *t, const struct vp_tab *from)
{
	static struct vp_buf k, v;
	unsigned n = vp_range(6);
	for (unsigned i = 0; i < n; i++) {
		k.n = v.n = 0;
		if (from->n && vp_bool()) {
			const struct vp_ent *e = &from->e[vp_range(from->n)];
			vb_put(&k, e->key, vp_bool() ? e->len_key : 1 + vp_range(e->len_key));
			vb_put(&v, e->val, vp_bool() ? e->len_val : vp_range(e->len_val + 1));
			for (unsigned c = vp_range(3); c; c--) if (k.n > 1) k.d[1 + vp_range(k.n - 1)] = vp_u8();
		} else {
			static const uint8_t kinds[] = { 0, 1, 2, 3, 4, 5, 253, 254, 255, 128 };
			vb_u8(&k, vp_range(4) ? kinds[vp_range(10)] : vp_u8());
			for (unsigned c = vp_range(5); c; c--) vb_u8(&k, vp_range(4));
			for (unsigned c = vp_range(5); c; c--) vb_u8(&v, vp_u8());
		}
		vp_tab_add(t, k.d, k.n, v.d, v.n);
	}
	if (vp_bool()) { k.n = v.n = 0; vb_u8(&k, 253); vb_put(&v, "src", vp_range(4)); vp_tab_add(t, k.d, k.n, v.d, v.n); }
	if (vp_bool()) { k.n = v.n = 0; vb_u8(&k, 255); vb_u8(&k, 2); vb_var(&v, vp_u8()); vp_tab_add(t, k.d, k.n, v.d, v.n); }
}
void vp_case(void)
{
	static struct vq_db db; static struct vp_buf a, b;
	struct vp_tab t = { 0 };
	vq_gendb(&db, vp_bool() ? 3 : 10, "00001123");
	vq_table(&db, &t, NULL, NULL);
	{ struct vp_tab c = { 0 }; corrupt(&c, &t); for (size_t i = 0; i < c.n; i++) vp_tab_add(&t, c.e[i].key, c.e[i].len_key, c.e[i].val, c.e[i].len_val); vp_tab_free(&c); }
	vp_tab_sort(&t, false);
	for (size_t i = 0; i < t.n; i++) { vp_notehex("key", t.e[i].key, t.e[i].len_key); vp_notehex("value", t.e[i].val, t.e[i].len_val); }
	struct mtbl_source *s = NULL; struct mtbl_reader *f[1] = { 0 }; struct dnstable_reader *r;
	bool set = vp_bool();
	if (set) { f[0] = vp_reader_from_tab(&t, "f"); vp_register_setfile("set", f, 1); r = dnstable_reader_init_setfile("set"); if (vp_bool()) dnstable_reader_reload_setfile(r); }
	else { s = vp_tab_source(&t); r = dnstable_reader_init(s); if (vp_bool()) dnstable_reader_reload_setfile(r); }
	vp_note(set ? "set file reader" : "table reader");
	struct { int kind; struct dnstable_iter *it; size_t pos; } I[4]; unsigned n = 1 + vp_range(4);
	for (unsigned i = 0; i < n; i++) {
		static const int K[] = { -1, 0, 1, 2, 3, 254, 253, 255 };
		unsigned k = vp_range(8);
		I[i].kind = K[k]; I[i].pos = 0;
		switch (k) {
		case 0: I[i].it = dnstable_reader_iter(r); break;
		case 1: I[i].it = dnstable_reader_iter_rrset(r); break;
		case 2: I[i].it = dnstable_reader_iter_rrset_names(r); break;
		case 3: I[i].it = dnstable_reader_iter_rdata(r); break;
		case 4: I[i].it = dnstable_reader_iter_rdata_names(r); break;
		case 5: I[i].it = dnstable_reader_iter_time_range(r); break;
		case 6: I[i].it = dnstable_reader_iter_source_info(r); break;
		default: I[i].it = dnstable_reader_iter_version(r); break;
		}
		VP_CHECK(I[i].it != NULL, "no iterator");
	}
	unsigned left = n, seen = 0; bool partly = vp_range(4) == 0;
	while (left) {
		unsigned i = vp_range(n), end = 0;
		while (I[i].pos > t.n) i = (i + 1) % n;
		for (unsigned q = 1 + vp_range(4); q && I[i].pos <= t.n; q--) {
			struct dnstable_entry *e = NULL, *w = NULL;
			for (; I[i].pos < t.n; I[i].pos++) {
				const struct vp_ent *x = &t.e[I[i].pos];
				if (I[i].kind >= 0 && (x->len_key == 0 || x->key[0] != I[i].kind)) continue;
				if ((w = dnstable_entry_decode(x->key, x->len_key, x->val, x->len_val)) != NULL) break;
			}
			dnstable_res res = dnstable_iter_next(I[i].it, &e);
			VP_CHECK((res == dnstable_res_success) == (w != NULL), "iterator %d: step %s, %s expected", I[i].kind, res == dnstable_res_success ? "yields an entry" : "ends", w ? "an entry" : "the end");
			if (w) {
				canon(&a, e); canon(&b, w);
				VP_CHECK(a.n == b.n && memcmp(a.d, b.d, a.n) == 0, "iterator %d: another entry than the next one of its kind", I[i].kind);
				dnstable_entry_destroy(&e); dnstable_entry_destroy(&w); I[i].pos++; seen++;
			} else {
				VP_CHECK(res == dnstable_res_failure, "the end is reported as %d", (int)res);
				for (int z = 0; z < 2; z++) VP_CHECK(dnstable_iter_next(I[i].it, &e) == dnstable_res_failure, "a step after the end succeeds");
				I[i].pos = t.n + 1; end = 1;
			}
		}
		left -= end;
		if (partly && seen > 3) break;
	}
	if (seen > 2) vp_nontrivial();
	for (unsigned i = 0; i < n; i++) { dnstable_iter_destroy(&I[i].it); VP_CHECK(I[i].it == NULL, "destroy leaves the pointer"); dnstable_iter_destroy(&I[i].it); }
	dnstable_reader_destroy(&r); VP_CHECK(r == NULL, "destroy leaves the reader"); dnstable_reader_destroy(&r);
	if (set) { vp_reset_registry(); mtbl_reader_destroy(&f[0]); } else mtbl_source_destroy(&s);
	vp_tab_free(&t);
	VP_CHECK(vp_live_iters == 0 && vp_live_sources == 0, "%ld iterators and %ld sources left behind", vp_live_iters, vp_live_sources);
}

/* construction side of the executable stand-in for libmtbl (mtbl_exec.c) */
#ifndef VP_MTBL_H
#define VP_MTBL_H
#include <mtbl.h>
struct vp_ent { uint8_t *key; size_t len_key; uint8_t *val; size_t len_val; };
struct vp_tab { struct vp_ent *e; size_t n, cap; };
void vp_tab_add(struct vp_tab *, const uint8_t *key, size_t len_key, const uint8_t *val, size_t len_val);
/* sort by key; among equal keys the first added stays, unless dups is set */
void vp_tab_sort(struct vp_tab *, bool dups);
void vp_tab_free(struct vp_tab *);
int vp_keycmp(const uint8_t *a, size_t la, const uint8_t *b, size_t lb);
struct mtbl_source *vp_tab_source(const struct vp_tab *);	/* destroy with mtbl_source_destroy */
/* mtbl_iter_seek() reports failure when nothing is left at or after the key */
extern bool vp_seek_fails_at_end;
/* live objects, for leak and double-release checks */
extern long vp_live_iters, vp_live_sources, vp_live_readers;
/* number of mtbl_iter_next/_seek calls made on table iterators */
extern unsigned long vp_tab_nexts, vp_tab_seeks;
extern unsigned long vp_merge_calls;	/* merge function invocations by the stand-in's mergers */
/* sources given to mergers (not by filesets); files a fileset's reader filter kept and dropped */
extern unsigned long vp_merger_adds, vp_fileset_kept, vp_fileset_dropped;
/* called before every table-iterator step, if set */
extern void (*vp_tab_step_hook)(void);
/* filesets: registered by name */
struct mtbl_reader *vp_reader_from_tab(const struct vp_tab *, const char *name);
struct mtbl_fileset *vp_fileset(struct mtbl_reader **, size_t n, const struct mtbl_fileset_options *);
void vp_register_setfile(const char *fname, struct mtbl_reader **, size_t n);
void vp_reset_registry(void);
extern unsigned vp_fileset_reloads;
#endif

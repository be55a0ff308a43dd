/* a set file in a scratch directory, random contents and reloads, against a reference of which handles are open */
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <time.h>
#include <unistd.h>
#include <ftw.h>
#include "vp_case.h"
#include "libmy/my_fileset.h"
static const char *const NAMES[] = { "a", "b", "ab", "a.mtbl", "b.mtbl", "sub/a", "sub/x y", "zz", "gone1", "./a", "a\r" };
enum { N = sizeof(NAMES) / sizeof(NAMES[0]) };
static char dir[256]; static pid_t owner;
static int rm1(const char *p, const struct stat *s, int f, struct FTW *w) { (void)s; (void)f; (void)w; return remove(p); }
static void cleanup(void) { if (dir[0] && owner == getpid()) nftw(dir, rm1, 8, FTW_DEPTH | FTW_PHYS); dir[0] = 0; }
static void prepare(void)
{
	if (dir[0] && owner == getpid()) return;
	owner = getpid(); if (!getcwd(dir, 200)) _exit(97); strcat(dir, "/s-XXXXXX");	/* the runner's scratch directory */
	if (!mkdtemp(dir)) _exit(97);
	char p[400]; snprintf(p, sizeof p, "%s/sub", dir); mkdir(p, 0700);
	atexit(cleanup);
}
struct handle { char name[400]; bool open; };
static struct handle H[4000]; static unsigned nh, opens;
static struct my_fileset *cur;
static void *load(struct my_fileset *fs, const char *n)
{
	VP_CHECK(fs == cur, "load called for another set");
	VP_CHECK(my_fileset_user(fs) == (void *)&nh, "the user pointer is not the one given");
	if (nh == 4000) vp_fail("load called without end");
	for (unsigned i = 0; i < nh; i++) VP_CHECK(!H[i].open || strcmp(H[i].name, n), "a file already open is loaded again");
	snprintf(H[nh].name, sizeof H[nh].name, "%s", n); H[nh].open = true; opens++;
	return &H[nh++];
}
static void unload(struct my_fileset *fs, const char *n, void *p)
{
	struct handle *h = p;
	VP_CHECK(fs == cur, "unload called for another set");
	VP_CHECK(h >= H && h < H + nh, "unload called with a handle load did not return");
	VP_CHECK(h->open, "a handle is unloaded twice");
	VP_CHECK(strcmp(h->name, n) == 0, "unload is told another name than load");
	h->open = false; opens--;
}
static int cmp(const void *a, const void *b) { return strcmp(*(const char *const *)a, *(const char *const *)b); }
static void exists(const char *n, bool yes)
{
	char p[400]; snprintf(p, sizeof p, "%s/%s", dir, n);
	if (yes) { int fd = open(p, O_CREAT | O_WRONLY, 0600); if (fd >= 0) close(fd); } else unlink(p);
}
static void check(struct my_fileset *fs, char **want, unsigned n)
{
	const char *f; void *p;
	for (unsigned i = 0; i < n; i++) {
		VP_CHECK(my_fileset_get(fs, i, &f, &p), "entry %u of %u is missing", i, n);
		VP_CHECK(strcmp(f, want[i]) == 0, "entry %u is %s instead of %s", i, f, want[i]);
		struct handle *h = p;
		VP_CHECK(h >= H && h < H + nh && h->open && strcmp(h->name, f) == 0, "entry %u does not carry the open handle of its file", i);
	}
	VP_CHECK(!my_fileset_get(fs, n, &f, &p), "more entries than files listed");
	VP_CHECK(!my_fileset_get(fs, n + 1 + vp_range(3), &f, &p), "an entry beyond the end");
	VP_CHECK(opens == n, "%u handles open for %u files", opens, n);
}
void vp_case(void)
{
	char set[400], buf[4096]; time_t mt = 1000000000, seen = 0; bool recreated = false;
	prepare();
	snprintf(set, sizeof set, "%s/set", dir);
	nh = opens = 0;
	for (unsigned i = 0; i < N - 3; i++) exists(NAMES[i], true);
	{ int fd = open(set, O_CREAT | O_TRUNC | O_WRONLY, 0600); if (fd < 0) _exit(97); close(fd); }
	struct my_fileset *fs = cur = my_fileset_init(set, load, unload, &nh);
	char *now[64]; unsigned nnow = 0; char *want[64]; unsigned nw;
	const char *f; void *p;
	VP_CHECK(!my_fileset_get(fs, 0, &f, &p), "an entry before the first reload");
	unsigned rounds = 1 + vp_range(6);
	for (unsigned r = 0; r < rounds; r++) {
		size_t n = 0; nw = 0;
		for (unsigned i = 0; i < N; i++) if (vp_range(5) == 0) exists(NAMES[i], vp_bool());
		bool on[N];
		for (unsigned i = 0; i < N; i++) { char q[400]; struct stat sb; snprintf(q, sizeof q, "%s/%s", dir, NAMES[i]); on[i] = stat(q, &sb) == 0; }
		unsigned lines = vp_range(vp_bool() ? 4 : 20);
		for (unsigned i = 0; i < lines; i++) {
			unsigned k = vp_range(N + 2);
			if (k >= N) { if (k == N) buf[n++] = '\n'; else { n += sprintf(buf + n, "missing%u\n", i); } continue; }
			n += sprintf(buf + n, "%s%s", NAMES[k], i + 1 == lines && vp_bool() ? "" : "\n");
			if (!on[k]) continue;
			char *q = malloc(400); snprintf(q, 400, "%s/%s", dir, NAMES[k]); want[nw++] = q;
		}
		qsort(want, nw, sizeof *want, cmp);
		unsigned m = 0; for (unsigned i = 0; i < nw; i++) if (m && strcmp(want[m - 1], want[i]) == 0) free(want[i]); else want[m++] = want[i];
		nw = m;
		vp_notehex("set file", buf, n);
		bool replace = vp_range(3) == 0, touched = vp_range(6) != 0, unreadable = vp_range(8) == 0, twice = vp_bool();
		if (replace) {
			char t[400]; snprintf(t, sizeof t, "%s/new", dir);
			int fd = open(t, O_CREAT | O_TRUNC | O_WRONLY, 0600); if (fd < 0 || write(fd, buf, n) != (ssize_t)n) _exit(97); close(fd);
			rename(t, set); touched = true;
			vp_note("set file replaced");
		} else { int fd = open(set, O_TRUNC | O_WRONLY); if (fd < 0 || write(fd, buf, n) != (ssize_t)n) _exit(97); close(fd); vp_note("set file rewritten%s", touched ? "" : " within the same second"); }
		if (touched && (!replace || vp_bool())) mt += 1 + vp_range(2);
		if (touched && vp_range(8) == 0) mt -= 5 + vp_range(5) * 3;
		struct timespec ts[2] = { { .tv_sec = mt }, { .tv_sec = mt } };
		utimensat(AT_FDCWD, set, ts, 0);
		bool fresh = replace || recreated || mt != seen; recreated = false;
		if (!fresh) {	/* nothing to see: nothing may change */
			my_fileset_reload(fs); vp_note("reload (same inode and time)");
			check(fs, now, nnow);
			for (unsigned i = 0; i < nw; i++) free(want[i]);
			continue;
		}
		seen = mt;
		unsigned before = nh, kept = 0;
		for (unsigned i = 0; i < nw; i++) for (unsigned j = 0; j < nnow; j++) if (!strcmp(want[i], now[j])) kept++;
		if (unreadable) {
			struct rlimit l, z; getrlimit(RLIMIT_NOFILE, &l); z = l; z.rlim_cur = 0; setrlimit(RLIMIT_NOFILE, &z);
			my_fileset_reload(fs); setrlimit(RLIMIT_NOFILE, &l); vp_note("reload without a free descriptor");
			check(fs, now, nnow);
		}
		my_fileset_reload(fs); vp_note("reload");
		check(fs, want, nw);
		VP_CHECK(nh == before + nw - kept, "a file that stays listed was loaded again");
		if (twice) { unsigned b = nh; my_fileset_reload(fs); VP_CHECK(nh == b, "a second reload loads"); check(fs, want, nw); }
		if (kept && nw > kept && nnow > kept) vp_nontrivial();
		for (unsigned i = 0; i < nnow; i++) free(now[i]);
		memcpy(now, want, sizeof now); nnow = nw;
		if (vp_range(10) == 0) { unlink(set); my_fileset_reload(fs); vp_note("reload without a set file"); check(fs, now, nnow); int fd = open(set, O_CREAT | O_WRONLY, 0600); close(fd); mt += 50; recreated = true; }
	}
	my_fileset_destroy(&fs); VP_CHECK(fs == NULL, "destroy leaves the pointer");
	VP_CHECK(opens == 0, "%u handles stay open after destroy", opens);
	my_fileset_destroy(&fs);
	for (unsigned i = 0; i < nnow; i++) free(now[i]);
}

/* Driver for the executable oracles: random generation, replay, libFuzzer. */
#include "vp_case.h"
#include <errno.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

int vp_leakcheck = 1;
int vp_verbose = 0;

#if defined(__has_feature)
# if __has_feature(address_sanitizer)
#  define VP_ASAN 1
# endif
#endif
#if defined(__SANITIZE_ADDRESS__)
# define VP_ASAN 1
#endif
#ifdef VP_ASAN
size_t __sanitizer_get_current_allocated_bytes(void);
const char *__asan_default_options(void);
const char *__asan_default_options(void) { return "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:quarantine_size_mb=16:malloc_context_size=8:detect_stack_use_after_return=0"; }
const char *__ubsan_default_options(void);
const char *__ubsan_default_options(void) { return "print_stacktrace=1:halt_on_error=1:exitcode=77"; }
#endif

#define MAXIN 8192
static const uint8_t *in;
static size_t n_in, pos;
static uint64_t h_in;
static bool nontriv;
static char note[4096];
static size_t n_note;

static uint8_t next(void)
{
	uint8_t b = pos < n_in ? in[pos] : 0;
	pos++;
	h_in = (h_in ^ b) * 0x100000001b3ULL;
	return b;
}
uint8_t vp_u8(void) { return next(); }
uint16_t vp_u16(void) { uint16_t a = next(); return a | (uint16_t)(next() << 8); }
uint32_t vp_u32(void) { uint32_t a = vp_u16(); return a | (uint32_t)vp_u16() << 16; }
uint64_t vp_u64(void) { uint64_t a = vp_u32(); return a | (uint64_t)vp_u32() << 32; }
uint32_t vp_range(uint32_t n)
{
	if (n <= 1) return 0;
	if (n <= 256) return vp_u8() % n;
	if (n <= 65536) return vp_u16() % n;
	return vp_u32() % n;
}
bool vp_bool(void) { return vp_u8() & 1; }
uint64_t vp_edge64(void)
{
	uint8_t m = vp_u8();
	switch (m & 7) {
	case 0: return m >> 3;
	case 1: return vp_u8();
	case 2: return vp_u64();
	case 3: { unsigned b = vp_u8() & 63; return ((uint64_t)1 << b) - 1; }
	case 4: { unsigned b = vp_u8() & 63; return ((uint64_t)1 << b); }
	case 5: { unsigned b = vp_u8() & 63; return ((uint64_t)1 << b) + 1; }
	case 6: return ~(uint64_t)(m >> 3);
	default: { unsigned b = vp_u8() & 63; return vp_u64() >> b; }
	}
}
uint32_t vp_edge32(void)
{
	uint8_t m = vp_u8();
	switch (m & 7) {
	case 0: return m >> 3;
	case 1: return vp_u8();
	case 2: return vp_u32();
	case 3: { unsigned b = vp_u8() & 31; return ((uint32_t)1 << b) - 1; }
	case 4: { unsigned b = vp_u8() & 31; return ((uint32_t)1 << b); }
	case 5: { unsigned b = vp_u8() & 31; return ((uint32_t)1 << b) + 1; }
	case 6: return ~(uint32_t)(m >> 3);
	default: { unsigned b = vp_u8() & 31; return vp_u32() >> b; }
	}
}
uint8_t *vp_bytes(size_t n)
{
	uint8_t *p = malloc(n);
	if (p == NULL) abort();
	for (size_t i = 0; i < n; i++) p[i] = next();
	return p;
}
uint8_t *vp_dup(const void *s, size_t n)
{
	uint8_t *p = malloc(n);
	if (p == NULL) abort();
	if (n) memcpy(p, s, n);
	return p;
}
void vp_nontrivial(void) { nontriv = true; }

static bool noting;
void vp_note(const char *fmt, ...)
{
	va_list ap;
	if (!noting) return;
	va_start(ap, fmt);
	int r = vsnprintf(note + n_note, sizeof(note) - n_note, fmt, ap);
	va_end(ap);
	if (r > 0) { n_note += r; if (n_note >= sizeof(note)) n_note = sizeof(note) - 1; }
	if (vp_verbose) { va_start(ap, fmt); vprintf(fmt, ap); va_end(ap); fflush(stdout); }
}
void vp_notehex(const char *name, const void *p, size_t n)
{
	if (!noting) return;
	vp_note(" %s[%zu]=", name, n);
	for (size_t i = 0; i < n; i++) vp_note("%02x", ((const uint8_t *)p)[i]);
}
static const char *vp_phase = "";
void vp_fail(const char *fmt, ...)
{
	va_list ap;
	fprintf(stderr, "VP-FAIL%s: ", vp_phase);
	va_start(ap, fmt);
	vfprintf(stderr, fmt, ap);
	va_end(ap);
	fprintf(stderr, "\n");
	fflush(stderr);
#ifdef VP_LIBFUZZER
	abort();
#endif
	_exit(78);
}

static void one(const uint8_t *data, size_t n)
{
	for (int round = 0; round < 2; round++) {
#ifdef VP_ASAN
		size_t before = __sanitizer_get_current_allocated_bytes();
#endif
		in = data; n_in = n; pos = 0; h_in = 0xcbf29ce484222325ULL; nontriv = false; n_note = 0; note[0] = 0;
		vp_case();
#ifdef VP_ASAN
		size_t after = __sanitizer_get_current_allocated_bytes();
		if (!vp_leakcheck || after <= before) return;
		/* repeat once: one-time allocations inside libc are not leaks */
		if (round == 1) vp_fail("memory still allocated after the case: %zu bytes", after - before);
#else
		return;
#endif
	}
}

#ifdef VP_LIBFUZZER
int LLVMFuzzerTestOneInput(const uint8_t *data, size_t n);
int LLVMFuzzerTestOneInput(const uint8_t *data, size_t n) { one(data, n); return 0; }
#else

#define DBITS (1u << 24)
struct shared {
	volatile uint64_t evals, nontrivial;
	volatile uint32_t len;
	volatile int active;
	uint8_t buf[MAXIN];
	char samples[3][1024];
	volatile int n_samples;
};
static uint64_t rs;
static uint64_t rnd(void)
{
	uint64_t z = (rs += 0x9e3779b97f4a7c15ULL);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
	return z ^ (z >> 31);
}
static size_t gen(uint8_t *b, size_t maxlen)
{
	size_t n;
	unsigned style = rnd() % 8;
	switch (rnd() % 4) {
	case 0: n = rnd() % 32; break;
	case 1: n = rnd() % 256; break;
	default: n = rnd() % (maxlen + 1); break;
	}
	if (n > maxlen) n = maxlen;
	for (size_t i = 0; i < n; i++) {
		uint64_t r = rnd();
		switch (style) {
		case 0: b[i] = r % 4; break;
		case 1: b[i] = (r & 0x300) ? r % 4 : r >> 16; break;
		case 2: b[i] = (r & 0x300) ? 0xff : r >> 16; break;
		case 3: b[i] = (r & 0x700) ? (r >> 16) % 16 : r >> 16; break;
		default: b[i] = r; break;
		}
	}
	return n;
}
static volatile sig_atomic_t timed_out;
static void on_alarm(int s)
{
	(void)s;
	static const char m[] = "VP-FAIL: the case does not finish within the time limit (no termination)\n";
	if (write(2, m, sizeof(m) - 1)) {}
	_exit(79);
}

static int worker(struct shared *sh, uint8_t *bitmap, uint64_t seed, int w, double secs, uint64_t maxcases, size_t maxlen, int caselimit)
{
	struct timespec t0, t;
	rs = seed * 0x2545f4914f6cdd1dULL + (uint64_t)w * 0x9e3779b97f4a7c15ULL + 12345;
	for (int i = 0; i < 8; i++) rnd();
	clock_gettime(CLOCK_MONOTONIC, &t0);
	signal(SIGALRM, on_alarm);
	for (uint64_t i = 0; i < maxcases; i++) {
		if ((i & 63) == 0) {
			clock_gettime(CLOCK_MONOTONIC, &t);
			if ((t.tv_sec - t0.tv_sec) + (t.tv_nsec - t0.tv_nsec) / 1e9 >= secs) break;
			alarm(caselimit);
		}
		size_t n = gen(sh->buf, maxlen);
		sh->len = n;
		sh->active = 1;
		noting = sh->n_samples < 3 && i > 50;
		one(sh->buf, n);
		sh->active = 0;
		sh->evals++;
		if (nontriv) {
			sh->nontrivial++;
			uint32_t k = (h_in ^ (h_in >> 29)) & (DBITS - 1);
			__atomic_fetch_or(&bitmap[k >> 3], (uint8_t)(1u << (k & 7)), __ATOMIC_RELAXED);
			if (noting) { snprintf(sh->samples[sh->n_samples], sizeof(sh->samples[0]), "%s", note); sh->n_samples++; }
		}
	}
	alarm(0);
	return 0;
}
static void jstr(const char *s)
{
	putchar('"');
	for (; *s; s++) {
		unsigned char c = *s;
		if (c == '"' || c == '\\') printf("\\%c", c);
		else if (c < 0x20 || c >= 0x7f) printf("\\u%04x", c);
		else putchar(c);
	}
	putchar('"');
}
int main(int argc, char **argv)
{
	uint64_t seed = 1, maxcases = ~(uint64_t)0;
	double secs = 5;
	int workers = 8, caselimit = 60;
	size_t maxlen = 512;
	const char *replay = NULL, *failout = NULL;
	for (int i = 1; i < argc; i++) {
		if (!strncmp(argv[i], "--seed=", 7)) seed = strtoull(argv[i] + 7, NULL, 0);
		else if (!strncmp(argv[i], "--secs=", 7)) secs = atof(argv[i] + 7);
		else if (!strncmp(argv[i], "--cases=", 8)) maxcases = strtoull(argv[i] + 8, NULL, 0);
		else if (!strncmp(argv[i], "--workers=", 10)) workers = atoi(argv[i] + 10);
		else if (!strncmp(argv[i], "--maxlen=", 9)) maxlen = atoi(argv[i] + 9);
		else if (!strncmp(argv[i], "--caselimit=", 12)) caselimit = atoi(argv[i] + 12);
		else if (!strncmp(argv[i], "--replay=", 9)) replay = argv[i] + 9;
		else if (!strncmp(argv[i], "--failout=", 10)) failout = argv[i] + 10;
	}
	if (maxlen > MAXIN) maxlen = MAXIN;
	if (replay) {
		static uint8_t b[1 << 20];
		FILE *f = fopen(replay, "rb");
		if (!f) { perror(replay); return 2; }
		size_t n = fread(b, 1, sizeof(b), f);
		fclose(f);
		uint8_t *c = vp_dup(b, n);
		noting = true; vp_verbose = 1;
		signal(SIGALRM, on_alarm);
		alarm(caselimit);
		one(c, n);
		printf("\nreplay: no disagreement\n");
		free(c);
		return 0;
	}
	if (workers > 64) workers = 64;
	struct shared *sh = mmap(NULL, sizeof(*sh) * workers, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	uint8_t *bitmap = mmap(NULL, DBITS / 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	pid_t pids[64];
	for (int w = 0; w < workers; w++) {
		fflush(stdout);
		pids[w] = fork();
		if (pids[w] == 0) _exit(worker(&sh[w], bitmap, seed, w, secs, maxcases, maxlen, caselimit));
	}
	int failed = -1, st_failed = 0;
	for (int left = workers; left > 0; ) {
		int st;
		pid_t p = wait(&st);
		if (p < 0) { if (errno == EINTR) continue; break; }
		for (int w = 0; w < workers; w++) if (pids[w] == p) {
			left--;
			pids[w] = -1;
			if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) && failed < 0) {
				failed = w; st_failed = st;
				for (int v = 0; v < workers; v++) if (pids[v] > 0) kill(pids[v], SIGKILL);
			}
		}
	}
	uint64_t evals = 0, nt = 0, distinct = 0;
	for (int w = 0; w < workers; w++) { evals += sh[w].evals; nt += sh[w].nontrivial; }
	for (unsigned i = 0; i < DBITS / 8; i++) distinct += __builtin_popcount(bitmap[i]);
	printf("{\"evaluations\": %llu, \"nontrivial\": %llu, \"distinct_nontrivial\": %llu, \"failed\": %s, \"status\": %d, \"samples\": [",
	       (unsigned long long)evals, (unsigned long long)nt, (unsigned long long)distinct, failed >= 0 ? "true" : "false", st_failed);
	int c = 0;
	for (int w = 0; w < workers && c < 4; w++) for (int i = 0; i < sh[w].n_samples && c < 4; i++) { if (c++) printf(", "); jstr(sh[w].samples[i]); }
	printf("]}\n");
	if (failed >= 0 && failout) {
		FILE *f = fopen(failout, "wb");
		if (f) { fwrite(sh[failed].buf, 1, sh[failed].len, f); fclose(f); }
	}
	return failed >= 0 ? 1 : 0;
}
#endif

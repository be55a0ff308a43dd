/*
 * Common interface of the executable oracles.
 *
 * An oracle is a function  void vp_case(void)  which draws its inputs with the
 * vp_u8()/vp_range()/... functions, exercises the real code from /repo, and
 * compares what it observes with an independent reference; vp_fail() reports a
 * disagreement.  The same file is compiled with a random driver (vp_driver.c),
 * with libFuzzer, or for the replay of one input.
 */
#ifndef VP_CASE_H
#define VP_CASE_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <assert.h>

void vp_case(void);
extern int vp_leakcheck;	/* defined by the driver, default 1 */
extern int vp_verbose;

uint8_t vp_u8(void);
uint16_t vp_u16(void);
uint32_t vp_u32(void);
uint64_t vp_u64(void);
/* uniform-ish 0..n-1 (n >= 1) */
uint32_t vp_range(uint32_t n);
/* an integer biased to boundaries (0, 1, powers of two +-1, all ones) */
uint64_t vp_edge64(void);
uint32_t vp_edge32(void);
bool vp_bool(void);
/* n fresh bytes, malloc()ed exactly (n == 0: one valid non-readable byte area) */
uint8_t *vp_bytes(size_t n);
/* exact-size copy in its own allocation, so that the sanitizer sees overreads */
uint8_t *vp_dup(const void *p, size_t n);
void vp_nontrivial(void);
void vp_note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void vp_notehex(const char *name, const void *p, size_t n);
void vp_fail(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
#define VP_CHECK(c, ...) do { if (!(c)) vp_fail(__VA_ARGS__); } while (0)
#endif

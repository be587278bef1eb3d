/* Shared bits of the harnesses: PRNG, init, reporting. */
#ifndef VF_H
#define VF_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <inttypes.h>
#include <unistd.h>
#include <time.h>
#include <pthread.h>
#include <sched.h>
#include <errno.h>
#include <stdatomic.h>
#include "log.h"
#include "allocator.h"
#include "rrr_strerror.h"
#include "rrr_config.h"

/* every executable of the project defines these */
extern const char *rrr_default_log_prefix;

static inline uint64_t vf_mix(uint64_t x) {
	x += 0x9e3779b97f4a7c15ULL; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
	x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL; return x ^ (x >> 31);
}
struct vf_rng { uint64_t s; };
static inline uint64_t vf_r64(struct vf_rng *r) { r->s += 0x9e3779b97f4a7c15ULL; return vf_mix(r->s); }
static inline uint32_t vf_below(struct vf_rng *r, uint32_t n) { return n ? (uint32_t)(vf_r64(r) % n) : 0; }
static inline int vf_chance(struct vf_rng *r, uint32_t one_in) { return vf_below(r, one_in) == 0; }
static inline uint64_t vf_now_ms(void) {
	struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (uint64_t)t.tv_sec * 1000 + (uint64_t)t.tv_nsec / 1000000;
}
static inline void vf_init(void) {
	if (rrr_allocator_init() || rrr_log_init()) { fprintf(stderr, "vf_init failed\n"); exit(2); }
	rrr_strerror_init();
	rrr_config_init(0, 0, 0, 0, 0, 0, 0, 0, 0, "");
}
static inline void vf_cleanup(void) { rrr_strerror_cleanup(); rrr_log_cleanup(); rrr_allocator_cleanup(); }
static int vf_violations;
#define VIOLATE(key, ...) do { if (vf_violations++ < 20) { flockfile(stdout); printf("#V %s ", key); printf(__VA_ARGS__); printf("\n"); fflush(stdout); funlockfile(stdout); } } while (0)

static inline int vf_hexval(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static inline size_t vf_unhex(uint8_t *dst, const char *src) {
	size_t n = 0; if (src[0] == '-' ) return 0;
	for (; src[0] > ' ' && src[1] > ' '; src += 2) dst[n++] = (uint8_t)(vf_hexval(src[0]) << 4 | vf_hexval(src[1]));
	return n;
}
static inline void vf_hex(FILE *f, const void *p, size_t n) {
	const uint8_t *b = p; if (n == 0) { fputc('-', f); return; }
	for (size_t i = 0; i < n; i++) { fputc("0123456789abcdef"[b[i] >> 4], f); fputc("0123456789abcdef"[b[i] & 15], f); }
}
#endif

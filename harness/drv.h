/* Command driver: one command per stdin line, one response line each.  The
 * project's own log lines (stdout) are thrown away. */
#ifndef DRV_H
#define DRV_H
#include "vf.h"
static FILE *OUT;
static inline void drv_init(void) {
	OUT = fdopen(dup(1), "w");
	if (!getenv("DRV_LOG") && !freopen("/dev/null", "w", stdout)) exit(2);
	vf_init();
}
#define DRV_MAXARG 64
/* fresh exactly-sized copy so that ASan sees over-reads */
static inline uint8_t *drv_bytes(const char *hex, size_t *len) {
	size_t n = strlen(hex) / 2;
	uint8_t *b = malloc(n ? n : 1);
	*len = vf_unhex(b, hex);
	if (*len == 0) { free(b); b = malloc(1); uint8_t *c = realloc(b, 1); return c; }
	return b;
}
static inline char *drv_str(const char *hex) {
	size_t n = strlen(hex) / 2; char *b = malloc(n + 1); n = vf_unhex((uint8_t *) b, hex); b[n] = 0; return b;
}
typedef int (*drv_fn)(int argc, char **argv);
static inline void drv_loop(drv_fn fn) {
	char *line = NULL; size_t cap = 0; ssize_t n;
	while ((n = getline(&line, &cap, stdin)) > 0) {
		char *argv[DRV_MAXARG]; int argc = 0; char *save = NULL;
		for (char *t = strtok_r(line, " \n", &save); t && argc < DRV_MAXARG; t = strtok_r(NULL, " \n", &save)) argv[argc++] = t;
		if (argc == 0) continue;
		fn(argc, argv);
		fputc('\n', OUT); fflush(OUT);
	}
	free(line);
}
#endif

/* LD_PRELOAD: kills the whole process group at the Nth operation on files below VF_CRASH_DIR (writes may be cut in half).
 * The count starts when the file VF_CRASH_ARM appears. Operations are recorded in VF_CRASH_LOG. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/stat.h>

static atomic_long count;
static long at = -1;
static int half, mode; /* mode: 0 kill, 1 fail, 2 short write */
static const char *dir, *arm, *lg;
static size_t dlen;
static __thread int busy;

/* the program rewrites its environment block */
static const char *env(const char *n) { const char *v = getenv(n); return v ? strdup(v) : NULL; }
__attribute__((constructor)) static void init(void) {
	if (dir) return;
	at = env("VF_CRASH_AT") ? atol(env("VF_CRASH_AT")) : -1;
	lg = env("VF_CRASH_LOG");
	half = env("VF_CRASH_HALF") && *env("VF_CRASH_HALF") == '1';
	arm = env("VF_CRASH_ARM");
	const char *m = env("VF_CRASH_MODE");
	mode = m && *m == 'f' ? 1 : m && *m == 's' ? 2 : 0;
	dir = env("VF_CRASH_DIR") ? env("VF_CRASH_DIR") : "/nonexistent";
	dlen = strlen(dir);
}
static int ours_path(const char *p) {
	init();
	if (busy) return 0;
	char b[4096];
	if (*p != '/') { if (!getcwd(b, sizeof b)) return 0; p = b; }
	return strncmp(p, dir, dlen) == 0;
}
static int ours_fd(int fd) {
	init();
	if (busy) return 0;
	char l[64], b[4096];
	snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
	ssize_t n = readlink(l, b, sizeof b - 1);
	if (n <= 0) return 0;
	b[n] = 0;
	return strncmp(b, dir, dlen) == 0;
}
/* 1: die (or fail) now */
static int tick(const char *what) {
	if (!arm || access(arm, F_OK) != 0) return 0;
	long n = atomic_fetch_add(&count, 1);
	if (lg) {
		busy = 1;
		FILE *f = fopen(lg, "a");
		if (f) { fprintf(f, "%ld %s\n", n, what); fclose(f); }
		busy = 0;
	}
	return mode ? n >= at && n < at + 3 : n == at;
}
#include <errno.h>
#define DIE() do { if (mode) { errno = ENOSPC; return -1; } die(); } while (0)
static void die(void) { kill(0, SIGKILL); for (;;) pause(); }

#define REAL(name, type) typedef type; static T real; if (!real) real = (T) dlsym(RTLD_NEXT, name)

static int open_common(const char *name, const char *p, int fl, mode_t m) {
	typedef int (*T)(const char *, int, ...);
	T real = (T) dlsym(RTLD_NEXT, name);
	if ((fl & (O_CREAT | O_TRUNC)) && ours_path(p)) {
		if (tick("open")) DIE();
	}
	return real(p, fl, m);
}
int open(const char *p, int fl, ...) { mode_t m = 0; if (fl & O_CREAT) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); } return open_common("open", p, fl, m); }
int open64(const char *p, int fl, ...) { mode_t m = 0; if (fl & O_CREAT) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); } return open_common("open64", p, fl, m); }
ssize_t write(int fd, const void *b, size_t n) {
	REAL("write", ssize_t (*T)(int, const void *, size_t));
	if (ours_fd(fd) && tick("write")) { if (mode == 2) return real(fd, b, n / 2); if (half) real(fd, b, n / 2); DIE(); }
	return real(fd, b, n);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
	REAL("pwrite", ssize_t (*T)(int, const void *, size_t, off_t));
	if (ours_fd(fd) && tick("pwrite")) { if (mode == 2) return real(fd, b, n / 2, o); if (half) real(fd, b, n / 2, o); DIE(); }
	return real(fd, b, n, o);
}
int unlink(const char *p) { REAL("unlink", int (*T)(const char *)); if (ours_path(p) && tick("unlink")) DIE(); return real(p); }
int rename(const char *a, const char *b) { REAL("rename", int (*T)(const char *, const char *)); if (ours_path(a) && tick("rename")) DIE(); return real(a, b); }
int mkdir(const char *p, mode_t m) { REAL("mkdir", int (*T)(const char *, mode_t)); if (ours_path(p) && tick("mkdir")) DIE(); return real(p, m); }
int rmdir(const char *p) { REAL("rmdir", int (*T)(const char *)); if (ours_path(p) && tick("rmdir")) DIE(); return real(p); }
int ftruncate(int fd, off_t l) { REAL("ftruncate", int (*T)(int, off_t)); if (ours_fd(fd) && tick("ftruncate")) DIE(); return real(fd, l); }
int close(int fd) { REAL("close", int (*T)(int)); if (ours_fd(fd) && tick("close") && !mode) die(); return real(fd); }

/* Shared memory channel and allocator harness.
 *   h_mmch chan SEED N        two processes, a channel in each direction, ordered exactly-once delivery
 *   h_mmch kill SEED N        one side killed at a random point, the other must clean up
 *   h_mmch alloc SEED N SHARED THREADS   model based allocator stress */
#define _GNU_SOURCE
#include "vf.h"
#include <dlfcn.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/shm.h>
#include <signal.h>
#include <fcntl.h>
#include "mmap_channel.h"
#include "rrr_mmap.h"
#include "rrr_mmap_stats.h"
#include "rrr_shm.h"

const char *rrr_default_log_prefix = "h_mmch";

/* every POSIX SHM and SysV segment made by the code under test is recorded */
struct shared {
	atomic_int n_names, n_ids;
	char names[4096][40];
	int ids[65536]; pid_t pids[2];
	atomic_ullong reads, writes, full, empty, bytes, cberr, read_busy;
	atomic_int done[2], viol;
};
static struct shared *S;

static int (*real_shm_open)(const char *, int, mode_t);
static int (*real_shmget)(key_t, size_t, int);
int shm_open(const char *name, int flags, mode_t mode) {
	int fd = real_shm_open(name, flags, mode);
	if (fd >= 0 && (flags & O_CREAT) && S) { int i = atomic_fetch_add(&S->n_names, 1) % 4096; snprintf(S->names[i], 40, "%s", name); }
	return fd;
}
int shmget(key_t k, size_t sz, int fl) {
	int id = real_shmget(k, sz, fl);
	if (id >= 0 && S) S->ids[atomic_fetch_add(&S->n_ids, 1) % 65536] = id;
	return id;
}

static int leftovers(int tolerate) {
	/* SIGKILL may hit between the creation of a file and its registration */
	int n = 0; char p[128];
	for (int i = 0; i < S->n_names && i < 4096; i++) {
		snprintf(p, sizeof p, "/dev/shm%s", S->names[i]);
		if (access(p, F_OK) == 0) { n++; shm_unlink(S->names[i]); }
	}
	int m = 0; struct shmid_ds ds;
	for (int i = 0; i < S->n_ids && i < 65536; i++) if (shmctl(S->ids[i], IPC_STAT, &ds) == 0) {
		if (ds.shm_cpid != S->pids[0] && ds.shm_cpid != S->pids[1]) continue; /* id reused by some other program */
		m++; shmctl(S->ids[i], IPC_RMID, NULL);
	}
	if (n > tolerate) VIOLATE("shm-left", "%d of %d shared memory files remain", n, S->n_names);
	if (m > tolerate) VIOLATE("sysv-left", "%d of %d SysV segments remain", m, S->n_ids);
	return n + m;
}

static size_t msg_size(uint64_t seed, int dir, int i) {
	uint64_t h = vf_mix(seed * 31 + (uint64_t) dir * 7919 + (uint64_t) i);
	size_t r = (size_t)(h >> 8);
	switch (h & 15) {
		case 0: return 1 + r % 16;
		case 1: { static const size_t edge[] = {8176, 8184, 8191, 8192, 8193, 8200, 4095, 4096, 4097, 12288, 16384, 65535, 65536, 65537, 16, 15}; return edge[r % 16]; }
		case 2: return 8193 + r % 60000;
		case 3: return h & 0x40 ? 1 + r % 300000 : 1 + r % 9000;
		case 4: case 5: return 1 + r % 8192;
		default: return 1 + r % 400;
	}
}
static uint8_t pat(uint64_t seed, int dir, int i, size_t o) { return (uint8_t) vf_mix(seed + (uint64_t) dir * 131 + (uint64_t) i * 65537 + (o >> 3)) + (uint8_t) o; }

struct rd { uint64_t seed; int dir, next; struct vf_rng rng; int delay; int fail_next; };
static int read_cb(const void *data, size_t n, void *arg) {
	struct rd *r = arg;
	size_t want = msg_size(r->seed, r->dir, r->next);
	const uint8_t *p = data;
	if (n != want) { VIOLATE("channel-order", "dir %d entry %d: size %zu, expected %zu", r->dir, r->next, n, want); S->viol = 1; return 0; }
	for (size_t o = 0; o < n; o += (n > 4096 && o > 64 && o < n - 64) ? 61 : 1)
		if (p[o] != pat(r->seed, r->dir, r->next, o)) { VIOLATE("channel-data", "dir %d entry %d of size %zu differs at %zu", r->dir, r->next, n, o); S->viol = 1; return 0; }
	if (r->delay) usleep(vf_below(&r->rng, r->delay));
	if (vf_chance(&r->rng, 400)) { S->cberr++; return 1; }
	S->bytes += n;
	r->next++;
	return 0;
}
struct wr { uint64_t seed; int dir, i; size_t n; int fail; };
static int write_cb(void *target, void *arg) {
	struct wr *w = arg; uint8_t *p = target;
	for (size_t o = 0; o < w->n; o++) p[o] = pat(w->seed, w->dir, w->i, o);
	return w->fail;
}
struct side { struct rrr_mmap_channel *in, *out; uint64_t seed; int dir_in, dir_out, n; int wslow, rslow; };
static uint8_t *wbuf;
static pid_t watch; static int wst, reaped;

/* one process' loop: alternately writes and reads, in bursts */
static int side_run(struct side *s, int die_after) {
	struct vf_rng rng = { s->seed * 3 + (uint64_t) s->dir_in };
	struct rd r = { s->seed, s->dir_in, 0, { s->seed + 99 + (uint64_t) s->dir_in }, s->rslow, 0 };
	int wi = 0, steps = 0; uint64_t last = vf_now_ms(), maint = 0;
	while (wi < s->n || r.next < s->n) {
		int burst = 1 + (int) vf_below(&rng, vf_chance(&rng, 4) ? 1500 : 40);
		while (burst-- && wi < s->n) {
			struct wr w = { s->seed, s->dir_out, wi, msg_size(s->seed, s->dir_out, wi), vf_chance(&rng, 500) };
			int ret;
			if (vf_below(&rng, 2)) {
				ret = rrr_mmap_channel_write_using_callback(s->out, NULL, w.n, write_cb, &w, NULL, NULL);
				if (w.fail) { if (ret == 0) { VIOLATE("channel-callback-error", "write succeeded though the callback failed"); return 1; } S->cberr++; break; }
			}
			else {
				w.fail = 0; write_cb(wbuf, &w);
				ret = rrr_mmap_channel_write(s->out, NULL, wbuf, w.n, NULL, NULL);
			}
			if (ret == RRR_MMAP_CHANNEL_FULL) { S->full++; break; }
			if (ret) { if (!die_after || !ret) VIOLATE("channel-write-error", "write of %zu returned %d", w.n, ret); return 1; }
			S->writes++; wi++; last = vf_now_ms();
			if (s->wslow && vf_chance(&rng, 20)) usleep(vf_below(&rng, s->wslow));
			if (die_after && ++steps > die_after) return 2;
		}
		burst = 1 + (int) vf_below(&rng, vf_chance(&rng, 4) ? 1500 : 40);
		while (burst-- && r.next < s->n) {
			int cnt = -1, before = r.next;
			uint64_t cb = S->cberr;
			int ret = rrr_mmap_channel_read_with_callback(&cnt, s->in, read_cb, &r);
			if (S->viol) return 1;
			if (ret == 0 && cnt == 0) { S->empty++; break; }
			if (ret == RRR_MMAP_CHANNEL_EMPTY) { S->read_busy++; break; }
			if (ret) { if (r.next != before || cb == S->cberr) { if (!die_after) VIOLATE("channel-read-error", "read returned %d at entry %d", ret, r.next); return 1; } continue; }
			if (cnt != 1 || r.next != before + 1) { VIOLATE("channel-count", "read count %d, entries seen %d", cnt, r.next - before); return 1; }
			S->reads++; last = vf_now_ms();
			if (die_after && ++steps > die_after) return 2;
		}
		if (vf_now_ms() - maint > 20) { maint = vf_now_ms(); if (s->dir_in == 1) { rrr_mmap_channel_maintenance(s->in); rrr_mmap_channel_maintenance(s->out); } }
		if (S->viol) return 1;
		if (die_after && (S->done[0] || (watch && kill(watch, 0) == 0 && waitpid(watch, &wst, WNOHANG) == watch))) { reaped = 1; return 1; }
		if (vf_now_ms() - last > 20000) {
			int c = -1; rrr_mmap_channel_count(&c, s->in);
			VIOLATE("channel-stuck", "dir %d: written %d, read %d of %d, count %d", s->dir_in, wi, r.next, s->n, c); return 1;
		}
	}
	return 0;
}

static int mode_chan(uint64_t seed, int n, int kill_mode) {
	struct vf_rng rng = { seed };
	struct rrr_mmap_channel *ab, *ba;
	if (rrr_mmap_channel_new(&ab, "a to b") || rrr_mmap_channel_new(&ba, "b to a")) { VIOLATE("channel-new", "creation failed"); return 1; }
	/* a few writes before forking, like configuration data */
	struct side A = { ba, ab, seed, 1, 0, n, vf_chance(&rng, 2) ? 200 : 0, vf_chance(&rng, 3) ? 100 : 0 };
	struct side B = { ab, ba, seed, 0, 1, n, vf_chance(&rng, 2) ? 200 : 0, vf_chance(&rng, 3) ? 100 : 0 };
	int die = kill_mode ? 1 + (int) vf_below(&rng, (uint32_t) n) : 0, how = (int) vf_below(&rng, 3);
	fflush(NULL);
	pid_t pid = fork();
	if (pid == 0) {
		int rc = side_run(&B, kill_mode && how == 0 ? die : 0);
		if (kill_mode && rc == 2) { fflush(NULL); raise(SIGKILL); }
		if (!kill_mode) { while (!S->done[0] && !S->viol) usleep(1000); }
		/* the steps of a cmodule worker fork */
		rrr_mmap_channel_writer_free_blocks(ba);
		rrr_mmap_channel_fork_unregister(ba);
		rrr_shm_holders_cleanup();
		fflush(NULL);
		_exit(rc == 1 && !kill_mode ? 7 : 0);
	}
	int rc = 0;
	watch = pid;
	S->pids[0] = getpid(); S->pids[1] = pid;
	if (kill_mode && how == 1) { /* killed from outside at a random moment */
		if (fork() == 0) { usleep(500 + vf_below(&rng, 60000)); kill(pid, SIGKILL); _exit(0); }
		S->done[1] = 0;
		rc = side_run(&A, 1 << 30);
	}
	else if (kill_mode) {
		/* how 0: the child kills itself after some steps; how 2: stopped by us after some of our steps */
		rc = side_run(&A, how == 2 ? die : 1 << 30);
		if (!reaped) kill(pid, SIGKILL);
	}
	else rc = side_run(&A, 0);
	S->done[0] = 1;
	int st = 0;
	if (!reaped) { if (kill_mode) kill(pid, SIGKILL); waitpid(pid, &st, 0); }
	while (kill_mode && wait(NULL) > 0);
	if (!kill_mode) {
		if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { if (!vf_violations && !S->viol) VIOLATE("channel-child", "child ended with status %x", st); }
		int c = -1;
		rrr_mmap_channel_count(&c, ab); if (c != 0) VIOLATE("channel-count", "%d entries counted after all were read", c);
		if (rc == 0 && (S->reads != (unsigned long long) 2 * n || S->writes != (unsigned long long) 2 * n)) VIOLATE("channel-lost", "%llu writes %llu reads", S->writes, S->reads);
		unsigned long long cc = 1, full = 0;
		rrr_mmap_channel_get_counters_and_reset(&cc, &full, ab);
		if (cc != 0) VIOLATE("channel-count", "counters say %llu", cc);
	}
	rrr_mmap_channel_writer_free_blocks(ab);
	rrr_mmap_channel_destroy(ab);
	rrr_mmap_channel_destroy(ba);
	rrr_shm_holders_cleanup();
	leftovers(kill_mode);
	printf("#C channel_%s 1\n#C channel_entries_written %llu\n#C channel_entries_read %llu\n#C channel_full %llu\n#C channel_empty %llu\n#C channel_callback_errors %llu\n#C shm_files %d\n#C sysv_segments %d\n",
		kill_mode ? "killed" : "runs", S->writes, S->reads, S->full, S->empty, S->cberr, S->n_names, S->n_ids);
	printf("#E %llu\n#D %s-%d-%d-%d-%d-%d\n", S->reads, kill_mode ? "kill" : "chan", how, A.wslow, A.rslow, B.wslow, (int)(seed % 1000));
	return 0;
}

/* ---------------- allocator ---------------- */
struct al { uint8_t *p; size_t n; uint64_t tag; };
#define MAXAL 4000
struct at { struct rrr_mmap_collection_private_data *pd; struct rrr_mmap_collection *cs; size_t nc; uint64_t seed; int n, shared, id; uint64_t allocs, frees, peak, maint; };
static pthread_mutex_t alk = PTHREAD_MUTEX_INITIALIZER;
static struct al *LIVE; static int NLIVE; /* across threads, for the overlap test */

static size_t al_size(struct vf_rng *r, int phase) {
	switch (vf_below(r, phase ? 8 : 5)) {
		case 0: return 1 + vf_below(r, 32);
		case 1: return 1 + vf_below(r, 700);
		case 2: return 16 * (1 + vf_below(r, 64)) - 8 + vf_below(r, 3);
		case 3: return 1 + vf_below(r, 5000);
		case 4: return 100;
		case 5: return 1 + vf_below(r, 60000);
		case 6: return vf_chance(r, 10) ? 1 + vf_below(r, 1500000) : 1 + vf_below(r, 20);
		default: return vf_chance(r, 30) ? 1048576 - 600 + vf_below(r, 1200) : 64;
	}
}
static uint8_t apat(uint64_t tag, size_t o) { return (uint8_t)(vf_mix(tag + (o >> 4)) + o); }
static void afill(struct al *a) { for (size_t o = 0; o < a->n; o += (o > 64 && o + 64 < a->n) ? 37 : 1) a->p[o] = apat(a->tag, o); }
static int acheck(struct al *a) { for (size_t o = 0; o < a->n; o += (o > 64 && o + 64 < a->n) ? 37 : 1) if (a->p[o] != apat(a->tag, o)) return 1; return 0; }

static void *alloc_thread(void *arg) {
	struct at *t = arg;
	struct vf_rng rng = { t->seed + (uint64_t) t->id * 77 };
	struct rrr_mmap_collection_private_data *pd = t->pd;
	struct al *mine = calloc(MAXAL, sizeof(*mine)); int nm = 0; size_t live = 0;
	int target = 1 + (int) vf_below(&rng, MAXAL - 1), phase = 0;
	for (int i = 0; i < t->n; i++) {
		if (vf_chance(&rng, 300)) { target = vf_chance(&rng, 4) ? 0 : 1 + (int) vf_below(&rng, vf_chance(&rng, 2) ? 60 : MAXAL - 1); phase = (int) vf_below(&rng, 2); }
		if (vf_chance(&rng, 150)) { struct rrr_mmap_stats st; rrr_mmap_collections_maintenance(&st, t->cs, t->nc); t->maint++; }
		if (nm < target && live < 6000000 && vf_below(&rng, 8)) {
			struct al a; a.n = al_size(&rng, phase); a.tag = vf_r64(&rng);
			size_t c = vf_below(&rng, (uint32_t) t->nc);
			a.p = rrr_mmap_collections_allocate(t->cs, c, a.n, 1048576);
			if (!a.p) { VIOLATE("alloc-failed", "allocation of %zu failed with %zu bytes in use by this thread", a.n, live); break; }
			if ((uintptr_t) a.p % 8) VIOLATE("alloc-align", "pointer %p", (void *) a.p);
			pthread_mutex_lock(&alk);
			for (int k = 0; k < NLIVE; k++) if (LIVE[k].p && a.p < LIVE[k].p + LIVE[k].n && LIVE[k].p < a.p + a.n) {
				VIOLATE("alloc-overlap", "new block of %zu overlaps one of %zu in use", a.n, LIVE[k].n); break; }
			int slot = -1; for (int k = 0; k < NLIVE; k++) if (!LIVE[k].p) { slot = k; break; }
			if (slot < 0) slot = NLIVE++;
			LIVE[slot] = a;
			pthread_mutex_unlock(&alk);
			afill(&a); mine[nm++] = a; live += a.n; t->allocs++; if (live > t->peak) t->peak = live;
		}
		else if (nm) {
			int k = vf_chance(&rng, 3) ? nm - 1 : (int) vf_below(&rng, (uint32_t) nm);
			struct al a = mine[k]; mine[k] = mine[--nm]; live -= a.n;
			if (acheck(&a)) { VIOLATE("alloc-data", "block of %zu was overwritten while in use", a.n); break; }
			pthread_mutex_lock(&alk);
			for (int q = 0; q < NLIVE; q++) if (LIVE[q].p == a.p) { LIVE[q].p = NULL; break; }
			pthread_mutex_unlock(&alk);
			if (rrr_mmap_collections_free(pd, t->nc, a.p)) { VIOLATE("free-failed", "block of %zu not found", a.n); break; }
			t->frees++;
			if (vf_chance(&rng, 500)) { int x; if (rrr_mmap_collections_free(pd, t->nc, &x) == 0) VIOLATE("free-foreign", "foreign pointer accepted"); }
		}
		if (vf_violations) break;
	}
	for (int k = 0; k < nm; k++) {
		if (acheck(&mine[k])) { VIOLATE("alloc-data", "block of %zu was overwritten while in use", mine[k].n); break; }
		pthread_mutex_lock(&alk);
		for (int q = 0; q < NLIVE; q++) if (LIVE[q].p == mine[k].p) { LIVE[q].p = NULL; break; }
		pthread_mutex_unlock(&alk);
		rrr_mmap_collections_free(pd, t->nc, mine[k].p);
	}
	free(mine); free(pd);
	return NULL;
}
static int mode_alloc(uint64_t seed, int n, int shared, int threads) {
	struct vf_rng rng = { seed };
	struct rrr_mmap_collection *cs; size_t nc = 1 + vf_below(&rng, 3);
	if (rrr_mmap_collections_new(&cs, nc, shared, "h_mmch")) { VIOLATE("collections-new", "failed"); return 1; }
	LIVE = calloc((size_t) MAXAL * (size_t) threads, sizeof(*LIVE));
	struct at t[8]; pthread_t th[8];
	for (int i = 0; i < threads; i++) { t[i] = (struct at){ malloc(sizeof(struct rrr_mmap_collection_private_data) * nc), cs, nc, seed, n, shared, i, 0, 0, 0, 0 }; rrr_mmap_collection_private_datas_init(t[i].pd, cs, nc); }
	for (int i = 0; i < threads; i++) { pthread_create(&th[i], NULL, alloc_thread, &t[i]); }
	uint64_t a = 0, f = 0, m = 0, peak = 0;
	for (int i = 0; i < threads; i++) { pthread_join(th[i], NULL); a += t[i].allocs; f += t[i].frees; m += t[i].maint; if (t[i].peak > peak) peak = t[i].peak; }
	/* everything is free now; empty maps must go away after some rounds */
	struct rrr_mmap_stats st = {0};
	for (int i = 0; i < 30; i++) rrr_mmap_collections_maintenance(&st, cs, nc);
	if (st.mmap_total_count != 0) VIOLATE("maps-not-released", "%llu maps remain after everything was freed", (unsigned long long) st.mmap_total_count);
	rrr_mmap_collections_destroy(cs, nc);
	rrr_shm_holders_cleanup();
	leftovers(0);
	free(LIVE);
	printf("#C allocations %llu\n#C frees %llu\n#C maintenance %llu\n#E %llu\n#D alloc-%d-%d-%zu-%llu\n", (unsigned long long) a, (unsigned long long) f,
		(unsigned long long) m, (unsigned long long) (a + f), shared, threads, nc, (unsigned long long) seed);
	return 0;
}

int main(int argc, char **argv) {
	if (argc < 4) return 2;
	/* own namespace of SysV identifiers, which begins with identifier 0 */
	if (strtoull(argv[2], NULL, 10) % 2 == 0 && unshare(CLONE_NEWUSER | CLONE_NEWIPC) == 0) printf("#C new_ipc_namespace 1\n");
	S = mmap(NULL, sizeof(*S), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	FILE *err = stderr; (void) err;
	real_shm_open = (int (*)(const char *, int, mode_t)) dlsym(RTLD_NEXT, "shm_open");
	real_shmget = (int (*)(key_t, size_t, int)) dlsym(RTLD_NEXT, "shmget");
	vf_init();
	wbuf = malloc(400000);
	uint64_t seed = strtoull(argv[2], NULL, 10); int n = atoi(argv[3]);
	if (!strcmp(argv[1], "chan")) mode_chan(seed, n, 0);
	else if (!strcmp(argv[1], "kill")) mode_chan(seed, n, 1);
	else if (!strcmp(argv[1], "alloc")) mode_alloc(seed, n, atoi(argv[4]), atoi(argv[5]));
	else return 2;
	free(wbuf);
	vf_cleanup();
	return 0;
}

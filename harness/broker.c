/* Message broker delivery monitor: random topologies of real costumers, one
 * thread and event queue per costumer, every emission and delivery recorded
 * and reconciled after quiescence.   usage: broker SEED ROUNDS NMSG [MODE] */
#include "vf.h"
#include "message_broker.h"
#include "message_holder/message_holder.h"
#include "message_holder/message_holder_struct.h"
#include "message_holder/message_holder_util.h"
#include "message_holder/message_holder_collection.h"
#include "messages/msg_msg.h"
#include "instance_friends.h"
#include "event/event.h"
#include "event/event_functions.h"
RRR_CONFIG_DEFINE_DEFAULT_LOG_PREFIX("vf_broker");

#define MAXN 12
#define FAKE(i) ((struct rrr_instance *)(uintptr_t)(0x10000 + 16 * (i)))
enum kind { SRC, FWD, LEAF };
struct node {
	int id; enum kind kind; int slot, dup; char name[32];
	struct rrr_message_broker_costumer *c; struct rrr_event_queue *q; pthread_t t;
	int nsend, nlist; struct node *send[MAXN], *list[MAXN];
	unsigned reach;         /* sources whose messages arrive here */
	int is_src; int src_id; /* bus leaves are both */
	int pollmode; uint16_t pollamount;
	uint32_t emitted;
	uint8_t *recv[MAXN];    /* per source: count per seq */
	int64_t last[MAXN];
	uint64_t total_recv; uint64_t wsalt; struct vf_rng rng, wrng;
	rrr_msg_holder_nexthops hops; unsigned hopmask;
	_Atomic uint64_t seen;
};
static struct node N[MAXN]; static int nn; static uint32_t nmsg; static int bus, pollround;
static _Atomic int stop; static _Atomic uint64_t progress; static _Atomic int src_running;
static struct rrr_message_broker *broker;
static uint64_t roundseed;

struct pl { uint32_t src, seq, len; uint64_t salt; } __attribute__((packed));

static void fill(uint8_t *d, uint32_t src, uint32_t seq, uint32_t len) {
	uint64_t s = vf_mix(roundseed ^ ((uint64_t)src << 32 | seq));
	for (uint32_t i = 0; i < len; i++) { if ((i & 7) == 0) s = vf_mix(s); d[i] = (uint8_t)(s >> (8 * (i & 7))); }
}
static uint32_t paylen(uint32_t src, uint32_t seq) { return (uint32_t)(vf_mix(roundseed + seq * 31 + src) % 97); }
static struct rrr_msg_msg *mkmsg(uint32_t src, uint32_t seq) {
	struct rrr_msg_msg *m = NULL; char topic[64];
	int tl = (seq % 3 == 0) ? 0 : snprintf(topic, sizeof topic, "s%u/%u", src, seq % 7);
	uint8_t buf[200]; struct pl *p = (void *)buf;
	p->src = src; p->seq = seq; p->len = paylen(src, seq); p->salt = roundseed;
	fill(buf + sizeof *p, src, seq, p->len);
	if (rrr_msg_msg_new_with_data(&m, MSG_TYPE_MSG, MSG_CLASS_DATA, 1000 + seq, topic, (rrr_u16)tl, (char *)buf, (rrr_u32)(sizeof *p + p->len))) exit(2);
	return m;
}
static void jitter(struct vf_rng *g) {
	uint32_t r = vf_below(g, 64);
	if (r == 0) usleep(vf_below(g, 300)); else if (r < 6) sched_yield();
}
static int cancel(void *arg) { (void)arg; return stop ? 1 : 0; }

static struct node *sender_of(struct node *n, uint32_t src) {
	for (int i = 0; i < n->nsend; i++) if (n->send[i]->reach & (1u << src)) return n->send[i];
	return NULL;
}

/* Readers competing for one buffer may put entries back while another reader
 * proceeds: order is only owed where no such competition is on the way. */
static int ordered(struct node *n, uint32_t src) {
	for (int i = 0; i < MAXN; i++) {
		if (n->is_src && n->src_id == (int)src) return 1;
		struct node *f = sender_of(n, src);
		if (f == NULL) return 1;
		if (!f->dup && !f->slot && f->nlist > 1) return 0;
		n = f;
		if (bus) return 1;
	}
	return 1;
}

/* ---- reader side */
static void record(struct node *n, struct rrr_msg_holder *e, int *origin) {
	struct rrr_msg_msg *m = e->message; struct pl *p;
	*origin = -1;
	if (m == NULL || e->data_length < sizeof(*m) - 1 + sizeof(*p) || MSG_TOTAL_SIZE(m) != e->data_length) {
		VIOLATE("content-size", "node %s got an entry of bad size", n->name); return;
	}
	p = (void *)MSG_DATA_PTR(m);
	if (p->salt != roundseed || p->src >= MAXN || p->seq >= nmsg || p->len != paylen(p->src, p->seq) ||
	    MSG_DATA_LENGTH(m) != sizeof *p + p->len) {
		VIOLATE("content-head", "node %s got a corrupt entry", n->name); return;
	}
	uint8_t want[128]; fill(want, p->src, p->seq, p->len);
	char topic[64]; int tl = (p->seq % 3 == 0) ? 0 : snprintf(topic, sizeof topic, "s%u/%u", p->src, p->seq % 7);
	if (memcmp(want, (uint8_t *)p + sizeof *p, p->len) || MSG_TOPIC_LENGTH(m) != tl || memcmp(topic, MSG_TOPIC_PTR(m), (size_t)tl) || m->timestamp != 1000 + p->seq)
		VIOLATE("content-bytes", "node %s: message s%u/%u changed on the way", n->name, p->src, p->seq);
	*origin = (int)p->src;
	struct node *from = sender_of(n, p->src);
	if (from == NULL) { VIOLATE("misrouted", "node %s received a message of source %u it is not connected to", n->name, p->src); return; }
	if (bus && n->kind == LEAF && n->src_id == (int)p->src)
		VIOLATE("backstop", "node %s read back its own message %u (bus slot=%d dup=%d)", n->name, p->seq, from->slot, from->dup);
	if (n->recv[p->src][p->seq] < 255) n->recv[p->src][p->seq]++;
	if ((int64_t)p->seq <= n->last[p->src] && ordered(n, p->src))
		VIOLATE((int64_t)p->seq == n->last[p->src] ? "duplicate" : "order", "node %s: source %u seq %u after %" PRId64 " (sender %s slot=%d dup=%d nlist=%d)",
			n->name, p->src, p->seq, n->last[p->src], from->name, from->slot, from->dup, from->nlist);
	n->last[p->src] = p->seq;
	/* nexthops set by a source must be visible unchanged to its direct readers */
	if (from->kind == SRC && from->hopmask) {
		int want_ok = (from->hopmask >> n->id) & 1;
		if (!!rrr_msg_holder_nexthop_ok(e, FAKE(n->id)) != want_ok)
			VIOLATE("nexthops", "node %s: nexthop check gives %d, the sender %s set %d", n->name, !want_ok, from->name, want_ok);
	} else if (!rrr_msg_holder_nexthop_ok(e, FAKE(n->id)))
		VIOLATE("nexthops", "node %s: message without nexthops not acceptable", n->name);
	n->total_recv++; n->seen++; progress++;
}
static int reader_cb(struct rrr_msg_holder *e, void *arg) {
	struct node *n = arg; int origin; int ret = 0;
	record(n, e, &origin);
	jitter(&n->rng);
	if (n->kind == FWD && origin >= 0) {
		ret = rrr_message_broker_incref_and_write_entry_unsafe(n->c, e, NULL, cancel, NULL);
		if (ret != 0 && !stop) VIOLATE("write-error", "forwarding returned %d", ret);
		ret = 0;
	}
	rrr_msg_holder_unlock(e);
	return ret;
}
static int data_available(uint16_t *amount, void *arg) {
	struct node *n = arg;
	return rrr_message_broker_poll_delete(amount, n->c, RRR_MESSAGE_BROKER_POLL_F_CHECK_BACKSTOP, reader_cb, n);
}
static int periodic(void *arg) { (void)arg; return stop ? RRR_EVENT_EXIT : 0; }
static void *reader_main(void *arg) {
	struct node *n = arg;
	if (n->pollmode) {
		while (!stop) {
			uint16_t a = n->pollamount ? n->pollamount : (uint16_t)(1 + vf_below(&n->rng, 900));
			uint64_t before = n->total_recv; uint16_t want = a;
			if (rrr_message_broker_poll_delete(&a, n->c, RRR_MESSAGE_BROKER_POLL_F_CHECK_BACKSTOP, reader_cb, n)) VIOLATE("poll-error", "poll failed");
			if (n->total_recv - before > want) VIOLATE("poll-amount", "asked for %u entries, got %" PRIu64, want, n->total_recv - before);
			if (n->total_recv == before) sched_yield();
		}
		return NULL;
	}
	if (rrr_event_dispatch(n->q, 20 * 1000, periodic, n)) VIOLATE("dispatch-error", "event dispatch failed");
	return NULL;
}

/* ---- writer side */
struct wcb { struct node *n; uint32_t left; };
static int write_cb(struct rrr_msg_holder *e, void *arg) {
	struct wcb *w = arg; struct node *n = w->n; int ret = 0;
	if (vf_chance(&n->wrng, 9)) { ret = RRR_MESSAGE_BROKER_DROP | (w->left ? RRR_MESSAGE_BROKER_AGAIN : 0); goto out; }
	struct rrr_msg_msg *m = mkmsg((uint32_t)n->src_id, n->emitted);
	rrr_msg_holder_set_unlocked(e, m, MSG_TOTAL_SIZE(m), NULL, 0, 0);
	n->emitted++; progress++;
	if (w->left) { w->left--; if (n->emitted < nmsg) ret = RRR_MESSAGE_BROKER_AGAIN; }
	out:
	rrr_msg_holder_unlock(e);
	return ret;
}
static struct rrr_msg_holder *holder(struct node *n, uint32_t seq) {
	struct rrr_msg_holder *h = NULL; struct rrr_msg_msg *m = mkmsg((uint32_t)n->src_id, seq);
	if (rrr_msg_holder_new(&h, MSG_TOTAL_SIZE(m), NULL, 0, 0, m)) exit(2);
	return h;
}
static void source_work(struct node *n) {
	const rrr_msg_holder_nexthops *hops = n->hopmask ? &n->hops : NULL;
	while (n->emitted < nmsg && !stop) {
		int ret = 0; jitter(&n->wrng);
		switch (vf_below(&n->wrng, 4)) {
		case 0: case 1: {
			struct wcb w = { n, vf_below(&n->wrng, 5) == 0 ? 300 : vf_below(&n->wrng, 4) };
			if (n->emitted + w.left > nmsg) w.left = 0;
			ret = rrr_message_broker_write_entry(n->c, NULL, 0, 0, hops, write_cb, &w, cancel, NULL);
			break; }
		case 2: {
			struct rrr_msg_holder *h = holder(n, n->emitted);
			rrr_msg_holder_lock(h);
			ret = rrr_message_broker_clone_and_write_entry(n->c, h, hops);
			rrr_msg_holder_decref_while_locked_and_unlock(h);
			n->emitted++; progress++;
			break; }
		default: {
			struct rrr_msg_holder_collection col = {0};
			uint32_t k = 1 + vf_below(&n->wrng, vf_chance(&n->wrng, 8) ? 600 : 5);
			if (n->emitted + k > nmsg) k = nmsg - n->emitted;
			for (uint32_t i = 0; i < k; i++) { struct rrr_msg_holder *h = holder(n, n->emitted + i); RRR_LL_APPEND(&col, h); }
			ret = rrr_message_broker_write_entries_from_collection_unsafe(n->c, &col, hops, cancel, NULL);
			if (ret == 0 && RRR_LL_COUNT(&col)) VIOLATE("collection-left", "%d entries left after a successful collection write", RRR_LL_COUNT(&col));
			rrr_msg_holder_collection_clear(&col);
			n->emitted += k; progress += k;
			break; }
		}
		if (ret && !stop) VIOLATE("write-error", "source write returned %d", ret);
	}
	src_running--;
}
static void *source_main(void *arg) { source_work(arg); return NULL; }

/* ---- topology */
static struct node *add(enum kind k, struct vf_rng *r) {
	struct node *n = &N[nn]; memset(n, 0, sizeof *n);
	n->id = nn++; n->kind = k; n->src_id = -1; n->rng.s = vf_r64(r); n->wrng.s = vf_r64(r);
	snprintf(n->name, sizeof n->name, "%c%d", "SFL"[k], n->id);
	n->slot = vf_chance(r, 4); n->dup = vf_chance(r, 2);
	n->pollmode = pollround; n->pollamount = (uint16_t)(vf_chance(r, 2) ? 0 : (uint16_t[]){1, 7, 499, 500, 501}[vf_below(r, 5)]);
	return n;
}
static void link_(struct node *from, struct node *to) {
	to->send[to->nsend++] = from; from->list[from->nlist++] = to; to->reach |= from->reach;
}
static void build(struct vf_rng *r) {
	nn = 0; bus = vf_chance(r, 4); pollround = !bus && vf_chance(r, 4); /* nobody may depend on notifications others do not answer */
	if (bus) {
		struct node *b = add(FWD, r); int k = 2 + (int)vf_below(r, 3); b->dup = !vf_chance(r, 4); b->pollmode = 0;
		for (int i = 0; i < k; i++) { struct node *l = add(LEAF, r); l->slot = 0; l->dup = 0; l->is_src = 1; l->src_id = i; l->pollmode = 0; link_(l, b); l->reach = 1u << i; b->reach |= 1u << i; }
		for (int i = 1; i <= k; i++) { N[i].send[N[i].nsend++] = b; b->list[b->nlist++] = &N[i]; }
		for (int i = 1; i <= k; i++) N[i].reach = b->reach;
		return;
	}
	int s = 1 + (int)vf_below(r, 3), f = (int)vf_below(r, 3), l = 1 + (int)vf_below(r, 4);
	for (int i = 0; i < s; i++) { struct node *n = add(SRC, r); n->src_id = i; n->is_src = 1; n->reach = 1u << i; }
	for (int i = 0; i < f; i++) {
		struct node *n = add(FWD, r);
		for (int t = 0; t < 4; t++) { struct node *x = &N[vf_below(r, (uint32_t)s)]; if (!(x->reach & n->reach)) link_(x, n); }
	}
	for (int i = 0; i < l; i++) {
		struct node *n = add(LEAF, r);
		for (int t = 0; t < 6; t++) { struct node *x = &N[vf_below(r, (uint32_t)(s + f))]; if (x->reach && !(x->reach & n->reach)) link_(x, n); }
	}
	/* every emitting node needs a reader */
	for (int i = 0; i < s + f; i++) if (N[i].nlist == 0) { struct node *n = add(LEAF, r); link_(&N[i], n); }
	for (int i = 0; i < s; i++) if (vf_chance(r, 3)) {
		N[i].hopmask = 1u << 31;
		for (int j = 0; j < N[i].nlist; j++) if (vf_chance(r, 2)) N[i].hopmask |= 1u << N[i].list[j]->id;
		if (N[i].hopmask & 0x7fffffff) for (int j = 0; j < nn; j++) if (N[i].hopmask >> j & 1) rrr_instance_friend_collection_append(&N[i].hops, FAKE(j), NULL);
		if (!(N[i].hopmask & 0x7fffffff)) N[i].hopmask = 0;
	}
}
static uint64_t queued(void) {
	uint64_t t = 0; for (int i = 0; i < nn; i++) { unsigned c = 0; int rl; if (N[i].kind == LEAF && !bus) continue;
		rrr_message_broker_get_entry_count_and_ratelimit(&c, &rl, N[i].c); t += c; } return t;
}
static void describe(char *o, size_t z) {
	size_t w = 0; for (int i = 0; i < nn && w + 60 < z; i++) {
		w += (size_t)snprintf(o + w, z - w, "%s%s%s%s<-", N[i].name, N[i].slot ? "s" : "", N[i].dup ? "d" : "", N[i].pollmode ? "p" : "");
		for (int j = 0; j < N[i].nsend; j++) w += (size_t)snprintf(o + w, z - w, "%d", N[i].send[j]->id);
		w += (size_t)snprintf(o + w, z - w, " "); }
}
static int hook(struct rrr_msg_holder *e, void *a) { (void)e; (void)a; return 0; }
static void cb_buf(const char *n, rrr_length c, void *a) { (void)n; (void)c; (*(int *)a)++; }
static void cb_sbuf(const char *n, const char *r, rrr_length c, void *a) { (void)n; (void)r; (void)c; (*(int *)a)++; }

static int round_(uint64_t seed) {
	struct vf_rng r = { seed }; roundseed = vf_mix(seed); stop = 0; progress = 0; char desc[1024];
	build(&r); describe(desc, sizeof desc);
	if (rrr_message_broker_new(&broker, NULL)) exit(2);
	for (int i = 0; i < nn; i++) {
		struct node *n = &N[i];
		if (rrr_message_broker_costumer_register(&n->c, broker, n->name, n->slot, hook, NULL)) exit(2);
		if (rrr_event_queue_new(&n->q)) exit(2);
		rrr_event_function_set_with_arg(n->q, RRR_EVENT_FUNCTION_MESSAGE_BROKER_DATA_AVAILABLE, data_available, n, "vf");
		rrr_message_broker_costumer_event_queue_set(broker, n->name, n->q);
		for (int j = 0; j < MAXN; j++) { n->last[j] = -1; n->recv[j] = calloc(1, nmsg); }
	}
	for (int i = 0; i < nn; i++) for (int j = 0; j < N[i].nsend; j++) if (rrr_message_broker_sender_add(N[i].c, N[i].send[j]->c)) exit(2);
	for (int i = 0; i < nn; i++) if (N[i].dup && N[i].nlist) if (rrr_message_broker_setup_split_output_buffer(N[i].c, (rrr_length)N[i].nlist)) exit(2);
	/* how many deliveries the whole graph owes, when that is schedule independent */
	uint64_t want = 0; int exact = 1;
	if (bus) { if (!N[0].dup) exact = 0; uint64_t k = (uint64_t)nn - 1; want = k * nmsg + (N[0].dup ? k * (k - 1) * nmsg : 0); }
	else {
		uint64_t out[MAXN] = {0};
		for (int i = 0; i < nn; i++) { /* ids are topologically ordered */
			if (N[i].kind == SRC) out[i] = nmsg;
			/* a competing forwarder's share is schedule dependent, but the sum over the competitors is not */
		}
		/* propagate per source with total copies per sender group */
		for (int i = 0; i < nn; i++) if (N[i].kind == SRC) want += out[i] * (N[i].dup ? (uint64_t)N[i].nlist : 1);
		for (int i = 0; i < nn; i++) if (N[i].kind == FWD) for (int j = 0; j < N[i].nsend; j++) {
			struct node *x = N[i].send[j]; if (!x->dup && x->nlist > 1) exact = 0;
			want += nmsg * (N[i].dup ? (uint64_t)N[i].nlist : 1);
		}
	}
	src_running = 0; for (int i = 0; i < nn; i++) if (N[i].is_src) src_running++;
	pthread_t srct[MAXN]; int nsrct = 0;
	for (int i = 0; i < nn; i++) {
		if (N[i].kind != SRC) pthread_create(&N[i].t, NULL, reader_main, &N[i]);
		if (N[i].is_src) pthread_create(&srct[nsrct++], NULL, source_main, &N[i]);
	}
	uint64_t t_last = vf_now_ms(), p_last = 0; int stalled = 0; int rep = 0, nrep = 0;
	for (;;) {
		usleep(2000);
		if ((++rep & 15) == 0) rrr_message_broker_report_buffers(broker, cb_buf, cb_sbuf, &nrep);
		uint64_t p = progress, got = 0, now = vf_now_ms();
		for (int i = 0; i < nn; i++) got += N[i].seen;
		if (p != p_last) { p_last = p; t_last = now; }
		if (src_running == 0) {
			if (exact && got >= want && now - t_last > 10) break;
			if (!exact && now - t_last > 200 && queued() == 0 && queued() == 0 && p == progress) break;
		}
		if (now - t_last > 20000) { stalled = 1; break; }
	}
	uint64_t left = queued();
	stop = 1;
	for (int i = 0; i < nn; i++) if (N[i].kind != SRC) pthread_join(N[i].t, NULL);
	for (int i = 0; i < nsrct; i++) pthread_join(srct[i], NULL);
	if (stalled) VIOLATE(src_running ? "stall-writer" : left ? "stall-notify" : "lost", "no progress for 20 s: running sources %d, queued %" PRIu64 ", topology %s", (int)src_running, left, desc);
	/* reconcile */
	uint64_t checked = 0, deliv = 0;
	if (!stalled) for (int x = 0; x < nn; x++) {
		struct node *s = &N[x]; if (s->nlist == 0) continue;
		for (int src = 0; src < MAXN; src++) {
			if (!(s->reach & (1u << src))) continue;
			if (bus && s->kind == LEAF && s->src_id != src) continue;
			for (uint32_t q = 0; q < nmsg; q++) {
				int em = s->is_src && s->src_id == src ? 1 : s->recv[src][q], sum = 0; checked++;
				for (int j = 0; j < s->nlist; j++) {
					struct node *l = s->list[j]; int got = l->recv[src][q];
					if (bus && s->kind == FWD && l->src_id == src) { if (got) VIOLATE("backstop", "own message returned"); continue; }
					sum += got;
					if (s->dup && got != em) VIOLATE(got < em ? "lost" : "duplicate", "source %d seq %u: sender %s emitted %d, duplicate reader %s got %d; topology %s", src, q, s->name, em, l->name, got, desc);
				}
				if (!s->dup && (bus && s->kind == FWD ? sum > em : sum != em))
					VIOLATE(sum < em ? "lost" : "duplicate", "source %d seq %u: sender %s emitted %d, its competing readers got %d; topology %s", src, q, s->name, em, sum, desc);
				deliv += (uint64_t)sum;
			}
		}
	}
	for (int i = 0; i < nn; i++) {
		struct rrr_fifo_protected_stats st = {0};
		if (N[i].nlist && !stalled) {
			rrr_message_broker_get_fifo_stats(&st, N[i].c);
			if (st.total_entries_deleted > st.total_entries_written) VIOLATE("stats", "deleted %" PRIu64 " > written %" PRIu64, st.total_entries_deleted, st.total_entries_written);
		}
	}
	for (int i = 0; i < nn; i++) rrr_message_broker_costumer_unregister(broker, N[i].c);
	rrr_message_broker_unregister_all(broker);
	rrr_message_broker_destroy(broker);
	for (int i = 0; i < nn; i++) {
		rrr_event_queue_destroy(N[i].q); rrr_instance_friend_collection_clear(&N[i].hops);
		for (int j = 0; j < MAXN; j++) free(N[i].recv[j]);
	}
	printf("#D %s\n#S seed %" PRIu64 ": %s nmsg=%u deliveries=%" PRIu64 "\n", desc, seed, desc, nmsg, deliv);
	printf("#C emissions_checked %" PRIu64 "\n#C deliveries %" PRIu64 "\n#C rounds 1\n#C bus_rounds %d\n#C threads %d\n#C buffer_reports %d\n#E 1\n", checked, deliv, bus, nn + nsrct, nrep);
	fflush(stdout);
	return 0;
}
int main(int argc, char **argv) {
	uint64_t seed = strtoull(argv[1], NULL, 10); int rounds = atoi(argv[2]); uint32_t nm = (uint32_t)atoi(argv[3]); (void)argc;
	vf_init();
	for (int i = 0; i < rounds && vf_violations == 0; i++) { nmsg = nm; round_(vf_mix(seed * 1000003 + (uint64_t)i)); }
	vf_cleanup();
	return vf_violations ? 1 : 0;
}

/* RRR message construction, framing over a stream socket, validation. */
#include "drv.h"
#include <sys/socket.h>
#include <sys/ioctl.h>
#include <fcntl.h>
#include "messages/msg.h"
#include "messages/msg_msg.h"
#include "messages/msg_addr.h"
#include "messages/msg_log.h"
#include "messages/msg_checksum.h"
#include "stats/stats_message.h"
#include "socket/rrr_socket.h"
#include "socket/rrr_socket_read.h"
#include "socket/rrr_socket_common.h"
#include "read.h"
#include "read_constants.h"
#include "array.h"
#include "array_tree.h"
#include "type.h"
#include "util/utf8.h"
#include "helpers/nullsafe_str.h"
const char *rrr_default_log_prefix = "vf-wire";

static int ndel;
static void dump_msg(const struct rrr_msg_msg *m) {
	fprintf(OUT, " M:%u:%u:%u:%u:%" PRIu64 ":", MSG_TYPE(m), MSG_CLASS(m), m->version, m->msg_value, m->timestamp);
	vf_hex(OUT, MSG_TOPIC_PTR(m), MSG_TOPIC_LENGTH(m)); fputc(':', OUT);
	vf_hex(OUT, MSG_DATA_PTR(m), MSG_DATA_LENGTH(m));
}
static int cb_msg(struct rrr_msg_msg **m, void *a, void *b) { (void)a; (void)b; ndel++; dump_msg(*m);
	/* every copy has to be equal to the original */
	struct rrr_msg_msg *d = rrr_msg_msg_duplicate(*m);
	if (memcmp(d, *m, MSG_TOTAL_SIZE(*m)) != 0) fprintf(OUT, "!DUP");
	rrr_free(d);
	return 0; }
static int cb_addr(const struct rrr_msg_addr *m, void *a, void *b) { (void)a; (void)b; ndel++;
	fprintf(OUT, " A:%u:%u:", (unsigned) RRR_MSG_ADDR_GET_ADDR_LEN(m), m->protocol);
	vf_hex(OUT, m->addr, RRR_MSG_ADDR_GET_ADDR_LEN(m)); return 0; }
static int cb_log(const struct rrr_msg_log *m, void *a, void *b) { (void)a; (void)b; ndel++;
	char *p = NULL, *s = NULL;
	if (rrr_msg_msg_log_to_str(&p, &s, m) != 0) { fprintf(OUT, " LOGERR"); return 0; }
	fprintf(OUT, " L:%u:%u:%u:%u:%u:", m->msg_value, m->line, m->is_stdout, m->loglevel_translated, m->loglevel_orig);
	vf_hex(OUT, m->file, strnlen(m->file, sizeof(m->file))); fputc(':', OUT);
	vf_hex(OUT, p, RRR_MSG_LOG_PREFIX_SIZE(m)); fputc(':', OUT); vf_hex(OUT, s, RRR_MSG_LOG_MSG_SIZE(m));
	volatile size_t x = strlen(p) + strlen(s); (void)x;
	rrr_free(p); rrr_free(s); return 0; }
static int cb_ctrl(const struct rrr_msg *m, void *a, void *b) { (void)a; (void)b; ndel++; fprintf(OUT, " C:%u:%u", m->msg_type, m->msg_value); return 0; }
static int cb_stats(const struct rrr_msg_stats *m, void *a, void *b) { (void)a; (void)b; ndel++;
	fprintf(OUT, " T:%u:%u:%" PRIu64 ":", m->type, m->flags, m->timestamp);
	vf_hex(OUT, m->path, strlen(m->path)); fputc(':', OUT); vf_hex(OUT, m->data, m->data_size); return 0; }

static void send_net(struct rrr_msg *m, size_t n) { rrr_msg_checksum_and_to_network_endian(m); vf_hex(OUT, m, n); }

static struct rrr_array_tree *tree;
static int arr_cb(struct rrr_read_session *s, struct rrr_array *a, void *arg) { (void)arg; (void)s;
	ndel++; fprintf(OUT, " [");
	RRR_LL_ITERATE_BEGIN(a, const struct rrr_type_value);
		fprintf(OUT, "%s:%u:%u:", node->definition->identifier, (unsigned) node->flags, (unsigned) node->element_count);
		vf_hex(OUT, node->tag, node->tag ? strlen(node->tag) : 0); fputc(':', OUT); vf_hex(OUT, node->data, node->total_stored_length); fputc(';', OUT);
	RRR_LL_ITERATE_END();
	fprintf(OUT, "]"); rrr_array_clear(a); return 0; }

static int cmd(int argc, char **argv) {
	switch (argv[0][0]) {
	case 'N': { /* N type class ts topic data method -> network bytes */
		size_t tn, dn; uint8_t *t = drv_bytes(argv[4], &tn), *d = drv_bytes(argv[5], &dn);
		struct rrr_msg_msg *m = NULL; int how = atoi(argv[6]); int ret = 0;
		rrr_u8 ty = (rrr_u8) atoi(argv[1]), cl = (rrr_u8) atoi(argv[2]); uint64_t ts = strtoull(argv[3], NULL, 10);
		if (how == 0) ret = rrr_msg_msg_new_with_data(&m, ty, cl, ts, (char *) t, (rrr_u16) tn, (char *) d, (rrr_u32) dn);
		else if (how == 1) {
			struct rrr_nullsafe_str *ns = NULL; rrr_nullsafe_str_new_or_replace_raw(&ns, d, dn);
			ret = rrr_msg_msg_new_with_data_nullsafe(&m, ty, cl, ts, (char *) t, (rrr_u16) tn, ns); rrr_nullsafe_str_destroy_if_not_null(&ns);
		}
		else if (how == 2) { /* empty, then other topic, then wanted topic */
			ret = rrr_msg_msg_new_with_data(&m, ty, cl, ts, "some/other/topic", (rrr_u16) (dn % 17), (char *) d, (rrr_u32) dn);
			if (!ret) ret = rrr_msg_msg_topic_set(&m, (char *) t, (rrr_u16) tn);
		}
		else { /* through a copy with new sizes */
			struct rrr_msg_msg *o = NULL;
			ret = rrr_msg_msg_new_with_data(&o, ty, cl, ts, "x", 1, "yy", 2);
			m = rrr_msg_msg_duplicate_no_data_with_size(o, (rrr_u16) tn, (rrr_u32) dn); rrr_free(o);
			memcpy(MSG_TOPIC_PTR(m), t, tn); memcpy(MSG_DATA_PTR(m), d, dn);
		}
		if (ret) { fprintf(OUT, "ERR"); free(t); free(d); break; }
		char *tt = NULL; uint16_t ttl = 0;
		if (rrr_msg_msg_topic_and_length_get(&tt, &ttl, m) != 0 || ttl != tn || memcmp(tt, t, tn) != 0) fprintf(OUT, "TOPICGET ");
		if (memchr(tt, 0, tn) == NULL && !rrr_msg_msg_topic_equals(m, tt)) fprintf(OUT, "TOPICEQ ");
		if (tn) { tt[tn - 1] ^= 1; if (tt[tn - 1] && rrr_msg_msg_topic_equals(m, tt)) fprintf(OUT, "TOPICNEQ "); }
		rrr_free(tt);
		struct rrr_msg_msg *nd = rrr_msg_msg_duplicate_no_data(m);
		if (MSG_DATA_LENGTH(nd) != 0 || MSG_TOPIC_LENGTH(nd) != tn || memcmp(MSG_TOPIC_PTR(nd), t, tn)) fprintf(OUT, "NODATA ");
		rrr_free(nd);
		size_t n = MSG_TOTAL_SIZE(m);
		rrr_msg_msg_prepare_for_network(m); send_net((struct rrr_msg *) m, n);
		rrr_free(m); free(t); free(d); break; }
	case 'K': { struct rrr_msg m; rrr_msg_populate_control_msg(&m, (rrr_u16) atoi(argv[1]), (rrr_u32) strtoul(argv[2], NULL, 10)); send_net(&m, sizeof(m)); break; }
	case 'L': { /* L file line lt lo flags prefix msg */
		char *f = drv_str(argv[1]), *p = drv_str(argv[6]), *s = drv_str(argv[7]); struct rrr_msg_log *m = NULL;
		if (rrr_msg_msg_log_new(&m, f, atoi(argv[2]), (uint8_t) atoi(argv[3]), (uint8_t) atoi(argv[4]), (uint32_t) strtoul(argv[5], NULL, 10), p, s) != 0) { fprintf(OUT, "ERR"); }
		else { size_t n = m->msg_size; rrr_msg_msg_log_prepare_for_network(m); send_net((struct rrr_msg *) m, n); rrr_free(m); }
		free(f); free(p); free(s); break; }
	case 'T': { /* T type flags ts path data */
		char *p = drv_str(argv[4]); size_t dn; uint8_t *d = drv_bytes(argv[5], &dn);
		struct rrr_msg_stats s; struct rrr_msg_stats_packed pk = {0}; rrr_length tot = 0;
		if (rrr_msg_stats_init(&s, (uint8_t) atoi(argv[1]), (uint32_t) atoi(argv[2]), p, d, (uint32_t) dn) != 0) { fprintf(OUT, "ERR"); free(p); free(d); break; }
		rrr_msg_stats_pack_and_flip(&pk, &tot, &s);
		rrr_msg_populate_head((struct rrr_msg *) &pk, RRR_MSG_TYPE_STATS, tot, (rrr_u32) strtoul(argv[3], NULL, 10));
		send_net((struct rrr_msg *) &pk, tot); free(p); free(d); break; }
	case 'A': { /* A proto addr */
		size_t n; uint8_t *d = drv_bytes(argv[2], &n); struct rrr_msg_addr m; rrr_msg_addr_init(&m);
		RRR_MSG_ADDR_SET_ADDR_LEN(&m, (rrr_u32) n); m.protocol = (uint8_t) atoi(argv[1]); memcpy(m.addr, d, n); n = m.msg_size;
		rrr_msg_addr_prepare_for_network(&m); send_net((struct rrr_msg *) &m, n); free(d); break; }
	case 'D': { if (tree) rrr_array_tree_destroy(tree); tree = NULL; size_t n; uint8_t *b = drv_bytes(argv[1], &n);
		fprintf(OUT, rrr_array_tree_interpret_raw(&tree, (char *) b, (rrr_length) n, "t") ? "ERR" : "OK"); free(b); break; }
	case 'S': case 'R': { /* S hex flush chunk,chunk,... ; R hex flags(1 flush 2 sync) step chunks : array records */
		int isarr = argv[0][0] == 'R';
		size_t n; uint8_t *b = drv_bytes(argv[1], &n); int fl = atoi(argv[2]); int step = isarr ? atoi(argv[3]) : 0;
		char *cs = argv[isarr ? 4 : 3];
		int fd[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, fd)) exit(2);
		fcntl(fd[0], F_SETFL, O_NONBLOCK);
		int big = 8 << 20; setsockopt(fd[1], SOL_SOCKET, SO_SNDBUF, &big, sizeof(big));
		struct rrr_read_session_collection c; rrr_read_session_collection_init(&c);
		struct rrr_array final = {0};
		int flags = RRR_SOCKET_READ_METHOD_RECV | RRR_SOCKET_READ_CHECK_EOF | ((fl & 1) ? RRR_READ_MESSAGE_FLUSH_OVERSHOOT : 0);
		int rc = 0; size_t pos = 0; char *save = NULL; int done = 0;
		char *tok = strtok_r(cs, ",", &save);
		while (!done) {
			if (pos < n) {
				size_t k = tok ? (size_t) atoi(tok) : n - pos; tok = tok ? strtok_r(NULL, ",", &save) : NULL;
				if (k > n - pos) k = n - pos;
				size_t w = 0; /* may be more than the socket holds */
				while (w < k) { ssize_t r = send(fd[1], b + pos + w, k - w > 65536 ? 65536 : k - w, MSG_NOSIGNAL); if (r <= 0) exit(2); w += (size_t) r;
					if (w < k) goto rd;
					continue;
					rd: for (;;) { uint64_t br = 0; int before = ndel, av = 0;
						rc = isarr ? rrr_socket_common_receive_array_tree(&br, &c, fd[0], flags, &final, tree, (fl & 2) != 0, (rrr_biglength) step, 0, 0, 0, arr_cb, NULL, NULL)
							: rrr_socket_read_message_split_callbacks(&br, &c, fd[0], flags, 0, 0, cb_msg, cb_addr, cb_log, cb_ctrl, cb_stats, NULL, NULL);
						if (rc != 0 && rc != RRR_READ_INCOMPLETE) { done = 1; break; }
						ioctl(fd[0], FIONREAD, &av);
						if (ndel == before && av == 0 && rrr_read_session_collection_get_session_with_overshoot(&c) == NULL) break; }
					if (done) break; }
				pos += k;
			}
			else { close(fd[1]); fd[1] = -1; }
			while (!done) { uint64_t br = 0; int before = ndel, av = 0;
				rc = isarr ? rrr_socket_common_receive_array_tree(&br, &c, fd[0], flags, &final, tree, (fl & 2) != 0, (rrr_biglength) step, 0, 0, 0, arr_cb, NULL, NULL)
					: rrr_socket_read_message_split_callbacks(&br, &c, fd[0], flags, 0, 0, cb_msg, cb_addr, cb_log, cb_ctrl, cb_stats, NULL, NULL);
				if (rc != 0 && rc != RRR_READ_INCOMPLETE) { done = 1; break; }
				if (fd[1] < 0) continue;
				ioctl(fd[0], FIONREAD, &av);
				if (ndel == before && av == 0 && rrr_read_session_collection_get_session_with_overshoot(&c) == NULL) break; }
		}
		fprintf(OUT, " rc%d", rc);
		rrr_read_session_collection_clear(&c); rrr_array_clear(&final);
		close(fd[0]); if (fd[1] >= 0) close(fd[1]);
		free(b); break; }
	case 'U': { size_t n; uint8_t *b = drv_bytes(argv[1], &n); fprintf(OUT, "%d", rrr_utf8_validate((char *) b, (rrr_length) n) != 0); free(b); break; }
	}
	(void)argc;
	return 0;
}
int main(void) { drv_init(); drv_loop(cmd); if (tree) rrr_array_tree_destroy(tree); vf_cleanup(); return 0; }

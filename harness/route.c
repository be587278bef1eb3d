/* MQTT topic matching, ACL files, discern stacks. */
#include "drv.h"
#include "mqtt/mqtt_topic.h"
#include "mqtt/mqtt_acl.h"
#include "discern_stack.h"
#include "discern_stack_helper.h"
#include "parse.h"
#include "array.h"
#include "messages/msg_msg.h"
const char *rrr_default_log_prefix = "vf-route";

static const char *cname(int r) { return r == RRR_MQTT_TOKEN_MATCH ? "1" : r == RRR_MQTT_TOKEN_MISMATCH ? "0" : "E"; }

static struct rrr_mqtt_acl acl;

static int apply_t(RRR_DISCERN_STACK_APPLY_CB_ARGS) { (void)arg; fprintf(OUT, " +%s", destination); return 0; }
static int apply_f(RRR_DISCERN_STACK_APPLY_CB_ARGS) { (void)arg; fprintf(OUT, " -%s", destination); return 0; }
static int dest_cb(const char *stack, const char *dest, void *arg) { (void)arg; fprintf(OUT, " %s:%s", stack, dest); return 0; }
static void name_cb(const char *n, void *arg) { (void)arg; fprintf(OUT, " %s", n); }

static struct rrr_msg_msg *message(char **argv) { /* class topic tags(comma hex list of TAG) */
	size_t tn; uint8_t *t = drv_bytes(argv[1], &tn); struct rrr_msg_msg *m = NULL;
	if (argv[0][0] == 'a') {
		struct rrr_array a = {0}; char *save = NULL; char *l = strdup(argv[2]);
		for (char *s = strtok_r(l, ",", &save); s; s = strtok_r(NULL, ",", &save)) {
			char *tag = drv_str(s);
			if (*tag) rrr_array_push_value_u64_with_tag(&a, tag, 1); else rrr_array_push_value_str_with_tag(&a, NULL, "x");
			free(tag);
		}
		if (rrr_array_new_message_from_array(&m, &a, 123, (char *) t, (rrr_u16) tn) != 0) m = NULL;
		rrr_array_clear(&a); free(l);
	}
	else rrr_msg_msg_new_with_data(&m, MSG_TYPE_MSG, MSG_CLASS_DATA, 123, (char *) t, (rrr_u16) tn, "data", 4);
	free(t);
	if (m) { /* exact allocation so that over-reads of topic are visible */ struct rrr_msg_msg *x = malloc(MSG_TOTAL_SIZE(m)); memcpy(x, m, MSG_TOTAL_SIZE(m)); rrr_free(m); m = x; }
	return m;
}

static int cmd(int argc, char **argv) {
	switch (argv[0][0]) {
	case 'V': { /* V filter|name hex -> validity */
		size_t n; char *f = drv_str(argv[1]); uint8_t *b = drv_bytes(argv[1], &n);
		fprintf(OUT, "f%d n%d e%d", rrr_mqtt_topic_filter_validate_name(f) != 0, rrr_mqtt_topic_validate_name(f) != 0,
			rrr_mqtt_topic_validate_name_with_end((char *) b, (char *) b + n) != 0);
		free(f); free(b); break; }
	case 'M': { /* M filter topic: all implementations */
		size_t fn, tn; uint8_t *fb = drv_bytes(argv[1], &fn), *tb = drv_bytes(argv[2], &tn); char *f = drv_str(argv[1]), *t = drv_str(argv[2]);
		struct rrr_mqtt_topic_token *ft = NULL, *tt = NULL, *tt2 = NULL;
		rrr_mqtt_topic_tokenize(&ft, f); rrr_mqtt_topic_tokenize_with_end(&tt, (char *) tb, (char *) tb + tn); rrr_mqtt_topic_tokens_clone(&tt2, tt);
		fprintf(OUT, "%s%s%s%s", cname(rrr_mqtt_topic_match_tokens_recursively(ft, tt)), cname(rrr_mqtt_topic_match_tokens_recursively(ft, tt2)),
			cname(rrr_mqtt_topic_match_str(f, t)), cname(rrr_mqtt_topic_match_str_with_end(f, (char *) tb, (char *) tb + tn)));
		fprintf(OUT, "%s", fn && tn ? cname(rrr_mqtt_topic_match_topic_and_linear_with_end((char *) tb, (char *) tb + tn, (char *) fb, (char *) fb + fn)) : "-");
		rrr_mqtt_topic_token_destroy(ft); rrr_mqtt_topic_token_destroy(tt); rrr_mqtt_topic_token_destroy(tt2); free(f); free(t); free(fb); free(tb); break; }
	case 'L': { /* L contents: load ACL file */
		char fn[] = "/tmp/vf-acl-XXXXXX"; int fd = mkstemp(fn); size_t n; uint8_t *b = drv_bytes(argv[1], &n);
		if (write(fd, b, n) != (ssize_t) n) exit(2);
		close(fd);
		rrr_mqtt_acl_entry_collection_clear(&acl);
		fprintf(OUT, "%d", rrr_mqtt_acl_entry_collection_populate_from_file(&acl, fn)); unlink(fn); free(b); break; }
	case 'A': { /* A sub|pub topic user -> decision */
		char *t = drv_str(argv[2]), *u = drv_str(argv[3]); struct rrr_mqtt_topic_token *tt = NULL; rrr_mqtt_topic_tokenize(&tt, t);
		int r = rrr_mqtt_acl_check_access(&acl, tt, argv[1][0] == 's' ? RRR_MQTT_ACL_ACTION_RO : RRR_MQTT_ACL_ACTION_RW, argv[3][0] == '-' ? NULL : u,
			argv[1][0] == 's' ? rrr_mqtt_topic_match_tokens_recursively_acl : rrr_mqtt_topic_match_tokens_recursively);
		fprintf(OUT, "%s", r == RRR_MQTT_ACL_RESULT_ALLOW ? "ALLOW" : r == RRR_MQTT_ACL_RESULT_DENY ? "DENY" : "ERR");
		rrr_mqtt_topic_token_destroy(tt); free(t); free(u); break; }
	case 'D': { /* D defs(comma) class topic tags clone: parse discern stacks, run them on a message */
		struct rrr_discern_stack_collection c = {0}, c2 = {0}; int bad = 0, i = 0; char *save = NULL, *l = strdup(argv[1]);
		for (char *s = strtok_r(l, ",", &save); s; s = strtok_r(NULL, ",", &save), i++) {
			char *d = drv_str(s); struct rrr_parse_pos pos; enum rrr_discern_stack_fault fault = 0; char name[16]; sprintf(name, "n%d", i);
			rrr_parse_pos_init(&pos, d, (rrr_length) strlen(d));
			int r = rrr_discern_stack_interpret(&c, &fault, &pos, name);
			if ((r != 0) != (fault != RRR_DISCERN_STACK_FAULT_OK)) fprintf(OUT, "INCONSISTENT ");
			if (r) { fprintf(OUT, "F%d ", i); bad = 1; } else fprintf(OUT, "P%u ", (unsigned) pos.pos);
			free(d);
		}
		free(l);
		if (!bad) {
			struct rrr_discern_stack_collection *use = &c;
			if (argv[5][0] == '1') { for (int k = 0; k < i; k++) { char name[16]; sprintf(name, "n%d", k); rrr_discern_stack_collection_add_cloned(&c2, rrr_discern_stack_collection_get(&c, name)); } rrr_discern_stack_collection_clear(&c); use = &c2; }
			fprintf(OUT, "names"); rrr_discern_stack_collection_iterate_names(use, name_cb, NULL);
			fprintf(OUT, " dests"); rrr_discern_stack_collection_iterate_destination_names(use, dest_cb, NULL);
			for (int k = 0; k < 2; k++) {
				struct rrr_msg_msg *m = message(argv + 2); struct rrr_discern_stack_helper_callback_data rd = { m, 0 }; enum rrr_discern_stack_fault fault = 0;
				struct rrr_discern_stack_callbacks cb = { rrr_discern_stack_helper_topic_filter_resolve_cb, rrr_discern_stack_helper_array_tag_resolve_cb, &rd, apply_f, apply_t, NULL };
				fprintf(OUT, " run"); int r = rrr_discern_stack_collection_execute(&fault, use, &cb);
				fprintf(OUT, " %s", r == 0 ? "end" : r == RRR_DISCERN_STACK_BAIL ? "bail" : "ERR"); free(m);
			}
		}
		rrr_discern_stack_collection_clear(&c); rrr_discern_stack_collection_clear(&c2); break; }
	}
	(void)argc; return 0;
}
int main(void) { drv_init(); drv_loop(cmd); rrr_mqtt_acl_entry_collection_clear(&acl); vf_cleanup(); return 0; }

/* Array definitions, parsing, conversion to and from messages, conditions. */
#include "drv.h"
#include "array.h"
#include "array_tree.h"
#include "type.h"
#include "condition.h"
#include "parse.h"
#include "map.h"
#include "fixed_point.h"
#include "type_conversion.h"
#include "messages/msg_msg.h"
#include "messages/msg.h"
const char *rrr_default_log_prefix = "vf-arr";

static struct rrr_array_tree *tree;
static struct rrr_array last;

static void dump_array(FILE *f, const struct rrr_array *a) {
	RRR_LL_ITERATE_BEGIN(a, const struct rrr_type_value);
		fprintf(f, " %s:%u:%u:", node->definition->identifier, (unsigned) node->flags, (unsigned) node->element_count);
		vf_hex(f, node->tag, node->tag ? strlen(node->tag) : 0);
		fputc(':', f);
		if (node->definition->type == RRR_TYPE_MSG) {
			char *tmp = malloc(node->total_stored_length ? node->total_stored_length : 1);
			rrr_length wb = 0; uint8_t nt = 0;
			if (node->definition->pack(tmp, &wb, &nt, node) != 0) fprintf(f, "PACKERR");
			else vf_hex(f, tmp, wb);
			free(tmp);
		}
		else vf_hex(f, node->data, node->total_stored_length);
	RRR_LL_ITERATE_END();
}

static int take(struct rrr_array *array, void *arg) {
	(void)(arg);
	rrr_array_clear(&last);
	RRR_LL_MERGE_AND_CLEAR_SOURCE_HEAD(&last, array);
	return 0;
}

/* outcome as text; buffer is copied to exact size */
static char *parse(const uint8_t *b, size_t n) {
	char *copy = malloc(n ? n : 1);
	memcpy(copy, b, n);
	if (n == 0) { copy = realloc(copy, 1); }
	rrr_length parsed = 0;
	rrr_array_clear(&last);
	int ret = rrr_array_tree_import_from_buffer(&parsed, copy, (rrr_length) n, tree, take, NULL);
	free(copy);
	char *out = NULL; size_t outn = 0;
	FILE *f = open_memstream(&out, &outn);
	fprintf(f, "%d %u", ret, (unsigned) parsed);
	if (ret == 0) dump_array(f, &last);
	fclose(f);
	return out;
}

static char *dumpstr(const struct rrr_array *a) {
	char *out = NULL; size_t outn = 0;
	FILE *f = open_memstream(&out, &outn);
	dump_array(f, a);
	fclose(f);
	return out;
}

struct names { int n; char *name[32]; uint64_t val[32]; int sig[32]; };
static int name_eval(RRR_CONDITION_NAME_EVALUATE_CALLBACK_ARGS) {
	struct names *ns = arg;
	for (int i = 0; i < ns->n; i++) if (strcmp(ns->name[i], name) == 0) { *result = ns->val[i]; *is_signed = ns->sig[i]; return 0; }
	return RRR_CONDITION_SOFT_ERROR;
}

static int exercise(struct rrr_array *a) {
	int n = 0;
	RRR_LL_ITERATE_BEGIN(a, struct rrr_type_value);
		char *s = NULL;
		if (node->definition->to_str && node->definition->to_str(&s, node) == 0) { n += (int) (s ? strlen(s) & 1 : 0); }
		if (s) rrr_free(s);
		if (node->definition->to_64) n += (int) (node->definition->to_64(node) & 1);
		if (node->definition->to_ull) n += (int) (node->definition->to_ull(node) & 1);
		if (node->tag) {
			uint64_t u = 0; int64_t i = 0; char *t = NULL; unsigned long long ull = 0;
			for (unsigned int x = 0; x < 3; x++) {
				rrr_array_get_value_unsigned_64_by_tag(&u, a, node->tag, x);
				rrr_array_get_value_signed_64_by_tag(&i, a, node->tag, x);
			}
			rrr_array_get_value_unsigned_64_by_tag(&u, a, node->tag, node->element_count - 1);
			rrr_array_get_value_ull_by_tag(&ull, a, node->tag);
			if (rrr_array_get_value_str_by_tag(&t, a, node->tag) == 0 && t) rrr_free(t);
		}
	RRR_LL_ITERATE_END();
	return n;
}
static int split_cb(const struct rrr_type_value *orig, const struct rrr_array *vals, void *arg) {
	(void)(orig); *(int *)arg += RRR_LL_COUNT(vals); exercise((struct rrr_array *) vals); return 0;
}

static int count_cb(const struct rrr_type_value *v, void *arg) { (void)(v); (*(int *) arg)++; return 0; }

static int build_op(struct rrr_array *a, char *op) {
	char *s = NULL;
	char *k = strtok_r(op, ":", &s), *t = strtok_r(NULL, ":", &s), *v = strtok_r(NULL, ":", &s);
	const char *tag = strcmp(t, "-") ? t : NULL;
	int ret = 1;
	if (!strcmp(k, "vain")) return rrr_array_push_value_vain_with_tag(a, tag);
	if (!strcmp(k, "u")) return rrr_array_push_value_u64_with_tag(a, tag, strtoull(v, NULL, 10));
	if (!strcmp(k, "i")) return rrr_array_push_value_i64_with_tag(a, tag, strtoll(v, NULL, 10));
	if (!strcmp(k, "fixp")) return rrr_array_push_value_fixp_with_tag(a, tag, strtoll(v, NULL, 10));
	size_t n; uint8_t *b = drv_bytes(v, &n);
	if (!strcmp(k, "str")) ret = rrr_array_push_value_str_with_tag_with_size(a, tag, (char *) b, (rrr_length) n);
	if (!strcmp(k, "strj")) ret = rrr_array_push_value_str_with_tag_with_size_with_flags(a, tag, (char *) b, (rrr_length) n, RRR_TYPE_FLAG_JSON);
	if (!strcmp(k, "strz")) { char *z = malloc(n + 1); memcpy(z, b, n); z[n] = 0; ret = rrr_array_push_value_str_with_tag(a, tag, z); free(z); }
	if (!strcmp(k, "blob")) ret = rrr_array_push_value_blob_with_tag_with_size(a, tag, (char *) b, (rrr_length) n);
	free(b);
	return ret;
}

static int cmd(int argc, char **argv) {
	switch (argv[0][0]) {
	case 'D': {
		if (tree) { rrr_array_tree_destroy(tree); tree = NULL; }
		size_t n; uint8_t *b = drv_bytes(argv[1], &n);
		int ret = rrr_array_tree_interpret_raw(&tree, (char *) b, (rrr_length) n, "t");
		free(b);
		if (ret != 0) tree = NULL;
		else { rrr_array_tree_dump(tree); }
		if (ret == 0 && argc > 2) {
			struct rrr_array_tree *c = NULL;
			if (rrr_array_tree_clone_without_data(&c, tree) != 0) { fprintf(OUT, "CLONEERR"); break; }
			rrr_array_tree_destroy(tree); tree = c;
		}
		fprintf(OUT, ret == 0 ? "OK" : "ERR");
		break; }
	case 'P': {
		size_t n; uint8_t *b = drv_bytes(argv[1], &n);
		char *o = parse(b, n); free(b);
		fprintf(OUT, "%s", o); free(o);
		break; }
	case 'F': { /* every prefix */
		size_t n; uint8_t *b = drv_bytes(argv[1], &n);
		char *full = parse(b, n);
		int bad = -1; int first = -1;
		for (size_t k = 0; k < n; k++) {
			char *o = parse(b, k);
			if (first < 0 && strncmp(o, "8 ", 2) != 0 && atoi(o) != RRR_ARRAY_TREE_PARSE_INCOMPLETE) first = (int) k;
			if (first >= 0 && bad < 0 && strcmp(o, full) != 0) { bad = (int) k; }
			free(o);
		}
		fprintf(OUT, "%d %d ", first, bad);
		if (bad >= 0) { char *o = parse(b, (size_t) bad); fprintf(OUT, "PREFIX[%s] ", o); free(o); }
		fprintf(OUT, "%s", full);
		free(full); free(b);
		break; }
	case 'M': { /* message roundtrip of last array; M <topichex> <time> [tag...] */
		char *topic = drv_str(argv[1]);
		uint64_t ts = strtoull(argv[2], NULL, 10);
		char *before = dumpstr(&last);
		struct rrr_msg_msg *msg = NULL;
		if (rrr_array_new_message_from_array(&msg, &last, ts, topic, (rrr_u16) strlen(topic)) != 0) { fprintf(OUT, "NEWERR"); free(topic); free(before); break; }
		size_t total = MSG_TOTAL_SIZE(msg);
		rrr_msg_msg_prepare_for_network(msg);
		rrr_msg_checksum_and_to_network_endian((struct rrr_msg *) msg);
		char *net = malloc(total); memcpy(net, msg, total); rrr_free(msg);
		char *hex = malloc(total * 2 + 1);
		for (size_t i = 0; i < total; i++) sprintf(hex + 2 * i, "%02x", (unsigned char) net[i]);
		rrr_length tsize = 0;
		int e = 0;
		if (rrr_msg_get_target_size_and_check_checksum(&tsize, (struct rrr_msg *) net, (rrr_length) total) != 0) e = 1;
		else if (tsize != total) e = 2;
		else if (rrr_msg_head_to_host_and_verify((struct rrr_msg *) net, tsize) != 0) e = 3;
		else if (rrr_msg_check_data_checksum_and_length((struct rrr_msg *) net, tsize) != 0) e = 4;
		else if (rrr_msg_msg_to_host_and_verify((struct rrr_msg_msg *) net, tsize) != 0) e = 5;
		if (e) { fprintf(OUT, "NET%d", e); free(hex); free(net); free(topic); free(before); break; }
		struct rrr_msg_msg *m = (struct rrr_msg_msg *) net;
		struct rrr_array r = {0}; uint16_t ver = 0;
		if (rrr_array_message_append_to_array(&ver, &r, m) != 0) { fprintf(OUT, "APPENDERR"); free(hex); free(net); free(topic); free(before); break; }
		char *after = dumpstr(&r);
		int hdr = MSG_TOPIC_LENGTH(m) == strlen(topic) && memcmp(MSG_TOPIC_PTR(m), topic, strlen(topic)) == 0 && m->timestamp == ts;
		fprintf(OUT, "%s %s ", strcmp(before, after) == 0 ? "SAME" : "DIFF", hdr ? "HDR" : "BADHDR");
		if (strcmp(before, after) != 0) fprintf(OUT, "[%s] [%s] ", before, after);
		exercise(&r);
		/* export, all or chosen tags */
		struct rrr_map tags = {0};
		for (int i = 3; i < argc; i++) { char *t = drv_str(argv[i]); rrr_map_item_add_new(&tags, t, ""); free(t); }
		char *ex = NULL; rrr_biglength exn = 0; int found = 0;
		int er = rrr_array_selected_tags_export(&ex, &exn, &found, &r, argc > 3 ? &tags : NULL);
		fprintf(OUT, "%d %d ", er, found);
		if (er == 0) vf_hex(OUT, ex, (size_t) exn); else fprintf(OUT, "-");
		if (ex) rrr_free(ex);
		rrr_map_clear(&tags);
		int sp = 0, sf = 0;
		rrr_array_selected_tags_split(&sf, &r, NULL, split_cb, &sp);
		fprintf(OUT, " %s", hex); free(hex);
		int iterated = 0;
		rrr_array_message_iterate_values(m, count_cb, &iterated);
		fprintf(OUT, " %d", iterated);
		for (int i = 3; i < argc; i++) { /* look up in the message, then in the array */
			char *t = drv_str(argv[i]);
			struct rrr_array one = {0};
			int ar = rrr_array_message_append_to_array_by_tag(&one, m, t);
			const struct rrr_type_value *v = rrr_array_value_get_by_tag_const(&r, t);
			struct rrr_type_value *cl = NULL;
			if (v) { if (rrr_type_value_clone(&cl, v, 1) != 0) { fprintf(OUT, "CLERR"); } }
			struct rrr_array two = {0};
			if (cl) RRR_LL_APPEND(&two, cl);
			char *d1 = dumpstr(&one), *d2 = dumpstr(&two);
			fprintf(OUT, " |%d%d:%d:%s", rrr_array_message_has_tag(m, t), rrr_array_has_tag(&r, t), ar, strcmp(d1, d2) == 0 || ar != 0 ? d2 : "DIFFER");
			free(d1); free(d2);
			rrr_array_clear(&one); rrr_array_clear(&two);
			free(t);
		}
		rrr_array_clear(&r);
		free(net); free(topic); free(before); free(after);
		break; }
	case 'B': { /* build with the push functions */
		rrr_array_clear(&last);
		struct rrr_array a = {0};
		for (int i = 1; i < argc; i++) if (build_op(&a, argv[i]) != 0) fprintf(OUT, "E%d ", i);
		struct rrr_array *c = NULL;
		if (rrr_array_clone(&c, &a) != 0) fprintf(OUT, "CLONEERR");
		else {
			char *d1 = dumpstr(&a), *d2 = dumpstr(c);
			if (strcmp(d1, d2)) fprintf(OUT, "CLONEDIFF");
			free(d1); free(d2);
			rrr_array_clear(&a);
			RRR_LL_MERGE_AND_CLEAR_SOURCE_HEAD(&last, c);
			rrr_array_destroy(c);
		}
		dump_array(OUT, &last);
		break; }
	case 'O': { /* change the array */
		char *s = NULL, *k = strtok_r(argv[1], ":", &s), *v = strtok_r(NULL, ":", &s);
		if (!strcmp(k, "trim")) rrr_array_trim(&last, atoi(v));
		if (!strcmp(k, "rotf")) rrr_array_rotate_forward(&last);
		if (!strcmp(k, "rotr")) rrr_array_rotate_reverse(&last);
		if (!strcmp(k, "clr")) { unsigned int n = 0; rrr_array_clear_by_tag_checked(&n, &last, v); fprintf(OUT, "%u ", n); }
		if (!strcmp(k, "strip")) rrr_array_strip_type(&last, rrr_type_get_from_id((uint8_t) atoi(v)));
		if (!strcmp(k, "dup")) { struct rrr_array c = {0}; if (rrr_array_append_from(&c, &last) != 0) fprintf(OUT, "ERR"); RRR_LL_MERGE_AND_CLEAR_SOURCE_HEAD(&last, &c); }
		fprintf(OUT, "%d", rrr_array_count(&last));
		dump_array(OUT, &last);
		break; }
	case 'G': { /* get values: G tag index */
		char *tag = drv_str(argv[1]);
		unsigned int idx = (unsigned int) strtoul(argv[2], NULL, 10);
		uint64_t u = 0; int64_t i = 0; unsigned long long ull = 0; char *str = NULL;
		if (rrr_array_get_value_unsigned_64_by_tag(&u, &last, tag, idx) == 0) fprintf(OUT, "%" PRIu64, u); else fprintf(OUT, "-");
		if (rrr_array_get_value_signed_64_by_tag(&i, &last, tag, idx) == 0) fprintf(OUT, " %" PRIi64, i); else fprintf(OUT, " -");
		if (rrr_array_get_value_ull_by_tag(&ull, &last, tag) == 0) fprintf(OUT, " %llu", ull); else fprintf(OUT, " -");
		if (rrr_array_get_value_str_by_tag(&str, &last, tag) == 0) { fprintf(OUT, " "); vf_hex(OUT, str, strlen(str)); rrr_free(str); } else fprintf(OUT, " ERR");
		free(tag);
		break; }
	case 'V': { /* convert every value: V flags method,method,... */
		int flags = atoi(argv[1]);
		struct rrr_map map = {0};
		struct rrr_type_conversion_collection *col = NULL;
		char *s = NULL;
		for (char *m = strtok_r(argv[2], ",", &s); m; m = strtok_r(NULL, ",", &s)) rrr_map_item_add_new(&map, m, "");
		if (rrr_type_conversion_collection_new_from_map(&col, &map) != 0) { fprintf(OUT, "LISTERR"); rrr_map_clear(&map); break; }
		rrr_map_clear(&map);
		struct rrr_array a = {0};
		RRR_LL_ITERATE_BEGIN(&last, const struct rrr_type_value);
			struct rrr_type_value *v = NULL;
			int r = rrr_type_convert_using_list(&v, node, col, flags);
			if (r == RRR_TYPE_CONVERSION_NOT_POSSIBLE) fprintf(OUT, " NP");
			else if (r != 0) fprintf(OUT, " E%d", r);
			else {
				RRR_LL_APPEND(&a, v);
				dump_array(OUT, &a);
				rrr_array_clear(&a);
			}
			if (r != 0 && v != NULL) fprintf(OUT, "LEFTOVER");
		RRR_LL_ITERATE_END();
		rrr_type_conversion_collection_destroy(col);
		break; }
	case 'A': if (argv[0][1] == '2') { /* load from payload */
		size_t n; uint8_t *b = drv_bytes(argv[1], &n);
		struct rrr_msg_msg *msg = rrr_msg_msg_new_array(1, 0, (rrr_u32) n);
		msg->version = RRR_ARRAY_VERSION;
		memcpy(MSG_DATA_PTR(msg), b, n); free(b);
		uint16_t ver = 0;
		rrr_array_clear(&last);
		int ret = rrr_array_message_append_to_array(&ver, &last, msg);
		rrr_free(msg);
		fprintf(OUT, "%d %d", ret, rrr_array_count(&last));
		break;
		} else { /* hostile array message payload */
		size_t n; uint8_t *b = drv_bytes(argv[1], &n);
		struct rrr_msg_msg *msg = rrr_msg_msg_new_array(1, 0, (rrr_u32) n);
		msg->version = RRR_ARRAY_VERSION;
		memcpy(MSG_DATA_PTR(msg), b, n); free(b);
		struct rrr_array r = {0}; uint16_t ver = 0;
		int itn = 0;
		rrr_array_message_iterate_values(msg, count_cb, &itn);
		rrr_array_message_has_tag(msg, "a");
		rrr_array_message_append_to_array_by_tag(&r, msg, "a");
		rrr_array_clear(&r);
		int ret = rrr_array_message_append_to_array(&ver, &r, msg);
		fprintf(OUT, "%d %d", ret, RRR_LL_COUNT(&r));
		if (ret == 0) {
			exercise(&r);
			int sp = 0, sf = 0;
			rrr_array_selected_tags_split(&sf, &r, NULL, split_cb, &sp);
			char *ex = NULL; rrr_biglength exn = 0; int found = 0;
			if (rrr_array_selected_tags_export(&ex, &exn, &found, &r, NULL) == 0 && ex) rrr_free(ex);
			struct rrr_msg_msg *m2 = NULL;
			if (rrr_array_new_message_from_array(&m2, &r, 1, "x", 1) == 0) {
				struct rrr_array r2 = {0};
				int ok = rrr_array_message_append_to_array(&ver, &r2, m2) == 0;
				char *d1 = dumpstr(&r), *d2 = dumpstr(&r2);
				fprintf(OUT, " %s", ok && strcmp(d1, d2) == 0 ? "STABLE" : "UNSTABLE");
				free(d1); free(d2);
				rrr_array_clear(&r2);
				rrr_free(m2);
			}
			rrr_array_dump(&r);
		}
		rrr_array_clear(&r);
		rrr_free(msg);
		break; }
	case 'C': { /* C cond name=val=signed ... */
		size_t n; uint8_t *b = drv_bytes(argv[1], &n);
		struct names ns = {0};
		for (int i = 2; i < argc && ns.n < 32; i++) {
			char *s = NULL; ns.name[ns.n] = strtok_r(argv[i], "=", &s);
			ns.val[ns.n] = strtoull(strtok_r(NULL, "=", &s), NULL, 10);
			ns.sig[ns.n] = atoi(strtok_r(NULL, "=", &s)); ns.n++;
		}
		struct rrr_condition c = {0}, c2 = {0};
		int ret = rrr_condition_interpret_raw(&c, (char *) b, (rrr_length) n);
		free(b);
		if (ret != 0) { fprintf(OUT, "ERR"); break; }
		if (rrr_condition_clone(&c2, &c) != 0) { fprintf(OUT, "CLONEERR"); break; }
		rrr_condition_clear(&c);
		uint64_t res = 12345;
		ret = rrr_condition_evaluate(&res, &c2, name_eval, &ns);
		rrr_condition_clear(&c2);
		if (ret != 0) fprintf(OUT, "EVALERR"); else fprintf(OUT, "%" PRIu64, res);
		break; }
	case 'X': { /* fixp: X <str> -> parse, print, reparse */
		size_t n; uint8_t *b = drv_bytes(argv[1], &n);
		rrr_fixp v = 0; const char *end = NULL;
		int ret = rrr_fixp_str_to_fixp(&v, (char *) b, (rrr_length) n, &end);
		if (ret != 0) { fprintf(OUT, "%d", ret); free(b); break; }
		fprintf(OUT, "0 %" PRIi64 " %ld ", v, (long) (end - (char *) b));
		char t[600] = "";
		if (rrr_fixp_to_str_double(t, sizeof(t), v) != 0) fprintf(OUT, "STRERR "); else fprintf(OUT, "%s ", t);
		char *ns = NULL;
		if (rrr_fixp_to_new_str_double(&ns, v) != 0 || !ns || strcmp(ns, t)) fprintf(OUT, "NEWSTRDIFF ");
		if (ns) rrr_free(ns);
		char h[64] = "";
		if (rrr_fixp_to_str_16(h, sizeof(h), v) != 0) fprintf(OUT, "HEXERR "); else fprintf(OUT, "%s ", h);
		long double ld = 0; rrr_fixp v2 = 0;
		rrr_fixp_to_ldouble(&ld, v); rrr_fixp_ldouble_to_fixp(&v2, ld);
		fprintf(OUT, "%" PRIi64, v2);
		free(b);
		break; }
	}
	return 0;
}

int main(void) {
	drv_init();
	drv_loop(cmd);
	if (tree) rrr_array_tree_destroy(tree);
	rrr_array_clear(&last);
	vf_cleanup();
	return 0;
}

/* HTTP/1 message parsing over a growing buffer, request post processing, and the string helpers below. */
#include "drv.h"
#include "http/http_part.h"
#include "http/http_part_parse.h"
#include "http/http_part_multipart.h"
#include "http/http_header_fields.h"
#include "http/http_fields.h"
#include "http/http_util.h"
#include "http/http_common.h"
#include "helpers/nullsafe_str.h"
#include "util/base64.h"
#include "util/linked_list.h"
#include "array.h"
#include "type.h"
#include "read_constants.h"
#include "helpers/string_builder.h"
#include "websocket/websocket.h"
const char *rrr_default_log_prefix = "vf-http";

static int ns_out(const void *p, rrr_nullsafe_len l, void *a) { (void)a; vf_hex(OUT, p, l); return 0; }
static void ns(const struct rrr_nullsafe_str *s) {
	if (!rrr_nullsafe_str_isset(s)) { fputc('~', OUT); return; }
	rrr_nullsafe_str_with_raw_do_const(s, ns_out, NULL);
}
static struct rrr_nullsafe_str *mkns(const char *hex) {
	size_t n; uint8_t *b = drv_bytes(hex, &n); struct rrr_nullsafe_str *s = NULL;
	if (rrr_nullsafe_str_new_or_replace_raw(&s, b, n) != 0) exit(2);
	free(b); return s;
}
static int chunk_cb(RRR_HTTP_PART_ITERATE_CALLBACK_ARGS) {
	(void)chunk_idx; (void)chunk_total; (void)part_data_size; (void)arg;
	const uint8_t *p = (const uint8_t *) data_start;
	for (size_t i = 0; i < chunk_data_size; i++) { fputc("0123456789abcdef"[p[i] >> 4], OUT); fputc("0123456789abcdef"[p[i] & 15], OUT); }
	return 0;
}
static void fields_out(const struct rrr_http_field_collection *c) {
	RRR_LL_ITERATE_BEGIN(c, const struct rrr_http_field);
		fputc('(', OUT); ns(node->name); fputc('=', OUT); ns(node->value);
		if (rrr_nullsafe_str_isset(node->content_type)) { fputc(':', OUT); ns(node->content_type); }
		fputc(')', OUT);
	RRR_LL_ITERATE_END();
}
static void part_out(struct rrr_http_part *p, const char *data, int level) {
	if (level == 0) {
		fprintf(OUT, " v=%s m=%s f=%s code=%u conn=%s", p->parsed_version == RRR_HTTP_VERSION_10 ? "1.0" : p->parsed_version == RRR_HTTP_VERSION_11 ? "1.1" : "?",
			p->request_method == RRR_HTTP_METHOD_GET ? "GET" : p->request_method == RRR_HTTP_METHOD_HEAD ? "HEAD" : p->request_method == RRR_HTTP_METHOD_OPTIONS ? "OPTIONS" :
			p->request_method == RRR_HTTP_METHOD_DELETE ? "DELETE" : p->request_method == RRR_HTTP_METHOD_PUT ? "PUT" : p->request_method == RRR_HTTP_METHOD_PATCH ? "PATCH" :
			p->request_method == RRR_HTTP_METHOD_POST ? "POST" : "?",
			p->body_format == RRR_HTTP_BODY_FORMAT_MULTIPART_FORM_DATA ? "multi" : p->body_format == RRR_HTTP_BODY_FORMAT_URLENCODED ? "form" :
			p->body_format == RRR_HTTP_BODY_FORMAT_JSON ? "json" : "raw",
			p->response_code, p->parsed_connection == RRR_HTTP_CONNECTION_CLOSE ? "close" : p->parsed_connection == RRR_HTTP_CONNECTION_KEEPALIVE ? "keep" : "?");
		fprintf(OUT, " uri="); ns(p->request_uri_nullsafe);
		fprintf(OUT, " ms="); ns(p->request_method_str_nullsafe);
	}
	fprintf(OUT, " H[");
	RRR_LL_ITERATE_BEGIN(&p->headers, struct rrr_http_header_field);
		fputc('{', OUT); ns(node->name); fputc('=', OUT); ns(node->value_full); fputc('/', OUT); ns(node->value);
		fprintf(OUT, "/%llu/", node->value_unsigned); fields_out(&node->fields); fputc('}', OUT);
	RRR_LL_ITERATE_END();
	fprintf(OUT, "] B[");
	if (rrr_http_part_chunks_iterate(p, data, chunk_cb, NULL) != 0) fprintf(OUT, "!");
	fprintf(OUT, "] F["); fields_out(&p->fields);
	fprintf(OUT, "] A[");
	RRR_LL_ITERATE_BEGIN(&p->arrays, struct rrr_array);
		struct rrr_array *arr = node;
		fputc('{', OUT);
		RRR_LL_ITERATE_BEGIN(arr, struct rrr_type_value);
			fprintf(OUT, "(%s,", node->definition->identifier);
			vf_hex(OUT, node->tag, node->tag_length); fputc(',', OUT);
			if (RRR_TYPE_IS_64(node->definition->type)) { uint64_t v; memcpy(&v, node->data, 8); fprintf(OUT, "%s%" PRIu64, RRR_TYPE_FLAG_IS_SIGNED(node->flags) ? "s" : "u", v); }
			else if (RRR_TYPE_IS_MSG(node->definition->type)) fprintf(OUT, "msg");
			else vf_hex(OUT, node->data, node->total_stored_length);
			fputc(')', OUT);
		RRR_LL_ITERATE_END();
		fputc('}', OUT);
	RRR_LL_ITERATE_END();
	fprintf(OUT, "] P[");
	RRR_LL_ITERATE_BEGIN(p, struct rrr_http_part);
		fputc('<', OUT); part_out(node, data, level + 1); fputc('>', OUT);
	RRR_LL_ITERATE_END();
	fputc(']', OUT);
}
/* S type(Q request,R response) data cuts : the way the reader of a connection calls the parser */
static void session(char **a) {
	size_t n; uint8_t *data = drv_bytes(a[2], &n);
	enum rrr_http_parse_type ty = a[1][0] == 'Q' ? RRR_HTTP_PARSE_REQUEST : RRR_HTTP_PARSE_RESPONSE;
	struct rrr_http_part *part = NULL;
	if (rrr_http_part_new(&part)) exit(2);
	rrr_biglength pos = 0, target = 0, parsed = 0;
	int ret = RRR_HTTP_PARSE_INCOMPLETE;
	char *save = NULL, *cuts = strdup(a[3]);
	char *t = strtok_r(cuts, ",", &save);
	size_t have = 0;
	char *buf = NULL;
	while (have < n && ret == RRR_HTTP_PARSE_INCOMPLETE) {
		size_t next = n;
		if (t) { next = (size_t) atol(t); t = strtok_r(NULL, ",", &save); }
		if (next > n) next = n;
		if (next <= have) continue;
		have = next;
		free(buf); buf = malloc(have); memcpy(buf, data, have);
		do {
			ret = rrr_http_part_parse(part, &target, &parsed, buf, pos, buf + have, ty);
			pos += parsed;
		} while (parsed != 0 && ret == RRR_HTTP_PARSE_INCOMPLETE);
		if (ret == RRR_HTTP_PARSE_INCOMPLETE && part->data_length_unknown) break;
	}
	if (ret == RRR_HTTP_PARSE_INCOMPLETE && part->data_length_unknown) {
		fprintf(OUT, "U top=%" PRIu64, (uint64_t) RRR_HTTP_PART_TOP_LENGTH(part));
		part_out(part, buf, 0);
	}
	else if (ret == RRR_HTTP_PARSE_INCOMPLETE) fprintf(OUT, "I");
	else if (ret != RRR_HTTP_PARSE_OK) fprintf(OUT, "E");
	else if (target > n) fprintf(OUT, "I");
	else {
		free(buf); buf = malloc(target); memcpy(buf, data, target);
		fprintf(OUT, "K %" PRIu64, (uint64_t) target);
		char *merged = NULL;
		if (ty == RRR_HTTP_PARSE_REQUEST) {
			if (rrr_http_part_chunks_merge(&merged, part, buf)) fprintf(OUT, " !merge");
			int r = rrr_http_part_multipart_and_fields_process(part, merged ? merged : buf, 0);
			if (r) fprintf(OUT, " !proc");
		}
		part_out(part, merged ? merged : buf, 0);
		if (merged) rrr_free(merged);
	}
	free(buf); free(cuts); free(data);
	rrr_http_part_destroy(part);
}
static void uri_out(const char *name, const char *s) { fprintf(OUT, " %s=", name); if (s) vf_hex(OUT, s, strlen(s)); else fputc('~', OUT); }
static int split_cb(const void *e, rrr_nullsafe_len el, const void *q, rrr_nullsafe_len ql, void *arg) { (void)arg;
	fprintf(OUT, " e="); vf_hex(OUT, e, el); fprintf(OUT, " q="); if (q) vf_hex(OUT, q, ql); else fputc('~', OUT); return 0; }
static int fn(int argc, char **a) {
	(void) argc;
	switch (a[0][0]) {
	case 'S': session(a); break;
	case 'u': { /* uri encode, then decode again */
		struct rrr_nullsafe_str *s = mkns(a[1]), *e = NULL;
		if (rrr_http_util_uri_encode(&e, s)) fprintf(OUT, "E"); else { ns(e);
			fputc(' ', OUT); if (rrr_http_util_urlencoded_string_decode(e)) fputc('E', OUT); else ns(e); }
		rrr_nullsafe_str_destroy_if_not_null(&s); rrr_nullsafe_str_destroy_if_not_null(&e); break; }
	case 'd': { struct rrr_nullsafe_str *s = mkns(a[1]);
		if (rrr_http_util_urlencoded_string_decode(s)) fputc('E', OUT); else ns(s);
		rrr_nullsafe_str_destroy_if_not_null(&s); break; }
	case 'q': { /* quote, unquote */
		size_t n; uint8_t *b = drv_bytes(a[1], &n);
		char *q = rrr_http_util_header_value_quote((char *) b, n, '"', '"');
		free(b);
		if (!q) { fputc('E', OUT); break; }
		vf_hex(OUT, q, strlen(q)); fputc(' ', OUT);
		struct rrr_nullsafe_str *s = NULL; rrr_nullsafe_str_new_or_replace_raw(&s, q, strlen(q));
		if (rrr_http_util_unquote_string(s)) fputc('E', OUT); else ns(s);
		rrr_nullsafe_str_destroy_if_not_null(&s); rrr_free(q); break; }
	case 'x': { struct rrr_nullsafe_str *s = mkns(a[1]);
		if (rrr_http_util_unquote_string(s)) fputc('E', OUT); else ns(s);
		rrr_nullsafe_str_destroy_if_not_null(&s); break; }
	case 'b': { size_t n; uint8_t *b = drv_bytes(a[1], &n); rrr_biglength l = 0;
		unsigned char *e = rrr_base64_encode(b, n, &l);
		if (!e) fputc('E', OUT); else { vf_hex(OUT, e, l); rrr_free(e); }
		free(b); break; }
	case 'B': { size_t n; uint8_t *b = drv_bytes(a[1], &n); rrr_biglength l = 0;
		unsigned char *e = a[2][0] == 'u' ? rrr_base64url_decode(b, n, &l) : rrr_base64_decode(b, n, &l);
		if (!e) fputc('E', OUT); else { vf_hex(OUT, e, l); rrr_free(e); }
		free(b); break; }
	case 'U': { struct rrr_nullsafe_str *s = mkns(a[1]); struct rrr_http_uri *u = NULL;
		if (rrr_http_util_uri_parse(&u, s)) fputc('E', OUT);
		else { fprintf(OUT, "K"); uri_out("p", u->protocol); uri_out("h", u->host); fprintf(OUT, " port=%u", u->port); uri_out("e", u->endpoint);
			rrr_http_util_uri_destroy(u); }
		rrr_nullsafe_str_destroy_if_not_null(&s); break; }
	case 's': { struct rrr_nullsafe_str *s = mkns(a[1]);
		if (rrr_http_util_uri_endpoint_and_query_string_split(s, split_cb, NULL)) fputc('E', OUT);
		rrr_nullsafe_str_destroy_if_not_null(&s); break; }
	case 'h': { /* header value as received over HTTP/2 or set by applications */
		struct rrr_http_header_field_collection c = {0}; size_t nn, vn; rrr_length p = 0;
		uint8_t *n = drv_bytes(a[1], &nn), *v = drv_bytes(a[2], &vn);
		int r = rrr_http_header_field_parse_value_raw(&c, &p, (char *) n, nn, (char *) v, vn);
		fprintf(OUT, "%c ", r ? 'E' : 'K');
		RRR_LL_ITERATE_BEGIN(&c, struct rrr_http_header_field);
			fputc('{', OUT); ns(node->name); fputc('=', OUT); ns(node->value_full); fputc('/', OUT); ns(node->value);
			fprintf(OUT, "/%llu/", node->value_unsigned); fields_out(&node->fields); fputc('}', OUT);
		RRR_LL_ITERATE_END();
		rrr_http_header_field_collection_clear(&c); free(n); free(v); break; }
	case 'f': { /* form fields to urlencoded, raw and JSON */
		struct rrr_http_field_collection c = {0};
		for (int i = 1; i + 1 < argc; i += 2) { size_t nn, vn; uint8_t *n = drv_bytes(a[i], &nn), *v = drv_bytes(a[i + 1], &vn);
			if (rrr_http_field_collection_add(&c, nn ? (char *) n : NULL, nn, vn ? (char *) v : NULL, vn, NULL, 0, NULL)) fputc('!', OUT);
			free(n); free(v); }
		struct rrr_nullsafe_str *t = NULL;
		if (rrr_http_field_collection_to_urlencoded_form_data(&t, &c)) fputc('E', OUT); else ns(t);
		fputc(' ', OUT); rrr_nullsafe_str_destroy_if_not_null(&t);
		if (rrr_http_field_collection_to_raw_form_data(&t, &c)) fputc('E', OUT); else ns(t);
		fputc(' ', OUT); rrr_nullsafe_str_destroy_if_not_null(&t);
		if (rrr_http_field_collection_to_json(&t, &c)) fputc('E', OUT); else ns(t);
		rrr_nullsafe_str_destroy_if_not_null(&t);
		rrr_http_field_collection_clear(&c); break; }
	}
	return 0;
}
int main(void) { drv_init(); drv_loop(fn); vf_cleanup(); return 0; }

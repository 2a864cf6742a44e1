#include <regex.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <time.h>
#include "38-moths.h"
#include "shim.h"
void *mcx_malloc(size_t); void mcx_free(void *);

void *sh_app_new(const sh_route *r, int n, int port, int threads, int *sockfd) {
	m38_route *rt = calloc(n ? n : 1, sizeof *rt);
	for (int i = 0; i < n; i++) {
		strncpy(rt[i].verb, r[i].verb, sizeof rt[i].verb - 1);
		strncpy(rt[i].name, r[i].name, sizeof rt[i].name - 1);
		strncpy(rt[i].route_match, r[i].match, sizeof rt[i].route_match - 1);
		rt[i].expected_matches = r[i].expected;
		rt[i].handler = (void *)r[i].handler;
		rt[i].cleanup = (void *)r[i].cleanup;
	}
	m38_app tmp = { .main_sock_fd = sockfd, .port = port, .num_threads = threads, .routes = rt, .num_routes = n };
	m38_app *a = malloc(sizeof *a); memcpy(a, &tmp, sizeof tmp);
	return a;
}
void sh_app_free404(void *app) { m38_app *a = app; mcx_free(a->r_404_route); a->r_404_route = NULL; }
void sh_app_free(void *app) { m38_app *a = app; sh_app_free404(app); free((void *)a->routes); free(a); }
int sh_set_404_handler(void *app, sh_handler h) { return m38_set_404_handler(app, (void *)h); }
int sh_set_404_cleanup(void *app, sh_cleanup c) { return m38_set_404_cleanup(app, (void *)c); }
int sh_serve(void *app) { return m38_http_serve(app); }
void sh_req_view(const void *req, sh_req *o) {
	const m38_http_request *r = req;
	o->verb = r->verb; o->resource = r->resource; o->header = r->full_header; o->header_len = r->header_len; o->body = r->full_body; o->body_len = r->body_len; o->form = r->form_elements;
	for (int i = 0; i < 4; i++) { o->so[i] = r->matches[i].rm_so; o->eo[i] = r->matches[i].rm_eo; }
}
void *sh_generate(int fd, const void *app) { return m38_generate_response(fd, app); }
void *sh_send(void *h) { return m38_send_response(h); }
void *sh_resp_new(void) { m38_http_response *r = calloc(1, sizeof *r); r->extra_headers = vector_new(sizeof(m38_header_pair *), 4); return r; }
void sh_resp_free(void *p) {
	m38_http_response *r = p;
	for (size_t i = 0; i < r->extra_headers->count; i++) { m38_header_pair **q = (void *)vector_get(r->extra_headers, i); mcx_free((void *)(*q)->header); mcx_free((void *)(*q)->value); mcx_free(*q); }
	vector_free(r->extra_headers); free(r);
}
void sh_resp_set(void *p, const void *out, size_t n) { m38_http_response *r = p; r->out = (void *)out; r->outsize = n; }
unsigned char *sh_resp_out(void *p) { return ((m38_http_response *)p)->out; }
size_t sh_resp_outsize(void *p) { return ((m38_http_response *)p)->outsize; }
void sh_resp_set_mime(void *p, const char *m) { m38_http_response *r = p; memset(r->mimetype, 0, sizeof r->mimetype); strncpy(r->mimetype, m, sizeof r->mimetype - 1); }
const char *sh_resp_mime(void *p) { return ((m38_http_response *)p)->mimetype; }
void *sh_resp_extra(void *p) { return ((m38_http_response *)p)->extra_data; }
int sh_mmap_file(const char *p, void *r) { return m38_mmap_file(p, r); }
int sh_render_file(const void *c, const char *p, void *r) { return m38_render_file(c, p, r); }
int sh_return_raw(const char *b, size_t n, void *r) { return m38_return_raw_buffer(b, n, r); }
void sh_heap_cleanup(int c, void *r) { m38_heap_cleanup(c, r); }
void sh_heap_cleanup_nc(int c, void *r) { m38_heap_cleanup_no_check(c, r); }
void sh_mmap_cleanup(int c, void *r) { m38_mmap_cleanup(c, r); }
int sh_insert_header(void *r, const char *h, size_t hn, const char *v, size_t vn) { return m38_insert_custom_header(r, h, hn, v, vn); }
const sh_cleanup sh_p_heap_cleanup = (sh_cleanup)m38_heap_cleanup, sh_p_heap_cleanup_nc = (sh_cleanup)m38_heap_cleanup_no_check, sh_p_mmap_cleanup = (sh_cleanup)m38_mmap_cleanup;
char *sh_header_raw(const char *r, size_t n, const char *h) { return m38_get_header_value_raw(r, n, h); }
char *sh_header_req(const void *r, const char *h) { return m38_get_header_value_request(r, h); }
void *sh_mkreq(const void *b, size_t n) { m38_http_request *r = calloc(1, sizeof *r); if (b) { r->full_body = mcx_malloc(n); memcpy(r->full_body, b, n); r->body_len = n; } return r; }
void sh_freereq(void *p) { m38_http_request *r = p; if (r->form_elements) sparse_dict_free(r->form_elements); mcx_free(r->full_body); mcx_free(r->full_header); free(r); }
int sh_parse_form(void *r) { return m38_parse_form_encoded_body(r); }
int sh_parse_request(const void *raw, size_t n, void *r) { return m38_parse_request(raw, n, r); }
int sh_parse_body(size_t g, size_t c, const void *raw, void *r) { return m38_parse_body(g, c, raw, r); }
void sh_range(const char *q, size_t *l, size_t *o) { m38_range_header h = m38_parse_range_header(q); *l = h.limit; *o = h.offset; }
void *sh_ctx(void) { return gshkl_init_context(); }
void sh_ctx_free(void *c) { gshkl_free_context(c); }
int sh_add_string(void *c, const char *n, const char *v) { return gshkl_add_string(c, n, v); }
int sh_add_int(void *c, const char *n, int v) { return gshkl_add_int(c, n, v); }
void *sh_add_array(void *c, const char *n) { greshunkel_var *l = malloc(sizeof *l); *l = gshkl_add_array(c, n); return l; }
int sh_loop_string(void *l, const char *v) { return gshkl_add_string_to_loop(l, v); }
int sh_loop_int(void *l, int v) { return gshkl_add_int_to_loop(l, v); }
int sh_loop_ctx(void *l, const void *c) { return gshkl_add_sub_context_to_loop(l, c); }
void sh_loop_done(void *l) { free(l); }
void sh_ctx_parent(void *c, const void *p) { ((greshunkel_ctext *)c)->parent = p; }
int sh_add_ctx(void *c, const char *n, const void *child) { return gshkl_add_sub_context(c, n, child); }
int sh_add_filter(void *c, const char *n, char *(*f)(const char *), void (*cl)(char *)) { return gshkl_add_filter(c, n, f, cl); }
char *sh_render(const void *c, const char *t, size_t n, size_t *o) { return gshkl_render(c, t, n, o); }
void sh_filter_cleanup(char *r) { gshkl_filter_cleanup(r); }
void *sh_dict(void) { return sparse_dict_init(); }
int sh_dict_set(void *d, const char *k, size_t kn, const void *v, size_t vn) { return sparse_dict_set(d, k, kn, v, vn); }
void *sh_dict_get(void *d, const char *k, size_t kn, size_t *o) { return sparse_dict_get(d, k, kn, o); }
int sh_dict_free(void *d) { return sparse_dict_free(d); }
void *sh_arr(size_t es, uint32_t m) { return sparse_array_init(es, m); }
int sh_arr_set(void *a, uint32_t i, const void *v, size_t n) { return sparse_array_set(a, i, v, n); }
const void *sh_arr_get(void *a, uint32_t i, size_t *o) { return sparse_array_get(a, i, o); }
int sh_arr_free(void *a) { return sparse_array_free(a); }
void *sh_vec(size_t is, size_t n) { return vector_new(is, n); }
int sh_vec_append(void *v, const void *i, size_t n) { return vector_append(v, i, n); }
int sh_vec_append_ptr(void *v, const void *p) { return vector_append_ptr(v, p); }
const void *sh_vec_get(const void *v, unsigned i) { return vector_get(v, i); }
int sh_vec_reverse(void *v) { return vector_reverse(v); }
void sh_vec_free(void *v) { vector_free(v); }
size_t sh_vec_count(const void *v) { return ((const vector *)v)->count; }
int sh_endswith(const char *s, const char *x) { return endswith(s, x); }
char *sh_strnstr(const char *h, const char *n, size_t l) { return strnstr(h, n, l); }
time_t sh_file_date(const char *p) { return get_file_creation_date(p); }
size_t sh_file_size(const char *p) { return get_file_size(p); }
int sh_hash(const unsigned char *s, size_t n, char *o) { return hash_string_fnv1a(s, n, o); }
char *sh_cookie(const char *c, size_t n, const char *nm) { return m38_get_cookie_value(c, n, nm); }
int sh_url_decode(const char *s, char *d) { return m38_url_decode(s, d); }
void sh_set_body_len(void *p, size_t n) { ((m38_http_request *)p)->body_len = n; }

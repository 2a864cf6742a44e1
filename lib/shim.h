// C view of the library's public interface for the C++ harnesses (its headers are C99 only).
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <time.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef int (*sh_handler)(const void *req, void *resp);
typedef void (*sh_cleanup)(int code, void *resp);
typedef struct { const char *verb, *resource; long so[4], eo[4]; const char *header; size_t header_len; const unsigned char *body; size_t body_len; void *form; } sh_req;
typedef struct { const char *verb, *name, *match; size_t expected; sh_handler handler; sh_cleanup cleanup; } sh_route;
// app
void *sh_app_new(const sh_route *r, int n, int port, int threads, int *sockfd);   // untracked memory
void  sh_app_free(void *app);
int   sh_set_404_handler(void *app, sh_handler h);
int   sh_set_404_cleanup(void *app, sh_cleanup c);
void  sh_app_free404(void *app);
int   sh_serve(void *app);
// requests and responses
void  sh_req_view(const void *req, sh_req *o);
void *sh_generate(int fd, const void *app);
void *sh_send(void *hreq);
void *sh_resp_new(void);          // an empty response with its header vector (as the server makes it)
void  sh_resp_free(void *resp);
void  sh_resp_set(void *resp, const void *out, size_t n);
unsigned char *sh_resp_out(void *resp);
size_t sh_resp_outsize(void *resp);
void  sh_resp_set_mime(void *resp, const char *m);
const char *sh_resp_mime(void *resp);
void *sh_resp_extra(void *resp);
int   sh_mmap_file(const char *p, void *resp);
int   sh_render_file(const void *ctext, const char *p, void *resp);
int   sh_return_raw(const char *b, size_t n, void *resp);
void  sh_heap_cleanup(int code, void *resp);
void  sh_heap_cleanup_nc(int code, void *resp);
void  sh_mmap_cleanup(int code, void *resp);
int   sh_insert_header(void *resp, const char *h, size_t hn, const char *v, size_t vn);
extern const sh_cleanup sh_p_heap_cleanup, sh_p_heap_cleanup_nc, sh_p_mmap_cleanup;
// parse
char *sh_header_raw(const char *r, size_t n, const char *h);
char *sh_header_req(const void *req, const char *h);
void *sh_mkreq(const void *body, size_t n);          // a request with that body (copied to tracked memory)
void  sh_freereq(void *req);
void  sh_set_body_len(void *req, size_t n);
int   sh_parse_form(void *req);
int   sh_parse_request(const void *raw, size_t n, void *req);
int   sh_parse_body(size_t got, size_t clen, const void *raw, void *req);
void  sh_range(const char *q, size_t *limit, size_t *offset);
// templates
void *sh_ctx(void);
void  sh_ctx_free(void *c);
int   sh_add_string(void *c, const char *n, const char *v);
int   sh_add_int(void *c, const char *n, int v);
void *sh_add_array(void *c, const char *n);          // returns malloc'ed copy of the loop handle (untracked)
int   sh_loop_string(void *l, const char *v);
int   sh_loop_int(void *l, int v);
int   sh_loop_ctx(void *l, const void *c);
void  sh_loop_done(void *l);
int   sh_add_ctx(void *c, const char *n, const void *child);
void  sh_ctx_parent(void *c, const void *p);
int   sh_add_filter(void *c, const char *n, char *(*f)(const char *), void (*cl)(char *));
char *sh_render(const void *c, const char *t, size_t n, size_t *out);
void  sh_filter_cleanup(char *r);
// dictionary, array, vector
void *sh_dict(void); int sh_dict_set(void *d, const char *k, size_t kn, const void *v, size_t vn); void *sh_dict_get(void *d, const char *k, size_t kn, size_t *o); int sh_dict_free(void *d);
void *sh_arr(size_t es, uint32_t max); int sh_arr_set(void *a, uint32_t i, const void *v, size_t n); const void *sh_arr_get(void *a, uint32_t i, size_t *o); int sh_arr_free(void *a);
void *sh_vec(size_t is, size_t n); int sh_vec_append(void *v, const void *i, size_t n); int sh_vec_append_ptr(void *v, const void *p); const void *sh_vec_get(const void *v, unsigned i); int sh_vec_reverse(void *v); void sh_vec_free(void *v); size_t sh_vec_count(const void *v);
// utils
int sh_endswith(const char *s, const char *x); char *sh_strnstr(const char *h, const char *n, size_t l); time_t sh_file_date(const char *p); size_t sh_file_size(const char *p);
int sh_hash(const unsigned char *s, size_t n, char *out); char *sh_cookie(const char *c, size_t n, const char *name); int sh_url_decode(const char *s, char *d);
enum { SH_INFO, SH_DEBUG, SH_WARN, SH_ERR, SH_FUN, SH_DB };
#define sh_log m38_log_msg
#ifdef __cplusplus
void m38_log_msg(int level, const char *fmt, ...);
}
#endif

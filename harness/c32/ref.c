// What the C library does with the same values: a C program's calls, behind opaque pointers.
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include "greshunkel.h"
void *r_ctx(void) { return gshkl_init_context(); }
void r_free(void *c) { gshkl_free_context(c); }
int r_str(void *c, const char *n, const char *v) { return gshkl_add_string(c, n, v); }
int r_int(void *c, const char *n, int v) { return gshkl_add_int(c, n, v); }
int r_sub(void *c, const char *n, void *k) { return gshkl_add_sub_context(c, n, k); }
void *r_arr(void *c, const char *n) { greshunkel_var *v = malloc(sizeof *v); *v = gshkl_add_array(c, n); return v; }
void r_arr_done(void *l) { free(l); }
int r_l_str(void *l, const char *v) { return gshkl_add_string_to_loop(l, v); }
int r_l_int(void *l, int v) { return gshkl_add_int_to_loop(l, v); }
int r_l_sub(void *l, void *k) { return gshkl_add_sub_context_to_loop(l, k); }
static char *fixed(const char *a) { (void)a; return "z"; }
static char *wrap(const char *a) { char *r = malloc((a ? strlen(a) : 1) + 3); sprintf(r, "<%s>", a ? a : "-"); return r; }
static char *uni(const char *a) { (void)a; return "\xc3\xa9\xe2\x82\xac"; }
static char *empty(const char *a) { (void)a; return ""; }
int r_flt(void *c, const char *n, int k) {
	return k == 0 ? gshkl_add_filter(c, n, fixed, NULL) : k == 1 ? gshkl_add_filter(c, n, wrap, gshkl_filter_cleanup) :
		k == 2 ? gshkl_add_filter(c, n, uni, NULL) : gshkl_add_filter(c, n, empty, NULL); }
void *r_render(void *c, const char *t, size_t n) { return gshkl_render(c, t, n, NULL); }
void r_text_done(void *t) { free(t); }

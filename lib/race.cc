// A happens-before race detector behind the compiler's -fsanitize=thread instrumentation: every access
// of the code under test is checked against vector clocks, on every schedule that is explored.
#include "env.h"
#include "ctlthr.h"
#include <ctype.h>
#include <regex.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <time.h>
#include <unistd.h>
#include <array>
#include <unordered_map>
enum { NT = 16, PG = 4096 };
// per byte: the last write and the reads since, as epochs (thread, clock); several readers go to a side table
struct Cell { uint32_t ex, w, r, wpc, rpc; };
enum : uint32_t { MANY = 0xffffffffu };
static inline uint32_t ep(int t, unsigned c) { return (uint32_t)t << 27 | (c & 0x7ffffff); }
static inline int et(uint32_t e) { return e >> 27; }
static inline unsigned ec(uint32_t e) { return e & 0x7ffffff; }
static std::unordered_map<uintptr_t, std::array<unsigned, NT>> readers;
static std::unordered_map<uintptr_t, Cell *> pagesm; static uintptr_t lastno; static Cell *lastpg;
static uint32_t ex = 1;
static std::vector<unsigned> vc[NT]; static std::map<const void *, std::vector<unsigned>> objs; static std::vector<unsigned> outside;
std::function<void(const char *)> race_on;
static void join(std::vector<unsigned> &a, const std::vector<unsigned> &b) { for (int i = 0; i < NT; i++) if (i < (int)b.size() && b[i] > a[i]) a[i] = b[i]; }
void race_reset() { ex++; objs.clear(); readers.clear(); for (auto &v : vc) v.assign(NT, 0); outside.assign(NT, 0); }
static int me() { int t = sched_self(); if (t >= NT) mc_fail("harness: more than %d threads under race detection", NT); return t; }
void race_fork(int p, int c) { if (c >= NT) mc_fail("harness: more than %d threads under race detection", NT); if (vc[c].empty()) race_reset(); if (p >= 0) { vc[c] = vc[p]; vc[p][p]++; } else vc[c] = outside; vc[c][c] = 1; if (p >= 0 && vc[p][p] == 0) vc[p][p] = 1; }
void race_join(int by, int of) { join(vc[by], vc[of]); }
void race_acquire(const void *o) { int t = me(); if (t < 0) return; auto i = objs.find(o); if (i != objs.end()) join(vc[t], i->second); }
void race_release(const void *o) { int t = me(); if (t < 0) return; auto &v = objs[o]; if (v.empty()) v.assign(NT, 0); join(v, vc[t]); vc[t][t]++; }
void race_acqrel_msg(const std::vector<unsigned> &v) { int t = me(); if (t >= 0) join(vc[t], v); }
std::vector<unsigned> race_clock() { int t = me(); return t < 0 ? outside : vc[t]; }
void race_tick() { int t = me(); if (t >= 0) vc[t][t]++; }
static bool busy;
struct Busy { bool o; Busy() : o(busy) { busy = true; } ~Busy() { busy = o; } };
static Cell *cells(uintptr_t a) {
	uintptr_t n = a / PG; if (n == lastno && lastpg) return lastpg;
	Busy b; Cell *&p = pagesm[n]; if (!p) p = (Cell *)calloc(PG, sizeof(Cell)); lastno = n; return lastpg = p;
}
static std::string where(uint32_t pc) {
	char b[256]; snprintf(b, sizeof b, "addr2line -s -f -e /proc/%d/exe 0x%x 2>/dev/null", (int)getpid(), pc ? pc - 1 : 0); std::string r; if (FILE *f = popen(b, "r")) { while (fgets(b, sizeof b, f)) { b[strcspn(b, "\n")] = 0; r += (r.empty() ? "" : " ") + std::string(b); } pclose(f); } return r.empty() ? "?" : r;
}
[[noreturn]] static void report(uintptr_t a, bool w, int ot, bool ow, uint32_t opc, uint32_t pc, const char *what) {
	std::string o = where(opc), n = where(pc);
	mc_fail("data race: thread %d %s %s%s (in %s) while thread %d's %s (in %s) is not ordered before it; %s", me(), w ? "writes" : "reads", what ? what : "shared memory", "", n.c_str(), ot, ow ? "write" : "read", o.c_str(), sched_where().c_str());
}
// with sched_mem_points, accesses to static variables are scheduling points, and what comes of it is the check's
// business; without, accesses that are not ordered are reported
extern "C" char __start_mcdata[] __attribute__((weak)), __stop_mcdata[] __attribute__((weak)), __start_mcbss[] __attribute__((weak)), __stop_mcbss[] __attribute__((weak));
static bool is_static(uintptr_t a) { return (a >= (uintptr_t)__start_mcdata && a < (uintptr_t)__stop_mcdata) || (a >= (uintptr_t)__start_mcbss && a < (uintptr_t)__stop_mcbss); }
static void access(uintptr_t a, size_t n, bool w, uint32_t pc, const char *what = nullptr) {
	int t = me(); if (t < 0 || !n) return;
	if (sched_mem_points) { if (what || is_static(a)) env_sched_point("memory", a); return; }
	auto &v = vc[t]; const uint32_t mine = ep(t, v[t]);
	while (n) {
		size_t k = PG - a % PG; if (k > n) k = n; Cell *c = cells(a) + a % PG; n -= k;
		for (; k; k--, a++, c++) {
			if (c->ex != ex) { c->ex = ex; c->w = c->r = 0; }
			if (c->w && c->w != mine && ec(c->w) > v[et(c->w)] && et(c->w) != t) report(a, w, et(c->w), true, c->wpc, pc, what);
			if (w) {
				if (c->r == MANY) { auto &r = readers[a]; for (int i = 0; i < NT; i++) if (i != t && r[i] > v[i]) report(a, w, i, false, c->rpc, pc, what); }
				else if (c->r && et(c->r) != t && ec(c->r) > v[et(c->r)]) report(a, w, et(c->r), false, c->rpc, pc, what);
				c->w = mine; c->wpc = pc; c->r = 0;
			} else if (c->r != mine) {
				if (c->r == MANY) readers[a][t] = v[t];
				else if (!c->r || et(c->r) == t || ec(c->r) <= v[et(c->r)]) c->r = mine;
				else { auto &r = readers[a]; r.fill(0); r[et(c->r)] = ec(c->r); r[t] = v[t]; c->r = MANY; }
				c->rpc = pc;
			}
		}
	}
}
static void clear(uintptr_t a, size_t n) {
	while (n) { size_t k = PG - a % PG; if (k > n) k = n; auto i = pagesm.find(a / PG); if (i != pagesm.end()) { Cell *c = i->second + a % PG; for (size_t j = 0; j < k; j++) c[j].ex = 0; } a += k; n -= k; }
}
#define PC ((uint32_t)(uintptr_t)__builtin_return_address(0))
static uint32_t user_pc; // call of a library function that accesses memory for its caller
extern "C" {
void race_new(void *p, size_t n) { clear((uintptr_t)p, n); }
void race_free(void *p, size_t n) { if (!sched_mem_points) access((uintptr_t)p, n, true, user_pc, "memory it releases"); clear((uintptr_t)p, n); }
void race_read(const void *p, size_t n) { access((uintptr_t)p, n, false, user_pc); }
void race_write(void *p, size_t n) { access((uintptr_t)p, n, true, user_pc); }
void race_static(const char *what, void *p, size_t n) { access((uintptr_t)p, n, true, user_pc, what); }
#define RW(n) \
	void __tsan_read##n(void *p) { user_pc = PC; access((uintptr_t)p, n, false, PC); } \
	void __tsan_write##n(void *p) { user_pc = PC; access((uintptr_t)p, n, true, PC); } \
	void __tsan_read##n##_pc(void *p, void *) { access((uintptr_t)p, n, false, PC); } \
	void __tsan_write##n##_pc(void *p, void *) { access((uintptr_t)p, n, true, PC); } \
	void __tsan_unaligned_read##n(void *p) { user_pc = PC; access((uintptr_t)p, n, false, PC); } \
	void __tsan_unaligned_write##n(void *p) { user_pc = PC; access((uintptr_t)p, n, true, PC); } \
	void __tsan_volatile_read##n(void *p) { access((uintptr_t)p, n, false, PC); } \
	void __tsan_volatile_write##n(void *p) { access((uintptr_t)p, n, true, PC); } \
	void __tsan_read_write##n(void *p) { access((uintptr_t)p, n, false, PC); access((uintptr_t)p, n, true, PC); } \
	void __tsan_unaligned_read_write##n(void *p) { access((uintptr_t)p, n, false, PC); access((uintptr_t)p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access((uintptr_t)p, n, false, PC); }
void __tsan_write_range(void *p, size_t n) { access((uintptr_t)p, n, true, PC); }
void __tsan_init(void) {}
void __tsan_func_entry(void *pc) { user_pc = (uint32_t)(uintptr_t)pc; }
void __tsan_func_exit(void) {}
void *__tsan_memcpy(void *d, const void *s, size_t n) { access((uintptr_t)s, n, false, PC); access((uintptr_t)d, n, true, PC); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { access((uintptr_t)s, n, false, PC); access((uintptr_t)d, n, true, PC); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { access((uintptr_t)d, n, true, PC); return memset(d, c, n); }
// atomics: scheduling points that order everything before with everything after
static void atom(const void *p) { env_sched_point("atomic", 0); race_acquire(p); race_release(p); }
#define AT(b, T) \
	T __tsan_atomic##b##_load(const volatile T *p, int) { atom((void *)p); return *p; } \
	void __tsan_atomic##b##_store(volatile T *p, T v, int) { atom((void *)p); *p = v; } \
	T __tsan_atomic##b##_exchange(volatile T *p, T v, int) { atom((void *)p); T o = *p; *p = v; return o; } \
	T __tsan_atomic##b##_fetch_add(volatile T *p, T v, int) { atom((void *)p); T o = *p; *p = o + v; return o; } \
	T __tsan_atomic##b##_fetch_sub(volatile T *p, T v, int) { atom((void *)p); T o = *p; *p = o - v; return o; } \
	T __tsan_atomic##b##_fetch_and(volatile T *p, T v, int) { atom((void *)p); T o = *p; *p = o & v; return o; } \
	T __tsan_atomic##b##_fetch_or(volatile T *p, T v, int) { atom((void *)p); T o = *p; *p = o | v; return o; } \
	T __tsan_atomic##b##_fetch_xor(volatile T *p, T v, int) { atom((void *)p); T o = *p; *p = o ^ v; return o; } \
	T __tsan_atomic##b##_fetch_nand(volatile T *p, T v, int) { atom((void *)p); T o = *p; *p = ~(o & v); return o; } \
	int __tsan_atomic##b##_compare_exchange_strong(volatile T *p, T *c, T v, int, int) { atom((void *)p); T o = *p; if (o == *c) { *p = v; return 1; } *c = o; return 0; } \
	int __tsan_atomic##b##_compare_exchange_weak(volatile T *p, T *c, T v, int a, int d) { return __tsan_atomic##b##_compare_exchange_strong(p, c, v, a, d); } \
	T __tsan_atomic##b##_compare_exchange_val(volatile T *p, T c, T v, int, int) { atom((void *)p); T o = *p; if (o == c) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
static int fence_;
void __tsan_atomic_thread_fence(int) { atom(&fence_); }
void __tsan_atomic_signal_fence(int) {}
// library functions that access memory for the code under test
#define R(p, n) access((uintptr_t)(p), n, false, PC)
#define W(p, n) access((uintptr_t)(p), n, true, PC)
void *mcx_memcpy(void *d, const void *s, size_t n) { R(s, n); W(d, n); return memcpy(d, s, n); }
void *mcx_mempcpy(void *d, const void *s, size_t n) { R(s, n); W(d, n); return mempcpy(d, s, n); }
void *mcx_memmove(void *d, const void *s, size_t n) { R(s, n); W(d, n); return memmove(d, s, n); }
void *mcx_memset(void *d, int c, size_t n) { W(d, n); return memset(d, c, n); }
void mcx_bzero(void *d, size_t n) { W(d, n); memset(d, 0, n); }
int mcx_memcmp(const void *a, const void *b, size_t n) { R(a, n); R(b, n); return memcmp(a, b, n); }
void *mcx_memchr(const void *a, int c, size_t n) { void *r = (void *)memchr(a, c, n); R(a, r ? (char *)r - (char *)a + 1 : n); return r; }
void *mcx_memrchr(const void *a, int c, size_t n) { R(a, n); return (void *)memrchr(a, c, n); }
void *mcx_memmem(const void *a, size_t n, const void *b, size_t m) { void *r = memmem(a, n, b, m); R(b, m); R(a, r ? (char *)r - (char *)a + m : n); return r; }
size_t mcx_strlen(const char *s) { size_t n = strlen(s); R(s, n + 1); return n; }
size_t mcx_strnlen(const char *s, size_t k) { size_t n = strnlen(s, k); R(s, n < k ? n + 1 : n); return n; }
#define RS(s) R(s, strlen(s) + 1)
int mcx_strcmp(const char *a, const char *b) { size_t k = 0; while (a[k] && a[k] == b[k]) k++; R(a, k + 1); R(b, k + 1); return strcmp(a, b); }
int mcx_strncmp(const char *a, const char *b, size_t n) { size_t k = 0; while (k < n && a[k] && a[k] == b[k]) k++; if (k < n) k++; R(a, k); R(b, k); return strncmp(a, b, n); }
int mcx_strcasecmp(const char *a, const char *b) { size_t k = 0; while (a[k] && tolower(a[k]) == tolower(b[k])) k++; R(a, k + 1); R(b, k + 1); return strcasecmp(a, b); }
int mcx_strncasecmp(const char *a, const char *b, size_t n) { size_t k = 0; while (k < n && a[k] && tolower(a[k]) == tolower(b[k])) k++; if (k < n) k++; R(a, k); R(b, k); return strncasecmp(a, b, n); }
char *mcx_strcpy(char *d, const char *s) { size_t n = strlen(s) + 1; R(s, n); W(d, n); return strcpy(d, s); }
char *mcx_stpcpy(char *d, const char *s) { size_t n = strlen(s) + 1; R(s, n); W(d, n); return stpcpy(d, s); }
char *mcx_strncpy(char *d, const char *s, size_t n) { size_t k = strnlen(s, n); R(s, k < n ? k + 1 : n); W(d, n); return strncpy(d, s, n); }
char *mcx_strcat(char *d, const char *s) { size_t a = strlen(d), n = strlen(s) + 1; R(d, a + 1); R(s, n); W(d + a, n); return strcat(d, s); }
char *mcx_strncat(char *d, const char *s, size_t m) { size_t a = strlen(d), n = strnlen(s, m); R(d, a + 1); R(s, n); W(d + a, n + 1); return strncat(d, s, m); }
char *mcx_strchr(const char *s, int c) { char *r = (char *)strchr(s, c); R(s, r ? r - s + 1 : strlen(s) + 1); return r; }
char *mcx_strchrnul(const char *s, int c) { char *r = (char *)strchrnul(s, c); R(s, r - s + 1); return r; }
char *mcx_strrchr(const char *s, int c) { RS(s); return (char *)strrchr(s, c); }
char *mcx_strstr(const char *a, const char *b) { char *r = (char *)strstr(a, b); RS(b); R(a, r ? r - a + strlen(b) : strlen(a) + 1); return r; }
char *mcx_strcasestr(const char *a, const char *b) { RS(b); RS(a); return (char *)strcasestr(a, b); }
size_t mcx_strspn(const char *a, const char *b) { size_t n = strspn(a, b); RS(b); R(a, n + 1); return n; }
size_t mcx_strcspn(const char *a, const char *b) { size_t n = strcspn(a, b); RS(b); R(a, n + 1); return n; }
char *mcx_strpbrk(const char *a, const char *b) { RS(b); RS(a); return (char *)strpbrk(a, b); }
char *mcx_strsep(char **s, const char *d) { R(s, sizeof *s); if (*s) RS(*s); RS(d); char *o = *s, *r = strsep(s, d); W(s, sizeof *s); if (o && *s) W(*s - 1, 1); return r; }
char *mcx_strtok_r(char *s, const char *d, char **sv) { if (s) RS(s); else { R(sv, sizeof *sv); if (*sv) RS(*sv); } char *r = strtok_r(s, d, sv); W(sv, sizeof *sv); if (r) W(r + strlen(r), 1); return r; }
#define TOL(T, name, real) T name(const char *s, char **e, int b) { char *x; T r = real(s, &x, b); R(s, x - s + 1); if (e) { *e = x; W(e, sizeof *e); } return r; }
TOL(long, mcx_strtol, strtol) TOL(long, mcx___isoc23_strtol, strtol) TOL(unsigned long, mcx_strtoul, strtoul) TOL(unsigned long, mcx___isoc23_strtoul, strtoul) TOL(long long, mcx_strtoll, strtoll) TOL(long long, mcx___isoc23_strtoll, strtoll) TOL(unsigned long long, mcx_strtoull, strtoull) TOL(unsigned long long, mcx___isoc23_strtoull, strtoull)
int mcx_atoi(const char *s) { RS(s); return atoi(s); }
long mcx_atol(const char *s) { RS(s); return atol(s); }
// the strings and targets a format refers to
void race_format(const char *f, va_list ap0, int scan) {
	va_list ap; va_copy(ap, ap0); RS(f);
	for (; *f; f++) {
		if (*f != '%') continue;
		f++; bool skip = false; int lng = 0; long prec = -1, width = -1; while (*f && strchr("-+ #0'", *f)) f++;
		if (scan && *f == '*') { skip = true; f++; } else if (*f == '*') { (void)va_arg(ap, int); f++; } else if (isdigit(*f)) { width = strtol(f, (char **)&f, 10); }
		if (*f == '.') { f++; if (*f == '*') { prec = va_arg(ap, int); f++; } else prec = strtol(f, (char **)&f, 10); }
		while (*f && strchr("hlLqjzt", *f)) { if (*f == 'h') lng--; else lng++; f++; }
		if (!*f) break;
		if (*f == '%' || *f == 'm') continue;
		if (scan) { if (*f == '[') { while (*f && *f != ']') f++; if (!skip) { char *p = va_arg(ap, char *); W(p, strlen(p) + 1); } } else if (!skip) { char *p = va_arg(ap, char *); if (*f == 's') W(p, strlen(p) + 1); else if (*f == 'c') W(p, width > 0 ? width : 1); else W(p, lng > 0 ? 8 : lng == -1 ? 2 : lng < -1 ? 1 : 4); } continue; }
		switch (*f) {
		case 's': { const char *s = va_arg(ap, const char *); if (s) R(s, prec >= 0 ? strnlen(s, prec) : strlen(s) + 1); break; }
		case 'f': case 'F': case 'e': case 'g': case 'E': case 'G': case 'a': if (lng > 0) (void)va_arg(ap, long double); else (void)va_arg(ap, double); break;
		case 'n': W(va_arg(ap, int *), 4); break;
		case 'p': (void)va_arg(ap, void *); break;
		default: if (lng > 0) (void)va_arg(ap, long); else (void)va_arg(ap, int);
		}
	}
	va_end(ap);
}
int mcx_vsnprintf(char *b, size_t n, const char *f, va_list ap) { race_format(f, ap, 0); va_list a2; va_copy(a2, ap); int r = vsnprintf(b, n, f, a2); va_end(a2); if (n && r >= 0) W(b, (size_t)r < n ? (size_t)r + 1 : n); return r; }
int mcx_snprintf(char *b, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = mcx_vsnprintf(b, n, f, ap); va_end(ap); return r; }
int mcx_vsprintf(char *b, const char *f, va_list ap) { race_format(f, ap, 0); va_list a2; va_copy(a2, ap); int r = vsprintf(b, f, a2); va_end(a2); if (r >= 0) W(b, r + 1); return r; }
int mcx_sprintf(char *b, const char *f, ...) { va_list ap; va_start(ap, f); int r = mcx_vsprintf(b, f, ap); va_end(ap); return r; }
int mcx_vsscanf(const char *s, const char *f, va_list ap) { RS(s); va_list a2; va_copy(a2, ap); int r = vsscanf(s, f, a2); va_end(a2); if (r > 0) race_format(f, ap, 1); return r; }
int mcx_sscanf(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = mcx_vsscanf(s, f, ap); va_end(ap); return r; }
int mcx___isoc99_sscanf(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = mcx_vsscanf(s, f, ap); va_end(ap); return r; }
int mcx___isoc23_sscanf(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = mcx_vsscanf(s, f, ap); va_end(ap); return r; }
int mcx_regexec(const regex_t *r, const char *s, size_t n, regmatch_t *m, int fl) { R(r, sizeof *r); RS(s); int k = regexec(r, s, n, m, fl); if (!k && n && m) W(m, n * sizeof *m); return k; }
size_t mcx_regerror(int e, const regex_t *r, char *b, size_t n) { R(r, sizeof *r); size_t k = regerror(e, r, b, n); if (n) W(b, k < n ? k : n); return k; }
size_t mcx_strftime(char *b, size_t n, const char *f, const struct tm *t) { RS(f); R(t, sizeof *t); size_t k = strftime(b, n, f, t); W(b, k + 1); return k; }
char *mcx_strerror(int e) { static char b[64]; W(b, sizeof b); snprintf(b, sizeof b, "error %d", e); return b; }
char *mcx_getenv(const char *n) { RS(n); return getenv(n); }
void mcx_qsort(void *b, size_t n, size_t k, int (*f)(const void *, const void *)) { W(b, n * k); qsort(b, n, k, f); }
}
void race_thread_done(int, void *stk, size_t n) { (void)stk; (void)n; }
// memory the harness itself uses is recycled, too
extern "C" { void *__libc_malloc(size_t); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void __libc_free(void *);
static void *fresh(void *p, size_t n) { if (p && !busy && sched_self() >= 0 && n < (16u << 20)) { Busy b; clear((uintptr_t)p, n); } return p; }
void *malloc(size_t n) { return fresh(__libc_malloc(n), n); }
void *calloc(size_t a, size_t b) { return fresh(__libc_calloc(a, b), a * b); }
void *realloc(void *p, size_t n) { return fresh(__libc_realloc(p, n), n); }
void free(void *p) { __libc_free(p); } }

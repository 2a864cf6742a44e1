#include "env.h"
#include "ctlthr.h"
#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <poll.h>
#include <regex.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>

enum { FD0 = 600 };
std::function<int(const char *)> env_fault;
std::function<void()> env_on_assert;
std::function<void(const char *, long)> env_event;
int env_lastport = -1, env_listen_fd = -1; bool env_listening;
bool env_capture; std::vector<LogEv> env_log; std::string env_streams[3], env_pending[3];
size_t env_alloc_limit = 256u << 20;
bool env_alloc_failed;
static long fail_at;
static bool leakcheck = true;

struct Blk { size_t n; const char *what; };
static std::unordered_map<void *, Blk> blocks;
struct Map { size_t len, pages; };
static std::map<void *, Map> maps;
static std::unordered_map<const void *, int> regexes;
struct VFd { Conn *c; int kind; };          // kind 0 connection, 1 listening or plain socket
static std::map<int, VFd> vfds;
static std::map<int, std::string> rfds;     // real descriptors opened by the code
static std::map<void *, std::string> files; // FILE*
static std::vector<Conn *> conns;
static int nconn;

extern "C" const char *mc_exec_end(void);
static bool fault(const char *fn) {
	if (!env_fault) return false;
	int e = env_fault(fn);
	if (!e) return false;
	errno = e; return true;
}
static void ev(const char *n, long a) { if (env_event) env_event(n, a); }

// ---- static variables of the code under test
extern "C" char __start_mcdata[] __attribute__((weak)), __stop_mcdata[] __attribute__((weak)), __start_mcbss[] __attribute__((weak)), __stop_mcbss[] __attribute__((weak));
static char *snap[2]; static bool dropped;
__attribute__((no_sanitize("address"))) static void rawcopy(char *d, const char *s, size_t n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }
static void statics(bool restore) {
	char *b[2] = {__start_mcdata, __start_mcbss}, *e[2] = {__stop_mcdata, __stop_mcbss};
	for (int i = 0; i < 2; i++) { size_t n = b[i] ? e[i] - b[i] : 0; if (!snap[i]) { snap[i] = (char *)mmap(nullptr, n + 1, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); rawcopy(snap[i], b[i], n); } else if (restore) rawcopy(b[i], snap[i], n); }
}
void env_reset_statics() { statics(true); }
// ---- per-execution state
static std::vector<void *> keepmaps;
extern "C" void mc_on_exec_start(void) {
	statics(dropped); dropped = false;
	env_zero_fd = false; env_fault = nullptr; env_event = nullptr; env_on_assert = nullptr; env_lastport = -1; env_listen_fd = -1; env_listening = false;
	env_capture = false; env_log.clear(); for (auto &s : env_streams) s.clear(); for (auto &s : env_pending) s.clear();
	fail_at = 0; env_alloc_failed = false; leakcheck = true; env_alloc_limit = 256u << 20;
	for (auto c : conns) delete c;
	conns.clear(); nconn = 0;
	vfds.clear();
	// anything the code kept from earlier executions (a cache) is now part of the background
	for (auto &f : rfds) (void)f;
	sched_reset();
}
static size_t bg_blocks, bg_maps, bg_rfds, bg_files, bg_re;   // counts carried over
size_t env_live() { return blocks.size() - bg_blocks + maps.size() - bg_maps + rfds.size() - bg_rfds + files.size() - bg_files + regexes.size() - bg_re + vfds.size(); }
static void adopt() { bg_blocks = blocks.size(); bg_maps = maps.size(); bg_rfds = rfds.size(); bg_files = files.size(); bg_re = regexes.size(); }
std::string env_live_desc() {
	std::string r; char b[128]; int k = 0;
	size_t nb = blocks.size() > bg_blocks ? blocks.size() - bg_blocks : 0;
	if (nb) { snprintf(b, sizeof b, "%zu allocation(s)", nb); r += b; r += " among blocks of sizes"; for (auto &x : blocks) { if (k++ > 8) break; snprintf(b, sizeof b, " %zu(%s)", x.second.n, x.second.what); r += b; } }
	if (maps.size() > bg_maps) r += "; file mapping(s)";
	for (auto &x : rfds) r += "; descriptor of " + x.second;
	for (auto &x : files) r += "; stream of " + x.second;
	if (regexes.size() > bg_re) r += "; compiled expression(s)";
	for (auto &x : vfds) r += "; socket " + std::to_string(x.first);
	return r;
}
bool env_is_live(void *p) { return blocks.count(p); }
void env_leaks(bool on) { leakcheck = on; }
static std::string leakmsg;
extern "C" const char *mc_exec_end(void) {
	const char *r = nullptr;
	if (leakcheck && env_live() > 0) { leakmsg = "left behind at the end: " + env_live_desc(); r = leakmsg.c_str(); }
	if (!leakcheck) { // abandoned on purpose: drop it
		for (auto &b : blocks) free(b.first);
		blocks.clear(); regexes.clear(); dropped = true;
	}
	adopt();
	return r;
}
Conn *env_conn_unopened(const std::string &in, Tail tail) {
	Conn *c = new Conn; c->id = nconn++; c->in = in; c->tail = tail; conns.push_back(c); return c;
}
bool env_zero_fd;
static int newfd(Conn *c, int kind) { int f = env_zero_fd && !vfds.count(0) && !rfds.count(0) ? 0 : FD0; while (vfds.count(f)) f++; vfds[f] = {c, kind}; return f; }
void env_conn_open(Conn *c) { c->fd = newfd(c, 0); c->open = true; }
Conn *env_conn(const std::string &in, Tail tail) { Conn *c = env_conn_unopened(in, tail); env_conn_open(c); return c; }
Conn *env_conn_by_fd(int fd) { auto i = vfds.find(fd); return i == vfds.end() ? nullptr : i->second.c; }
void env_fail_alloc(long n) { fail_at = n; env_alloc_failed = false; }

static std::string dir_;
std::string env_dir() {
	if (dir_.empty()) {
		const char *b = getenv("MC_TMP"); dir_ = std::string(b ? b : "/tmp") + "/w" + std::to_string(getpid());
		mkdir(dir_.c_str(), 0755);
	}
	return dir_;
}
std::string env_put_file(const std::string &name, const std::string &data) {
	std::string p = env_dir() + "/" + name; FILE *f = fopen(p.c_str(), "w");
	if (!f) { fprintf(stderr, "cannot write %s\n", p.c_str()); _exit(97); }
	fwrite(data.data(), 1, data.size(), f); fclose(f); return p;
}
uint64_t env_digest() {
	uint64_t h = 7;
	for (auto c : conns) { h = mc_hash(c->out, h); long v[6] = {(long)c->pos, c->open, c->closes, c->waited, c->accepted, c->fd}; h = mc_hash(v, sizeof v, h); }
	return h;
}
void *env_malloc(size_t n) { void *p = malloc(n); blocks[p] = {n, "handler"}; return p; }

extern "C" {
// ---- memory
static void *track(void *p, size_t n, const char *w) { if (p) { blocks[p] = {n, w}; race_new(p, n); } return p; }
static bool deny(size_t n) {
	if (fail_at && --fail_at == 0) { env_alloc_failed = true; errno = ENOMEM; return true; }
	if (n > env_alloc_limit) mc_fail("runaway allocation of %zu bytes", n);
	return false;
}
void *mcx_malloc(size_t n) { return deny(n) ? nullptr : track(malloc(n), n, "malloc"); }
void *mcx_calloc(size_t a, size_t b) { if (b && a > SIZE_MAX / b) return nullptr; return deny(a * b) ? nullptr : track(calloc(a, b), a * b, "calloc"); }
void mcx_free(void *p) { if (!p) return; auto i = blocks.find(p); if (i != blocks.end()) { race_free(p, i->second.n); blocks.erase(i); } else race_free(p, 1); free(p); }
void env_free_c(void *p) { mcx_free(p); }
void *mcx_realloc(void *p, size_t n) {
	if (!p) return mcx_malloc(n);
	if (n == 0) { mcx_free(p); return nullptr; }
	if (deny(n)) return nullptr;
	auto i = blocks.find(p); size_t old = i == blocks.end() ? 0 : i->second.n;
	if (i != blocks.end()) { race_free(p, old); blocks.erase(i); }
	return track(realloc(p, n), n, "realloc");
}
void *mcx_reallocarray(void *p, size_t a, size_t b) { if (b && a > SIZE_MAX / b) { errno = ENOMEM; return nullptr; } return mcx_realloc(p, a * b); }
char *mcx_strdup(const char *s) { race_read(s, strlen(s) + 1); return deny(strlen(s)) ? nullptr : (char *)track(strdup(s), strlen(s) + 1, "strdup"); }
char *mcx_strndup(const char *s, size_t n) { race_read(s, strnlen(s, n)); size_t l = strnlen(s, n); return deny(l) ? nullptr : (char *)track(strndup(s, n), l + 1, "strndup"); }
int mcx_vasprintf(char **o, const char *f, va_list ap) { race_format(f, ap, 0); int r = vasprintf(o, f, ap); if (r >= 0) track(*o, r + 1, "asprintf"); return r; }
int mcx_asprintf(char **o, const char *f, ...) { va_list ap; va_start(ap, f); int r = mcx_vasprintf(o, f, ap); va_end(ap); return r; }
void *mcx_aligned_alloc(size_t a, size_t n) { return deny(n) ? nullptr : track(aligned_alloc(a, n), n, "aligned_alloc"); }
int mcx_posix_memalign(void **o, size_t a, size_t n) { if (deny(n)) return ENOMEM; int r = posix_memalign(o, a, n); if (!r) track(*o, n, "posix_memalign"); return r; }
char *mcx_realpath(const char *p, char *r) { char *x = realpath(p, r); if (x && !r) track(x, strlen(x) + 1, "realpath"); return x; }
ssize_t mcx_getline(char **l, size_t *n, FILE *f) { if (*l) blocks.erase(*l); ssize_t r = getline(l, n, f); if (*l) track(*l, *n, "getline"); return r; }
ssize_t mcx_getdelim(char **l, size_t *n, int d, FILE *f) { if (*l) blocks.erase(*l); ssize_t r = getdelim(l, n, d, f); if (*l) track(*l, *n, "getdelim"); return r; }

// ---- failed assertions
void mcx___assert_fail(const char *e, const char *f, unsigned l, const char *fn) { if (env_on_assert) env_on_assert(); mc_fail("assertion failed: %s (%s:%u %s)", e, f, l, fn); }
void mcx_abort(void) { mc_fail("abort() called"); }
void mcx_exit(int c) { mc_fail("exit(%d) called", c); }
void mcx__exit(int c) { mc_fail("_exit(%d) called", c); }
int mcx_raise(int s) { mc_fail("raise(%d) called", s); }
int mcx_kill(pid_t, int s) { mc_fail("kill(%d) called", s); }

// ---- regular expressions
int mcx_regcomp(regex_t *r, const char *p, int f) { int rc = regcomp(r, p, f); if (rc == 0) regexes[r]++; race_write(r, sizeof *r); return rc; }
void mcx_regfree(regex_t *r) {
	auto i = regexes.find(r);
	if (i == regexes.end()) mc_fail("regfree of an expression that is not compiled (released twice?)");
	if (--i->second == 0) regexes.erase(i);
	race_write(r, sizeof *r);
	regfree(r);
}

// ---- files
static int opened(int fd, const char *p) { if (fd > 0 && env_zero_fd && !vfds.count(0) && !rfds.count(0)) { dup2(fd, 0); close(fd); fd = 0; } if (fd >= 0) rfds[fd] = p; return fd; }
int mcx_open(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = (fl & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap); if (fault("open")) return -1; ev("open", 0); return opened(open(p, fl, m), p); }
int mcx_open64(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = (fl & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap); if (fault("open")) return -1; ev("open", 0); return opened(open(p, fl, m), p); }
int mcx_openat(int d, const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = (fl & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap); if (fault("open")) return -1; ev("open", 0); return opened(openat(d, p, fl, m), p); }
FILE *mcx_fopen(const char *p, const char *m) { if (fault("fopen")) return nullptr; ev("open", 0); FILE *f = fopen(p, m); if (f) files[f] = p; return f; }
FILE *mcx_fopen64(const char *p, const char *m) { return mcx_fopen(p, m); }
FILE *mcx_fdopen(int fd, const char *m) { FILE *f = fdopen(fd, m); if (f) { files[f] = rfds[fd]; rfds.erase(fd); } return f; }
int mcx_fclose(FILE *f) {
	if (f == stdout || f == stderr) mc_fail("a standard stream was closed");
	if (!files.erase(f)) mc_fail("fclose of a stream that is not open (closed twice?)");
	return fclose(f);
}
size_t mcx_fread(void *b, size_t s, size_t n, FILE *f) { size_t r = fread(b, s, n, f); race_write(b, r * s); return r; }
int mcx_stat(const char *p, struct stat *s) { if (fault("stat")) return -1; int r = stat(p, s); if (!r) race_write(s, sizeof *s); return r; }
int mcx_stat64(const char *p, struct stat *s) { return mcx_stat(p, s); }
int mcx_lstat(const char *p, struct stat *s) { if (fault("stat")) return -1; int r = lstat(p, s); if (!r) race_write(s, sizeof *s); return r; }
int mcx_fstat(int fd, struct stat *s) { if (fault("fstat")) return -1; int r = fstat(fd, s); if (!r) race_write(s, sizeof *s); return r; }
int mcx_fstat64(int fd, struct stat *s) { return mcx_fstat(fd, s); }
static size_t pages(size_t n) { return (n + 4095) / 4096 * 4096; }
void *mcx_mmap(void *a, size_t len, int prot, int fl, int fd, off_t off) {
	if (fault("mmap")) return MAP_FAILED;
	if (len == 0) { errno = EINVAL; return MAP_FAILED; }
	size_t n = pages(len);
	// a guard page follows, so that reading past the last page never happens to succeed
	char *base = (char *)mmap(nullptr, n + 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (base == MAP_FAILED) return MAP_FAILED;
	void *r = mmap(base, len, prot, (fl & ~MAP_FIXED) | MAP_FIXED, fd, off);
	if (r == MAP_FAILED) { int e = errno; munmap(base, n + 4096); errno = e; return r; }
	(void)a;
	maps[r] = {len, n}; return r;
}
void *mcx_mmap64(void *a, size_t len, int prot, int fl, int fd, off_t off) { return mcx_mmap(a, len, prot, fl, fd, off); }
int mcx_munmap(void *a, size_t len) {
	if (len == 0) { errno = EINVAL; return -1; }
	auto i = maps.find(a);
	if (i == maps.end()) mc_fail("munmap of memory that is not mapped (released twice?)");
	if (pages(len) != i->second.pages) mc_fail("munmap of %zu bytes of a mapping of %zu bytes", len, i->second.len);
	munmap(a, i->second.pages + 4096); maps.erase(i); return 0;
}
int mcx_madvise(void *, size_t, int) { return 0; }

// ---- sockets
static VFd *vfd(int fd, const char *what) {
	auto i = vfds.find(fd);
	if (i == vfds.end()) { if (fd >= FD0 || (fd == 0 && env_zero_fd)) mc_fail("%s on descriptor %d, which is not open", what, fd); return nullptr; }
	return &i->second;
}
static size_t avail(Conn &c) { // bytes deliverable by one call now
	size_t end = c.in.size();
	for (size_t k : c.cuts) if (k > c.pos) { if (k < end) end = k; break; }
	return end - c.pos;
}
static ssize_t do_recv(int fd, void *b, size_t n, int fl, const char *what) {
	env_sched_point("recv", fd);
	VFd *v = vfd(fd, what);
	if (!v) { errno = EBADF; return -1; }
	if (!v->c) { errno = ENOTCONN; return -1; }
	Conn &c = *v->c; c.recvs++; mc_step();
	if (c.recvs > 100000) mc_fail("endless reading from connection %d", c.id);
	if (fault("recv")) return -1;
	if (n == 0) return 0;
	char *p = (char *)b; size_t got = 0;
	do {
		size_t a = avail(c);
		if (!a) break;
		if (c.on_recv) { size_t k = c.on_recv(c, a < n - got ? a : n - got); if (k < a) a = k; }
		if (a > n - got) a = n - got;
		memcpy(p + got, c.in.data() + c.pos, a); race_write(p + got, a);   // ASan checks the destination
		got += a;
		if (fl & MSG_PEEK) break;
		c.pos += a;
	} while ((fl & MSG_WAITALL) && got < n);
	if (got) { if ((fl & MSG_WAITALL) && got < n && c.tail == T_SILENT) c.waited = true; return got; }
	if (c.tail == T_ERR) { errno = ECONNRESET; return -1; }
	if (c.tail == T_EOF) { c.eofseen = true; return 0; }
	if (fl & MSG_DONTWAIT) { errno = EAGAIN; return -1; }
	if (c.waited && c.recvs > 1000) mc_fail("endless reading from connection %d", c.id);
	c.waited = true;            // would block; in the end the client gives up and closes
	return 0;
}
ssize_t mcx_recv(int fd, void *b, size_t n, int fl) { return do_recv(fd, b, n, fl, "recv"); }
ssize_t mcx_recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *, socklen_t *) { return do_recv(fd, b, n, fl, "recvfrom"); }
ssize_t mcx_read(int fd, void *b, size_t n) { if (vfds.count(fd) || fd >= FD0) return do_recv(fd, b, n, 0, "read"); ssize_t r = read(fd, b, n); if (r > 0) race_write(b, r); return r; }
ssize_t mcx_pread(int fd, void *b, size_t n, off_t o) { ssize_t r = pread(fd, b, n, o); if (r > 0) race_write(b, r); return r; }
ssize_t mcx_readv(int fd, const struct iovec *v, int n) { for (int i = 0; i < n; i++) if (v[i].iov_len) return mcx_read(fd, v[i].iov_base, v[i].iov_len); return 0; }
static ssize_t do_send(int fd, const void *b, size_t n, int fl, const char *what) {
	env_sched_point("send", fd);
	VFd *v = vfd(fd, what);
	if (!v || !v->c) { errno = v ? ENOTCONN : EBADF; return -1; }
	Conn &c = *v->c; c.sends++; mc_step();
	if (c.sends > 200000) mc_fail("endless sending to connection %d", c.id);
	if (c.full && (fl & MSG_DONTWAIT)) { c.full = false; errno = EAGAIN; return -1; } // the buffer that took only a part last time
	ssize_t k = c.on_send ? c.on_send(c, n) : (ssize_t)n;
	c.full = k >= 0 && (size_t)k < n;
	if (c.sendfailed) k = -EPIPE;
	if (k < 0) {
		c.sendfailed = true; errno = (int)-k;
		if (k == -EPIPE && !(fl & MSG_NOSIGNAL)) mc_fail("SIGPIPE: the disconnect of a client kills the process (%s without MSG_NOSIGNAL)", what);
		return -1;
	}
	if ((size_t)k > n) k = n;
	c.out.append((const char *)b, k); race_read(b, k);
	ev("send", fd);
	return k;
}
ssize_t mcx_send(int fd, const void *b, size_t n, int fl) { return do_send(fd, b, n, fl, "send"); }
ssize_t mcx_sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *, socklen_t) { return do_send(fd, b, n, fl, "sendto"); }
static void out_stream(int, std::string, bool, bool pt = true);
ssize_t mcx_write(int fd, const void *b, size_t n) {
	if (fd == 1 || fd == 2) { out_stream(fd, std::string((const char *)b, n), true); return n; }
	return do_send(fd, b, n, 0, "write");
}
ssize_t mcx_writev(int fd, const struct iovec *v, int n) { std::string s; for (int i = 0; i < n; i++) s.append((char *)v[i].iov_base, v[i].iov_len); return mcx_write(fd, s.data(), s.size()); }
ssize_t mcx_sendmsg(int fd, const struct msghdr *m, int fl) { std::string s; for (size_t i = 0; i < m->msg_iovlen; i++) s.append((char *)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len); return do_send(fd, s.data(), s.size(), fl, "sendmsg"); }
int mcx_close(int fd) {
	env_sched_point("close", fd);
	ev("close", fd);
	auto i = vfds.find(fd);
	if (i != vfds.end()) {
		mc_step();
		if (i->second.c) { i->second.c->open = false; i->second.c->closes++; }
		else if (fd == env_listen_fd) { env_listening = false; }
		vfds.erase(i); sched_wake_all();
		return 0;
	}
	auto r = rfds.find(fd);
	if (r != rfds.end()) { rfds.erase(r); if (fd) return close(fd); int n = open("/dev/null", O_RDWR); dup2(n, 0); close(n); return 0; }
	if (fd >= FD0 || (fd == 0 && env_zero_fd)) mc_fail("close of descriptor %d, which is not open (closed twice?)", fd);
	errno = EBADF; return -1;     // never touch descriptors of the harness itself
}
int mcx_shutdown(int fd, int) { vfd(fd, "shutdown"); return 0; }
int mcx_poll(struct pollfd *p, nfds_t n, int timeout) {
	int r = 0;
	for (nfds_t i = 0; i < n; i++) {
		p[i].revents = 0; if (p[i].fd < 0) continue;
		VFd *v = vfd(p[i].fd, "poll"); if (!v || !v->c) continue;
		Conn &c = *v->c;
		if (p[i].events & POLLOUT) { p[i].revents |= POLLOUT; c.full = false; }
		if ((p[i].events & POLLIN) && (avail(c) || c.tail != T_SILENT)) p[i].revents |= POLLIN;
		else if ((p[i].events & POLLIN) && timeout < 0) { c.waited = true; p[i].revents |= POLLHUP | POLLIN; }
		if (p[i].revents) r++;
	}
	return r;
}
int mcx_select(int n, fd_set *rd, fd_set *wr, fd_set *, struct timeval *tv) {
	int k = 0;
	for (int i = 0; i < n; i++) {
		if (rd && FD_ISSET(i, rd)) { Conn *c = env_conn_by_fd(i); if (c && (avail(*c) || c->tail != T_SILENT)) k++; else if (!tv) { if (c) c->waited = true; k++; } else FD_CLR(i, rd); }
		if (wr && FD_ISSET(i, wr)) k++;
	}
	return k;
}
int mcx_socket(int, int, int) { env_sched_point("socket", 0); if (fault("socket")) return -1; int f = newfd(nullptr, 1); return f; }
int mcx_setsockopt(int fd, int, int, const void *, socklen_t) { vfd(fd, "setsockopt"); return 0; }
int mcx_getsockopt(int fd, int, int, void *v, socklen_t *n) { vfd(fd, "getsockopt"); memset(v, 0, *n); return 0; }
int mcx_fcntl(int fd, int, ...) { vfd(fd, "fcntl"); return 0; }
int mcx_ioctl(int fd, unsigned long, ...) { vfd(fd, "ioctl"); return 0; }
int mcx_getpeername(int, struct sockaddr *a, socklen_t *n) { memset(a, 0, *n); return 0; }
int mcx_bind(int fd, const struct sockaddr *a, socklen_t) {
	vfd(fd, "bind"); if (fault("bind")) return -1;
	env_lastport = ntohs(((const struct sockaddr_in *)a)->sin_port); return 0;
}
int mcx_listen(int fd, int) { vfd(fd, "listen"); if (fault("listen")) return -1; env_listen_fd = fd; env_listening = true; return 0; }

// ---- output
static void out_point(int s) { env_sched_point("output", s); sched_file_wait(s); }
static void out_stream(int s, std::string t, bool flush, bool pt) {
	if (pt) out_point(s);
	if (!env_capture) return;
	env_log.push_back({s, t}); env_pending[s] += t;
	if (flush || s == 2) { env_streams[s] += env_pending[s]; env_pending[s].clear(); }
}
static int sid(FILE *f) { return f == stdout ? 1 : f == stderr ? 2 : 0; }
int mcx_vfprintf(FILE *f, const char *fmt, va_list ap) {
	int s = sid(f); if (s) out_point(s); race_format(fmt, ap, 0); if (!s) return vfprintf(f, fmt, ap);
	char *o; int n = vasprintf(&o, fmt, ap); out_stream(s, std::string(o, n), false, false); free(o); return n;
}
int mcx_fprintf(FILE *f, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = mcx_vfprintf(f, fmt, ap); va_end(ap); return n; }
int mcx_vprintf(const char *fmt, va_list ap) { return mcx_vfprintf(stdout, fmt, ap); }
int mcx_printf(const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = mcx_vfprintf(stdout, fmt, ap); va_end(ap); return n; }
int mcx_vdprintf(int fd, const char *fmt, va_list ap) { char *o; int n = vasprintf(&o, fmt, ap); mcx_write(fd, o, n); free(o); return n; }
int mcx_dprintf(int fd, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = mcx_vdprintf(fd, fmt, ap); va_end(ap); return n; }
int mcx_fputs(const char *t, FILE *f) { race_read(t, strlen(t) + 1); int s = sid(f); if (!s) return fputs(t, f); out_stream(s, t, false); return 1; }
int mcx_puts(const char *t) { race_read(t, strlen(t) + 1); out_stream(1, std::string(t) + "\n", false); return 1; }
int mcx_fputc(int c, FILE *f) { int s = sid(f); if (!s) return fputc(c, f); out_stream(s, std::string(1, c), false); return c; }
int mcx_putc(int c, FILE *f) { return mcx_fputc(c, f); }
int mcx_putchar(int c) { return mcx_fputc(c, stdout); }
size_t mcx_fwrite(const void *b, size_t s, size_t n, FILE *f) { int k = sid(f); if (!k) return fwrite(b, s, n, f); out_stream(k, std::string((const char *)b, s * n), false); return n; }
int mcx_fflush(FILE *f) {
	for (int s = 1; s <= 2; s++) if (!f || sid(f) == s) {
		env_sched_point("flush", s); sched_file_wait(s); env_streams[s] += env_pending[s]; env_pending[s].clear();
	}
	return f && !sid(f) ? fflush(f) : 0;
}
int mcx_fputs_unlocked(const char *t, FILE *f) { return mcx_fputs(t, f); }
int mcx_fputc_unlocked(int c, FILE *f) { return mcx_fputc(c, f); }
int mcx_putc_unlocked(int c, FILE *f) { return mcx_fputc(c, f); }
int mcx_putchar_unlocked(int c) { return mcx_fputc(c, stdout); }
size_t mcx_fwrite_unlocked(const void *b, size_t s, size_t n, FILE *f) { return mcx_fwrite(b, s, n, f); }
int mcx_fflush_unlocked(FILE *f) { return mcx_fflush(f); }
int mcx_setvbuf(FILE *f, char *b, int m, size_t n) { return sid(f) ? 0 : setvbuf(f, b, m, n); }
void mcx_setlinebuf(FILE *f) { if (!sid(f)) setlinebuf(f); }
void mcx_flockfile(FILE *f) { sched_file_lock(sid(f)); }
void mcx_funlockfile(FILE *f) { sched_file_unlock(sid(f)); }
void mcx_perror(const char *s) { if (s) (void)strlen(s); out_stream(2, std::string(s ? s : "") + ": error\n", true); }
void mcx_syslog(int, const char *, ...) {}

// ---- time
static struct tm fixed_tm() { struct tm t; memset(&t, 0, sizeof t); t.tm_year = 116; t.tm_mon = 1; t.tm_mday = 3; t.tm_hour = 4; t.tm_min = 5; t.tm_sec = 6; t.tm_wday = 3; t.tm_yday = 33; return t; }
static struct tm tm_buf; static char asc[] = "Wed Feb  3 04:05:06 2016\n"; static char pseudo[8];
int mcx_gettimeofday(struct timeval *t, void *) { t->tv_sec = 1454472306; t->tv_usec = 789; race_write(t, sizeof *t); return 0; }
time_t mcx_time(time_t *t) { if (t) *t = 1454472306; return 1454472306; }
int mcx_clock_gettime(clockid_t, struct timespec *t) { t->tv_sec = 1454472306; t->tv_nsec = 7; return 0; }
struct tm *mcx_localtime(const time_t *) { race_static("the static result of localtime()", &tm_buf, sizeof tm_buf); tm_buf = fixed_tm(); return &tm_buf; }
struct tm *mcx_gmtime(const time_t *) { race_static("the static result of gmtime()", &tm_buf, sizeof tm_buf); tm_buf = fixed_tm(); return &tm_buf; }
struct tm *mcx_localtime_r(const time_t *, struct tm *o) { *o = fixed_tm(); race_write(o, sizeof *o); return o; }
struct tm *mcx_gmtime_r(const time_t *, struct tm *o) { *o = fixed_tm(); race_write(o, sizeof *o); return o; }
char *mcx_ctime(const time_t *) { race_static("the static result of ctime()", asc, sizeof asc); return asc; }
char *mcx_asctime(const struct tm *) { race_static("the static result of asctime()", asc, sizeof asc); return asc; }
char *mcx_strtok(char *s, const char *d) { race_static("the hidden state of strtok()", pseudo, 1); return strtok(s, d); }
int mcx_rand(void) { return 4; }
unsigned mcx_sleep(unsigned) { env_sched_point("sleep", 0); sched_yield_(); return 0; }
int mcx_usleep(useconds_t) { env_sched_point("sleep", 0); sched_yield_(); return 0; }
int mcx_nanosleep(const struct timespec *, struct timespec *) { env_sched_point("sleep", 0); sched_yield_(); return 0; }
int mcx_sched_yield(void) { env_sched_point("sleep", 0); sched_yield_(); return 0; }
}
void env_free(void *p) { mcx_free(p); }

// Controlled threads: every thread of the code under test is a fiber, every call that can block or is
// visible to another thread is a scheduling point, and the explorer decides which thread goes on.
#include "env.h"
#include "ctlthr.h"
#include <errno.h>
#include <fcntl.h>
#include <mqueue.h>
#include <netinet/in.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <time.h>
#include <algorithm>
#include <deque>
#include <memory>
#include <unordered_map>
#ifndef MC_RACE
extern "C" {
void __sanitizer_start_switch_fiber(void **fake, const void *bottom, size_t size);
void __sanitizer_finish_switch_fiber(void *fake, const void **bottom, size_t *size);
void __asan_poison_memory_region(void const volatile *, size_t);
void __asan_unpoison_memory_region(void const volatile *, size_t);
}
#endif
enum { STK = 768 * 1024 };
struct Fiber {
	int id; void *sp = nullptr; char *stk = nullptr; std::function<void()> body; void *ret = nullptr; int err = 0;
	bool done = false, joined = false, detached = false, timed = false, expired = false, yielded = false, cancelled = false;
	long long deadline = 0; const char *what = "start"; long obj = 0; std::function<bool()> ready;
	std::map<unsigned, void *> keys; std::map<void *, void *> tls; uint64_t steps = 0; void *fake = nullptr;
};
static std::vector<Fiber *> fibers; static std::vector<char *> pool;
static Fiber *cur; static int last; static void *main_sp; static void *main_fake; static const void *main_bottom; static size_t main_size;
static int first_ = -1, passed; static bool deviated; static uint64_t total;
bool sched_output_points; long sched_queue_limit; int sched_mem_points;
static std::deque<Conn *> pending;

extern "C" void fib_switch(void **save, void *to);
asm(".text\n.globl fib_switch\nfib_switch:\n push %rbp\n push %rbx\n push %r12\n push %r13\n push %r14\n push %r15\n mov %rsp,(%rdi)\n mov %rsi,%rsp\n pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbx\n pop %rbp\n ret\n");

static void to_main() {
	Fiber *f = cur; f->err = errno;
#ifndef MC_RACE
	__sanitizer_start_switch_fiber(f->done ? nullptr : &f->fake, main_bottom, main_size);
#endif
	fib_switch(&f->sp, main_sp);
#ifndef MC_RACE
	__sanitizer_finish_switch_fiber(f->fake, &main_bottom, &main_size);
#endif
	errno = f->err;
}
static void finish() { cur->done = true; cur->what = "finished"; to_main(); abort(); }
static void entry() {
#ifndef MC_RACE
	__sanitizer_finish_switch_fiber(nullptr, &main_bottom, &main_size);
#endif
	cur->body(); finish();
}
static void resume(Fiber *f) {
	cur = f; last = f->id; f->steps++; f->yielded = false; f->ready = nullptr; f->timed = false; 
#ifndef MC_RACE
	__sanitizer_start_switch_fiber(&main_fake, f->stk + 4096, STK - 4096);
#endif
	fib_switch(&main_sp, f->sp);
#ifndef MC_RACE
	__sanitizer_finish_switch_fiber(main_fake, nullptr, nullptr);
#endif
	cur = nullptr;
	if (f->done) { // whatever lived on its stack is gone
#ifdef MC_RACE
		race_thread_done(f->id, f->stk, STK);
#else
		__asan_poison_memory_region(f->stk + 4096, STK - 4096);
#endif
	}
}
static Fiber *mkfiber(std::function<void()> b) {
	if (fibers.size() > 64) mc_fail("more than 64 threads");
	Fiber *f = new Fiber; f->id = fibers.size(); f->body = b;
	if (pool.empty()) { char *p = (char *)mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); mprotect(p, 4096, PROT_NONE); pool.push_back(p); }
	f->stk = pool.back(); pool.pop_back();
#ifndef MC_RACE
	__asan_unpoison_memory_region(f->stk + 4096, STK - 4096);
#endif
	void **sp = (void **)(f->stk + STK - 64); *--sp = nullptr; *--sp = (void *)entry; for (int i = 0; i < 6; i++) *--sp = nullptr;
	f->sp = sp; fibers.push_back(f);
#ifdef MC_RACE
	race_fork(cur ? cur->id : -1, f->id);
#endif
	return f;
}
struct Mutex { int owner = -1, count = 0; bool rec = false; };
struct Rw { int writer = -1, readers = 0; };
static std::map<const void *, Mutex> mutexes; static std::map<const void *, std::deque<Fiber *>> conds; static std::map<const void *, int> onces; static std::map<const void *, int> sems; static std::map<const void *, Rw> rws; static std::map<const void *, std::pair<int, int>> bars;
static unsigned nkeys; static int filelock[3], filecount[3];
struct Msg { std::string d; unsigned prio; std::vector<unsigned> vc; };
struct Mq { std::string name; long maxmsg, msgsize; std::deque<Msg> m; };
static std::map<std::string, std::shared_ptr<Mq>> names; struct Md { std::shared_ptr<Mq> q; int flags; }; static std::map<int, Md> mds;
enum { MQ0 = 900 };
static std::map<void *, void *> nobody;
extern "C" void sched_reset(void) {
	for (auto &t : nobody) free(t.second);
	nobody.clear();
	for (auto f : fibers) { pool.push_back(f->stk); for (auto &t : f->tls) free(t.second); delete f; }
	fibers.clear(); cur = nullptr; last = 0; first_ = -1; passed = 0; deviated = false; total = 0; sched_output_points = false; sched_queue_limit = 0; sched_mem_points = 0;
	pending.clear(); mutexes.clear(); conds.clear(); onces.clear(); sems.clear(); rws.clear(); bars.clear(); nkeys = 0; names.clear(); mds.clear();
	for (int i = 0; i < 3; i++) { filelock[i] = -1; filecount[i] = 0; }
#ifdef MC_RACE
	race_reset();
#endif
}
void sched_first(int p) { first_ = p; }
// an execution without deviation tells how many points there are; announcing later ones repeats it
static std::unordered_map<uint64_t, int> lengths; static uint64_t cfg_; static int points_;
int sched_announce(int points) {
	cfg_ = mc_prefix(); points_ = points; int f = mc_choose(points + 1, "first deviation") - 1; mc_shard();
	auto i = lengths.find(cfg_); if (i != lengths.end() && f >= i->second && mc_exploring()) mc_skip();
	return first_ = f;
}
bool sched_beyond() {
	if (first_ >= 0 && first_ < passed) { if (first_ == points_ - 1) mc_incomplete(); return false; }
	lengths[cfg_] = passed; return first_ >= 0;
}
int sched_passed() { return passed; }
bool sched_deviated() { return deviated; }
int sched_dev(int n, const char *label) {
	if (n <= 1) return 0;
	int i = passed++;
	if (first_ < 0 || i < first_) return 0;
	if (i == first_) { deviated = true; return 1 + mc_choose(n - 1, label); }
	return mc_choose_dev(n, label);
}
int sched_spawn(std::function<void()> f) { return mkfiber(f)->id; }
bool sched_done(int id) { return fibers[id]->done; }
int sched_threads() { return fibers.size(); }
int sched_alive() { int n = 0; for (auto f : fibers) n += !f->done; return n; }
const char *sched_waits(int id) { return fibers[id]->what; }
bool sched_in_thread() { return cur; }
int sched_self() { return cur ? cur->id : -1; }
std::string sched_where() { std::string s; for (auto f : fibers) s += (s.empty() ? "" : ", ") + std::string("thread ") + std::to_string(f->id) + ": " + f->what; return s; }
void sched_arrive(Conn *c) { pending.push_back(c); }
int sched_unaccepted() { return pending.size(); }
static uint64_t fp() {
	uint64_t h = env_digest(); for (auto f : fibers) { h = h * 31 + (uintptr_t)f->what + f->done; h = h * 1099511628211ULL + f->obj; } for (auto &n : names) { h = h * 131 + n.second->m.size(); } return h * 7 + pending.size();
}
void sched_run() {
	for (;;) {
		std::vector<Fiber *> en, ylate; int n = fibers.size();
		for (int k = 0; k < n; k++) { Fiber *f = fibers[(last + k) % n]; if (f->done) continue; if (f->cancelled) { f->done = true; continue; } if (!f->ready || f->ready()) (f->yielded ? ylate : en).push_back(f); }
		for (auto f : ylate) en.push_back(f);
		if (en.empty()) { // nothing can happen but time passing
			Fiber *e = nullptr; for (auto f : fibers) if (!f->done && f->timed && (!e || f->deadline < e->deadline)) e = f;
			if (!e) return;
			e->expired = true; en.push_back(e);
		}
		if (++total > 300000) mc_fail("no end in sight: 300000 scheduling steps; %s", sched_where().c_str());
		mc_state(fp());
		Fiber *f = en[sched_dev(en.size(), "next thread")];
		resume(f);
	}
}
static void point(const char *what, long obj) { if (!cur) return; cur->what = what; cur->obj = obj; cur->ready = nullptr; mc_step(); to_main(); }
// wait until ready() holds; false: timed out
static bool block(const char *what, long obj, std::function<bool()> ready, bool timed = false, long long deadline = 0) {
	if (!cur) { if (!ready()) mc_fail("harness: %s blocks outside of a thread", what); return true; }
	cur->what = what; cur->obj = obj; cur->expired = false;
	while (!ready()) { cur->ready = ready; cur->timed = timed; cur->deadline = deadline; to_main(); if (cur->expired) { cur->expired = false; if (!ready()) return false; } }
	cur->what = "running"; return true;
}
void env_sched_point(const char *what, long obj) { if (!cur) return; if (!sched_output_points && (!strcmp(what, "output") || !strcmp(what, "flush"))) return; point(what, obj); }
static long long ns(const struct timespec *t) { return t ? t->tv_sec * 1000000000LL + t->tv_nsec : 0; }
static const long long NOW = 1454472306LL * 1000000000LL + 7;
static bool fault(const char *fn) { if (!env_fault) return false; int e = env_fault(fn); if (!e) return false; errno = e; return true; }
#ifdef MC_RACE
static void acq(const void *o) { race_acquire(o); }
static void rel(const void *o) { race_release(o); }
#else
static void acq(const void *) {}
static void rel(const void *) {}
#endif
extern "C" {
void sched_wake_all(void) {}
void sched_yield_(void) { if (cur) { cur->yielded = true; cur->what = "sleep"; to_main(); } }
void sched_file_lock(int s) { if (!cur) return; point("flockfile", s); int me = cur->id; block("flockfile", s, [=] { return filelock[s] < 0 || filelock[s] == me; }); filelock[s] = me; filecount[s]++; acq(&filelock[s]); }
void sched_file_unlock(int s) { if (!cur) return; if (filelock[s] == cur->id && --filecount[s] == 0) { rel(&filelock[s]); filelock[s] = -1; } point("funlockfile", s); }
int sched_file_busy(int s) { return filelock[s] >= 0 && (!cur || filelock[s] != cur->id); }
void sched_file_wait(int s) { if (cur && sched_file_busy(s)) block("output", s, [=] { return filelock[s] < 0; }); }
// ---- threads
int mcx_pthread_create(pthread_t *t, const pthread_attr_t *, void *(*fn)(void *), void *arg) {
	point("pthread_create", 0); if (fault("pthread_create")) return errno;
	Fiber *f = mkfiber([=] { cur->ret = fn(arg); }); *t = 1000 + f->id; race_write(t, sizeof *t); return 0;
}
static Fiber *fib(pthread_t t) { long i = (long)t - 1000; if (i < 0 || i >= (long)fibers.size()) mc_fail("pthread call on something that is no thread"); return fibers[i]; }
int mcx_pthread_join(pthread_t t, void **r) { Fiber *f = fib(t); if (f->joined || f->detached) return EINVAL; point("pthread_join", f->id); block("pthread_join", f->id, [=] { return f->done; }); f->joined = true;
#ifdef MC_RACE
	if (cur) race_join(cur->id, f->id);
#endif
	if (r) *r = f->ret; return 0; }
int mcx_pthread_detach(pthread_t t) { fib(t)->detached = true; return 0; }
pthread_t mcx_pthread_self(void) { return 1000 + (cur ? cur->id : 99); }
int mcx_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
void mcx_pthread_exit(void *r) { cur->ret = r; finish(); abort(); }
int mcx_pthread_cancel(pthread_t t) { Fiber *f = fib(t); if (!f->done) f->cancelled = true; return 0; }
int mcx_pthread_setname_np(pthread_t, const char *) { return 0; }
int mcx_pthread_kill(pthread_t, int) { return 0; }
int mcx_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { Mutex x; int ty = 0; if (a && !pthread_mutexattr_gettype(a, &ty)) x.rec = ty == PTHREAD_MUTEX_RECURSIVE; mutexes[m] = x; return 0; }
int mcx_pthread_mutex_destroy(pthread_mutex_t *m) { mutexes.erase(m); return 0; }
int mcx_pthread_mutex_lock(pthread_mutex_t *m) {
	if (!cur) return 0;
	point("mutex", 0); int me = cur->id; if (mutexes[m].owner == me && mutexes[m].rec) { mutexes[m].count++; return 0; }
	block("mutex", 0, [=] { return mutexes[m].owner < 0; }); mutexes[m].owner = me; mutexes[m].count = 1; acq(m); return 0;
}
int mcx_pthread_mutex_trylock(pthread_mutex_t *m) { if (!cur) return 0; point("mutex", 0); Mutex &x = mutexes[m]; if (x.owner == cur->id && x.rec) { x.count++; return 0; } if (x.owner >= 0) return EBUSY; x.owner = cur->id; x.count = 1; acq(m); return 0; }
int mcx_pthread_mutex_unlock(pthread_mutex_t *m) { if (!cur) return 0; Mutex &x = mutexes[m]; if (x.owner != cur->id) return EPERM; if (--x.count == 0) { rel(m); x.owner = -1; } point("mutex_unlock", 0); return 0; }
int mcx_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { conds[c].clear(); return 0; }
int mcx_pthread_cond_destroy(pthread_cond_t *c) { conds.erase(c); return 0; }
static int condwait(pthread_cond_t *c, pthread_mutex_t *m, bool timed, long long dl) {
	Fiber *f = cur; point("cond_wait", 0); conds[c].push_back(f); rel(m); mutexes[m].owner = -1;
	bool ok = block("cond_wait", 0, [=] { auto &q = conds[c]; return std::find(q.begin(), q.end(), f) == q.end(); }, timed, dl);
	if (!ok) { auto &q = conds[c]; q.erase(std::find(q.begin(), q.end(), f)); }
	block("mutex", 0, [=] { return mutexes[m].owner < 0; }); mutexes[m].owner = f->id; mutexes[m].count = 1; acq(m); return ok ? 0 : ETIMEDOUT;
}
int mcx_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return condwait(c, m, false, 0); }
int mcx_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { return condwait(c, m, true, ns(t)); }
int mcx_pthread_cond_signal(pthread_cond_t *c) { point("cond_signal", 0); auto &q = conds[c]; if (!q.empty()) { int k = sched_dev(q.size(), "who is woken"); q.erase(q.begin() + k); } return 0; }
int mcx_pthread_cond_broadcast(pthread_cond_t *c) { point("cond_signal", 0); conds[c].clear(); return 0; }
int mcx_pthread_once(pthread_once_t *o, void (*fn)(void)) {
	point("once", 0); if (onces[o] == 0) { onces[o] = 1; fn(); onces[o] = 2; rel(o); } else block("once", 0, [=] { return onces[o] == 2; });
	acq(o); return 0;
}
int mcx_pthread_key_create(pthread_key_t *k, void (*)(void *)) { *k = nkeys++; return 0; }
int mcx_pthread_setspecific(pthread_key_t k, const void *v) { if (cur) cur->keys[k] = (void *)v; return 0; }
void *mcx_pthread_getspecific(pthread_key_t k) { return cur && cur->keys.count(k) ? cur->keys[k] : nullptr; }
int mcx_pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *) { rws[l] = Rw(); return 0; }
int mcx_pthread_rwlock_destroy(pthread_rwlock_t *l) { rws.erase(l); return 0; }
int mcx_pthread_rwlock_rdlock(pthread_rwlock_t *l) { if (!cur) return 0; point("rwlock", 0); block("rwlock", 0, [=] { return rws[l].writer < 0; }); rws[l].readers++; acq(l); return 0; }
int mcx_pthread_rwlock_wrlock(pthread_rwlock_t *l) { if (!cur) return 0; point("rwlock", 0); block("rwlock", 0, [=] { return rws[l].writer < 0 && !rws[l].readers; }); rws[l].writer = cur->id; acq(l); return 0; }
int mcx_pthread_rwlock_unlock(pthread_rwlock_t *l) { if (!cur) return 0; Rw &x = rws[l]; rel(l); if (x.writer == cur->id) x.writer = -1; else if (x.readers) x.readers--; point("rwlock_unlock", 0); return 0; }
int mcx_pthread_spin_init(pthread_spinlock_t *l, int) { mutexes[(void *)l] = Mutex(); return 0; }
int mcx_pthread_spin_destroy(pthread_spinlock_t *l) { mutexes.erase((void *)l); return 0; }
int mcx_pthread_spin_lock(pthread_spinlock_t *l) { return mcx_pthread_mutex_lock((pthread_mutex_t *)l); }
int mcx_pthread_spin_unlock(pthread_spinlock_t *l) { return mcx_pthread_mutex_unlock((pthread_mutex_t *)l); }
int mcx_sem_init(sem_t *s, int, unsigned v) { sems[s] = v; return 0; }
int mcx_sem_destroy(sem_t *s) { sems.erase(s); return 0; }
int mcx_sem_wait(sem_t *s) { point("sem", 0); block("sem", 0, [=] { return sems[s] > 0; }); sems[s]--; acq(s); return 0; }
int mcx_sem_trywait(sem_t *s) { point("sem", 0); if (sems[s] <= 0) { errno = EAGAIN; return -1; } sems[s]--; acq(s); return 0; }
int mcx_sem_timedwait(sem_t *s, const struct timespec *t) { point("sem", 0); if (!block("sem", 0, [=] { return sems[s] > 0; }, true, ns(t))) { errno = ETIMEDOUT; return -1; } sems[s]--; acq(s); return 0; }
int mcx_sem_post(sem_t *s) { rel(s); sems[s]++; point("sem_post", 0); return 0; }
int mcx_sem_getvalue(sem_t *s, int *v) { *v = sems[s]; return 0; }
struct emutls { size_t size, align; void *loc; void *templ; };
void *mcx___emutls_get_address(struct emutls *e) { // thread-local variables of the code under test
	auto &m = cur ? cur->tls : nobody; auto i = m.find(e); if (i != m.end()) return i->second;
	void *p = calloc(1, e->size + 16); if (e->templ) memcpy(p, e->templ, e->size); m[e] = p; return p;
}
// ---- connections
static int do_accept(int fd, struct sockaddr *a, socklen_t *n, int fl) {
	point("accept", fd); if (fd != env_listen_fd) { errno = fd < 0 ? EBADF : EINVAL; return -1; } if (!env_listening) { errno = EBADF; return -1; }
	if (fault("accept")) return -1;
	(void)fl; block("accept", fd, [=] { return !pending.empty() || !env_listening; }); if (!env_listening) { errno = EBADF; return -1; }
	if (pending.empty()) { errno = EAGAIN; return -1; }
	Conn *c = pending.front(); pending.pop_front(); env_conn_open(c); c->accepted = true; mc_step();
	if (a && n) { struct sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_port = htons(40000 + c->id); s.sin_addr.s_addr = htonl(0x7f000001); memcpy(a, &s, *n < sizeof s ? *n : sizeof s); race_write(a, *n < sizeof s ? *n : sizeof s); *n = sizeof s; race_write(n, sizeof *n); }
	return c->fd;
}
int mcx_accept(int fd, struct sockaddr *a, socklen_t *n) { return do_accept(fd, a, n, 0); }
int mcx_accept4(int fd, struct sockaddr *a, socklen_t *n, int fl) { return do_accept(fd, a, n, fl); }
// ---- POSIX message queues
mqd_t mcx_mq_open(const char *name, int fl, ...) {
	va_list ap; va_start(ap, fl); mode_t mode = 0; struct mq_attr *at = nullptr; if (fl & O_CREAT) { mode = va_arg(ap, mode_t); at = va_arg(ap, struct mq_attr *); } va_end(ap); (void)mode;
	point("mq_open", 0); if (fault("mq_open")) return -1;
	if (name[0] != '/' || !name[1]) { errno = EINVAL; return -1; }
	auto i = names.find(name); std::shared_ptr<Mq> q;
	if (i != names.end()) { if ((fl & O_CREAT) && (fl & O_EXCL)) { errno = EEXIST; return -1; } q = i->second; }
	else {
		if (!(fl & O_CREAT)) { errno = ENOENT; return -1; }
		q = std::make_shared<Mq>(); q->name = name; q->maxmsg = at ? at->mq_maxmsg : 10; q->msgsize = at ? at->mq_msgsize : 8192;
		if (q->maxmsg <= 0 || q->msgsize <= 0 || q->maxmsg > 65536 || q->msgsize > 16777216) { errno = EINVAL; return -1; }
		if (sched_queue_limit && q->maxmsg > sched_queue_limit) q->maxmsg = sched_queue_limit;
		names[name] = q;
	}
	int d = MQ0; while (mds.count(d)) d++;
	mds[d] = {q, fl & (O_ACCMODE | O_NONBLOCK)}; return d;
}
static Md *md(mqd_t d) { auto i = mds.find(d); if (i == mds.end()) { errno = EBADF; return nullptr; } return &i->second; }
int mcx_mq_close(mqd_t d) { point("mq_close", d); if (fault("mq_close")) return -1; if (!md(d)) return -1; mds.erase(d); return 0; }
int mcx_mq_unlink(const char *n) { point("mq_unlink", 0); if (!names.erase(n)) { errno = ENOENT; return -1; } return 0; }
static int do_send(mqd_t d, const char *p, size_t n, unsigned prio, bool timed, long long dl) {
	point("mq_send", d); if (fault("mq_send")) return -1;
	Md *m = md(d); if (!m) return -1;
	if ((m->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
	if (prio >= 32768) { errno = EINVAL; return -1; }
	if ((long)n > m->q->msgsize) { errno = EMSGSIZE; return -1; }
	auto q = m->q;
	if ((long)q->m.size() >= q->maxmsg) {
		if (m->flags & O_NONBLOCK) { errno = EAGAIN; return -1; }
		if (timed && dl <= NOW) { errno = ETIMEDOUT; return -1; }
		if (timed && sched_dev(2, "the wait times out")) { errno = ETIMEDOUT; return -1; }
		if (!block(timed ? "mq_timedsend" : "mq_send (full queue)", d, [=] { return (long)q->m.size() < q->maxmsg; }, timed, dl)) { errno = ETIMEDOUT; return -1; }
	}
	Msg x; x.d.assign(p, n); x.prio = prio; race_read(p, n);
#ifdef MC_RACE
	x.vc = race_clock(); race_tick();
#endif
	auto at = q->m.end(); while (at != q->m.begin() && (at - 1)->prio < prio) --at;
	q->m.insert(at, x); mc_step(); return 0;
}
int mcx_mq_send(mqd_t d, const char *p, size_t n, unsigned prio) { return do_send(d, p, n, prio, false, 0); }
int mcx_mq_timedsend(mqd_t d, const char *p, size_t n, unsigned prio, const struct timespec *t) { if (t && (t->tv_nsec < 0 || t->tv_nsec >= 1000000000L)) { errno = EINVAL; return -1; } return do_send(d, p, n, prio, t, ns(t)); }
static ssize_t do_receive(mqd_t d, char *p, size_t n, unsigned *prio, bool timed, long long dl) {
	point("mq_receive", d); if (fault("mq_receive")) return -1;
	Md *m = md(d); if (!m) return -1;
	if ((m->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
	if ((long)n < m->q->msgsize) { errno = EMSGSIZE; return -1; }
	auto q = m->q;
	if (q->m.empty()) {
		if (m->flags & O_NONBLOCK) { errno = EAGAIN; return -1; }
		if (timed && dl <= NOW) { errno = ETIMEDOUT; return -1; }
		if (timed && sched_dev(2, "the wait times out")) { errno = ETIMEDOUT; return -1; }
		if (!block("mq_receive", d, [=] { return !q->m.empty(); }, timed, dl)) { errno = ETIMEDOUT; return -1; }
	}
	Msg x = q->m.front(); q->m.pop_front(); mc_step();
#ifdef MC_RACE
	race_acqrel_msg(x.vc);
#endif
	memcpy(p, x.d.data(), x.d.size()); race_write(p, x.d.size()); if (prio) *prio = x.prio; return x.d.size();
}
ssize_t mcx_mq_receive(mqd_t d, char *p, size_t n, unsigned *prio) { return do_receive(d, p, n, prio, false, 0); }
ssize_t mcx_mq_timedreceive(mqd_t d, char *p, size_t n, unsigned *prio, const struct timespec *t) { return do_receive(d, p, n, prio, t, ns(t)); }
int mcx_mq_getattr(mqd_t d, struct mq_attr *a) { if (fault("mq_getattr")) return -1; Md *m = md(d); if (!m) return -1; memset(a, 0, sizeof *a); a->mq_flags = m->flags & O_NONBLOCK; a->mq_maxmsg = m->q->maxmsg; a->mq_msgsize = m->q->msgsize; a->mq_curmsgs = m->q->m.size(); race_write(a, sizeof *a); return 0; }
int mcx_mq_setattr(mqd_t d, const struct mq_attr *a, struct mq_attr *o) { Md *m = md(d); if (!m) return -1; if (o) mcx_mq_getattr(d, o); m->flags = (m->flags & ~O_NONBLOCK) | (a->mq_flags & O_NONBLOCK); return 0; }
int mcx_mq_notify(mqd_t, const struct sigevent *) { errno = ENOSYS; return -1; }
}
long mq_model_len(const char *n) { auto i = names.find(n); return i == names.end() ? -1 : (long)i->second->m.size(); }
int mq_model_open() { return mds.size(); }
void mq_model_preload(const char *n, long maxmsg, long msgsize, const std::string &d) { auto &q = names[n]; if (!q) { q = std::make_shared<Mq>(); q->name = n; q->maxmsg = maxmsg; q->msgsize = msgsize; } q->m.push_back({d, 0, {}}); }

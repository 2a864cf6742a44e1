// C04: start-up and transient faults are survived or reported cleanly.
#include "thr.h"
#include <errno.h>
static int at(const char *fn) { return sched_where().find(fn) != str::npos; }
// a step of starting up fails; with one deviation of the schedule
static void startup() {
	static const char *S[] = {"socket", "bind", "listen", "mq_open", "mq_open", "pthread_create"}; static const int E[] = {EMFILE, EADDRINUSE, EADDRINUSE, ENOSPC, EMFILE, EAGAIN};
	int T = 1 + mc_choose(4, "workers"), f = mc_choose(6, "failing step"), n = f == 4 ? 1 : f == 5 ? mc_choose(T + 2, "which thread") : 0, clients = mc_choose(3, "clients waiting"); env_zero_fd = mc_choose(2, "descriptor 0 is free"); sched_announce(600);
	Server s(T); for (int i = 0; i < clients; i++) alone(s.app, i ? SLOW : GOOD, i); seen.clear(); cleans.clear(); int seen_ = 0; bool hit = false; int root = 0;
	env_fault = [&](const char *fn) { if (hit || sched_self() != root || strcmp(fn, S[f])) return 0; if (seen_++ < n) return 0; hit = true; return E[f]; };
	int closes = 0; bool alive = true; env_event = [&](const char *w, long fd) { if (!strcmp(w, "close") && fd == env_listen_fd && fd >= 0 && env_listening) closes++; };
	mc_note("%d workers; %s fails (call %d), %d clients", T, S[f], n + 1, clients);
	s.start(); root = s.root; for (int i = 0; i < clients; i++) s.connect(i ? SLOW : GOOD); sched_run(); (void)alive;
	if (!hit) mc_skip(); // there are not that many calls
	CHECK(sched_done(s.root), "%s fails while starting (call %d), but the serve call goes on: %s", S[f], n + 1, sched_where().c_str());
	CHECK(s.rc == -1, "%s fails while starting (call %d), but the serve call returns %d", S[f], n + 1, s.rc);
	CHECK(!env_listening && closes <= 1, "%s fails while starting (call %d), but the listening socket was closed %d times", S[f], n + 1, closes);
	CHECK(env_live_desc().find("socket") == str::npos || clients, "%s fails while starting, but a socket stays open: %s", S[f], env_live_desc().c_str());
	for (auto &c : s.cs) CHECK(c.second->out.empty() || alone(s.app, c.first, c.second->id - s.cs[0].second->id).compare(0, c.second->out.size(), c.second->out) == 0, "a client got bytes that are not its own");
	if (sched_beyond()) return; mc_nontrivial(); mc_outcome(mc_hash(num(f * 10 + n), T));
}
// nothing fails: it listens on the port asked for
static void port() {
	static const int P[] = {1, 80, 81, 127, 128, 255, 256, 257, 443, 8080, 8081, 32767, 32768, 36895, 49152, 65280, 65534, 65535};
	int T = 1 + mc_choose(4, "workers"), p = mc_thorough() ? 1 + mc_choose(65535, "port") : P[mc_choose(18, "port")], zero = mc_choose(3, "descriptor 0 is free"); env_zero_fd = zero == 1; mc_shard();
	Server s(T, p); alone(s.app, GOOD, 0); alone(s.app, SLOW, 1); seen.clear(); cleans.clear(); sched_first(-1); s.start(); sched_run();
	CHECK(env_lastport == p, "the server listens on port %d, not on %d", env_lastport, p); CHECK(env_listening, "the server does not listen; %s", sched_where().c_str());
	if (zero) env_zero_fd = true;
	s.connect(GOOD); s.connect(SLOW); sched_run(); s.check("after starting"); mc_nontrivial(); mc_outcome(p);
}
// an earlier process left messages behind
static void stale() {
	int T = 1 + mc_choose(2, "workers"), a = mc_choose(4, "old connections"), r = mc_choose(3, "old responses"), n = mc_choose(3, "clients"), other = mc_choose(2, "old attributes"); if (!a && !r) mc_skip(); sched_announce(600);
	Server s(T); for (int i = 0; i < n + 2; i++) alone(s.app, i % 2 ? SLOW : GOOD, i); seen.clear(); cleans.clear();
	std::vector<Conn *> old; for (int i = 0; i < a; i++) { Conn *c = client(GOOD, 90 + i, true); old.push_back(c); int fd = c->fd; mq_model_preload("/mothsaqueue", other ? 3 : 10, other ? 8 : 4, str((char *)&fd, 4)); }
	for (int i = 0; i < r; i++) { void *bad = i ? (void *)0x10 : (void *)0x123456789; mq_model_preload("/mothshqueue", other ? 2 : 10, other ? 16 : 8, str((char *)&bad, 8)); }
	mc_note("%d workers, %d stale connections, %d stale responses, %d clients", T, a, r, n);
	s.start(); for (int i = 0; i < n; i++) s.connect(i % 2 ? SLOW : GOOD); sched_run(); s.check("with leftovers of an earlier process");
	for (auto c : old) CHECK(c->open && !c->recvs && !c->sends && c->out.empty(), "a connection left in the queue by an earlier process was served");
	if (sched_beyond()) return; s.connect(n % 2 ? SLOW : GOOD); s.connect((n + 1) % 2 ? SLOW : GOOD); sched_run(); s.check("later"); mc_nontrivial(); mc_outcome(mc_hash(num(a * 10 + r), n));
}
// accepting fails for the moment: which of the calls, for which reason, how often in a row
static const int A[] = {EINTR, ECONNABORTED, EMFILE, ENFILE, ENOBUFS, ENOMEM, EPROTO, EAGAIN, ENETDOWN, EHOSTUNREACH, ENETUNREACH, EPERM};
static void accepting() {
	int T = 1 + mc_choose(2, "workers"), n = 3, e = mc_choose(12, "reason"), p = mc_choose(4, "before which connection"), k = mc_choose(3, "how often"), late = mc_choose(2, "arrival"); k = k == 2 ? 40 : k + 1; sched_announce(e >= 7 && !mc_thorough() ? 0 : 600);
	Server s(T); for (int i = 0; i < n + 2; i++) alone(s.app, i % 2 ? SLOW : GOOD, i); seen.clear(); cleans.clear(); int left = k;
	env_fault = [&](const char *fn) { if (strcmp(fn, "accept")) return 0; int acc = 0; for (auto &c : s.cs) acc += c.second->accepted; if (acc < p || !left) return 0; left--; return A[e]; };
	mc_note("%d workers; accept fails %d times with %s after %d connections", T, k, strerror(A[e]), p);
	s.start(); if (late) sched_run(); for (int i = 0; i < n; i++) s.connect(i % 2 ? SLOW : GOOD); sched_run(); s.check("with failing accepts"); CHECK(!left, "harness: not all failures happened");
	if (sched_beyond()) return; s.connect(n % 2 ? SLOW : GOOD); s.connect((n + 1) % 2 ? SLOW : GOOD); sched_run(); s.check("later"); mc_nontrivial(); mc_outcome(mc_hash(num(e * 10 + p), k));
}
// all patterns of failures over the first accept calls
static void patterns() {
	int d = mc_thorough() ? 8 : 5; std::vector<int> pat; for (int i = 0; i < d; i++) { pat.push_back(mc_choose(4, "accept call")); if (i == 2) mc_shard(); } static const int B[] = {0, EINTR, ECONNABORTED, EMFILE};
	Server s(2); for (int i = 0; i < d + 1; i++) alone(s.app, i % 2 ? SLOW : GOOD, i); seen.clear(); cleans.clear(); sched_first(-1); int i = 0; env_fault = [&](const char *fn) { return strcmp(fn, "accept") || i >= d ? 0 : B[pat[i++]]; };
	s.start(); for (int k = 0; k <= d; k++) s.connect(k % 2 ? SLOW : GOOD); sched_run(); s.check("with failing accepts"); mc_nontrivial(); uint64_t h = 0; for (int x : pat) h = h * 4 + x; mc_outcome(h);
}
// a wait on a queue is interrupted
static void interrupted() {
	static const char *W[] = {"mq_receive", "mq_send"}; int T = 1 + mc_choose(2, "workers"), w = mc_choose(2, "call"), n = mc_choose(mc_thorough() ? 24 : 14, "which"), k = 1 + mc_choose(3, "in a row"), small = mc_choose(2, "queue"), late = mc_choose(2, "arrival"); sched_announce((k > 1 || n > 9 || late) && !mc_thorough() ? 0 : 600);
	Server s(T); for (int i = 0; i < 6; i++) alone(s.app, i % 2 ? SLOW : GOOD, i); seen.clear(); cleans.clear(); if (small) sched_queue_limit = 1; int c = 0, left = k;
	env_fault = [&](const char *fn) { if (strcmp(fn, W[w])) return 0; if (c++ < n || !left) return 0; left--; return EINTR; };
	mc_note("%d workers; call %d of %s is interrupted %d times", T, n + 1, W[w], k);
	s.start(); if (late) sched_run(); for (int i = 0; i < 4; i++) s.connect(i % 2 ? SLOW : GOOD); sched_run(); s.check("with an interrupted wait");
	if (sched_beyond()) return; s.connect(GOOD); s.connect(SLOW); sched_run(); s.check("later"); if (!left) mc_nontrivial(); mc_outcome(mc_hash(num(w * 100 + n), left));
}
// a wait is interrupted more often than one might think
static void persistent() {
	static const char *W[] = {"mq_receive", "mq_send"}; static const int K[] = {4, 5, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 64, 100, 127, 128, 255, 256, 300, 1000}; int T = 1 + mc_choose(3, "workers"), w = mc_choose(2, "call"), n = mc_choose(16, "which"), k = K[mc_choose(20, "in a row")], small = mc_choose(2, "queue"), late = mc_choose(2, "arrival"); mc_shard();
	Server s(T); for (int i = 0; i < 6; i++) alone(s.app, i % 2 ? SLOW : GOOD, i); seen.clear(); cleans.clear(); sched_first(-1); if (small) sched_queue_limit = 1; int c = 0, left = k;
	env_fault = [&](const char *fn) { if (strcmp(fn, W[w])) return 0; if (c++ < n || !left) return 0; left--; return EINTR; };
	mc_note("%d workers; call %d of %s is interrupted %d times", T, n + 1, W[w], k);
	s.start(); if (late) sched_run(); for (int i = 0; i < 4; i++) s.connect(i % 2 ? SLOW : GOOD); sched_run(); s.check("with an interrupted wait"); s.connect(GOOD); s.connect(SLOW); sched_run(); s.check("later"); if (!left) mc_nontrivial(); mc_outcome(mc_hash(num(w * 100 + n), k)); }
// a queue does not take an element: what the acceptor cannot hand on is closed, everything else is answered
static void refused() {
	static const int R[] = {ENOMEM, EAGAIN, ENOBUFS}; int T = 1 + mc_choose(2, "workers"), e = mc_choose(mc_thorough() ? 3 : 2, "reason"), n = mc_choose(mc_thorough() ? 20 : 14, "which"), k = mc_choose(4, "in a row"), small = mc_choose(2, "queue"), late = mc_choose(2, "arrival"); k = k == 3 ? 1000 : k + 1; sched_announce((e || k > 2 || n > 7 || late) && !mc_thorough() ? 0 : 600);
	Server s(T); for (int i = 0; i < 7; i++) alone(s.app, i % 3 == 1 ? SLOW : i % 3 == 2 ? NOROUTE : GOOD, i); seen.clear(); cleans.clear(); if (small) sched_queue_limit = 1; int c = 0, left = k, acceptor = -1; bool over = false;
	env_fault = [&](const char *fn) {
		if (!strcmp(fn, "accept")) { acceptor = sched_self(); return 0; } if (strcmp(fn, "mq_send") || over || c++ < n || !left) return 0; left--;
		if (sched_self() == acceptor) { Conn *last = nullptr; for (auto &x : s.cs) if (x.second->accepted && x.second->open && (!last || x.second->id > last->id)) last = x.second; if (last) s.dropped.insert(last); } return R[e]; };
	mc_note("%d workers; sending fails with %s from call %d on, %d times", T, strerror(R[e]), n + 1, k);
	s.start(); if (late) sched_run(); for (int i = 0; i < 5; i++) s.connect(i % 3 == 1 ? SLOW : i % 3 == 2 ? NOROUTE : GOOD); sched_run(); s.check("with a queue that takes nothing"); if (sched_beyond()) return;
	over = true; s.connect(NOROUTE); s.connect(GOOD); sched_run(); s.check("later"); if (left < k) mc_nontrivial(); mc_outcome(mc_hash(num(n * 100 + k), s.dropped.size()));
}
int main(int c, char **v) { return mc_main(c, v, {
	{"startup", startup, 0, 1, "every step of starting up fails (socket, bind, listen, both queues, each thread) x 1-4 workers x 0-2 waiting clients x descriptor 0 in use or free; every schedule with at most 1 (2) deviations"},
	{"port", port, 0, 0, "18 (all 65535) ports x 1-4 workers x descriptor 0 in use, free when starting, or free later"},
	{"stale", stale, 0, 1, "0-3 stale connections x 0-2 stale responses x old attributes x 0-2 clients x 1-2 workers; every schedule with at most 1 (2) deviations"},
	{"accepting", accepting, 0, 1, "12 reasons x before each of 3 connections or after x 1, 2 or 40 failures in a row x arrival x 1-2 workers; every schedule with at most 1 (2) deviations (the last 5 reasons: thorough only)"},
	{"patterns", patterns, 0, 0, "every pattern of success and 3 kinds of failure over the first 5 (8) accept calls"},
	{"interrupted", interrupted, 0, 0, "interruption of each of the first 14 (24) receives or sends x 1-3 in a row x 1-2 workers x queue capacity x arrival; first 10 also with every single deviation"},
	{"persistent", persistent, 0, 0, "interruption of each of the first 16 receives or sends x 20 numbers in a row up to 1000 x 1-3 workers x queue capacity x arrival"},
	{"refused", refused, 0, 1, "each of the first 14 (20) sends and the 0, 1, 2 or all after it fail with one of 2 (3) reasons x 1-2 workers x queue capacity x arrival; first 8 also with every single deviation"}}); }

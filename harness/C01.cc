// C01: every accepted connection is answered or closed exactly once, with its own reply.
#include "thr.h"
#include <errno.h>
static void go(int T, std::vector<Kind> ks, int late, int points) {
	int first = sched_announce(points);
	Server s(T); str n; for (auto k : ks) n += str(n.size() ? ", " : "") + KN[k]; mc_note("%d workers; %s", T, n.c_str());
	for (size_t i = 0; i < ks.size() + 2; i++) { Kind k = i < ks.size() ? ks[i] : GOOD; if (answerable(k)) alone(s.app, k, i); if (k == GONE) alone(s.app, GOOD, i); if (k == GONE_LATER) alone(s.app, SLOW, i); } seen.clear(); cleans.clear();
	s.start(); if (late) { sched_run(); s.base = env_live(); } for (auto k : ks) s.connect(k);
	sched_run(); s.check("after the first connections"); if (late) CHECK(env_live() == s.base, "after the connections, the server holds more than before: %s", env_live_desc().c_str());
	if (sched_beyond()) return; // beyond the end: the same as without deviation
	s.connect(GOOD); s.connect(GOOD); sched_run(); s.check("after later connections"); mc_outcome(mc_hash(num(first), sched_threads()));
}
static void pairs() { int T = 1 + mc_choose(mc_thorough() ? 3 : 2, "workers"); Kind a = (Kind)mc_choose(KINDS, "first"), b = (Kind)mc_choose(KINDS, "second"); go(T, {a, b}, mc_choose(2, "arrival"), 1000); }
static void pairs2() { static const Kind K[] = {GOOD, SLOW, GONE, MALFORMED}; int T = 2 + (mc_thorough() ? mc_choose(2, "workers") : 0); Kind a = K[mc_choose(4, "first")], b = K[mc_choose(4, "second")]; go(T, {a, b}, 1, 1000); }
static void three() { static const Kind K[] = {GOOD, SLOW, GONE, MALFORMED}; int T = 1 + mc_choose(3, "workers"); Kind a = K[mc_choose(4, "first")], b = K[mc_choose(4, "second")], c = K[mc_choose(4, "third")]; go(T, {a, b, c}, 1, 1000); }
static void many() { static const Kind K[] = {GOOD, SLOW, POST}; int T = 2 + mc_choose(mc_thorough() ? 3 : 2, "workers"), n = 4 + mc_choose(3, "connections"), shape = mc_choose(4, "kinds"); std::vector<Kind> ks; for (int i = 0; i < n; i++) ks.push_back(shape == 3 ? (Kind)((i * 5) % KINDS) : K[shape == 2 ? i % 3 : shape]); go(T, ks, 1, 3000); }
// nothing is special about descriptor 0, nor about a queue that is interrupted or refuses an answer on the way back
static void zero() { int T = 1 + mc_choose(3, "workers"), n = 1 + mc_choose(3, "connections"); std::vector<Kind> ks; for (int i = 0; i < n; i++) ks.push_back((Kind)mc_choose(i == 2 ? 3 : KINDS, "kind")); sched_announce(mc_thorough() ? 600 : 0);
	Server s(T); for (size_t i = 0; i < ks.size() + 2; i++) { Kind k = i < ks.size() ? ks[i] : GOOD; if (answerable(k)) alone(s.app, k, i); } seen.clear(); cleans.clear();
	s.start(); sched_run(); env_zero_fd = true; for (auto k : ks) s.connect(k); sched_run(); s.check("with descriptor 0 free"); if (sched_beyond()) return; s.connect(GOOD); s.connect(GOOD); sched_run(); s.check("after later connections"); mc_outcome(mc_hash(num(T), n)); }
static void back() { // handing an answer over fails: it is sent all the same
	static const int R[] = {EINTR, EAGAIN, ENOMEM}; int T = 1 + mc_choose(2, "workers"), e = mc_choose(3, "reason"), n = mc_choose(8, "which"), k = mc_choose(3, "in a row"); static const Kind K[] = {GOOD, SLOW, LONG, NOROUTE, GONE_LATER}; Kind a = K[mc_choose(5, "first")], b = K[mc_choose(5, "second")]; k = k == 2 ? 1000 : k + 1; sched_announce(mc_thorough() ? 600 : 0);
	Server s(T); std::vector<Kind> ks = {a, b, GOOD, SLOW}; for (size_t i = 0; i < 4; i++) { alone(s.app, ks[i] == GONE_LATER ? SLOW : ks[i], i); } alone(s.app, GOOD, 4); alone(s.app, GOOD, 5); seen.clear(); cleans.clear(); int c = 0, left = k, acceptor = -1; bool over = false;
	env_fault = [&](const char *fn) { if (!strcmp(fn, "accept")) { acceptor = sched_self(); return 0; } if (strcmp(fn, "mq_send") || over || sched_self() == acceptor || c++ < n || !left) return 0; left--; return R[e]; };
	mc_note("%d workers; handing over fails with %s from call %d on, %d times", T, strerror(R[e]), n + 1, k);
	s.start(); sched_run(); for (auto x : ks) s.connect(x); sched_run(); s.check("with a queue that takes nothing"); if (sched_beyond()) return; over = true; s.connect(GOOD); s.connect(GOOD); sched_run(); s.check("later"); if (left < k) mc_nontrivial(); mc_outcome(mc_hash(num(n * 100 + k), e)); }
#ifdef MC_RACE // accesses to static variables are scheduling points, too
static void statics() { sched_mem_points = 1; pairs(); }
static void statics3() { sched_mem_points = 1; static const Kind K[] = {GOOD, SLOW, POST}; Kind a = K[mc_choose(3, "first")], b = K[mc_choose(3, "second")]; go(2, {a, b, GOOD, a}, 1, 3000); }
int main(int c, char **v) { return mc_main(c, v, {
	{"statics", statics, 0, 1, "all pairs of 13 kinds of connections x 1-2 (3) workers x waiting or later arrival; every schedule with at most 1 (2) deviations, where accesses to static variables are scheduling points"},
	{"statics3", statics3, 0, 0, "4 connections of 9 mixtures x 2 workers, likewise; at most 1 deviation"}}); }
#else
int main(int c, char **v) { return mc_main(c, v, {
	{"back", back, 0, 1, "each of the first 8 hand-overs of an answer, and 0, 1 or all after it, fail with one of 3 reasons x all pairs of 5 kinds x 1-2 workers (thorough: every schedule with at most 1 deviation)"},
	{"zero", zero, 0, 1, "1-3 connections of 13 kinds that get descriptor 0 x 1-3 workers; thorough: every schedule with at most 1 deviation"},
	{"pairs2", pairs2, 1, 2, "all pairs of 4 kinds x 2 (3) workers; every schedule with at most 2 (3) deviations"},
	{"pairs", pairs, 0, 1, "all pairs of 13 kinds of connections x 1-2 (3) workers x waiting or later arrival; every schedule with at most 1 (2) deviations"},
	{"three", three, 0, 1, "all triples of 4 kinds x 1-3 workers; every schedule with at most 1 (2) deviations"},
	{"many", many, 0, 0, "4-6 connections of 4 mixtures x 2-3 (4) workers; every schedule with at most 1 deviation"}}); }
#endif

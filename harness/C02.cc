// C02: the server never wedges under load.
#include "thr.h"
#include <errno.h>
#include <fcntl.h>
#include <mqueue.h>
#include <unistd.h>
static void go(int T, std::vector<Kind> ks, long limit, int late, int points) {
	sched_announce(points); Server s(T); mc_note("%d workers, %zu connections, queues of at most %ld", T, ks.size(), limit); for (auto k : ks) mc_note("%s", KN[k]);
	for (size_t i = 0; i < ks.size() + 2; i++) { Kind k = i < ks.size() ? ks[i] : SLOW; if (answerable(k)) alone(s.app, k, i); if (k == GONE) alone(s.app, GOOD, i); if (k == GONE_LATER) alone(s.app, SLOW, i); } seen.clear(); cleans.clear();
	sched_queue_limit = limit; s.start(); if (late) sched_run(); for (auto k : ks) s.connect(k);
	sched_run(); s.check("under load"); if (sched_beyond()) return;
	s.connect(SLOW); s.connect(SLOW); sched_run(); s.check("after the load"); mc_outcome(mc_hash(num(limit * 100 + T), sched_threads()));
}
static void small() { // queues smaller than asked for (the code can not tell), so that few connections fill them
	static const Kind K[] = {SLOW, GOOD, GONE_LATER}; long limit = 1 + mc_choose(2, "capacity"); int T = 1 + mc_choose(mc_thorough() ? 3 : 2, "workers"), n = 3 + mc_choose(3, "connections"), m = mc_choose(5, "kinds"); std::vector<Kind> ks; for (int i = 0; i < n; i++) ks.push_back(m < 3 ? K[m] : m == 3 ? K[i % 3] : K[i % 2]); go(T, ks, limit, mc_choose(2, "arrival"), 3000);
}
static void tiny() { Kind a = mc_choose(2, "first") ? SLOW : GOOD, b = mc_choose(2, "second") ? SLOW : GOOD; int T = 1 + mc_choose(2, "workers"); go(T, {a, b, SLOW}, 1, 1, 1500); }
static void real() { // queues as large as asked for
	int T = 1 + mc_choose(3, "workers"), n = 11 + mc_choose(mc_thorough() ? 20 : 14, "connections"), m = mc_choose(3, "kinds"); std::vector<Kind> ks; for (int i = 0; i < n; i++) ks.push_back(m == 0 ? SLOW : m == 1 ? GOOD : (Kind)(i % KINDS)); go(T, ks, 0, 1, mc_thorough() ? 4000 : 0);
}
static void backlog() { // more than 10 requests in every queue at once: the worst order of arrival
	int T = 1 + mc_choose(3, "workers"), n = 24 + mc_choose(3, "connections"); mc_shard(); Server s(T); for (int i = 0; i < n; i++) alone(s.app, SLOW, i); seen.clear(); cleans.clear(); sched_first(-1); s.start(); sched_run(); for (int i = 0; i < n; i++) s.connect(SLOW); sched_run(); s.check("with a long backlog"); mc_outcome(n);
}
static void slices() { // responses of many slices, so that each of them is handed on again and again
	static const size_t Z[] = {5000, 9000, 13000, 30000, 70000}; static const Kind K[] = {LONG, GOOD, SLOW}; size_t z = Z[mc_choose(5, "body size")]; long limit = 1 + mc_choose(3, "capacity"); int T = 1 + mc_choose(mc_thorough() ? 3 : 2, "workers"), n = 2 + mc_choose(4, "connections"), m = mc_choose(3, "kinds"); std::vector<Kind> ks; for (int i = 0; i < n; i++) ks.push_back(m == 0 ? LONG : m == 1 ? K[i % 2] : K[(i * 2) % 3]);
	alone_.clear(); long_len = z; mc_note("bodies of %zu bytes", z); go(T, ks, limit, mc_choose(2, "arrival"), mc_thorough() ? 3000 : z == 13000 && n < 4 && T == 1 ? 1000 : 0); long_len = 1500; alone_.clear();
}
// the queue model against the kernel's queues
extern "C" { mqd_t mcx_mq_open(const char *, int, ...); int mcx_mq_close(mqd_t); int mcx_mq_unlink(const char *); int mcx_mq_timedsend(mqd_t, const char *, size_t, unsigned, const struct timespec *); ssize_t mcx_mq_timedreceive(mqd_t, char *, size_t, unsigned *, const struct timespec *); int mcx_mq_getattr(mqd_t, struct mq_attr *); int mcx_mq_setattr(mqd_t, const struct mq_attr *, struct mq_attr *); int mcx_mq_send(mqd_t, const char *, size_t, unsigned); ssize_t mcx_mq_receive(mqd_t, char *, size_t, unsigned *); }
static void conformance() {
	static int have = -1; str nm = "/mc" + num(getpid()); if (have < 0) { mqd_t q = mq_open(nm.c_str(), O_RDWR | O_CREAT, 0600, nullptr); have = q != -1; if (have) { mq_close(q); mq_unlink(nm.c_str()); } }
	int d = mc_thorough() ? 6 : 5, op[6]; for (int i = 0; i < d; i++) { op[i] = mc_choose(13, "operation"); if (i == 1) mc_shard(); } if (!have) mc_skip();
	struct mq_attr a; memset(&a, 0, sizeof a); a.mq_maxmsg = 2; a.mq_msgsize = 4; mqd_t r = -1, m = -1; const struct timespec past = {0, 0}; env_leaks(false); str log;
	static const int FL[] = {O_WRONLY | O_CREAT, O_RDWR | O_CREAT, O_RDONLY, O_RDWR | O_NONBLOCK};
	r = mq_open(nm.c_str(), O_RDWR | O_CREAT, 0600, &a); m = mcx_mq_open(nm.c_str(), O_RDWR | O_CREAT, 0600, &a); // one queue to begin with, one more at a time
	auto cmp = [&](const char *what, long x, int ex, long y, int ey) { log += str(what) + "=" + num(x) + " "; if (x != y || (x < 0 && ex != ey)) { mq_close(r); mq_unlink(nm.c_str()); mc_fail("queue model: %s gives %ld (%s), the kernel gives %ld (%s) after %s", what, y, y < 0 ? strerror(ey) : "", x, x < 0 ? strerror(ex) : "", log.c_str()); } };
	for (int i = 0; i < d; i++) { int o = op[i]; long x, y; int ex, ey; char b1[16] = {0}, b2[16] = {0}; unsigned p1 = 9, p2 = 9;
		if (o < 4) { if (r != -1) { mq_close(r); mcx_mq_close(m); } errno = 0; r = mq_open(nm.c_str(), FL[o], 0600, &a); ex = errno; errno = 0; m = mcx_mq_open(nm.c_str(), FL[o], 0600, &a); ey = errno; cmp("open", r != -1 ? 0 : -1, ex, m != -1 ? 0 : -1, ey); }
		else if (o < 8) { static const char *M[] = {"a", "bcd", "toolong", ""}; unsigned pr = o == 5 ? 3 : 0; size_t n = strlen(M[o - 4]); errno = 0; x = mq_timedsend(r, M[o - 4], n, pr, &past); ex = errno; errno = 0; y = mcx_mq_timedsend(m, M[o - 4], n, pr, &past); ey = errno; cmp("send", x, ex, y, ey); }
		else if (o < 10) { size_t n = o == 8 ? 16 : 2; errno = 0; x = mq_timedreceive(r, b1, n, &p1, &past); ex = errno; errno = 0; y = mcx_mq_timedreceive(m, b2, n, &p2, &past); ey = errno; cmp("receive", x, ex, y, ey); CHECK(p1 == p2 && !memcmp(b1, b2, 16), "queue model: received other data or priority"); }
		else if (o == 10) { errno = 0; x = mq_unlink(nm.c_str()); ex = errno; errno = 0; y = mcx_mq_unlink(nm.c_str()); ey = errno; cmp("unlink", x, ex, y, ey); }
		else if (o == 11) { if (r == -1) continue; mq_close(r); mcx_mq_close(m); errno = 0; x = mq_close(r); ex = errno; errno = 0; y = mcx_mq_close(m); ey = errno; cmp("close again", x, ex, y, ey); r = m = -1; }
		else { struct mq_attr g1, g2; memset(&g1, 0, sizeof g1); memset(&g2, 0, sizeof g2); errno = 0; x = mq_getattr(r, &g1); ex = errno; errno = 0; y = mcx_mq_getattr(m, &g2); ey = errno; cmp("getattr", x, ex, y, ey); if (!x) CHECK(g1.mq_curmsgs == g2.mq_curmsgs && g1.mq_maxmsg == g2.mq_maxmsg && g1.mq_msgsize == g2.mq_msgsize && g1.mq_flags == g2.mq_flags, "queue model: other attributes"); }
		mc_step(); }
	if (r != -1) mq_close(r); mq_unlink(nm.c_str()); mc_nontrivial(); mc_outcome(mc_hash(log)); mc_state(mc_hash(log));
}
int main(int c, char **v) { return mc_main(c, v, {
	{"conformance", conformance, 0, 0, "the queue model against the kernel's queues: all sequences of 5 (6) of 13 operations"},
	{"slices", slices, 0, 1, "2-5 connections of 3 mixtures x responses of 5 sizes up to 70000 bytes x queues of 1-3 messages x 1-2 (3) workers x arrival; for 13000 bytes, 2-3 connections and one worker (thorough: all) every schedule with at most 1 (2) deviations"},
	{"tiny", tiny, 1, 2, "3 connections x queues of one message x 1-2 workers; every schedule with at most 2 (3) deviations"},
	{"small", small, 0, 1, "3-5 connections of 5 mixtures x queues of 1-2 messages x 1-2 (3) workers x waiting or later arrival; every schedule with at most 1 (2) deviations"},
	{"backlog", backlog, 0, 0, "24-26 slow clients at once x 1-3 workers, queues as asked for"},
	{"real", real, 0, 0, "11-24 (30) connections of 3 mixtures x 1-3 workers, queues as asked for (thorough: every schedule with one deviation)"}}); }

// C34, threads: one whole access line per answered request, whatever the workers do at the same time.
#include "thr.h"
#include "log.h"
static void go(int T, const std::vector<Kind> &ks, int points) {
	sched_announce(points); Server s(T); s.precompute(ks); env_capture = true; sched_output_points = true; for (int i = 1; i < 3; i++) env_streams[i].clear(), env_pending[i].clear();
	s.start(); for (auto k : ks) s.connect(k); sched_run(); s.check("at the end"); std::vector<str> have; str g = env_streams[1] + env_pending[1]; size_t p = 0; str head = str(WHEN) + MARK[4] + " ";
	while (p < g.size()) { size_t e = g.find('\n', p); if (e == str::npos) e = g.size(); str l = g.substr(p, e - p); if (l.compare(0, head.size(), head) == 0 && (l.find("\"GET ") != str::npos || l.find("\"POST ") != str::npos)) have.push_back(l.substr(head.size())); p = e + 1; }
	std::vector<str> want; for (size_t i = 0; i < ks.size(); i++) if (answerable(ks[i])) { str r = request(ks[i], i), v = r.substr(0, r.find(' ')), q = r.substr(v.size() + 1); q = q.substr(0, q.find(' ')); Resp a = parse_resp(alone(s.app, ks[i], i)); want.push_back("NOIP \"" + v + " " + q + "\" " + num(a.code) + " " + num(a.body.size()) + " \"NOUSERAGENT\""); }
	std::sort(have.begin(), have.end()); std::sort(want.begin(), want.end()); str w, h; for (auto &x : want) w += x + "\n"; for (auto &x : have) h += x + "\n"; CHECK(w == h, "the access lines are %s instead of %s", Q(h), Q(w));
	if (sched_beyond()) return; mc_nontrivial(); mc_outcome(mc_hash(g));
}
static void two() { static const Kind K[] = {GOOD, POST, NOROUTE, FOUND404, MALFORMED}; int T = 1 + mc_choose(3, "workers"), a = mc_choose(5, "first"), b = mc_choose(5, "second"); go(T, {K[a], K[b]}, 300); }
static void three() { static const Kind K[] = {GOOD, POST, NOROUTE}; int T = 2 + mc_choose(2, "workers"), a = mc_choose(3, "first"), b = mc_choose(3, "second"), c = mc_choose(3, "third"); go(T, {K[a], K[b], K[c]}, 400); }
int main(int c, char **v) { return mc_main(c, v, {
	{"two", two, 1, 2, "2 requests of 5 kinds x 1-3 workers: every schedule with at most 2 (3) deviations, every output call being a scheduling point"},
	{"three", three, 0, 1, "3 requests of 3 kinds x 2-3 workers: every schedule with at most 1 (2) deviations"}}); }

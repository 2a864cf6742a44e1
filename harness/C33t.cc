// C33, threads: lines of different threads do not mix.
#include "log.h"
#include "ctlthr.h"
static void go(int T, int n, int mix) {
	sched_announce(100); env_leaks(false); env_capture = true; sched_output_points = true;
#ifdef MC_RACE
	sched_mem_points = 1;
#endif

	std::vector<std::vector<str>> want[3]; for (auto &w : want) w.resize(T); std::vector<int> ids;
	for (int t = 0; t < T; t++) ids.push_back(sched_spawn([=, &want] { for (int i = 0; i < n; i++) { int l = mix == 0 ? SH_INFO : mix == 1 ? SH_ERR : (t + i) % 6; str m = "thread " + num(t) + " call " + num(i) + (mix == 3 ? str(780, 'a' + t) : ""); want[stream_of(l)][t].push_back(line(l, m)); sh_log(LV[l], "%s", m.c_str()); } }));
	sched_run(); for (int i : ids) CHECK(sched_done(i), "a thread never returns from logging: %s", sched_where().c_str());
	for (int s = 1; s < 3; s++) { CHECK(env_pending[s].empty(), "stream %d is not flushed: %s", s, Q(env_pending[s])); std::vector<size_t> at(T); str g = env_streams[s]; size_t p = 0;
		while (p < g.size()) { bool hit = false; for (int t = 0; t < T && !hit; t++) if (at[t] < want[s][t].size() && g.compare(p, want[s][t][at[t]].size(), want[s][t][at[t]]) == 0) { p += want[s][t][at[t]].size(); at[t]++; hit = true; } CHECK(hit, "stream %d holds something that is no whole line of a thread: %s", s, Q(g.substr(p))); }
		for (int t = 0; t < T; t++) CHECK(at[t] == want[s][t].size(), "line %zu of thread %d is missing in %s", at[t], t, Q(g)); }
	if (sched_beyond()) return; mc_nontrivial(); mc_outcome(mc_hash(env_streams[1] + env_streams[2]));
}
static void two() { int n = 1 + mc_choose(mc_thorough() ? 4 : 3, "calls"), m = mc_choose(4, "levels"); go(2, n, m); }
static void three() { int n = 1 + mc_choose(mc_thorough() ? 3 : 2, "calls"), m = mc_choose(4, "levels"); go(3, n, m); }
int main(int c, char **v) { return mc_main(c, v, {
	{"two", two, 40, 40, "2 threads x 1-3 (4) calls x 4 mixtures of levels: every schedule"},
	{"three", three, 4, 6, "3 threads x 1-2 (3) calls x 4 mixtures: every schedule with at most 5 (7) deviations"}}); }

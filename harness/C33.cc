// C33: each log call emits exactly one whole line to the right stream.
#include "log.h"
static str got(int s) { return env_streams[s] + env_pending[s]; }
// one message is out, whole and flushed; want: the message asked for, cut is allowed beyond 799 bytes
static void judge(int l, const str &before, const str &want) {
	int s = stream_of(l), o = 3 - s; CHECK(env_pending[s].empty(), "level %d: the line is not flushed", l); (void)o;
	str g = env_streams[s]; CHECK(g.compare(0, before.size(), before) == 0, "level %d: earlier lines changed", l); g = g.substr(before.size());
	str head = str(WHEN) + MARK[l] + " "; CHECK(g.compare(0, head.size(), head) == 0, "level %d: the line starts with %s instead of %s", l, Q(g.substr(0, 60)), Q(head)); CHECK(g.back() == '\n', "level %d: the line does not end: %s", l, Q(g));
	str m = g.substr(head.size(), g.size() - head.size() - 1); if (want.size() <= 799) CHECK(m == want, "level %d: message %s instead of %s", l, Q(m), Q(want)); else CHECK(m.size() >= 799 && want.compare(0, m.size(), m) == 0, "level %d: a message of %zu bytes came out as %zu bytes: %s", l, want.size(), m.size(), Q(m));
	mc_nontrivial();
}
static void lengths() {
	int l = mc_choose(6, "level"), how = mc_choose(3, "how"); static const int X[] = {1023, 1024, 1025, 2000, 4095, 4096, 4097, 8192, 65536, 1000000}; int i = mc_choose(851 + 10, "length"); size_t n = i < 851 ? i : X[i - 851]; mc_shard();
	str m; for (size_t k = 0; k < n; k++) m += (char)('a' + k * 7 % 26); env_capture = true; Exact e(m, true); mc_note("level %d, %zu bytes, %d", l, n, how);
	if (how == 0) sh_log(LV[l], "%s", e.p); else if (how == 1) sh_log(LV[l], e.p); else { sh_log(LV[l], "%s%i", e.p, 12345); m += "12345"; }
	judge(l, "", m); CHECK(got(3 - stream_of(l)).empty(), "level %d: something was written to the other stream: %s", l, Q(got(3 - stream_of(l)))); mc_outcome(mc_hash(num(n * 3 + how), l));
}
static char nul1[1];
static void formats() {
	static const char *F[] = {"%s", "%i", "%d", "%lu", "%x", "%c", "%%", "%5d", "%-6s|", "%zu", "%.3s", "%08lx", "plain ", "%f", "\t", "\xc3\xa9", "\n", "two\nlines"}; int l = mc_choose(6, "level"), n = 1 + mc_choose(mc_thorough() ? 4 : 3, "conversions"); str f; int sel[4]; for (int i = 0; i < n; i++) { sel[i] = mc_choose(18, "conversion"); f += F[sel[i]]; } mc_shard(); (void)nul1;
	// every conversion gets an argument of its own kind: build the call by nesting
	env_capture = true; str want; char b[4096]; auto kind = [&](int c) { return c == 6 || c == 12 || c == 14 || c == 15 || c == 16 || c == 17 ? 0 : c == 13 ? 2 : c == 0 || c == 8 || c == 10 ? 3 : 1; };
	std::vector<long> iv; for (int i = 0; i < n; i++) { int k = kind(sel[i]); if (k == 1) iv.push_back(sel[i] == 5 ? 'A' + i : sel[i] == 1 || sel[i] == 2 || sel[i] == 7 ? -42 + i * 1000 : 77 + i); else if (k == 3) iv.push_back((long)(i % 2 ? "" : "word")); }
	long a[5] = {0, 0, 0, 0, 0}; for (size_t i = 0; i < iv.size(); i++) a[i] = iv[i]; double d = 1.5;
	snprintf(b, sizeof b, f.c_str(), a[0], a[1], a[2], a[3], d, d, d, d); want = b; mc_note("level %d, format %s", l, Q(f)); // integers and doubles travel separately on this machine
	sh_log(LV[l], f.c_str(), a[0], a[1], a[2], a[3], d, d, d, d); judge(l, "", want); mc_outcome(mc_hash(f, l));
}
static void sequences() {
	int n = 1 + mc_choose(mc_thorough() ? 6 : 5, "calls"); int l[6]; for (int i = 0; i < n; i++) l[i] = mc_choose(6, "level"); mc_shard(); env_capture = true; str want[3];
	for (int i = 0; i < n; i++) { str m = "call " + num(i) + (i % 2 ? str(300, 'x') : ""); str before = want[stream_of(l[i])]; sh_log(LV[l[i]], "%s", m.c_str()); judge(l[i], before, m); want[stream_of(l[i])] += line(l[i], m); for (int s = 1; s < 3; s++) CHECK(got(s) == want[s], "after %d calls, stream %d holds %s instead of %s", i + 1, s, Q(got(s)), Q(want[s])); }
	mc_outcome(mc_hash(want[1] + want[2]));
}
int main(int c, char **v) { return mc_main(c, v, {
	{"lengths", lengths, 0, 0, "6 levels x messages of 0-850 bytes and 10 lengths up to a million x 3 ways of formatting"},
	{"formats", formats, 0, 0, "6 levels x all formats of 1-3 (4) of 18 conversions and texts"},
	{"sequences", sequences, 0, 0, "all sequences of 1-5 (6) calls over 6 levels"}}); }

// C29: cookie lookup.
#include "h.h"
static void check(const str &s, size_t n, const str &needle) {
	str t = s.substr(0, n), want; bool found = false; size_t i = 0;
	while (i <= t.size() && !found) {
		size_t e = t.find(';', i); if (e == str::npos) e = t.size();
		size_t b = i; while (b < e && t[b] == ' ') b++;
		str c = t.substr(b, e - b); size_t q = c.find('=');
		if (q != str::npos && c.substr(0, q) == needle) { found = true; want = c.substr(q + 1); }
		i = e + 1;
	}
	mc_note("cookies %s first %zu bytes, name %s: expected %s", Q(s), n, Q(needle), found ? Q(want) : "none"); mc_step(); mc_nontrivial();
	Exact e(s.substr(0, n), n > s.size()), k(needle, true);
	char *r = sh_cookie(e.p, n, k.p);
	if (!found) CHECK(!r, "there is no cookie %s in %s but the lookup returns %s", Q(needle), Q(t), Q(str(r)));
	else { CHECK(r, "cookie %s not found in %s", Q(needle), Q(t)); CHECK(want == r, "cookie %s in %s: returned %s, expected %s", Q(needle), Q(t), Q(str(r)), Q(want)); }
	env_free(r); mc_state(mc_hash(t + "|" + needle)); mc_outcome(mc_hash(found ? want : "\1none"));
}
static const char *N[] = {"id", "sid", "i", "idx", "id2", "d", "ID"};
static void lists() {
	static const char *V[] = {"", "1", "id", "a=b", "id=7", "x\"y,z", "sid=9=id"}; int k = mc_choose(4, "cookies") ; str s;
	for (int i = 0; i < k; i++) {
		int nm = mc_choose(i == 2 ? 4 : 6, "name"), v = mc_choose(i == 2 ? 4 : 7, "value"), form = mc_choose(i == 0 ? 2 : 4, "form");
		if (i) s += form & 1 ? ";" : "; ";
		s += N[nm]; if (!(i == 0 && form == 1) && form < 2) s += "="; else if (form >= 2) s += "="; // a name without '=' only in first place
		if (s.back() == '=') s += V[v];
		if (i == 0) mc_shard();
	}
	if (!k) mc_shard();
	if (mc_thorough() || k < 3) { if (mc_choose(2, "trailing")) s += ";"; }
	for (const char *nd : {"id", "i", "sid", "7"}) check(s, s.size(), nd);
	check(s, s.size() + 1, "id");
}
static void limits() {
	static const char *S[] = {"id=1", "id=abc; sid=2", "sid=2; id=abc; x=3", "xid=1;id=22;", "a=id=3; id=4", "id", "id;id=5", "aid=1; bid=2; id", "session=deadbeef; id=99", "x=1;  id=2;   sid=3", "  id=5 ; sid=6", ";;id=1;;sid=2;", "; ; id=9"};
	int i = mc_choose(13, "string"); str s = S[i]; size_t n = mc_choose(s.size() + 2, "limit"); int k = mc_choose(6, "name"); mc_shard();
	static const char *M[] = {"id", "sid", "session", "b", "x", "deadbeef"};
	check(s, n, M[k]);
}
static void longs() { int n = mc_choose(1200, "length"), w = mc_choose(3, "where"); mc_shard(); str v(n, 'v'); check(w == 0 ? "id=" + v : w == 1 ? "a=" + v + "; id=" + v + "; b=1" : "pre" + v + "=1; id=" + v, 10000 > 0 ? (w == 0 ? n + 3 : w == 1 ? 2 * n + 12 : 2 * n + 10) : 0, "id"); }
static void kilobytes() { // values, names and what stands before them, of any length
	static const int L[] = {2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 16384, 32767, 32768, 65534, 65535, 65536, 65537, 70000, 131072, 1000000}; int n = L[mc_choose(18, "length")] + mc_choose(5, "near") - 2, w = mc_choose(5, "where"); mc_shard(); str v(n, 'v'), s = w == 0 ? "id=" + v : w == 1 ? "a=" + v + "; id=x; b=1" : w == 2 ? "pre" + v + "=1; id=y" : w == 3 ? v + "=z; id=w" : str(n, ' ') + "id=k"; check(s, s.size(), w == 3 ? v : "id"); if (w == 3) check(s, s.size(), "id"); if (w == 0) check(s, s.size() - 1, "id");
}
static void many() { // any number of cookies before the one
	int n = mc_choose(mc_thorough() ? 2000 : 400, "cookies"), sp = mc_choose(2, "space"), last = mc_choose(2, "present"); mc_shard(); str s; for (int i = 0; i < n; i++) s += "c" + num(i) + "=" + num(i * i) + (sp ? "; " : ";"); if (last) s += "id=here"; check(s, s.size(), "id"); if (n) check(s, s.size(), "c" + num(n - 1));
}
int main(int c, char **v) { return mc_main(c, v, {{"lists", lists, 0, 0, "all cookie strings of up to 3 cookies over 6 names x 7 values (containing names, '=' and quotes), separators with and without space, entries without '=', 4 looked-up names"}, {"limits", limits, 0, 0, "13 strings cut at every length, in blocks of exactly that size"}, {"lengths", longs, 0, 0, "value and name lengths 0..1199"}, {"kilobytes", kilobytes, 0, 0, "90 lengths up to a million of the value, of other cookies' names and values, of the name itself and of blanks before it"}, {"many", many, 0, 0, "0-399 (1999) cookies before the one looked up, which is there or not"}}); }

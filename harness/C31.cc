// C31: bounded substring search and suffix test.
#include "h.h"
static str any(int n, const char *A, int k) { str s; for (int i = 0; i < n; i++) s += A[mc_choose(k, "char")]; return s; }
static void search() {
	int k = mc_thorough() ? 3 : 2; int hl = mc_choose(9, "haystack length"); str h = any(hl, "abc", hl > 6 ? 2 : k); mc_shard(); int nl = mc_choose(5, "needle length"); str nd = any(nl, "abc", 2);
	for (size_t n = 0; n <= h.size() + 3; n++) {
		if (n == h.size() + 3) n = mc_choose(2, "huge") ? SIZE_MAX : 1u << 31;
		size_t lim = n < h.size() ? n : h.size(); size_t at = h.substr(0, lim).find(nd);
		Exact e(h.substr(0, lim), n > h.size()), k2(nd, true); mc_note("find %s in %s limit %zu: expected %zd", Q(nd), Q(h), n, (ssize_t)at);
		const char *r = sh_strnstr(e.p, k2.p, n); mc_step(); mc_nontrivial();
		if (at == str::npos) CHECK(!r, "%s is not within the first %zu bytes of %s but is reported at %td", Q(nd), n, Q(h), r - e.p);
		else CHECK(r == e.p + at, "%s occurs at %zu within the first %zu bytes of %s but the search returns %s", Q(nd), at, n, Q(h), r ? num(r - e.p).c_str() : "nothing");
		mc_state(mc_hash(h + "/" + nd + "/" + num(n))); mc_outcome(mc_hash(num(at) + "/" + nd));
		if (n > h.size() + 3) break;
	}
}
static void suffix() {
	int a = mc_choose(mc_thorough() ? 11 : 9, "length"); str s = any(a, "ab.", a > 5 ? 2 : 3); mc_shard(); int b = mc_choose(6, "suffix length"); str x = any(b, "ab.", b > 4 ? 2 : 3);
	bool want = s.size() >= x.size() && s.compare(s.size() - x.size(), x.size(), x) == 0; Exact e(s, true), f(x, true); mc_note("%s endswith %s: %d", Q(s), Q(x), want);
	int r = sh_endswith(e.p, f.p); mc_step(); mc_nontrivial(); CHECK(!!r == want, "endswith(%s, %s) is %d", Q(s), Q(x), r); mc_state(mc_hash(s + "/" + x)); mc_outcome(mc_hash(x + (want ? "1" : "0")));
}
static void longs() { // long haystacks: a match at the very end, one byte short of it, and none
	int n = mc_choose(mc_thorough() ? 5000 : 1400, "length"), k = mc_choose(3, "where"), nl = 1 + mc_choose(4, "needle"); mc_shard(); str nd = str("\r\n\r\n").substr(0, nl), h = str(n, 'x'); if (k < 2) h += nd; if (k == 1) h += "y";
	Exact e(h), f(nd, true); const char *r = sh_strnstr(e.p, f.p, h.size()); mc_step(); mc_nontrivial(); mc_note("length %d case %d", n, k); CHECK(r == (k < 2 ? e.p + n : nullptr), "search in %d bytes, case %d returned %td", n, k, r ? r - e.p : -1); mc_state(n * 16 + k * 4 + nl); mc_outcome(n * 3 + k);
	Exact g(h, true); CHECK(!!sh_endswith(g.p, f.p) == (k == 0), "endswith on %d bytes wrong", n);
}
static void kilobytes() { // needles, suffixes and haystacks of any length
	static const int L[] = {5, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 1023, 1024, 1025, 4096, 32767, 32768, 65535, 65536, 65537, 70000, 200000}; int n = L[mc_choose(23, "needle")], h = L[mc_choose(23, "before")], w = mc_choose(5, "difference"); mc_shard(); if ((long)n * h > (mc_thorough() ? 400000000L : 100000000L)) mc_skip(); str nd; for (int i = 0; i < n; i++) nd += (char)('a' + i % 23); str x = nd; if (w == 1) x[0] = '-'; if (w == 2) x[n - 1] = '-'; if (w == 3) x[n / 2] = '-'; str s = str(h, 'x') + x, t = w == 4 ? s + "!" : s; mc_note("%d bytes, then a needle of %d with difference %d", h, n, w);
	Exact e(t), f(nd, true); const char *r = sh_strnstr(e.p, f.p, t.size()); mc_step(); mc_nontrivial(); size_t at = t.find(nd); CHECK(r == (at == str::npos ? nullptr : e.p + at), "the search returned %td, not %zd", r ? r - e.p : -1, (ssize_t)at); r = sh_strnstr(e.p, f.p, h + n - 1); CHECK(!r || r + n <= e.p + h + n - 1, "found beyond the limit"); CHECK(!!r == (t.substr(0, h + n - 1).find(nd) != str::npos), "found wrongly within a shorter limit");
	Exact g(t, true); CHECK(!!sh_endswith(g.p, f.p) == (w == 0), "the suffix test is wrong"); mc_state((uint64_t)(n * 5 + w) * 1000003 + h); mc_outcome(n * 5 + w);
}
int main(int c, char **v) { return mc_main(c, v, {{"search", search, 0, 0, "all haystacks up to length 8 and needles up to length 4 over 2-3 letters, every limit from 0 to beyond the end and huge limits, in blocks of exactly the limit"}, {"suffix", suffix, 0, 0, "all strings up to length 8 (10) and suffixes up to 5"}, {"lengths", longs, 0, 0, "haystack lengths up to 1399 (4999) with the match at the end"}, {"kilobytes", kilobytes, 0, 0, "23 lengths of needle or suffix x 23 of text before x equal, different at the beginning, middle or end, or followed by another byte"}}); }

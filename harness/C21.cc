// C21: filters get the right argument, their result replaces the call, and is cleaned up once.
#include "tmpl.h"
static void files() { inc_enter(); inc("inc.html", "I XxX f xXx @a xXx XxX\nXxX n XxX"); }
static Ctx base() {
	Ctx c; c.str_("a", "1").str_("w", "two words").str_("e", "").str_("pct", "100%s"); auto s = mk(); s->str_("k", "sub"); c.sub("s", s); c.arr("l", {S("x"), S("y z"), S("")});
	c.flt("f", flt<0>()).flt("ff", flt<1>()).flt("n", flt<2>()).flt("z", flt<3>()).flt("raw", flt<4>(false)).flt("f", flt<5>()); return c;
}
// runs it and checks: the same calls with the same arguments as the reference, each result cleaned up exactly once
static void run(const Ctx &c, const str &t, bool multiset = false) {
	if (!in_domain(c, t)) mc_skip();
	mc_note("%s", Q(t)); calls.clear(); ref_calls.clear(); ref_render(t, &c); auto want = ref_calls; void *r = real(c); calls.clear(); expect(c, r, t);
	std::vector<str> a, b; for (auto &x : calls) a.push_back(num(x.id) + (x.null ? str("N") : "A" + x.arg)); for (auto &x : want) b.push_back(num(x.first) + x.second);
	if (multiset) {} std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); // the order of the calls is not promised
	CHECK(a.size() == b.size(), "%zu filter calls instead of %zu for %s", a.size(), b.size(), Q(t)); for (size_t i = 0; i < a.size(); i++) CHECK(a[i] == b[i], "a filter was called as %s, expected %s", Q(a[i]), Q(b[i]));
	for (auto &x : calls) if (x.id == 4) { CHECK(!x.cleaned, "cleaned up though no clean-up was registered"); env_free(x.result); } else CHECK(x.cleaned == 1, "the result of a call of filter %d was cleaned up %d times", x.id, x.cleaned);
	sh_ctx_free(r); mc_nontrivial();
}
static void tokens() {
	static const std::vector<const char *> T = {"XxX f arg XxX", "XxX f xXx @w xXx XxX", "XxX n XxX", "XxX ff abc XxX", "XxX raw x XxX", "XxX z x XxX", "XxX f XxX", "text", " ", "\n", "xXx @a xXx", "XxX", "XxX f xXx @e xXx XxX", "XxX ff  XxX"};
	str t; int d = mc_choose(mc_thorough() ? 6 : 5, "length"); for (int i = 0; i < d; i++) { t += T[mc_choose(T.size(), "token")]; if (i == 1) mc_shard(); } if (d < 2) mc_shard(); files(); run(base(), t);
}
static void arguments() { // the argument text is everything up to the closing marker
	static const std::vector<const char *> T = {"a", " ", "  b", "XxX", "xXx", "xXx @a xXx", "xXx @w xXx", "xXx @s.k xXx", "xXx @e xXx", "@", "\t", ".", "%s", "\xff"};
	static const char *F[] = {"f", "ff", "n", "raw"}; int f = mc_choose(4, "filter"); str a; int d = mc_choose(mc_thorough() ? 5 : 4, "length"); for (int i = 0; i < d; i++) { a += T[mc_choose(T.size(), "piece")]; if (i == 1) mc_shard(); } if (d < 2) mc_shard();
	static const char *E[] = {">", "> XxX n XxX", "XxX f q XxX"}; int e = mc_choose(3, "after"); files(); run(base(), str("<XxX ") + F[f] + " " + a + (a.size() ? " XxX" : "XxX") + E[e]);
}
static void names() { // the filter registered under exactly that name
	int n = 1 + mc_choose(30, "length"), m = 1 + mc_choose(30, "other length"), order = mc_choose(2, "order"), ch = mc_choose(4, "character"), call = mc_choose(2, "which"), arg = mc_choose(2, "argument"); mc_shard(); const char *al = "zZ9_"; str a(n, al[ch]), b(m, al[ch]); if (n == m) b[m - 1] = al[(ch + 1) % 4];
	Ctx c; if (order) c.flt(a, flt<0>()).flt(b, flt<2>()); else c.flt(b, flt<2>()).flt(a, flt<0>()); files(); str x = call ? a : b; run(c, "XxX " + x + (arg ? " q" : "") + " XxX-XxX " + (call ? b : a) + " r XxX");
}
static void scopes() { // in loops, conditionals, includes; variables and filters may share names
	static const std::vector<str> T = {"xXx LOOP i l xXxXxX f xXx @i xXx XxXxXx BBL xXx", "xXx LOOP f l xXx XxX f xXx @f xXx, XxX xXx BBL xXx", "\nxXx UNLESS NOT @a xXxXxX f in XxXxXx ENDLESS xXx", "\nxXx UNLESS @e xXxXxX ff in xXx @a xXx XxXxXx ENDLESS xXx", "\nxXx UNLESS @a xXxXxX f never XxXxXx ENDLESS xXx", "\nxXx UNLESS NOT @e xXxXxX f never XxXxXx ENDLESS xXx", "\nxXx SCREAM inc.html xXx\n", "xXx LOOP i l xXx\nxXx SCREAM inc.html xXx\nxXx BBL xXx", "XxX n XxX", "t\n"};
	str t; int d = mc_choose(mc_thorough() ? 5 : 4, "length"); for (int i = 0; i < d; i++) { t += T[mc_choose(T.size(), "part")]; if (i == 0) mc_shard(); } if (d < 1) mc_shard(); files(); run(base(), t);
}
static void parents() { // filters of a context and of its parents: the innermost one of that name
	int d = 1 + mc_choose(3, "depth"), m[3]; for (int i = 0; i < d; i++) m[i] = mc_choose(8, "filters here"); mc_shard(); static const char *N[] = {"f", "ff", "n"};
	Ctx c[3]; void *r[3]; files(); for (int i = 0; i < d; i++) { for (int k = 0; k < 3; k++) if (m[i] >> k & 1) c[i].flt(N[k], (i + k) % 3 == 0 ? flt<0>() : (i + k) % 3 == 1 ? flt<1>() : flt<2>()); c[i].str_("v" + num(i), "V" + num(i)); c[i].arr("l" + str(1, 'a' + i), {S("x"), S("yy")}); r[i] = real(c[i]); }
	for (int i = 0; i + 1 < d; i++) { c[i].parent = &c[i + 1]; sh_ctx_parent(r[i], r[i + 1]); }
	for (int k = 0; k < 3; k++) for (int q = 0; q < 2; q++) { str call = str("XxX ") + N[k] + (q ? " ab XxX" : " XxX"); if (!findf(&c[0], N[k])) continue; expect(c[0], r[0], call); for (int i = 0; i < d; i++) { expect(c[0], r[0], "xXx LOOP i l" + str(1, 'a' + i) + " xXx" + call + "xXx @i xXx xXx @v" + num(i) + " xXxxXx BBL xXx"); expect(c[0], r[0], "xXx UNLESS NOT @v" + num(i) + " xXx" + call + "xXx ENDLESS xXx"); } }
	for (int i = 0; i < d; i++) { sh_ctx_parent(r[i], nullptr); sh_ctx_free(r[i]); } mc_nontrivial(); calls.clear();
}
static void many() { // many calls per line, many registered filters
	static const int N[] = {1, 2, 7, 8, 9, 16, 17, 33, 64, 100}; int n = N[mc_choose(10, "calls")], reg = N[mc_choose(10, "registered")], kind = mc_choose(4, "kind"), sep = mc_choose(3, "separator"); mc_shard(); files();
	Ctx c; for (int i = 0; i < reg; i++) c.flt("f" + num(i), i % 2 ? flt<0>() : flt<2>()); str t; for (int i = 0; i < n; i++) { str f = "XxX f" + num(kind == 3 ? reg - 1 : i % reg); t += f + (kind == 0 ? " XxX" : kind == 1 ? " arg" + num(i) + " XxX" : i % 2 ? " x XxX" : " XxX"); t += sep == 0 ? "" : sep == 1 ? " and " : "\n"; } run(c, t);
}
static void sizes() { // arguments and results of any length
	static const int L[] = {0, 1, 2, 255, 256, 511, 512, 1000, 2048, 5000, 40000}; int a = L[mc_choose(11, "argument")], f = mc_choose(5, "filter"), pre = L[mc_choose(6, "before")], rep = 1 + mc_choose(3, "calls"); mc_shard(); files(); if (a > 5000 && rep > 1) mc_skip();
	static const char *F[] = {"f", "ff", "n", "z", "raw"}; str t(pre, 'p'); for (int i = 0; i < rep; i++) t += str("XxX ") + F[f] + " " + (a ? str(a, 'a') + " " : "") + "XxX"; t += "tail"; run(base(), t);
}
// results are text: nothing in them is called, substituted or included
static const char *result_text; static int rcalls, rcleans; static char *rlast;
static char *rf(const char *) { rcalls++; char *p = (char *)env_malloc(strlen(result_text) + 1); strcpy(p, result_text); return rlast = p; }
static void rc(char *p) { CHECK(p == rlast, "the clean-up got something else than the result"); rcleans++; env_free(p); }
static void results() {
	static const char *R[] = {"XxX r again XxX", "XxX r XxX", "XxX", " XxX", "XxX r", "XxX other x XxX", "", "%s%n", "\n", "r XxX", "xXx"}; int a = mc_choose(11, "result"), arg = mc_choose(2, "argument"), pos = mc_choose(4, "position"), two = mc_choose(2, "calls"); mc_shard(); result_text = R[a]; rcalls = rcleans = 0;
	static const char *P[] = {"", "XxX ", "XxX r x", " "}; if (pos == 2) mc_skip(); void *c = sh_ctx(); sh_add_filter(c, "r", rf, rc); str call = arg ? "XxX r x XxX" : "XxX r XxX"; str t = P[pos] + call + "-" + (two ? call : "") + "end"; if (pos == 1) t = "<" + call + "-" + (two ? call : "") + "end";
	str w = (pos == 1 ? "<" : P[pos]) + str(R[a]) + "-" + (two ? R[a] : "") + "end"; str g = render(c, t); CHECK(g == w, "%s renders as %s instead of %s", Q(t), Q(g), Q(w)); CHECK(rcalls == 1 + two && rcleans == 1 + two, "%d calls and %d clean-ups instead of %d", rcalls, rcleans, 1 + two); sh_ctx_free(c); mc_nontrivial(); mc_outcome(mc_hash(w));
}
// a filter that keeps its result until it is asked for the next one: the result must have been copied before the clean-up
static char sbuf[64];
static char *sf(const char *a) { snprintf(sbuf, sizeof sbuf, "[%s]", a ? a : "-"); return sbuf; }
static void sclean(char *p) { CHECK(p == sbuf, "the clean-up got something else than the result"); memset(sbuf, '?', sizeof sbuf - 1); rcleans++; }
static void nofree() {
	int n = 1 + mc_choose(5, "calls"), clean = mc_choose(2, "clean-up"), arg = mc_choose(3, "argument"); mc_shard(); rcleans = 0; void *c = sh_ctx(); sh_add_filter(c, "s", sf, clean ? sclean : nullptr); str t, w; for (int i = 0; i < n; i++) { bool a = arg == 2 ? i % 2 : arg; t += a ? "XxX s a" + num(i) + " XxX" : str("XxX s XxX"); w += a ? "[a" + num(i) + "]" : str("[-]"); }
	for (int rep = 0; rep < 2; rep++) { str g = render(c, t); CHECK(g == w, "%s renders as %s instead of %s", Q(t), Q(g), Q(w)); } CHECK(rcleans == (clean ? 2 * n : 0), "%d clean-ups", rcleans); sh_ctx_free(c); mc_nontrivial(); mc_outcome(n * 8 + clean * 4 + arg);
}
// the stock clean-up releases heap results
static char *hf(const char *a) { char *p = (char *)env_malloc(a ? strlen(a) + 3 : 3); strcpy(p, "h:"); if (a) strcat(p, a); return p; }
static void stock() { int n = mc_choose(6, "calls"), arg = mc_choose(2, "argument"); mc_shard(); void *c = sh_ctx(); sh_add_filter(c, "h", hf, sh_filter_cleanup); str t, w; for (int i = 0; i < n; i++) { t += arg ? "XxX h x XxX" : "XxX h XxX"; w += arg ? "h:x" : "h:"; } str g = render(c, t); CHECK(g == w, "%s renders as %s", Q(t), Q(g)); sh_ctx_free(c); mc_nontrivial(); mc_outcome(n * 2 + arg); }
static void fragments() { // what a filter returns is text, also together with what stands next to it
	static const char *T[] = {"XxX p XxX", "XxX q XxX", "XxX s XxX", "XxX p a XxX", "XxX n XxX", " n XxX", "n XxX", " ", "x", " XxX", "XxX "}; str t; int d = mc_choose(mc_thorough() ? 6 : 5, "length"); for (int i = 0; i < d; i++) { t += T[mc_choose(11, "part")]; if (i == 1) mc_shard(); } if (d < 2) mc_shard();
	Ctx c = base(); c.flt("p", flt<6>()).flt("q", flt<7>()).flt("s", flt<8>()); run(c, t);
}
static void nested() { static const std::vector<str> L = {"XxX f xXx @i xXx XxX XxX n XxX", "XxX f a XxXxXx @a xXx", "XxX n xXx @i.k xXx XxX"}; nest([](const Ctx &c, const str &t) { run(c, t); }, L); }
static void edits1() { static const std::vector<str> L = {"XxX f a XxX", "XxX n XxX", "[XxX f xXx @a xXx XxX]XxX n  a XxX", "XxX a XxXXxX f x y XxX"}; edits([](const Ctx &c, const str &t) { run(c, t); }, L, mc_thorough() ? 2 : 1); }
static void edits2() { static const std::vector<str> L = {"XxX f a XxX", "XxX n XxX"}; edits([](const Ctx &c, const str &t) { run(c, t); }, L, 2); }
int main(int c, char **v) { return mc_main(c, v, {
	{"fragments", fragments, 0, 0, "all lines of up to 4 (5) of 11 parts with filters that return parts of directives"},
	{"edits", edits1, 0, 0, "4 templates with every 1 (2) characters left out, put in, replaced or swapped (10 characters)"},
	{"edits2", edits2, 0, 0, "2 short templates with every 1 or 2 such changes (quick: within 8 characters of each other)"},
	{"nested", nested, 0, 0, NEST},
	{"names", names, 0, 0, "all pairs of name lengths 1-30 x 4 characters x both orders x with and without argument"},
	{"parents", parents, 0, 0, "chains of 1-3 contexts, each with any subset of 3 filters"},
	{"many", many, 0, 0, "up to 100 calls of up to 100 filters x 4 kinds x 3 separators"},
	{"sizes", sizes, 0, 0, "11 argument lengths x 5 filters x 6 texts before x 1-3 calls"},
	{"results", results, 0, 0, "11 results that look like directives x both kinds of call x 3 positions x 1-2 calls"},
	{"nofree", nofree, 0, 0, "1-5 calls of a filter with a static result, with and without clean-up, twice"},
	{"stock", stock, 0, 0, "0-5 calls with the stock clean-up, with and without argument"},
	{"scopes", scopes, 0, 0, "all sequences of up to 3 (4) of 10 loops, conditionals, includes with calls in them"},
	{"arguments", arguments, 0, 0, "all argument texts of up to 3 (4) of 14 pieces, blank ones among them x 4 filters x what follows: nothing or another call"},
	{"tokens", tokens, 0, 0, "all sequences of up to 4 (5) of 12 calls, texts, references"}}); }

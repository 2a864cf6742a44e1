// C24: rendering is memory-safe, bounded by its input, terminates, and reports the exact length.
#include "tmpl.h"
static Ctx base() { Ctx c; auto s = mk(), e = mk(); s->str_("k", "sub").str_("a", ""); e->str_("k", "E").str_("a", "FALSE"); c.str_("a", "1").str_("i", "outer").str_("b", "").str_("nl", "v\n").str_("no", "FALSE").sub("s", s).arr("l", {S("x"), S("")}).arr("m", {SC(e), SC(e), SC(e)}).arr("none", {}).flt("f", flt<0>()).flt("n", flt<2>()).flt("z", flt<3>()); return c; }
static void files() { inc_enter(); inc("inc.html", "inc xXx @a xXx\nend"); inc("empty", ""); inc("nl", "\n"); }
// any template: the oracle is memory safety, termination, the reported length and that nothing is left; results are compared when the reference defines them
static void any(const Ctx &c, const str &t, bool exact = true) {
	if (!in_domain(c, t)) mc_skip();
	mc_note("%s", Q(t)); calls.clear(); str want = ref_render(t, &c); calls.clear(); void *r = real(c); str g = render(r, t);
	{ Exact e(t); char *o = sh_render(r, e.p, e.n, nullptr); CHECK(o, "no result without a place for the length"); CHECK(str(o).substr(0, g.size()) == g && strlen(o) <= g.size() + 1, "renders as %s, with the length as %s", Q(str(o)), Q(g));
	  str full = o; bool same = full == want || (full.size() == want.size() + 1 && full.compare(0, want.size(), want) == 0 && t.size() && full.back() == t.back()); if (exact && same) CHECK(g.size() == want.size(), "%s renders as %s, its length is reported as %zu instead of %zu", Q(t), Q(full), g.size(), want.size()); env_free(o); }
	if (t.empty()) CHECK(g == "", "the empty template renders as %s", Q(g));
	for (auto &x : calls) CHECK(x.cleaned == 1, "the result of a filter was released %d times", x.cleaned);
	sh_ctx_free(r); CHECK(env_live() == 0, "rendering %s left %s", Q(t), env_live_desc().c_str()); mc_nontrivial(); mc_outcome(mc_hash(g)); mc_state(mc_hash(t));
}
static void tokens() { // directives cut into pieces and put together in every way, well-formed or not
	static const std::vector<const char *> T = {"xXx LOOP i l xXx", "xXx BBL xXx", "xXx UNLESS @a xXx", "xXx UNLESS NOT @a xXx", "xXx ENDLESS xXx", "xXx @i xXx", "xXx @s.k xXx", "XxX f ", " XxX", "XxX n XxX", "\nxXx SCREAM inc.html xXx\n", "\n", "t", " "};
	str t; int d = mc_choose(mc_thorough() ? 6 : 5, "length"); for (int i = 0; i < d; i++) { t += T[mc_choose(T.size(), "token")]; if (i == 1) mc_shard(); } if (d < 2) mc_shard(); files(); any(base(), t);
}
static void pieces() { // finer
	static const std::vector<const char *> T = {"xXx", "XxX", "LOOP i l", "LOOP i m", "BBL", "UNLESS @no", "UNLESS NOT @i", "ENDLESS", "SCREAM empty", "SCREAM nl", "@a", "@nl", "@s.a", "f", "z", " ", "\n", "\r"};
	str t; int d = mc_choose(mc_thorough() ? 6 : 5, "length"); for (int i = 0; i < d; i++) { t += T[mc_choose(T.size(), "piece")]; if (i == 1) mc_shard(); } if (d < 2) mc_shard(); files(); any(base(), t);
}
static void spaced() { // the same words, one space between all of them
	static const std::vector<const char *> T = {"xXx", "XxX", "LOOP i l", "BBL", "UNLESS @no", "UNLESS NOT @a", "ENDLESS", "SCREAM empty", "@a", "@s.k", "f", "\n", "text"};
	str t; int d = mc_choose(mc_thorough() ? 7 : 5, "length"); for (int i = 0; i < d; i++) { if (i) t += " "; t += T[mc_choose(T.size(), "word")]; if (i == 1) mc_shard(); } if (d < 2) mc_shard(); files(); any(base(), t);
}
static void bytes() { // every short sequence of bytes directives are made of, and every byte between two of them (all pairs of bytes)
	int k = mc_choose(2, "kind"); str t; if (k) { t += 1 + mc_choose(255, "byte"); if (mc_thorough()) t += 1 + mc_choose(255, "byte"); else { static const char A[] = "xX @.\na"; t = A[mc_choose(7, "before")] + t + A[mc_choose(7, "after")]; } mc_shard(); } else { static const char A[] = "xX @.\na"; int d = mc_choose(mc_thorough() ? 7 : 6, "length"); for (int i = 0; i < d; i++) { t += A[mc_choose(7, "byte")]; if (i == 1) mc_shard(); } if (d < 2) mc_shard(); } files(); any(base(), t);
}
static const std::vector<str> W = {"a\nxXx LOOP i l xXx<xXx @i xXx>xXx BBL xXx\nb xXx @a xXx xXx @s.k xXx\n", "xXx UNLESS NOT @a xXx\nyes xXx @a xXx\nxXx ENDLESS xXx\nxXx UNLESS @a xXxnoxXx ENDLESS xXxrest\n", "XxX f xXx @a xXx XxX and XxX n XxX\n\r\nXxX f q XxX", "x\nxXx SCREAM inc.html xXx\nxXx LOOP i m xXx\nxXx SCREAM inc.html xXx\nxXx @i.k xXx\nxXx BBL xXx\nend\n", "xXx LOOP i none xXxnothingxXx BBL xXxxXx LOOP i l xXxxXx BBL xXx", "\xff\xfe%s%n\\\n\n\n\txXx @nl xXx\n"};
static void prefixes() { // only the given bytes count, whatever follows them
	int w = mc_choose(W.size(), "template"); int n = mc_choose(W[w].size() + 1, "length"), after = mc_choose(4, "what follows"); mc_shard(); files(); str t = W[w].substr(0, n); Ctx c = base(); if (!in_domain(c, t)) mc_skip(); void *r = real(c); str want = render(r, t); if (t.empty() || true) { static const char *A[] = {nullptr, "", "xXx BBL xXx xXx ENDLESS xXx XxX @a xXx", "\n\0\n"}; str rest = after == 0 ? W[w].substr(n) : after == 3 ? str("\n\0\n", 3) : A[after]; Exact e(t + rest, after == 1); size_t o = 77; char *g = sh_render(r, e.p, n, &o); str got(g, o); CHECK(got == want, "%s followed by %s renders as %s instead of %s", Q(t), Q(rest), Q(got), Q(want)); env_free(g); }
	if (n == 0) CHECK(want == "", "no bytes render as %s", Q(want)); sh_ctx_free(r); mc_nontrivial(); mc_outcome(mc_hash(want)); mc_state(mc_hash(t, after));
}
static void lengths() { // exact length of outputs of any size, ending in any way
	static const int L[] = {0, 1, 2, 31, 32, 33, 255, 256, 511, 512, 513, 1023, 1024, 4095, 4096, 4097, 65535, 65536, 200000}; int l = L[mc_choose(mc_thorough() ? 19 : 18, "size")], kind = mc_choose(7, "kind"), end = mc_choose(5, "end"); mc_shard(); if (l > 5000 && kind > 1) mc_skip(); if (l > 1100 && kind > 3) mc_skip(); files(); static const char *E[] = {"", "\n", "\r", "\r\n", "\n\n"};
	str t; if (kind == 0) t = str(l, 't'); else if (kind == 1) { for (int i = 0; (int)t.size() < l; i++) t += i % 8 ? "text" : "\n"; t.resize(l); } else if (kind == 2) for (int i = 0; i < l / 16; i++) t += "xXx @a xXx"; else if (kind == 3) for (int i = 0; i < l / 16; i++) t += "XxX f q XxX"; else if (kind == 4) for (int i = 0; i < l / 16; i++) t += "xXx LOOP i l xXx.xXx @i xXxxXx BBL xXx"; else if (kind == 5) for (int i = 0; i < l / 16; i++) t += "xXx UNLESS @no xXxcxXx ENDLESS xXx"; else for (int i = 0; i < l / 16; i++) t += "xXx @nl xXx\n";
	any(base(), t + E[end]);
}
static void empties() { // templates that render to nothing
	static const std::vector<const char *> T = {"xXx @b xXx", "xXx LOOP i none xXxtextxXx BBL xXx", "xXx LOOP i l xXxxXx BBL xXx", "xXx UNLESS @a xXxtextxXx ENDLESS xXx", "xXx UNLESS NOT @no xXxtextxXx ENDLESS xXx", "XxX z arg XxX", "XxX z XxX", "xXx UNLESS @no xXxxXx ENDLESS xXx", "xXx SCREAM empty xXx"};
	str t; int d = mc_choose(4, "length"); bool inline_ = false; for (int i = 0; i < d; i++) { int k = mc_choose(9, "directive"); bool blk = k >= 1 && k <= 4; blk = blk || k == 7; if (k == 8 && i + 1 < d) mc_skip(); if ((blk || k == 8) && inline_) mc_skip(); if (!blk) inline_ = true; t += T[k]; } int nl = mc_choose(2, "line end"); mc_shard(); files(); Ctx c = base(); calls.clear(); void *r = real(c); if (nl) t += "\n"; Exact e(t); size_t n = 99; char *o = sh_render(r, e.p, e.n, &n); CHECK(o && n == 0 && (!*o || (nl && !strcmp(o, "\n"))), "%s renders as %s, length %zu", Q(t), o ? Q(str(o)) : "nothing", n); env_free(o); sh_ctx_free(r); mc_nontrivial(); mc_outcome(d);
}
static void dotnames() { // names nothing can refer to, or only in part
	static const char *N[] = {"s.k", "a.", ".a", "a.b.c", "s.", "a b", "", "a\nb", "@a", "s.kk"}; static const std::vector<const char *> T = {"xXx UNLESS @s.k xXx", "xXx UNLESS NOT @s.k xXx", "xXx UNLESS NOT @a. xXx", "xXx UNLESS @.a xXx", "xXx UNLESS NOT @a.b.c xXx", "xXx UNLESS NOT @s. xXx", "xXx @s.k xXx", "XxX f xXx", "xXx ENDLESS xXx", "\n", "t"};
	int n = mc_choose(10, "name"), kind = mc_choose(4, "kind"), first = mc_choose(2, "first"), d = mc_choose(mc_thorough() ? 5 : 4, "length"); str t; for (int i = 0; i < d; i++) t += T[mc_choose(T.size(), "token")]; mc_shard(); files(); Ctx c, b = base(); if (!first) c = b; auto s = mk(); s->str_(N[n], "v").str_("k", "");
	if (kind == 0) c.str_(N[n], "v"); else if (kind == 1) c.str_(N[n], "FALSE"); else if (kind == 2) c.sub(N[n], s); else c.arr(N[n], {}); if (first) { c.v.insert(c.v.end(), b.v.begin(), b.v.end()); c.f = b.f; } any(c, t, false);
}
int main(int c, char **v) { return mc_main(c, v, {
	{"dotnames", dotnames, 0, 0, "10 names with dots, spaces or nothing x 4 kinds x first or last in the context, in all sequences of up to 3 (4) of 11 tokens"},
	{"empties", empties, 0, 0, "all sequences of up to 3 of 9 directives that render to nothing, with and without line end"},
	{"prefixes", prefixes, 0, 0, "every prefix of 6 templates followed by 4 kinds of bytes"},
	{"lengths", lengths, 0, 0, "18 (19) sizes around powers of two up to 64 KB (200 KB) x 7 kinds x 5 endings"},
	{"bytes", bytes, 0, 0, "all sequences of up to 5 (6) of the 7 bytes of directives, and every byte between two of them (all pairs of bytes)"},
	{"spaced", spaced, 0, 0, "all sequences of up to 4 (6) of 13 words separated by spaces"},
	{"pieces", pieces, 0, 0, "all sequences of up to 4 (5) of 18 pieces"},
	{"tokens", tokens, 0, 0, "all sequences of up to 4 (5) of 14 halves of directives"}}); }

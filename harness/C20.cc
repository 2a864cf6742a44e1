// C20: UNLESS and UNLESS NOT are complements.
#include "tmpl.h"
static void files() { inc_enter(); inc("inc.html", "inc xXx @t xXx"); }
static Ctx base() {
	Ctx c; c.str_("t", "yes").str_("tt", "FALSE").str_("f", "FALSE").str_("ff", "true").str_("e", "").str_("FA", "FALSEHOOD").str_("t", "FALSE"); c.arr("none", {}).arr("some", {S("x")}).arr("l", {S("FALSE"), S("v"), S("")});
	auto s = mk(); s->str_("t", "sub").str_("f", "FALSE").str_("e", "").str_("t", "FALSE").str_("ff", "FALSE positive"); s->arr("none", {}).arr("some", {S("")}); auto u = mk(); u->str_("t", "u"); s->sub("c", u); c.sub("s", s); auto v = mk(); v->str_("x", "1"); c.sub("empty", mk()).sub("st", v); c.flt("f", flt<0>()); return c;
}
static void run(const Ctx &c, const str &t) {
	if (!in_domain(c, t)) mc_skip();
	mc_note("%s", Q(t)); calls.clear(); ref_calls.clear(); void *r = real(c); expect(c, r, t); sh_ctx_free(r); mc_nontrivial();
}
static str blk(const str &v, bool n, const str &body) { return str("xXx UNLESS ") + (n ? "NOT " : "") + "@" + v + " xXx" + body + "xXx ENDLESS xXx"; }
static const std::vector<const char *> V = {"t", "tt", "f", "ff", "e", "FA", "none", "some", "l", "s", "empty", "missing", "F", "T", "so", "s.t", "s.f", "s.e", "s.ff", "s.none", "s.some", "s.c", "s.missing", "st.x", "st.t", "missing.t", "t.t", "empty.t", "s.", "so.t", "ss.t"};
static bool isplain(const str &v) { return v.find('.') == str::npos; }
static bool sound(const str &v) { return v.size() && v.back() != '.' && v[0] != '.'; }
static void pair_() { // exactly one of the two, whatever surrounds them
	str v = V[mc_choose(V.size(), "variable")]; int body = mc_choose(6, "body"), pre = mc_choose(4, "before"), post = mc_choose(4, "after"), order = mc_choose(2, "order"); mc_shard(); files(); if (!sound(v)) mc_skip();
	static const char *B[] = {"BLOCK", "", "\n", " xXx @ff xXx\n", "\nXxX f xXx @t xXx XxX\n", "a\nb\nc\n"}, *A[] = {"", "text\n", "text\n\n", "xXx @t xXx\n"}, *Z[] = {"", "text", "\nmore\n", " xXx @ff xXx"};
	Ctx c = base(); str t = str(A[pre]) + blk(v, order, B[body]) + Z[post]; run(c, t);
	if (!isplain(v)) return;
	// the complement, without the reference: exactly one contributes, and it contributes the same
	void *r = real(c); str yes = render(r, blk(v, 0, "BLOCK") + "|"), no = render(r, blk(v, 1, "BLOCK") + "|"); CHECK((yes == "|" && no == "BLOCK|") || (no == "|" && yes == "BLOCK|"), "UNLESS @%s renders %s and UNLESS NOT @%s renders %s", v.c_str(), Q(yes), v.c_str(), Q(no)); sh_ctx_free(r); mc_outcome(yes.size());
}
static void seq() { // any number of blocks, one after the other
	static const std::vector<str> T = {blk("t", 0, "1"), blk("t", 1, "2"), blk("f", 0, "3\n"), blk("f", 1, "4\n"), blk("s.t", 0, "5"), blk("s.t", 1, "6"), blk("s.f", 0, "7"), blk("s.f", 1, "8"), blk("missing", 0, " 9 xXx @ff xXx "), blk("missing", 1, "0"), "\n", "text", " ", "xXx @ff xXx", "xXx ENDLESS xXx"};
	str t; int d = mc_choose(mc_thorough() ? 6 : 5, "length"); for (int i = 0; i < d; i++) { t += T[mc_choose(T.size(), "part")]; if (i == 1) mc_shard(); } if (d < 2) mc_shard();
	files(); run(base(), t);
}
static void bodies() { // what a block contains
	static const std::vector<const char *> T = {"xXx @ff xXx", "xXx @s.t xXx", "XxX f x XxX", "XxX f xXx @ff xXx XxX", "XxX f XxX", "text", "\n", " ", "xXx", "FALSE", "\nxXx SCREAM inc.html xXx\n"};
	int n = mc_choose(2, "inverse"), shown = mc_choose(2, "shown"); str b; int d = mc_choose(mc_thorough() ? 5 : 4, "length"); for (int i = 0; i < d; i++) { const char *x = T[mc_choose(T.size(), "token")]; if (!n && strstr(x, "SCREAM")) mc_skip(); b += x; if (i == 1) mc_shard(); } if (d < 2) mc_shard();
	files(); run(base(), "a\n" + blk(shown == n ? "ff" : "f", n, b) + "z");
}
static void inverse_blocks() { // directives inside UNLESS NOT, which is rendered like a template of its own
	static const std::vector<str> T = {"xXx LOOP i l xXx<xXx @i xXx>xXx BBL xXx", "\nxXx SCREAM inc.html xXx\n", "\nxXx LOOP i some xXxxXx @i xXxxXx BBL xXx", "text\n", "xXx @ff xXx", "\n"};
	int shown = mc_choose(2, "shown"); str b; int d = mc_choose(mc_thorough() ? 6 : 5, "length"); for (int i = 0; i < d; i++) { b += T[mc_choose(T.size(), "part")]; if (i == 1) mc_shard(); } if (d < 2) mc_shard();
	files(); run(base(), blk(shown ? "ff" : "f", 1, b) + "end");
}
static void values() { // the truth of every kind of string
	static const char *W[] = {"FALSE", "FALS", "FALSE ", " FALSE", "FALSEFALSE", "false", "False", "0", "TRUE", "", " ", "F", "ALSE", "FALSE\n", "FALSF", "EFALSE"}; int w = mc_choose(19, "value"); int where = mc_choose(3, "where"), inv = mc_choose(2, "inverse"), kind = mc_choose(2, "in a loop"); mc_shard();
	str val = w < 16 ? str(W[w]) : w == 16 ? str(512, 'v') : w == 17 ? str(600, 'v') : "FALSE" + str(507, 'x');
	Ctx c; c.str_("v", where == 0 ? val : "other"); auto s = mk(); s->str_("v", where == 1 ? val : "x"); c.sub("s", s); c.arr("l", {S(where == 2 ? val : "x")}); files();
	str v = where == 0 ? "v" : where == 1 ? "s.v" : "i"; str t = blk(v, inv, "SHOWN") + "|"; if (kind || where == 2) t = "xXx LOOP i l xXx" + t + "xXx BBL xXx"; run(c, t);
}
static void strings() { // every string of up to so many characters of the one that is false
	static const char A[] = "FALSEYe \n"; int n = mc_choose(mc_thorough() ? 7 : 6, "length"); str v; if (n < 2) mc_shard(); bool near = true; for (int i = 0; i < n; i++) { v += A[mc_choose(9, "character")]; if (i == 1) mc_shard(); } (void)near; int inv = mc_choose(2, "inverse"); Ctx c; c.str_("v", v); files(); run(c, blk("v", inv, "SHOWN") + "|");
}
static void around() { // the false string with anything before or behind it
	str v = "FALSE", x; int n = mc_choose(mc_thorough() ? 4 : 3, "length"), before = mc_choose(2, "before"), cut = mc_choose(6, "kept"); static const char A[] = "FALSEHYfalse 0\t\n.\xff"; for (int i = 0; i < n; i++) x += A[mc_choose(sizeof A - 1, "character")]; mc_shard(); v = before ? x + v.substr(5 - cut) : v.substr(0, cut) + x; for (int inv = 0; inv < 2; inv++) { Ctx c; c.str_("v", v); auto s = mk(); s->str_("v", v); c.sub("s", s).arr("l", {S(v)}); files(); run(c, blk("v", inv, "SHOWN") + "|" + blk("s.v", inv, "DOTTED") + "|"); run(c, "xXx LOOP i l xXx" + blk("i", inv, "SHOWN") + "|xXx BBL xXx"); }
}
static void names() { // names of any length, prefixes of one another, plain and dotted
	int n = 1 + mc_choose(31, "length"), m = 1 + mc_choose(31, "other length"), dotted = mc_choose(3, "where"), inv = mc_choose(2, "inverse"), val = mc_choose(2, "value"), order = mc_choose(2, "order"); mc_shard(); if (n == m) mc_skip(); files();
	str a(n, 'q'), b(m, 'q'); Ctx c; auto put = [&](Ctx &k) { if (order) k.str_(b, val ? "FALSE" : "x"); k.str_(a, val ? "x" : "FALSE"); if (!order) k.str_(b, val ? "FALSE" : "x"); };
	if (dotted == 0) { put(c); run(c, blk(a, inv, "A") + blk(b, inv, "B")); } else if (dotted == 1) { auto s = mk(); put(*s); c.sub("s", s); run(c, blk("s." + a, inv, "A") + blk("s." + b, inv, "B")); }
	else { auto s = mk(), u = mk(); s->str_("v", val ? "x" : "FALSE"); u->str_("v", val ? "FALSE" : "x"); if (order) c.sub(b, u); c.sub(a, s); if (!order) c.sub(b, u); run(c, blk(a + ".v", inv, "A") + blk(b + ".v", inv, "B")); }
}
static void lengths() { // names longer than any name can be name nothing
	static const int L[] = {30, 31, 32, 33, 63, 64, 100, 255, 256, 257, 1000}; int a = L[mc_choose(11, "first")], b = L[mc_choose(11, "second")], inv = mc_choose(2, "inverse"), kind = mc_choose(3, "kind"); mc_shard(); files();
	Ctx c; str x(a, 'x'), y(b, 'y'); auto s = mk(); s->str_(y, "v"); c.str_(y, "v"); c.sub(x, s); str v = kind == 0 ? y : kind == 1 ? x + "." + y : "s." + y; run(c, "<\n" + blk(v, inv, "BODY") + ">");
}
static void loops() { // about the loop variable and outer ones, in loops, after loops
	static const char *W[] = {"i", "i.v", "t", "f", "l", "m", "missing", "s.t"}; int el = mc_choose(2, "elements"), n = mc_choose(4, "number"), v = mc_choose(8, "variable"), inv = mc_choose(2, "inverse"), v2 = mc_choose(8, "second variable"), inv2 = mc_choose(2, "second inverse"), nl = mc_choose(2, "line ends"); mc_shard(); files();
	Ctx c = base(); std::vector<Val> e; for (int j = 0; j < n; j++) { static const char *X[] = {"v", "FALSE", ""}; if (el) { auto k = mk(); k->str_("v", X[j % 3]); e.push_back(SC(k)); } else e.push_back(S(X[j % 3])); } c.arr("m", e);
	str z = nl ? "\n" : ""; run(c, "xXx LOOP i m xXx" + z + blk(W[v], inv, z + "A" + z) + z + blk(W[v2], inv2, "B" + z) + "xXx BBL xXx" + z + blk(W[v2], !inv2, "C"));
}
static void deep() { // many blocks and long bodies
	static const int N[] = {1, 2, 10, 50, 200}; int n = N[mc_choose(mc_thorough() ? 5 : 4, "blocks")], kind = mc_choose(4, "kind"); static const int L[] = {0, 1, 100, 2047, 2048, 2049, 5000}; int l = L[mc_choose(7, "length")], lines = mc_choose(2, "lines"); mc_shard(); files(); if (n * l > 60000) mc_skip();
	str b; while ((int)b.size() < l) b += lines ? "line\n" : "word "; b.resize(l); str t; for (int i = 0; i < n; i++) t += blk(kind == 0 ? "t" : kind == 1 ? "f" : i % 2 ? "t" : "f", kind == 3 ? i % 3 == 0 : 0, b) + num(i); run(base(), t);
}
static void nested() { static const std::vector<str> L = {"xXx UNLESS @i xXxUxXx ENDLESS xXx\nxXx UNLESS NOT @i xXxNxXx ENDLESS xXx", "xXx UNLESS @a xXxUxXx ENDLESS xXx\nxXx UNLESS NOT @a xXxNxXx ENDLESS xXx", "xXx UNLESS @i.v xXxUxXx ENDLESS xXx\nxXx UNLESS NOT @i.v xXxNxXx ENDLESS xXx", "xXx UNLESS NOT @j xXxxXx @j.k xXxxXx ENDLESS xXx"}; nest([](const Ctx &c, const str &t) { run(c, t); }, L); }
static void edits1() { static const std::vector<str> L = {"xXx UNLESS @no xXxyxXx ENDLESS xXx", "xXx UNLESS @a xXxyxXx ENDLESS xXx.", "xXx UNLESS NOT @a xXxyxXx ENDLESS xXx", "xXx UNLESS NOT @no xXxyxXx ENDLESS xXx", "xXx UNLESS NOT @s.k xXx\nyxXx ENDLESS xXx\nz", "xXx UNLESS @s.X xXxyxXx ENDLESS xXx"}; edits([](const Ctx &c, const str &t) { run(c, t); }, L, mc_thorough() ? 2 : 1); }
static void edits2() { static const std::vector<str> L = {"xXx UNLESS @a xXx.xXx ENDLESS xXx"}; edits([](const Ctx &c, const str &t) { run(c, t); }, L, 2); }
int main(int c, char **v) { return mc_main(c, v, {
	{"edits", edits1, 0, 0, "6 templates with every 1 (2) characters left out, put in, replaced or swapped (10 characters)"},
	{"edits2", edits2, 0, 0, "1 short templates with every 1 or 2 such changes (quick: within 8 characters of each other)"},
	{"nested", nested, 0, 0, NEST},
	{"pair", pair_, 0, 0, "31 references x 6 bodies x 4 texts before x 4 after x both blocks"},
	{"strings", strings, 0, 0, "every string of up to 5 (6) of 9 characters x both blocks"},
	{"around", around, 0, 0, "every beginning and end of FALSE with up to 2 (3) of 19 characters on either side x plain, dotted, loop variable x both blocks"},
	{"values", values, 0, 0, "19 strings x plain, dotted, loop variable x both blocks x in and out of loops"},
	{"names", names, 0, 0, "all pairs of different name lengths 1-31 x 3 places x both blocks x both values x both orders"},
	{"lengths", lengths, 0, 0, "11 x 11 name lengths around every limit x both blocks x 3 kinds"},
	{"loops", loops, 0, 0, "2 kinds of element x 0-3 elements x all pairs of 8 references and blocks, with and without line ends"},
	{"deep", deep, 0, 0, "up to 50 (200) blocks x 4 kinds x 7 body lengths x 2 shapes"},
	{"inverse", inverse_blocks, 0, 0, "all sequences of up to 4 (5) of 6 parts with directives inside UNLESS NOT, shown and not"},
	{"bodies", bodies, 0, 0, "all sequences of up to 3 (4) of 11 tokens inside both blocks, shown and not"},
	{"seq", seq, 0, 0, "all sequences of up to 4 (5) of 15 blocks, texts and line ends"}}); }

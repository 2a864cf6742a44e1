// C19: loops render their body once per element, in order.
#include "tmpl.h"
static Ctx base() { Ctx c; c.str_("a", "1").str_("i", "outer").str_("no", "FALSE"); auto s = mk(); s->str_("k", "sub"); c.sub("s", s); c.flt("f", flt<0>()).flt("n", flt<4>()); return c; }
static Val elem(int kind, int j) { if (kind == 2) kind = j % 2; if (kind == 0) return S(j % 3 == 2 ? "" : "e" + num(j)); auto k = mk(); k->str_("k", "K" + num(j)).str_("v", j % 2 ? "FALSE" : "yes"); return SC(k); }
static void run(const Ctx &c, const str &t) {
	if (!in_domain(c, t)) mc_skip();
	mc_note("%s", Q(t)); calls.clear(); ref_calls.clear(); void *r = real(c); expect(c, r, t); CHECK(calls.size() == ref_calls.size(), "%zu filter calls instead of %zu", calls.size(), ref_calls.size()); sh_ctx_free(r); mc_nontrivial();
}
static void files() { inc_enter(); inc("inc.html", "inc xXx @i xXx\nrest"); inc("item.html", "xXx @i.k xXx"); }
static void bodies() { // every body
	static const std::vector<const char *> T = {"xXx @i xXx", "xXx @i.k xXx", "xXx @a xXx", "text", "\n", "XxX f xXx @i xXx XxX", "\nxXx UNLESS NOT @i xXxTxXx ENDLESS xXx", "\nxXx UNLESS @i xXxFxXx ENDLESS xXx", "\nxXx SCREAM inc.html xXx\n", " ", "\nxXx UNLESS @i.v xXxSxXx ENDLESS xXx", "xXx @s.k xXx"};
	int kind = mc_choose(2, "elements"), n = mc_choose(mc_thorough() ? 4 : 3, "number"); if (n == 2) n = 3; str body; int d = mc_choose(mc_thorough() ? 5 : 4, "length"); for (int i = 0; i < d; i++) { body += T[mc_choose(12, "token")]; if (i == 1) mc_shard(); } if (d < 2) mc_shard();
	files(); Ctx c = base(); std::vector<Val> e; for (int j = 0; j < n; j++) e.push_back(elem(kind, j)); c.arr("l", e);
	run(c, "xXx LOOP i l xXx" + body + "xXx BBL xXx");
}
static void around() { // what surrounds loops, how many there are, and over what
	static const std::vector<const char *> T = {"xXx LOOP i l xXx<xXx @i xXx>xXx BBL xXx", "xXx LOOP j l xXx(xXx @j xXx)\nxXx BBL xXx", "xXx LOOP i m xXx[xXx @i.k xXx]xXx BBL xXx", "xXx LOOP i none xXxneverxXx BBL xXx", "xXx LOOP i l xXxxXx BBL xXx", "text", "\n", "xXx @i xXx", "  ", "xXx BBL xXx", "\n\txXx LOOP e l xXx\n  xXx @e xXx\n\txXx BBL xXx\n"};
	str t; int d = mc_choose(mc_thorough() ? 6 : 5, "length"); for (int i = 0; i < d; i++) { t += T[mc_choose(11, "part")]; if (i == 1) mc_shard(); } if (d < 2) mc_shard();
	files(); Ctx c = base(); c.arr("l", {S("x"), S(""), S("zz")}).arr("m", {elem(1, 0), elem(1, 1)}).arr("none", {}); run(c, t);
}
static void counts() { // any number of elements of any size
	static const int N[] = {0, 1, 2, 3, 15, 16, 17, 31, 32, 33, 64, 65, 100, 255, 256, 257, 1000, 1500}; int n = N[mc_choose(mc_thorough() ? 18 : 17, "elements")], kind = mc_choose(3, "kind"), body = mc_choose(3, "body"); static const size_t L[] = {0, 1, 37, 512}; size_t l = L[mc_choose(4, "length")]; mc_shard(); if (n > 300 && l > 100) mc_skip();
	files(); Ctx c = base(); std::vector<Val> e; for (int j = 0; j < n; j++) { str v = (num(j) + ":" + str(l, 'v')).substr(0, 512); if (kind == 0 || (kind == 2 && j % 2)) e.push_back(S(v)); else { auto k = mk(); k->str_("k", v); e.push_back(SC(k)); } } c.arr("l", e);
	const char *b = kind == 0 ? "xXx @i xXx," : kind == 1 ? "xXx @i.k xXx\n" : "."; run(c, str("before\nxXx LOOP i l xXx") + (body == 0 ? b : body == 1 ? "\nrow\n" : "") + "xXx BBL xXx\nafter"); mc_outcome(n * 10 + kind);
}
static void names() { // loop variable names and array names
	static const char *N[] = {"i", "ii", "_", "Item", "l", "ll", "a", "abcdefghijklmnopqrstuvwxyzABCDE"}; const char *v = N[mc_choose(8, "variable")], *a = N[mc_choose(8, "array")]; int other = mc_choose(8, "another array"); mc_shard(); files(); Ctx c; c.str_("outer", "O"); if (strcmp(N[other], a)) c.arr(N[other], {S("wrong")}); c.arr(a, {S("1"), S("2")}); c.arr(a, {S("hidden")}); str t = str("xXx LOOP ") + v + " " + a + " xXxxXx @" + v + " xXx xXx @outer xXx;xXx BBL xXx|"; run(c, t);
}
static void kinds() { // what is bound is a string, an integer or a sub-context, freely mixed
	int n = 1 + mc_choose(mc_thorough() ? 5 : 4, "number"), k[5]; for (int i = 0; i < n; i++) k[i] = mc_choose(3, "kind"); mc_shard(); void *r = sh_ctx(), *l = sh_add_array(r, "l"); str want;
	for (int i = 0; i < n; i++) if (k[i] == 0) { sh_loop_string(l, "str"); want += "(T)"; } else if (k[i] == 1) { sh_loop_int(l, i); want += "(T)"; } else { void *s = sh_ctx(); sh_add_string(s, "v", "x"); sh_loop_ctx(l, s); want += "(T)"; }
	sh_loop_done(l); for (int rep = 0; rep < 3; rep++) { str g = render(r, "xXx LOOP e l xXx(\nxXx UNLESS NOT @e xXxTxXx ENDLESS xXx\n)xXx BBL xXx"); str w; for (int i = 0; i < n; i++) w += "(\nT\n)"; CHECK(g == w, "renders as %s instead of %s", Q(g), Q(w)); }
	sh_ctx_free(r); mc_nontrivial(); mc_outcome(mc_hash(want, n));
}
static void integers() { // integers come out in decimal, next to each other and to strings, bare, in a filter and as a condition
	static const int I[] = {0, 1, -1, 7, -9, 10, -10, 255, -256, 65536, -100000, 2147483647, -2147483647 - 1}; int n = mc_choose(mc_thorough() ? 4 : 3, "number") + 1, form = mc_choose(4, "body"); void *r = sh_ctx(), *l = sh_add_array(r, "l"); str w; sh_add_filter(r, "f", fcall<0>, fclean<0>); std::vector<str> e;
	for (int i = 0; i < n; i++) { int k = mc_choose(14, "element"); if (i == 0) mc_shard(); if (k == 13) { e.push_back("str"); CHECK(sh_loop_string(l, "str") == 0, "adding a string fails"); } else { e.push_back(num(I[k])); CHECK(sh_loop_int(l, I[k]) == 0, "adding an integer fails"); } }
	sh_loop_done(l); static const char *B[] = {"(xXx @e xXx)", "xXx @e xXx", "\nxXx UNLESS NOT @e xXxxXx @e xXx;xXx ENDLESS xXx", "[XxX f xXx @e xXx XxX]"};
	for (auto &x : e) w += form == 0 ? "(" + x + ")" : form == 1 ? x : form == 2 ? x + ";" : "[" + flt<0>().ref(x.c_str()) + "]";
	for (int rep = 0; rep < 2; rep++) { str g = render(r, str("xXx LOOP e l xXx") + B[form] + "xXx BBL xXx"); CHECK(g == w, "renders as %s instead of %s", Q(g), Q(w)); } sh_ctx_free(r); mc_nontrivial(); mc_outcome(mc_hash(w, n));
}
static void repeats() { // elements that are equal to their neighbours, empty, or look like markup
	static const char *E[] = {"", "a", "a ", "xXx @i xXx", "0", "FALSE"}; int n = 1 + mc_choose(mc_thorough() ? 5 : 4, "number"), body = mc_choose(6, "body"), sub = mc_choose(2, "sub-contexts"); mc_shard(); std::vector<Val> e;
	for (int i = 0; i < n; i++) { const char *v = E[mc_choose(6, "element")]; if (!sub) e.push_back(S(v)); else { auto k = mk(); k->str_("k", v); e.push_back(SC(k)); } }
	static const char *B[2][6] = {{"<xXx @i xXx>", ".", "xXx @i xXx", "\nxXx UNLESS NOT @i xXxTxXx ENDLESS xXx", "XxX f xXx @i xXx XxX", "\nxXx UNLESS @i xXxFxXx ENDLESS xXx"}, {"<xXx @i.k xXx>", "\n", "xXx @i.k xXx", "\nxXx UNLESS NOT @i.k xXxTxXx ENDLESS xXx", "XxX f xXx @i.k xXx XxX", "\nxXx UNLESS @i.k xXxFxXx ENDLESS xXx"}};
	Ctx c = base(); c.arr("l", e); run(c, str("xXx LOOP i l xXx") + B[sub][body] + "xXx BBL xXx|xXx @i xXx");
}
static void nested() { static const std::vector<str> L = {"xXx LOOP i l xXx<xXx @i xXx>xXx BBL xXxxXx @a xXx", "xXx LOOP q m xXxxXx @q.k xXxxXx @i xXxxXx BBL xXx", "xXx LOOP i l xXxXxX f xXx @i xXx XxXxXx BBL xXxxXx @i xXx"}; nest([](const Ctx &c, const str &t) { run(c, t); }, L); }
static void edits1() { static const std::vector<str> L = {"xXx LOOP i l xXxxXx @i xXx,xXx BBL xXx", "\nxXx LOOP x m xXx.xXx @x.k xXx xXx BBL xXx.\nxXx @x xXx", "xXx LOOP i l xXx\nxXx BBL xXxe"}; edits([](const Ctx &c, const str &t) { run(c, t); }, L, mc_thorough() ? 2 : 1); }
static void edits2() { static const std::vector<str> L = {"xXx LOOP a l xXx.xXx BBL xXx"}; edits([](const Ctx &c, const str &t) { run(c, t); }, L, 2); }
int main(int c, char **v) { return mc_main(c, v, {
	{"edits", edits1, 0, 0, "3 templates with every 1 (2) characters left out, put in, replaced or swapped (10 characters)"},
	{"edits2", edits2, 0, 0, "1 short templates with every 1 or 2 such changes (quick: within 8 characters of each other)"},
	{"repeats", repeats, 0, 0, "all lists of up to 4 (5) of 6 texts, empty, equal to their neighbours or looking like markup, as strings and in sub-contexts x 6 bodies"},
	{"nested", nested, 0, 0, NEST},
	{"integers", integers, 0, 0, "all lists of up to 3 (4) of 13 integers and a string x 4 bodies"},
	{"kinds", kinds, 0, 0, "all mixtures of up to 4 (5) strings, integers and sub-contexts, looped over three times"},
	{"names", names, 0, 0, "8 variable names x 8 array names x 8 other arrays, and an array of the same name added later"},
	{"counts", counts, 0, 0, "17 (18) sizes up to 1000 (1500) around the vector's growth points x 3 kinds x 3 bodies x 4 value lengths"},
	{"around", around, 0, 0, "all sequences of up to 4 (5) of 11 parts: loops, text, line ends, references"},
	{"bodies", bodies, 0, 0, "all bodies of up to 3 (4) of 12 tokens x 2 kinds of element x 0, 1, 3 elements"}}); }

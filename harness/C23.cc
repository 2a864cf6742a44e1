// C23: contexts keep what is added; rendering never changes them; freeing releases everything once.
#include "tmpl.h"
static void ops() { // every sequence of additions and renderings, the context compared with the model after each
	struct A { const char *n; int kind; const char *v; }; static const A OP[] = {{"a", 0, "1"}, {"a", 0, "2"}, {"ab", 0, ""}, {"b", 1, nullptr}, {"a", 1, nullptr}, {"s", 2, nullptr}, {"a", 2, nullptr}, {"f", 3, nullptr}, {"ab", 3, nullptr}};
	int d = mc_thorough() ? 5 : 4, op[6]; for (int i = 0; i < d; i++) { op[i] = mc_choose(9, "operation"); if (i == 1) mc_shard(); } if (d < 2) mc_shard();
	Ctx c; void *r = sh_ctx(); str log;
	for (int i = 0; i < d; i++) {
		int o = op[i];
		const A &a = OP[o]; log += num(o); auto k = mk(); k->str_("k", "K" + num(i)); int rc = 0;
		if (a.kind == 0) { c.str_(a.n, a.v); rc = sh_add_string(r, a.n, a.v); } else if (a.kind == 1) { c.arr(a.n, {S("e" + num(i)), SC(k)}); void *l = sh_add_array(r, a.n); rc = sh_loop_string(l, ("e" + num(i)).c_str()); rc |= sh_loop_ctx(l, real(*k)); sh_loop_done(l); } else if (a.kind == 2) { c.sub(a.n, k); rc = sh_add_ctx(r, a.n, real(*k)); } else { Flt f = i % 2 ? flt<0>() : flt<1>(); c.flt(a.n, f); rc = sh_add_filter(r, a.n, f.f, f.clean); }
		CHECK(rc == 0, "adding returns %d", rc); mc_step();
		// everything reachable by name
		for (const char *n : {"a", "ab", "b", "s"}) { const Val *v = find(&c, n); str t = !v ? "" : v->kind == 0 ? str("xXx @") + n + " xXx" : v->kind == 2 ? str("xXx @") + n + ".k xXx" : str("xXx LOOP i ") + n + " xXx.xXx BBL xXx"; if (v) expect(c, r, t); }
		for (const char *n : {"f", "ab"}) if (findf(&c, n)) { expect(c, r, str("XxX ") + n + " arg XxX"); }
	}
	mc_note("operations %s", log.c_str()); sh_ctx_free(r); mc_nontrivial();
}
static void counts() { // any number of values and filters
	static const int N[] = {0, 1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 300}; int n = N[mc_choose(18, "values")], m = N[mc_choose(18, "filters")], kind = mc_choose(4, "kind"); mc_shard(); if (n > 129 && m > 64) mc_skip();
	Ctx c; for (int i = 0; i < n; i++) { str k = "v" + num(i); int q = kind == 3 ? i % 3 : kind; if (q == 0) c.str_(k, "<" + num(i)); else if (q == 1) { str a = "v"; int j = i; do a += 'a' + j % 26; while (j /= 26); c.arr(a, {S(num(i))}); } else { auto s = mk(); s->str_("k", num(i)); c.sub(k, s); } } for (int i = 0; i < m; i++) c.flt("f" + num(i), i % 2 ? flt<0>() : flt<1>());
	void *r = real(c); str t; for (int i = 0; i < n; i++) { int q = kind == 3 ? i % 3 : kind; if (q == 0) t += "xXx @v" + num(i) + " xXx"; else if (q == 1) { str a = "v"; int j = i; do a += 'a' + j % 26; while (j /= 26); t += "\nxXx LOOP i " + a + " xXx(xXx @i xXx)xXx BBL xXx\n"; if (n > 130) break; } else t += "xXx @v" + num(i) + ".k xXx"; } if (n > 130 && kind == 3) t = "xXx @v0 xXxxXx @v297 xXxxXx @v299.k xXx";
	expect(c, r, t); t = ""; for (int i = 0; i < m; i++) t += "XxX f" + num(i) + " ab XxX"; expect(c, r, t); sh_ctx_free(r); mc_nontrivial();
}
static void thousands() { // a thousand values and more: the last ones are found as well as the first
	static const int N[] = {255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2000, 2047, 2048, 2049, 4097}; int n = N[mc_choose(mc_thorough() ? 14 : 11, "values")], kind = mc_choose(4, "kind"); mc_shard(); Ctx c; for (int i = 0; i < n; i++) { str k = "v" + num(i); if (kind == 0) c.str_(k, num(i)); else if (kind == 1) { auto s = mk(); s->str_("k", num(i)); c.sub(k, s); } else if (kind == 2) c.flt(k, i % 2 ? flt<0>() : flt<1>()); }
	if (kind == 3) { auto s = mk(); for (int i = 0; i < n; i++) s->str_("v" + num(i), num(i)); c.sub("s", s); } void *r = real(c); str t; for (int i : {0, n / 2, n - 2, n - 1}) { str k = "v" + num(i); t += kind == 0 ? "xXx @" + k + " xXx," : kind == 1 ? "xXx @" + k + ".k xXx," : kind == 2 ? "XxX " + k + " ab XxX," : "xXx @s." + k + " xXx,"; } mc_note("%d values of kind %d", n, kind); expect(c, r, t); sh_ctx_free(r); CHECK(env_live() == 0, "freeing the context left %s", env_live_desc().c_str()); mc_nontrivial();
}
static void lengths() { // values up to 512 bytes, names up to 31
	int len = mc_choose(mc_thorough() ? 700 : 530, "length"), where = mc_choose(3, "where"), byte = mc_choose(2, "byte"); mc_shard(); str v(len, byte ? 'v' : '\xc3'); if (len) v[len - 1] = '.'; Ctx c; c.str_("first", "F"); if (where == 0) c.str_("v", v); else if (where == 1) c.arr("l", {S("x"), S(v), S("y")}); else { auto s = mk(); s->str_("v", v); c.sub("s", s); } c.str_("last", "L");
	void *r = real(c); str t = where == 0 ? "xXx @v xXx" : where == 1 ? "xXx LOOP i l xXx[xXx @i xXx]xXx BBL xXx" : "xXx @s.v xXx"; expect(c, r, t); expect(c, r, "xXx @first xXx" "xXx @last xXx"); sh_ctx_free(r); mc_nontrivial();
}
static void ints() { // every int comes out in decimal
	static const int B[] = {0, 1, -1, 9, 10, -9, -10, 99, 100, 127, 128, 255, 256, 999, 1000, -999, -1000, 32767, 65536, 999999, 1000000, 99999999, 100000000, 999999999, 1000000000, -99999999, -100000000, -999999999, -1000000000, 2147483646, 2147483647, -2147483646, -2147483647, -2147483647 - 1};
	int v = B[mc_choose(sizeof B / sizeof *B, "value")], d = mc_choose(5, "near") - 2, where = mc_choose(3, "where"); mc_shard(); if ((d > 0 && v > 2147483647 - d) || (d < 0 && v < -2147483647 - 1 - d)) mc_skip(); v += d;
	void *r = sh_ctx(); str t, w = num(v); if (where == 0) { sh_add_int(r, "v", v); t = "[xXx @v xXx]"; w = "[" + w + "]"; } else if (where == 1) { void *l = sh_add_array(r, "l"); sh_loop_int(l, v); sh_loop_string(l, "x"); sh_loop_int(l, v); sh_loop_done(l); t = "xXx LOOP i l xXx[xXx @i xXx]xXx BBL xXx"; w = "[" + w + "][x][" + w + "]"; } else { void *s = sh_ctx(); sh_add_int(s, "v", v); sh_add_ctx(r, "s", s); t = "[xXx @s.v xXx]"; w = "[" + w + "]"; }
	for (int k = 0; k < 2; k++) { str g = render(r, t); CHECK(g == w, "int %d renders as %s instead of %s", v, Q(g), Q(w)); } sh_ctx_free(r); mc_nontrivial(); mc_outcome(mc_hash(w)); mc_state(mc_hash(w, where));
}
static void longs() { static const int L[] = {1000, 4096, 70000, 1000000}; int l = L[mc_choose(4, "length")], where = mc_choose(3, "where"); mc_shard(); str v(l, 'v'); Ctx c; if (where == 0) c.str_("v", v); else if (where == 1) c.arr("l", {S(v)}); else { auto s = mk(); s->str_("v", v); c.sub("s", s); } void *r = real(c); expect(c, r, where == 0 ? "xXx @v xXx" : where == 1 ? "xXx LOOP i l xXxxXx @i xXxxXx BBL xXx" : "xXx @s.v xXx"); sh_ctx_free(r); mc_nontrivial(); }
static void longnames() { // names beyond 31 characters are cut there, for every kind
	int n = 1 + mc_choose(80, "length"), kind = mc_choose(6, "kind"); mc_shard(); str a(n, 'n'), k = cutname(a); Ctx c; auto s = mk(); s->str_(a, "in"); s->str_("k", "sub"); if (kind == 0) c.str_(a, "v"); else if (kind == 1) c.arr(a, {S("e")}); else if (kind == 2) c.sub(a, s); else if (kind == 3) c.sub("s", s); else if (kind == 4) { c.flt(k, flt<0>()); }
	c.str_("next", "N"); void *r = real(c); if (kind == 5) { Exact e(a, true); CHECK(sh_add_int(r, e.p, -70 - n) == 0, "adding an int fails"); c.str_(a, num(-70 - n)); } str t = kind == 0 || kind == 5 ? "xXx @" + k + " xXx" : kind == 1 ? "xXx LOOP i " + k + " xXxxXx @i xXxxXx BBL xXx" : kind == 2 ? "xXx @" + k + ".k xXx" : kind == 3 ? "xXx @s." + k + " xXx" : "XxX " + k + " a XxX"; expect(c, r, t + "xXx @next xXx"); sh_ctx_free(r); mc_nontrivial();
}
static Ctx rich() { Ctx c; auto s = mk(), s2 = mk(), e = mk(), g = mk(); s2->str_("k", "deep"); s->str_("k", "sub").sub("s", s2); e->str_("k", "E0").str_("v", "FALSE"); g->str_("k", "E1").str_("v", "yes"); c.str_("a", "1").str_("no", "FALSE").sub("s", s).arr("l", {S("x"), S("y")}).arr("m", {SC(e), SC(g)}).arr("none", {}).arr("mix", {S("z"), SC(e)}).flt("f", flt<0>()).flt("n", flt<2>()); return c; }
static const std::vector<str> TT = {"", "xXx @a xXx", "xXx LOOP i l xXxxXx @i xXxxXx BBL xXx", "xXx LOOP i m xXxxXx @i.k xXx xXx BBL xXx", "xXx LOOP i mix xXx.xXx BBL xXx", "xXx UNLESS NOT @s xXx\nxXx @s.k xXx\nxXx ENDLESS xXx", "XxX f xXx @a xXx XxXXxX n XxX", "xXx SCREAM inc.html xXx", "xXx LOOP i m xXx\nxXx UNLESS @i.v xXxxXx @i.k xXxxXx ENDLESS xXx\nxXx BBL xXx", "text\n", "xXx LOOP i none xXxnxXx BBL xXx"};
static void history() { // every sequence of renderings of one context gives what a fresh context gives
	int d = 1 + mc_choose(mc_thorough() ? 5 : 4, "length"), w[5]; for (int i = 0; i < d; i++) { w[i] = mc_choose(TT.size(), "template"); if (i == 1) mc_shard(); } if (d < 2) mc_shard(); inc_enter(); inc("inc.html", "xXx LOOP i l xXx+xXx @i xXxxXx BBL xXx xXx LOOP e m xXx-xXx @e.k xXx xXx BBL xXx");
	Ctx c = rich(); void *r = real(c); for (int i = 0; i < d; i++) { mc_note("%s", Q(TT[w[i]])); expect(c, r, TT[w[i]]); } sh_ctx_free(r); mc_nontrivial();
}
static void repeats() { int t = mc_choose(TT.size(), "template"), n = 2 + mc_choose(40, "renderings"); mc_shard(); inc_enter(); inc("inc.html", "xXx LOOP i l xXx+xXx @i xXxxXx BBL xXx"); Ctx c = rich(); void *r = real(c); for (int i = 0; i < n; i++) expect(c, r, TT[t]); sh_ctx_free(r); mc_nontrivial(); }
static int nodes; static P tree(int depth, str &t, const str &path, Ctx *into, int dotted) { // a tree of contexts
	(void)path; (void)dotted; auto c = mk(); nodes++; c->str_("k", "n" + num(nodes)); int n = depth ? mc_choose(3, "children") : 0; for (int i = 0; i < n; i++) { int how = mc_choose(2, "how"); auto k = tree(depth - 1, t, path, nullptr, 0); if (how) c->arr(str("l") + (char)('a' + i), {SC(k), S("x")}); else c->sub(str("s") + (char)('a' + i), k); } (void)into; return c;
}
static void walk(const Ctx &c, str &t, int d) { for (auto &x : c.v) if (x.second.kind == 0) t += "xXx @" + x.first + " xXx\n"; else if (x.second.kind == 2) t += "xXx @" + x.first + ".k xXx\n"; else if (d < 1) t += "xXx LOOP i " + x.first + " xXx<>xXx BBL xXx\n"; }
static void frees() { // trees of contexts, rendered or not, are released exactly once
	nodes = 0; str dummy; P root = tree(mc_thorough() ? 3 : 2, dummy, "", nullptr, 0); int rend = mc_choose(3, "renderings"); mc_shard(); Ctx &c = *root; void *r = real(c); str t; walk(c, t, 0); for (int i = 0; i < rend; i++) expect(c, r, t); sh_ctx_free(r); CHECK(env_live() == 0, "freeing the context left %s", env_live_desc().c_str()); mc_nontrivial(); mc_outcome(nodes * 10 + rend); mc_state(mc_hash(t, nodes));
}
static void hollow() { // contexts without values, or with filters only, are contexts all the same
	int n = 1 + mc_choose(mc_thorough() ? 4 : 3, "entries"), rend = mc_choose(3, "renderings"); Ctx c; str t, names; auto body = [&](int k) { auto s = mk(); if (k == 1) s->flt("f", flt<0>()); if (k == 2) s->arr("e", {}); if (k == 3) s->sub("s", mk()); if (k == 4) s->arr("e", {SC(mk())}); if (k == 5) s->str_("", ""); return s; };
	for (int i = 0; i < n; i++) { int how = mc_choose(i > 1 && !mc_thorough() ? 3 : 5, "how"), k = mc_choose(i > 1 && !mc_thorough() ? 3 : 6, "contents"); if (i == 0) mc_shard(); str nm(1, 'a' + i); if (how == 0) c.sub(nm, body(k)); else if (how == 1) c.arr(nm, {SC(body(k))}); else if (how == 2) c.arr(nm, {S(""), SC(body(k)), SC(body(5 - k))}); else if (how == 3) c.flt(nm, flt<0>()); else c.arr(nm, {}); if (how == 1 || how == 2 || how == 4) t += "xXx LOOP i " + nm + " xXx.xXx BBL xXx"; if (how != 3) t += "xXx UNLESS NOT @" + nm + " xXxTxXx ENDLESS xXx"; else names = nm; }
	if (names.size()) t += "XxX " + names + " q XxX"; void *r = real(c); mc_note("%s", Q(t)); for (int i = 0; i < rend; i++) expect(c, r, t); sh_ctx_free(r); CHECK(env_live() == 0, "freeing the context left %s", env_live_desc().c_str()); mc_nontrivial(); mc_outcome(mc_hash(t, rend)); mc_state(mc_hash(t, n)); }
static void owned() { // arrays and contexts of any number of contexts are released completely
	static const int N[] = {1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 255, 256, 257, 600}; int n = N[mc_choose(19, "contexts")], kind = mc_choose(4, "kind"), rend = mc_choose(3, "renderings"), inner = mc_choose(2, "inner"); mc_shard(); mc_note("%d contexts, kind %d", n, kind);
	auto item = [&](int i) { auto k = mk(); k->str_("k", num(i)); if (inner) { auto z = mk(); z->str_("k", "z"); k->arr("l", {SC(z)}).sub("s", z); } return k; }; Ctx c; std::vector<Val> a, b; for (int i = 0; i < n; i++) { if (kind == 0) a.push_back(SC(item(i))); else if (kind == 1) c.sub("s" + num(i), item(i)); else if (kind == 2) { if (i % 2) a.push_back(SC(item(i))); else b.push_back(SC(item(i))); } else { str q = "l"; int j = i; do q += 'a' + j % 26; while (j /= 26); c.arr(q, {SC(item(i)), S("x")}); } }
	if (kind == 0 || kind == 2) c.arr("a", a); if (kind == 2) c.arr("b", b); void *r = real(c); str t = kind == 0 ? "xXx LOOP i a xXxxXx @i.k xXx,xXx BBL xXx" : kind == 1 ? "xXx @s0.k xXxxXx @s" + num(n - 1) + ".k xXx" : kind == 2 ? "xXx LOOP i b xXxxXx @i.k xXx,xXx BBL xXx" : "xXx LOOP i la xXx.xXx BBL xXx"; for (int i = 0; i < rend; i++) expect(c, r, t); sh_ctx_free(r); CHECK(env_live() == 0, "freeing the context left %s", env_live_desc().c_str()); mc_nontrivial(); mc_state(n * 8 + kind); mc_outcome(n * 4 + kind);
}
static void source() { // what was added is a copy: the caller's memory may change or go away
	int kind = mc_choose(5, "kind"), way = mc_choose(2, "change"); mc_shard(); void *r = sh_ctx(); char *n = strdup("name"), *v = strdup("value"); void *l = nullptr; str t = "xXx @name xXx", w = "value"; void *k = nullptr;
	switch (kind) { case 0: sh_add_string(r, n, v); break; case 1: l = sh_add_array(r, n); sh_loop_string(l, v); t = "xXx LOOP i name xXxxXx @i xXxxXx BBL xXx"; break; case 2: k = sh_ctx(); sh_add_string(k, "k", v); sh_add_ctx(r, n, k); t = "xXx @name.k xXx"; break; case 3: sh_add_int(r, n, 77); w = "77"; break; default: sh_add_filter(r, n, fcall<0>, fclean<0>); t = "XxX name value XxX"; w = "<value>"; }
	calls.clear(); if (way) { memset(n, '?', 4); memset(v, '?', 5); } free(n); free(v); str g = render(r, t); CHECK(g == w, "renders as %s instead of %s", Q(g), Q(w)); if (l) { sh_loop_string(l, "more"); g = render(r, t); CHECK(g == "valuemore", "appended to a loop after a rendering: %s", Q(g)); sh_loop_done(l); } if (k) { sh_add_string(k, "later", "L"); g = render(r, "xXx @name.later xXx"); CHECK(g == "L", "added to a sub-context after a rendering: %s", Q(g)); } sh_ctx_free(r); mc_nontrivial(); mc_outcome(kind * 2 + way);
}
static void loopsize() { // loops grow with other arrays between; handles stay valid
	static const int N[] = {0, 1, 15, 16, 17, 31, 32, 33, 64, 65, 257}; int a = N[mc_choose(11, "first")], b = N[mc_choose(11, "second")], inter = mc_choose(3, "interleaving"); mc_shard(); void *r = sh_ctx(); void *x = sh_add_array(r, "x"), *y = sh_add_array(r, "y"); str wx, wy; auto ax = [&](int i) { sh_loop_int(x, i); wx += num(i) + ","; }; auto ay = [&](int i) { str s = "s" + num(i); sh_loop_string(y, s.c_str()); wy += s + ","; };
	if (inter == 0) { for (int i = 0; i < a; i++) ax(i); for (int i = 0; i < b; i++) ay(i); } else for (int i = 0; i < std::max(a, b); i++) { if (i < a) ax(i); if (i < b) ay(i); if (inter == 2) sh_add_int(r, ("v" + num(i)).c_str(), i); }
	for (int k = 0; k < 2; k++) { str g = render(r, "xXx LOOP i x xXxxXx @i xXx,xXx BBL xXx"); CHECK(g == wx, "first loop gives %s instead of %s", Q(g), Q(wx)); g = render(r, "xXx LOOP i y xXxxXx @i xXx,xXx BBL xXx"); CHECK(g == wy, "second loop gives %s instead of %s", Q(g), Q(wy)); } sh_loop_done(x); sh_loop_done(y); sh_ctx_free(r); mc_nontrivial(); mc_outcome(mc_hash(wx + wy));
}
int main(int c, char **v) { return mc_main(c, v, {
	{"hollow", hollow, 0, 0, "all contexts of up to 3 (4) entries of 5 kinds x 6 contents (nothing, a filter, an empty loop, empty sub-contexts) x 0-2 renderings"},
	{"owned", owned, 0, 0, "19 numbers of contexts up to 600, in one array, two, many, or directly, with and without contexts of their own, rendered 0-2 times"},
	{"source", source, 0, 0, "5 kinds of additions from memory that changes and goes away; later additions"},
	{"lengths", lengths, 0, 0, "every value length 0-529 (699) x 3 places x 2 bytes"},
	{"ints", ints, 0, 0, "34 boundary ints and their neighbours x 3 places"},
	{"longs", longs, 0, 0, "values up to 1 MB x 3 places"},
	{"longnames", longnames, 0, 0, "every name length 1-80 x 6 kinds"},
	{"thousands", thousands, 0, 0, "11 (14) numbers of values, sub-contexts, filters or values of a sub-context up to 2047 (4097)"},
	{"counts", counts, 0, 0, "18 numbers of values x 18 of filters x 4 kinds"},
	{"loopsize", loopsize, 0, 0, "11 x 11 sizes of two arrays x 3 interleavings, rendered twice"},
	{"frees", frees, 0, 0, "all context trees of depth 3 (4) with up to 2 children, as sub-contexts or in arrays, rendered 0-2 times"},
	{"repeats", repeats, 0, 0, "11 templates rendered 2-41 times"},
	{"history", history, 0, 0, "all sequences of up to 4 (5) of 11 templates rendered from one context"},
	{"ops", ops, 0, 0, "all sequences of 4 (5) additions of 9 kinds, everything looked up after each"}}); }

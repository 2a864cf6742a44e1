// C18: text verbatim, the right variables.
#include "tmpl.h"
#include <setjmp.h>
#include <unistd.h>
static str join(const std::vector<const char *> &T, int depth, const char *l, int shard_at = 1) {
	str t; int n = mc_choose(depth + 1, "length"); for (int i = 0; i < n; i++) { t += T[mc_choose(T.size(), l)]; if (i == shard_at) mc_shard(); } if (n <= shard_at) mc_shard(); return t;
}
static void run(const Ctx &c, const str &t) {
	if (!in_domain(c, t)) mc_skip();
	mc_note("%s", Q(t)); void *r = real(c); expect(c, r, t); sh_ctx_free(r); mc_nontrivial();
}
static Ctx base() {
	Ctx c; c.str_("a", "1").str_("ab", "two words").str_("a", "second").str_("b", "").str_("abc", "<&%s%n\\>").str_("_", "under"); auto s = mk(), u = mk(); s->str_("a", "sa").str_("ab", "").str_("a", "sa2"); u->str_("a", "ua").str_("b", "ub"); c.sub("s", s).sub("sa", u).sub("s", u); return c;
}
static void tokens() {
	static const std::vector<const char *> T = {"xXx @a xXx", "xXx @ab xXx", "xXx @b xXx", "xXx @s.a xXx", "xXx @sa.a xXx", " ", "\n", "t", "xXx", "@a"};
	Ctx c = base(); run(c, join(T, mc_thorough() ? 6 : 5, "token"));
}
static void rare() { // the other names, line ends and bytes
	static const std::vector<const char *> T = {"xXx @a xXx", "xXx @abc xXx", "xXx @_ xXx", "xXx @s.ab xXx", "xXx @sa.b xXx", "\r\n", "\r", "\xff\xc3\xa9", "XxX", " xXx", "\t", "x", "%s", "xXx @ xXx", "xXx a xXx", "xXx @a. xXx", "xXx @.a xXx"};
	Ctx c = base(); run(c, join(T, mc_thorough() ? 5 : 4, "token"));
}
static void verbatim() { // text without directives, over the characters directives are made of
	static const std::vector<const char *> T = {"x", "X", " ", "@", "a", "\n", ".", "\r"};
	Ctx c = base(); run(c, join(T, mc_thorough() ? 7 : 5, "character", 2));
}
static void near() { // directive words that are not directives
	static const std::vector<const char *> T = {"xXx", "XxX", "LOOP", "BBL", "UNLESS", "ENDLESS", "SCREAM", "NOT", "@a", " ", "\n", "i"};
	Ctx c = base(); str t = join(T, mc_thorough() ? 5 : 4, "word"); run(c, t);
}
static void names() { // names of all lengths, all of them prefixes of one another
	int n = 1 + mc_choose(31, "length"), m = 1 + mc_choose(31, "other length"), order = mc_choose(2, "order"), dotted = mc_choose(3, "where"), ch = mc_choose(4, "character"); mc_shard();
	const char *al = "zZ9_"; str a(n, al[ch]), b(m, al[ch]); if (n == m) b[m - 1] = al[(ch + 1) % 4];
	Ctx c; auto put = [&](Ctx &k) { if (order) k.str_(a, "first").str_(b, "second"); else k.str_(b, "second").str_(a, "first"); };
	str x, y;
	if (dotted == 0) { put(c); x = a; y = b; } else if (dotted == 1) { auto s = mk(); put(*s); c.sub("s", s); x = "s." + a; y = "s." + b; } else { auto s = mk(), u = mk(); s->str_("v", "in a"); u->str_("v", "in b"); if (order) c.sub(a, s).sub(b, u); else c.sub(b, u).sub(a, s); x = a + ".v"; y = b + ".v"; }
	run(c, "xXx @" + x + " xXx|xXx @" + y + " xXx|xXx @" + x + " xXx");
}
static void many() { // any number of references and any length of values and text
	int n = mc_choose(mc_thorough() ? 200 : 60, "references"), kind = mc_choose(4, "kind"); static const size_t L[] = {0, 1, 100, 511, 512}; size_t vl = L[mc_choose(5, "value length")]; int sep = mc_choose(3, "separator"); mc_shard();
	Ctx c; c.str_("v", str(vl, 'V')).str_("w", "W"); auto s = mk(); s->str_("v", str(vl, 'S')); c.sub("s", s); str t;
	for (int i = 0; i < n; i++) { int k = kind == 3 ? i % 3 : kind; t += k == 0 ? "xXx @v xXx" : k == 1 ? "xXx @s.v xXx" : "xXx @w xXx"; t += sep == 0 ? "" : sep == 1 ? " - " : "\n"; }
	run(c, t);
}
static void crowd() { // any number of variables, in every scope, with the same name again later
	static const int N[] = {1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 34, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300}; int n = N[mc_choose(23, "variables")], w = mc_choose(4, "which"), again = mc_choose(3, "again"), where = mc_choose(3, "where"); mc_shard(); Ctx c; auto s = mk(); Ctx &k = where == 1 ? *s : c; for (int i = 0; i < n; i++) k.str_("v" + num(i), "<" + num(i) + ">"); int i = w == 0 ? 0 : w == 1 ? n - 1 : w == 2 ? n / 2 : (n > 32 ? 32 : n - 1); if (again) k.str_("v" + num(i), "again"); if (again == 2) for (int j = 0; j < 40; j++) k.str_("w" + num(j), "more"); if (where == 1) c.sub("s", s); str t = str("xXx @") + (where == 1 ? "s." : "") + "v" + num(i) + " xXx"; if (where == 2) { c.arr("l", {S("1"), S("2")}); t = "xXx LOOP i l xXx" + t + "xXx @i xXxxXx BBL xXx"; } run(c, t + "|");
}
static void values() { // every byte in values and in text
	int b = 1 + mc_choose(255, "byte"), pos = mc_choose(3, "position"), n = 1 + mc_choose(3, "number"); mc_shard(); str v(n, (char)b); v = pos == 0 ? v : pos == 1 ? "q" + v : v + "q"; Ctx c; c.str_("v", v); auto s = mk(); s->str_("v", v); c.sub("s", s);
	run(c, "[xXx @v xXx] [xXx @s.v xXx]"); bool nl = b == '\n' || b == '\r'; (void)nl; void *r = real(c); expect(c, r, "text " + v + " end"); expect(c, r, v + "xXx @v xXx"); sh_ctx_free(r);
}
static void ints() {
	static const int I[] = {0, 1, -1, 9, 10, 99, 100, -100, 2147483647, -2147483647 - 1, 65536, 1000000000}; int i = I[mc_choose(12, "integer")], l = mc_choose(2, "in a loop"); mc_shard(); void *r = sh_ctx(); str t, w;
	if (l) { void *a = sh_add_array(r, "l"); sh_loop_int(a, i); sh_loop_int(a, 5); sh_loop_done(a); t = "xXx LOOP v l xXx<xXx @v xXx>xXx BBL xXx"; w = "<" + num(i) + "><5>"; } else { CHECK(sh_add_int(r, "v", i) == 0, "adding an integer fails"); t = "<xXx @v xXx>"; w = "<" + num(i) + ">"; }
	str g = render(r, t); CHECK(g == w, "%d renders as %s", i, Q(g)); sh_ctx_free(r); mc_nontrivial(); mc_outcome(mc_hash(g));
}
static void scopes() { // innermost scope first, then outwards; the variable is unbound after the loop
	static const char *N[] = {"a", "ab", "s", "q"}; str v = N[mc_choose(4, "loop variable")]; int el = mc_choose(2, "elements"), n = mc_choose(3, "number"); static const std::vector<const char *> T = {"xXx @a xXx", "xXx @ab xXx", "xXx @s.a xXx", "xXx @q xXx", "xXx @q.a xXx", "xXx @s.ab xXx", ".", "\n", "xXx @a.a xXx"};
	str body; int d = mc_choose(mc_thorough() ? 3 : 2, "length"); for (int i = 0; i <= d; i++) body += T[mc_choose(9, "token")]; int after = mc_choose(9, "after"); mc_shard();
	Ctx c = base(); std::vector<Val> e; for (int i = 0; i < n; i++) if (el) { auto k = mk(); k->str_("a", "E" + num(i)).str_("ab", "F" + num(i)); e.push_back(SC(k)); } else e.push_back(S("e" + num(i))); c.arr("l", e);
	run(c, str("xXx LOOP ") + v + " l xXx" + body + "xXx BBL xXx" + T[after]);
}
static char *ff(const char *a) { char *p = (char *)env_malloc(8); strcpy(p, a ? "FA" : "FN"); return p; }
static void env_free_fn(char *p) { env_free(p); }
static void rescan() { // values are text, whatever they look like
	static const char *VAL[] = {"xXx @b xXx", "xXx @self xXx", "xXx @s.b xXx", "XxX f arg XxX", "XxX f XxX", "xXx SCREAM inc.html xXx", "xXx LOOP i l xXxyxXx BBL xXx", "xXx UNLESS @no xXxyxXx ENDLESS xXx", "xXx @undefined xXx", "xXx @b", "@b xXx", "XxX f", " xXx", "xXx @a xXx @a xXx"};
	static const char *KN[] = {"variable", "self", "dotted", "filter", "filter-no-argument", "include", "loop", "conditional", "undefined", "begin", "end", "begin-filter", "closer", "shared"};
	static const char *WH[] = {"plain", "item", "element", "element-item", "argument", "mid-line"};
	int k = mc_choose(14, "value"), w = mc_choose(6, "where"), twice = mc_choose(2, "twice"); mc_shard();
	if (chdir(env_dir().c_str())) mc_fail("harness: chdir"); env_put_file("inc.html", "FILE");
	str v = VAL[k]; Ctx c; c.str_("a", v).str_("self", "xXx @self xXx").str_("b", "B"); auto s = mk(); s->str_("a", v).str_("b", "SB").str_("self", "zz"); c.sub("s", s); auto e = mk(); e->str_("a", v); c.arr("l", {S(v)}).arr("m", {SC(e)});
	c.flt("f", {ff, env_free_fn, [](const char *) { return str(); }}); c.flt("g", {[](const char *a) { char *p = (char *)env_malloc(strlen(a) + 3); sprintf(p, "<%s>", a); return p; }, env_free_fn, [](const char *) { return str(); }});
	str t, want = v; switch (w) { case 0: t = "xXx @a xXx"; break; case 1: t = "xXx @s.a xXx"; break; case 2: t = "xXx LOOP i l xXxxXx @i xXxxXx BBL xXx"; break; case 3: t = "xXx LOOP i m xXxxXx @i.a xXxxXx BBL xXx"; break; case 4: t = "XxX g xXx @a xXx XxX"; want = "<" + v + ">"; break; default: t = "[xXx @a xXx]"; want = "[" + v + "]"; }
	if (twice && (w == 2 || w == 3)) mc_skip();
	if (w == 4 && (k == 3 || k == 4 || k >= 11)) mc_skip();   // which text is the argument then is ambiguous
	if (twice) { t += "\n" + t; want += "\n" + want; }
	mc_note("%s with the value %s", Q(t), Q(v)); void *r = real(c); mc_nontrivial(); str got; static jmp_buf jb;
	if (setjmp(jb)) { env_on_assert = nullptr; env_leaks(false); got = "(aborts)"; } else { env_on_assert = [] { longjmp(jb, 1); }; got = render(r, t); env_on_assert = nullptr; sh_ctx_free(r); }
	mc_outcome(mc_hash(got, k)); if (got == want) return;
	// what the listed findings look like exactly
	str known; bool dotted = w == 1 || w == 3;
	if (dotted) known = k == 0 ? "B" : k == 1 ? "xXx @self xXx" : ""; 
	if (w <= 3 || w == 5) { if (k == 3) known = "FA"; if (k == 4) known = "FN"; if (k == 5 && w != 5) known = "FILE"; }
	if (dotted && k == 13) known = v + " @a xXx";
	if (w == 5 && known.size()) known = "[" + known + "]";
	if (twice && known.size()) known += "\n" + known;
	if (twice && k == 5) known = "FILEFILE";
	if (dotted && k == 8) known = "(aborts)";
	if (known.size() && got == known && mc_known((str("value-") + KN[k] + "-" + WH[w]).c_str())) return;
	mc_fail("%s with the value %s renders as %s", Q(t), Q(v), Q(got));
}
static void straddle() { // lines of any length, references anywhere in them
	static const int B[] = {100, 256, 512, 1024, 2048, 4096, 8192, 10000, 16384, 32768, 65536, 100000}; static const char *D[] = {"xXx @a xXx", "xXx @s.a xXx", "xXx @abc xXxxXx @b xXx"}; int b = B[mc_choose(mc_thorough() ? 12 : 10, "length")], o = mc_choose(28, "offset"), d = mc_choose(3, "reference"), k = mc_choose(3, "before"); mc_shard(); if (b > 16384 && k == 1) mc_skip(); str pre; while ((int)pre.size() < b - 24 + o) pre += k == 0 ? 'x' : k == 1 ? "xXx "[pre.size() % 4] : ' '; if (k == 1) { pre.back() = '.'; } run(base(), pre + D[d] + " end\n" + D[d]);
}
static void breaks() { // a line end, or another byte, anywhere in a text of any size
	static const int B[] = {256, 512, 1024, 2048, 4096, 8192, 10000, 16384, 32768, 65536, 100000, 131072}; int b = B[mc_choose(12, "place")] + mc_choose(5, "near") - 2, k = mc_choose(5, "byte"), rest = mc_choose(4, "rest"), more = mc_choose(3, "behind"); mc_shard(); if (rest == 2 && b > 5000) mc_skip(); static const char *P[] = {"\n", "\r", "\r\n", "xXx @a xXx", "\t"}; run(base(), str(b, "x \n."[rest]) + P[k] + (more == 0 ? str() : str(more == 1 ? 1 : b, 'y')));
}
static void refs() { // any number of references in a line
	static const int N[] = {10, 16, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 1500}; static const char *D[] = {"xXx @a xXx", "xXx @b xXx", "xXx @s.a xXx", "xXx @abc xXx ", "xXx @sa.b xXxxXx @ab xXx"}; int n = N[mc_choose(mc_thorough() ? 30 : 27, "references")], d = mc_choose(5, "kind"), in = mc_choose(3, "lines"); mc_shard(); str t; for (int i = 0; i < n; i++) { t += D[d]; if (in == 2) t += "\n"; } if (in == 1) t = "first\n" + t + "\nxXx @ab xXx"; run(base(), t);
}
static void nested() { static const std::vector<str> L = {"xXx @a xXx", "xXx @i xXx", "xXx @i.k xXxxXx @a xXx", "xXx @j.k xXx-xXx @s.k xXx"}; nest([](const Ctx &c, const str &t) { run(c, t); }, L); }
static void edits1() { static const std::vector<str> L = {"xXx @a xXx", "xXx @s.a xXx", "[xXx @aa xXx]xXx @a xXx"}; edits([](const Ctx &c, const str &t) { run(c, t); }, L, mc_thorough() ? 2 : 1); }
static void edits2() { static const std::vector<str> L = {"xXx @a xXx", "xXx @s.a xXx"}; edits([](const Ctx &c, const str &t) { run(c, t); }, L, 2); }
int main(int c, char **v) { return mc_main(c, v, {
	{"breaks", breaks, 0, 0, "5 kinds of byte at 60 places up to 131 kB in texts of 4 kinds x 3 sizes behind"},
	{"straddle", straddle, 0, 0, "3 references at 28 offsets around 10 (12) line lengths up to 32 kB (100 kB) x 3 texts before"},
	{"refs", refs, 0, 0, "27 (30) numbers of references up to 1000 (1500) x 5 kinds, in one line or many"},
	{"edits", edits1, 0, 0, "3 templates with every 1 (2) characters left out, put in, replaced or swapped (10 characters)"},
	{"edits2", edits2, 0, 0, "2 short templates with every 1 or 2 such changes (quick: within 8 characters of each other)"},
	{"nested", nested, 0, 0, NEST},
	{"rescan", rescan, 0, 0, "14 values that look like (parts of) directives x 6 places, once and twice"},
	{"crowd", crowd, 0, 0, "23 numbers of variables up to 300 x 4 of them x the same name again or not x 3 places"},
	{"names", names, 0, 0, "all pairs of name lengths 1..31 of 4 characters, in both orders, as variable, item and sub-context"},
	{"values", values, 0, 0, "every byte value 1..255 in values and text"},
	{"ints", ints, 0, 0, "12 integers, plain and in loops"},
	{"many", many, 0, 0, "0..59 (199) references of 3 kinds per template, values up to 512 bytes, 3 separators"},
	{"scopes", scopes, 0, 0, "loop variables that shadow variables and sub-contexts; all bodies of up to 2 (3) of 9 tokens"},
	{"rare", rare, 0, 0, "all sequences of up to 4 (5) of 17 tokens: line ends, bytes, malformed references"},
	{"near", near, 0, 0, "all sequences of up to 4 (5) directive words"},
	{"tokens", tokens, 0, 0, "all sequences of up to 5 (6) of 10 references and texts"},
	{"verbatim", verbatim, 0, 0, "all texts of up to 5 (7) of 8 characters"}}); }

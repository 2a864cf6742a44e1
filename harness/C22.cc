// C22: an include inserts the complete rendering of the file.
#include "tmpl.h"
#include <errno.h>
#include <fcntl.h>
#include <setjmp.h>
#include <sys/stat.h>
#include <sys/resource.h>
static Ctx base() {
	Ctx c; c.str_("a", "1").str_("w", "two words").str_("file", "inc.html").str_("no", "FALSE"); auto s = mk(); s->str_("k", "sub").str_("file", "other.html"); c.sub("s", s); c.arr("l", {S("x"), S("y"), S("z")}).arr("none", {}).arr("files", {S("inc.html"), S("other.html"), S("plain")}); auto e = mk(), g = mk(); e->str_("k", "E0"); g->str_("k", "E1"); c.arr("m", {SC(e), SC(g)}); c.flt("f", flt<0>()).flt("n", flt<2>()); return c;
}
static void run(const Ctx &c, const str &t) {
	if (!in_domain(c, t)) mc_skip();
	mc_note("template %s", Q(t)); for (auto &i : incs) if (i.second.size() < 400) mc_note("%s is %s", i.first.c_str(), Q(i.second));
	calls.clear(); ref_calls.clear(); ref_render(t, &c); size_t want = ref_calls.size(); void *r = real(c); calls.clear(); expect(c, r, t); CHECK(calls.size() == want, "%zu filter calls instead of %zu", calls.size(), want); sh_ctx_free(r); mc_nontrivial();
}
static const char *SC1 = "xXx SCREAM inc.html xXx";
static void sizes() { // files of any size, whatever the code reads at a time
	static const int L[] = {0, 1, 2, 511, 512, 513, 1023, 1024, 1025, 2046, 2047, 2048, 2049, 2050, 4094, 4095, 4096, 4097, 4098, 6143, 6144, 6145, 8191, 8192, 8193, 10240, 16383, 16384, 16385, 20480, 65535, 65536, 65537, 102400, 131072}; int i = mc_choose(35, "size"), kind = mc_choose(5, "contents"), around = mc_choose(3, "around"); size_t n = L[i]; mc_shard(); inc_enter();
	str b; size_t j = 0; while (b.size() < n) b += kind == 0 ? "line " + num(j++) + "\n" : kind == 1 ? str(1, 'a' + j++ % 26) : kind == 2 ? str("xXx @a xXx,") : kind == 3 ? str("\n") : "\r\nxXx LOOP i l xXxxXx @i xXxxXx BBL xXx"; b.resize(n); if ((kind == 2 || kind == 4) && n > 4100) mc_skip(); if (kind == 3 && n > 2100) mc_skip(); inc("inc.html", b); inc("other.html", "other"); inc("plain", "p");
	run(base(), around == 0 ? SC1 : around == 1 ? str("before\n\t") + SC1 + "\nafter\n" : str(SC1) + "\n" + SC1 + "\n" + SC1);
}
static void ends() { // how a file ends, at every size around what is read at a time
	static const int L[] = {0, 30, 511, 1024, 2046, 2047, 2048, 2049, 2050, 2051, 3000, 4095, 4096, 4097, 4098, 6144, 8192, 8193, 65536}; int n = L[mc_choose(19, "size")], e = mc_choose(12, "end"), k = mc_choose(2, "contents"), around = mc_choose(2, "around"); mc_shard(); static const char *E[] = {"", "\r", "\n", "\r\n", "\n\n", "\r\r", " ", "xXx @a xXx", "xXx @a xXx\r", "\nxXx LOOP i l xXx.xXx BBL xXx", "xXx", "\n\r"}; str b; while ((int)b.size() < n) b += k ? (b.size() % 64 == 63 ? "\n" : "e") : "f"; b += E[e]; inc_enter(); inc("inc.html", b); run(base(), around ? str("<\n") + SC1 + "\n>" : str(SC1));
}
static void contents() { // what works in place works in an included file
	static const std::vector<const char *> T = {"xXx @a xXx", "xXx @s.k xXx", "xXx LOOP i l xXxxXx @i xXx;xXx BBL xXx", "XxX f xXx @w xXx XxX", "XxX n XxX", "\nxXx UNLESS NOT @a xXxshownxXx ENDLESS xXx", "\nxXx UNLESS @no xXxalso xXx @a xXxxXx ENDLESS xXx", "\nxXx SCREAM other.html xXx\n", "text", "\n", "xXx LOOP i l xXx\nxXx SCREAM plain xXx\nxXx BBL xXx"};
	str b; int d = mc_choose(mc_thorough() ? 6 : 5, "length"); for (int i = 0; i < d; i++) { b += T[mc_choose(T.size(), "part")]; if (i == 1) mc_shard(); } if (d < 2) mc_shard();
	inc_enter(); inc("inc.html", b); inc("other.html", "O xXx @s.k xXx\nXxX f other XxX"); inc("plain", "plain\n"); run(base(), str("<\n") + SC1 + "\n>");
}
static void places() { // wherever the directive stands
	static const std::vector<str> T = {str(SC1) + "\n", str("  \t") + SC1 + "\n", "xXx SCREAM other.html xXx\n", "xXx SCREAM xXx @file xXx xXx\n", "xXx SCREAM xXx @s.file xXx xXx\n", str("xXx LOOP i l xXx") + SC1 + "\nxXx BBL xXx", "xXx LOOP i files xXx\nxXx SCREAM xXx @i xXx xXx\nxXx BBL xXx", str("xXx LOOP a m xXx\n") + "xXx SCREAM plain xXx" + "\nxXx BBL xXx", str("xXx UNLESS NOT @a xXx\n") + SC1 + "\nxXx ENDLESS xXx", str("xXx UNLESS NOT @no xXx\n") + SC1 + "\nxXx ENDLESS xXx", "text\n", "\n"};
	str t; int d = mc_choose(mc_thorough() ? 5 : 4, "length"); for (int i = 0; i < d; i++) { t += T[mc_choose(T.size(), "part")]; if (i == 1) mc_shard(); } if (d < 2) mc_shard();
	inc_enter(); inc("inc.html", "inc xXx @w xXx\nlast"); inc("other.html", "xXx LOOP i l xXx<xXx @i xXx>xXx BBL xXx\n"); inc("plain", "p\n"); run(base(), t);
}
static void chains() { // includes in includes, to any depth
	int depth = 1 + mc_choose(mc_thorough() ? 40 : 20, "depth"), shape = mc_choose(4, "shape"), in = mc_choose(3, "in"); mc_shard(); inc_enter();
	auto name = [](int i) { str s = "n"; do s += 'a' + i % 26; while (i /= 26); return s; };
	for (int i = 0; i < depth; i++) { str d = "xXx SCREAM " + name(i + 1) + " xXx"; if (shape == 2 && i > 4) d = "leaf"; inc(name(i), shape == 0 ? d : shape == 1 ? "<" + num(i) + "\n" + d + "\n>" : shape == 2 ? d + "\n" + d + "\n" : "xXx @a xXx\n" + d + "\nXxX f xXx @w xXx XxX\n"); } inc(name(depth), "end xXx @a xXx"); str d = "xXx SCREAM " + name(0) + " xXx";
	run(base(), in == 0 ? d : in == 1 ? "xXx LOOP i l xXx" + d + "\nxXx BBL xXx" : "xXx UNLESS NOT @a xXx\n" + d + "\nxXx ENDLESS xXx");
}
static void depths() { // a directive in loops in files in loops ..., each naming the elements of all of them
	int d = 1 + mc_choose(mc_thorough() ? 16 : 10, "depth"), k = mc_choose(4, "kind"), same = mc_choose(2, "same names"); mc_shard(); inc_enter(); str refs; str t; auto nm = [](int i) { return str("n") + (char)('a' + i); };
	for (int i = 0; i <= d; i++) { str v = same ? "i" : str("i") + (char)('a' + i); if (!i || !same) refs += "xXx @" + v + " xXx,"; str in = i < d ? "\nxXx SCREAM " + nm(i + 1) + " xXx\n|" : "\n" + refs + "\nxXx SCREAM leaf xXx\n|", s = "xXx LOOP " + v + " one xXx" + (k & 1 ? "\nxXx UNLESS NOT @a xXx" + in + "xXx ENDLESS xXx" : in) + "xXx BBL xXx" + (k & 2 ? "xXx @a xXx" : ";"); if (i) inc(nm(i), s); else t = s; }
	inc("leaf", refs + "end"); Ctx c; c.str_("a", "1").arr("one", {S("e")}); run(c, t);
}
static void scope() { // the including scope, loop variables included; scopes do not leak between files
	static const char *B[] = {"xXx @i xXx", "xXx @i.k xXx", "XxX f xXx @i xXx XxX", "xXx LOOP i l xXxxXx @i xXxxXx BBL xXx\nxXx @a xXx", "xXx LOOP j l xXxxXx @i xXxxXx @j xXx xXx BBL xXx", "\nxXx UNLESS NOT @i xXxtruexXx ENDLESS xXx", "\nxXx UNLESS @i xXxfalsexXx ENDLESS xXx", "\nxXx UNLESS @i.k xXxdottedxXx ENDLESS xXx", "xXx SCREAM other.html xXx"}; int b = mc_choose(9, "contents"), arr = mc_choose(3, "array"), nest = mc_choose(2, "nesting"), outer = mc_choose(2, "outer variable"), rep = mc_choose(2, "twice"); mc_shard();
	inc_enter(); inc("inc.html", B[b]); inc("other.html", "[xXx @i xXx]"); inc("deep.html", "xXx SCREAM inc.html xXx\n"); Ctx c = base(); if (outer) c.str_("i", "outer"); str d = str("\nxXx SCREAM ") + (nest ? "deep.html" : "inc.html") + " xXx\n"; static const char *A[] = {"l", "m", "none"}; str t = str("xXx LOOP i ") + A[arr] + " xXx" + d + "xXx BBL xXx"; run(c, rep ? t + t + (outer ? d : "") : t);
}
static void fresh() { // read anew on each rendering
	static const int L[] = {0, 1, 5, 2047, 2048, 2049, 5000}; int x[4], n = 2 + mc_choose(mc_thorough() ? 3 : 2, "renderings"); for (int i = 0; i < n; i++) x[i] = mc_choose(7, "size"); int same = mc_choose(2, "same context"), way = mc_choose(2, "how it changes"); mc_shard(); inc_enter();
	Ctx c = base(); void *r = same ? real(c) : nullptr; str t = str("A\n") + SC1 + "\nB"; for (int i = 0; i < n; i++) { if (way) unlink("inc.html"); inc("inc.html", str(L[x[i]], 'a' + i)); void *q = same ? r : real(c); expect(c, q, t); if (!same) sh_ctx_free(q); } if (same) sh_ctx_free(r); mc_nontrivial();
}
static void names() { // names of all lengths and kinds of characters
	int n = 1 + mc_choose(200, "length"), m = mc_choose(3, "kind"), other = mc_choose(2, "another file"); mc_shard(); inc_enter(); str f; if (m == 2) { f = "./"; mkdir("dd", 0755); f += "dd/"; } while ((int)f.size() < n) f += m == 1 && f.size() % 3 == 2 ? '.' : f.size() % 7 == 3 ? '_' : f.size() % 2 ? 'Q' : 'z'; if (m == 2 && n < 6) mc_skip();
	inc(f, "this one xXx @a xXx"); if (other && n > 6) inc(f.substr(0, f.size() - 1), "prefix"); if (other) inc(f + "x", "extension"); run(base(), "xXx SCREAM " + f + " xXx\nend");
}
static void rescan() { // what an included file renders to is text
	static const char *V[] = {"XxX f again XxX", "XxX n XxX", "xXx SCREAM other.html xXx", "\nxXx SCREAM other.html xXx", "XxX f", "xXx @a xXx"}; int v = mc_choose(6, "text"), how = mc_choose(2, "how"), pre = mc_choose(2, "before"); mc_shard(); inc_enter();
	static const char *text; text = V[v]; static int n; n = 0; void *c = sh_ctx(); sh_add_string(c, "a", "1"); sh_add_string(c, "b", "xXx"); sh_add_filter(c, "r", [](const char *) { n++; char *p = (char *)env_malloc(strlen(text) + 1); strcpy(p, text); return p; }, sh_filter_cleanup);
	static int again; again = 0; sh_add_filter(c, "f", [](const char *) { again++; return (char *)"AGAIN"; }, nullptr); sh_add_filter(c, "n", [](const char *) { again++; return (char *)"AGAIN"; }, nullptr);
	inc("inc.html", str(pre ? "x " : "") + (how ? "XxX r XxX" : "XxX r arg XxX")); inc("other.html", "OTHER"); str g = render(c, str(SC1)), w = str(pre ? "x " : "") + text; CHECK(again == 0, "the result of a filter in an included file was filtered again"); CHECK(g == w, "renders as %s instead of %s", Q(g), Q(w)); CHECK(n == 1, "the filter ran %d times", n); sh_ctx_free(c); mc_nontrivial(); mc_outcome(v);
}
static void descriptors() { // each rendering closes what it opened
	static const int N[] = {1, 10, 100, 1200}; int n = N[mc_choose(4, "renderings")], inl = mc_choose(2, "in a loop"), size = mc_choose(3, "size"); mc_shard(); inc_enter(); static const int L[] = {0, 100, 2048}; inc("inc.html", str(L[size], 'c')); Ctx c; std::vector<Val> e; for (int i = 0; i < n; i++) e.push_back(S("v")); c.arr("l", e); void *r = real(c);
	struct rlimit old, lim; getrlimit(RLIMIT_NOFILE, &old); int hi = open("/dev/null", O_RDONLY); close(hi); lim = old; lim.rlim_cur = hi + 8; setrlimit(RLIMIT_NOFILE, &lim); // few descriptors are left: a leak would exhaust them
	if (inl) expect(c, r, str("xXx LOOP i l xXx\n") + SC1 + "\nxXx BBL xXx"); else for (int i = 0; i < n; i++) expect(c, r, SC1);
	setrlimit(RLIMIT_NOFILE, &old); sh_ctx_free(r); mc_nontrivial();
}
static str long_path(int n, int kind, const str &f) { // exactly n bytes that name f: dots, or directories with long names
	str d; if (kind) { d = "dd/" + str(150, 'd') + "/"; mkdir("dd", 0755); mkdir(d.c_str(), 0755); } str p = d; while ((int)(p.size() + f.size()) < n - 1) p += "./"; if ((int)(p.size() + f.size()) < n) p = p.empty() ? "./" + p : p + "/"; return p + f;
}
static void paths() { // paths up to the longest that can be opened
	static const int N[] = {255, 256, 257, 300, 511, 512, 513, 514, 1000, 1023, 1024, 1025, 1026, 2046, 2047, 2048, 2049, 2050, 4000, 4093, 4094, 4095}; int n = N[mc_choose(22, "length")], kind = mc_choose(2, "kind"), how = mc_choose(3, "where"); mc_shard(); inc_enter(); str f = long_path(n, kind, "inc.html"); inc(f, "this one xXx @a xXx"); str d = "xXx SCREAM " + f + " xXx"; run(base(), how == 0 ? d + "\nend" : how == 1 ? "xXx LOOP i l xXx" + d + "\nxXx BBL xXx" : d + "\n" + d + "\n");
}
static void nested() { static const std::vector<str> L = {"xXx @i xXx", "xXx @a xXx", "xXx @i.k xXx", "XxX f xXx @w xXx XxX"}; nest([](const Ctx &c, const str &t) { run(c, t); }, L); }
static void edits1() { static const std::vector<str> L = {"xXx SCREAM inc xXx", "a\nxXx SCREAM inc xXx\nb", "xXx LOOP i l xXx\nxXx SCREAM a xXx\nxXx BBL xXx"}; edits([](const Ctx &c, const str &t) { run(c, t); }, L, mc_thorough() ? 2 : 1); }
static void edits2() { static const std::vector<str> L = {"xXx SCREAM a xXx"}; edits([](const Ctx &c, const str &t) { run(c, t); }, L, 2); }
int main(int c, char **v) { return mc_main(c, v, {
	{"edits", edits1, 0, 0, "3 templates with every 1 (2) characters left out, put in, replaced or swapped (10 characters)"},
	{"edits2", edits2, 0, 0, "1 short templates with every 1 or 2 such changes (quick: within 8 characters of each other)"},
	{"nested", nested, 0, 0, NEST},
	{"ends", ends, 0, 0, "19 sizes x 12 ends x 2 contents x 2 places"},
	{"paths", paths, 0, 0, "22 path lengths from 255 to 4095 x dots or directories x 3 places"},
	{"rescan", rescan, 0, 0, "6 texts that look like directives, produced by a filter in the file, x both kinds of call"},
	{"sizes", sizes, 0, 0, "35 file sizes around powers of two and multiples of 2048 x 5 kinds of contents x 3 places"},
	{"descriptors", descriptors, 0, 0, "1-1200 renderings, separate or in a loop, with 8 descriptors left"},
	{"depths", depths, 0, 0, "1-10 (16) files, each in a loop around the include of the next, x 4 shapes x same and different names"},
	{"chains", chains, 0, 0, "1-20 (40) nested files x 4 shapes x in a loop, conditional or plain"},
	{"scope", scope, 0, 0, "9 contents x 3 arrays x nested or not x outer variable of that name or not x twice"},
	{"fresh", fresh, 0, 0, "2-3 (4) renderings with every combination of 7 sizes of the changing file"},
	{"names", names, 0, 0, "names of 1-200 characters x 3 kinds x other files of similar names"},
	{"contents", contents, 0, 0, "all files of up to 4 (5) of 11 parts"},
	{"places", places, 0, 0, "all templates of up to 3 (4) of 12 parts with directives in loops, conditionals, after spaces, with variable names"}}); }

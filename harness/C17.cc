// C17: rendering a template file equals rendering its contents in memory.
#include "http.h"
#include <errno.h>
#include <sys/stat.h>
#include <unistd.h>
static void enter() { if (chdir(env_dir().c_str())) mc_fail("harness: chdir"); }
static void put(const str &p, const str &d) { unlink(p.c_str()); FILE *f = fopen(p.c_str(), "w"); if (!f || fwrite(d.data(), 1, d.size(), f) != d.size()) mc_fail("harness: cannot write %s", p.c_str()); fclose(f); }
static char *up(const char *a) { str s = a ? a : "NONE"; for (auto &c : s) c = c >= 'a' && c <= 'z' ? c - 32 : c; char *p = (char *)env_malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); return p; }
static int ups; static void upclean(char *p) { ups++; env_free(p); }
static void *context(int kind) {
	void *c = sh_ctx(); if (!kind) return c;
	sh_add_string(c, "name", "world"); sh_add_int(c, "n", 42); sh_add_string(c, "no", "FALSE"); sh_add_filter(c, "up", up, upclean);
	void *l = sh_add_array(c, "list"); for (int i = 0; i < 3; i++) sh_loop_int(l, i);
	sh_loop_done(l);
	void *l2 = sh_add_array(c, "subs"); for (int i = 0; i < 2; i++) { void *s = sh_ctx(); sh_add_string(s, "k", i ? "one" : "zero"); sh_loop_ctx(l2, s); } sh_loop_done(l2);
	void *s = sh_ctx(); sh_add_string(s, "k", "sub"); sh_add_ctx(c, "sub", s); return c;
}
static const char *T[] = {"", "x", "\n", "plain\ntext\n", "xXx @name xXx", "a xXx @name xXx b xXx @n xXx\n", "xXx @sub.k xXx\nXxX up hello XxX\n", "xXx LOOP i list xXx<xXx @i xXx>\nxXx BBL xXx\nend", "xXx LOOP i subs xXx xXx @i.k xXx xXx BBL xXx", "xXx UNLESS @no xXx shown xXx ENDLESS xXx\n", "xXx UNLESS @name xXxhiddenxXx ENDLESS xXx", "xXx SCREAM inc.html xXx\nafter\n", "<p>XxX up xXx @name xXx XxX</p>\n\n", "xXx UNLESS NOT @name xXx yes xXx @name xXx\nxXx ENDLESS xXx\n"};
enum { NT = 14 };
static void one(const str &path, const str &content, int ctxk, int how, int repeat) {
	for (int k = 0; k < repeat; k++) {
		// the reference: the same bytes in memory, in a block of exactly that size
		void *rc = context(ctxk); Exact e(content); size_t wn = 12345; char *w = sh_render(rc, e.p, e.n, &wn); str want(w, wn); env_free(w); sh_ctx_free(rc);
		size_t live = env_live(); mc_step(); mc_nontrivial();
		if (how == 0) {
			void *r = sh_resp_new(); void *c = context(ctxk); int code = sh_render_file(c, path.c_str(), r);
			CHECK(code == 200, "status %d for %s", code, Q(path)); CHECK(sh_resp_outsize(r) == want.size(), "%zu bytes rendered from the file, %zu from memory", sh_resp_outsize(r), want.size());
			CHECK(!memcmp(sh_resp_out(r), want.data(), want.size()), "rendered from the file: %s, from memory: %s", Q(str((char *)sh_resp_out(r), want.size())), Q(want));
			sh_heap_cleanup(code, r); sh_resp_free(r);
		} else {
			App app({{"GET", "t", "^/t", 0, H[0], how == 1 ? sh_p_heap_cleanup : sh_p_heap_cleanup_nc}}); on_handle = [&](int, const void *, void *r, const Seen &) { return sh_render_file(context(ctxk), path.c_str(), r); };
			env_zero_fd = want.size() % 2; Conn *c = env_conn("GET /t HTTP/1.1\r\n\r\n"); serve(app, c); Resp r = parse_resp(c->out); CHECK(r.ok && r.code == 200, "%s (status %d)", r.err.c_str(), r.code); CHECK(r.body == want, "served %s, rendering the contents gives %s", Q(r.body), Q(want));
		}
		CHECK(env_live() <= live, "rendering a file left behind: %s", env_live_desc().c_str()); mc_outcome(mc_hash(want, how));
	}
}
static void templates() {
	int a = mc_choose(NT, "first"), b = mc_choose(NT, "second"), k = mc_choose(3, "way"); mc_shard(); enter();
	if (a == 11 && b != 0 && T[a][0]) {} put("inc.html", "included xXx @name xXx\n"); str t = str(T[a]) + T[b]; if (T[b][0] == 'x' && a && t[strlen(T[a]) - 1] != '\n') t.insert(strlen(T[a]), "\n"); put("t.html", t); mc_note("%s", Q(t)); one("t.html", t, 1, k, 2); ups = 0;
}
static void sizes() { // every size around the page size, ending in every kind of text
	static const size_t B[] = {0, 4096, 8192, 2048, 65536}; size_t n = B[mc_choose(mc_thorough() ? 5 : 4, "around")]; int d = mc_choose(70, "difference") - 35; int end = mc_choose(6, "end"); int how = mc_choose(2, "way"); mc_shard();
	long size = (long)n + d; if (size < 0) mc_skip(); static const char *E[] = {"", "\n", "xXx @name xXx", "xXx @name xXx\n", "\nxXx LOOP i list xXx.xXx BBL xXx", "\n\n"}; str e = E[end]; if (size < (long)e.size()) mc_skip();
	str t; while (t.size() < size - e.size()) { t += t.size() % 61 == 60 ? '\n' : (char)('a' + t.size() % 26); } t += e; enter(); put("s.html", t); mc_note("%ld bytes ending in %s", size, Q(e)); one("s.html", t, 1, how, 1);
}
static void bytes() { // files with any bytes in them
	static const size_t Z[] = {1, 10, 100, 2048, 4095, 4096, 4097, 8192}; size_t n = Z[mc_choose(8, "size")]; static const char B[] = {0, 1, '\r', '\n', (char)0x80, (char)0xff}; char b = B[mc_choose(6, "byte")]; int pos = mc_choose(5, "position"), how = mc_choose(2, "way"), rest = mc_choose(2, "rest"); mc_shard(); str t; while (t.size() < n) t += rest ? (t.size() % 61 == 60 ? "\n" : "q") : t.size() % 50 == 0 && t.size() + 15 < n ? "xXx @name xXx\n" : "r"; t.resize(n); size_t at = pos == 0 ? 0 : pos == 1 ? n / 2 : pos == 2 ? n - 1 : pos == 3 ? (n > 1 ? n - 2 : 0) : n / 3; t[at] = b; enter(); put("b.html", t); mc_note("%zu bytes with byte %d at %zu", n, b & 255, at); one("b.html", t, 1, how, 1); ups = 0;
}
static void all_sizes() { size_t n = mc_choose(mc_thorough() ? 8300 : 4200, "size"); mc_shard(); str t(n, 'q'); for (size_t i = 39; i < n; i += 40) t[i] = '\n'; enter(); put("a.html", t); mc_note("%zu bytes", n); one("a.html", t, 0, 0, 1); }
static void missing() {
	static const char *FN[] = {"stat", "open", "mmap"}; int k = mc_choose(6, "what"), ctx = mc_choose(2, "context"), how = mc_choose(4, "way"), before = mc_choose(2, "rendered before"); size_t n = mc_choose(2, "size") ? 30 : 4096; mc_shard(); enter();
	str body(n, 'm'); put("m.html", body); str p = k == 3 ? "gone.html" : k == 4 ? "." : k == 5 ? "m.html/x" : "m.html"; if (before) one("m.html", body, ctx, 0, 1); mc_note("%s", k < 3 ? FN[k] : p.c_str()); mc_nontrivial();
	bool fired = k >= 3; env_fault = [&](const char *f) { bool x = k < 3 && (!strcmp(f, FN[k]) || (k == 0 && !strcmp(f, "fstat")) || (k == 1 && !strcmp(f, "fopen"))); fired |= x; return x ? EIO : 0; };
	if (how < 2) {
		void *r = sh_resp_new(); size_t live = env_live(); void *c = context(ctx); int code = sh_render_file(c, p.c_str(), r); mc_step(); env_fault = nullptr;
		if (fired) { CHECK(code == 404, "status %d for a file that cannot be read", code); CHECK(sh_resp_outsize(r) > 0, "no error page"); str s((char *)sh_resp_out(r), sh_resp_outsize(r)); CHECK(s.find("<html>") == 0, "error page %s", Q(s)); }
		sh_heap_cleanup(code, r); CHECK(env_live() <= live, "left behind: %s", env_live_desc().c_str()); sh_resp_free(r);
	} else {
		App app({{"GET", "t", "^/t", 0, H[0], sh_p_heap_cleanup}}); on_handle = [&](int, const void *, void *r, const Seen &) { return sh_render_file(context(ctx), p.c_str(), r); };
		Conn *c = env_conn("GET /t HTTP/1.1\r\n\r\n"); serve(app, c); env_fault = nullptr; Resp r = parse_resp(c->out); CHECK(r.ok && (!fired || r.code == 404), "%s (status %d)", r.err.c_str(), r.code);
	}
	mc_outcome(k * 10 + how);
}
static void ratio() { // files that become much longer, or much shorter
	static const size_t Z[] = {0, 1, 100, 4095, 4096, 4097, 8191, 8192, 8193, 9000, 12288, 16384, 16385, 40000, 70000}; size_t have = Z[mc_choose(15, "file size")], want = Z[mc_choose(15, "rendered size")]; int k = mc_choose(3, "way"), how = mc_choose(2, "how"); mc_shard(); str t;
	if (how == 0) { t = "xXx LOOP i list xXxxXx @n xXx" + str(want / 3 > 10 ? want / 3 - 3 : 0, 'v') + "xXx BBL xXx"; while (t.size() < have) t += t.size() % 80 ? 'r' : '\n'; }
	else { size_t n = have > want + 60 ? have - want - 60 : 0; t = "xXx UNLESS @name xXx" + str(n, 'h') + "xXx ENDLESS xXx"; for (size_t i = 0; i < want; i++) t += i % 70 ? 's' : '\n'; }
	enter(); put("r.html", t); mc_note("a file of %zu bytes", t.size()); one("r.html", t, 1, k, 1); ups = 0;
}
static void filtered() { // filter clean-ups run for files as they do in memory
	int a = mc_choose(4, "calls"); mc_shard(); enter(); str t; for (int i = 0; i < a; i++) t += "<XxX up a" + num(i) + " XxX>\n"; put("f.html", t); ups = 0; void *r = sh_resp_new(); int code = sh_render_file(context(1), "f.html", r); CHECK(ups == a, "%d clean-ups of %d calls", ups, a); str w; for (int i = 0; i < a; i++) w += str(i ? "\n" : "") + "<A" + num(i) + ">"; CHECK(code == 200 && str((char *)sh_resp_out(r), sh_resp_outsize(r)) == w, "got %s", Q(str((char *)sh_resp_out(r), sh_resp_outsize(r)))); sh_heap_cleanup(code, r); sh_resp_free(r); mc_nontrivial();
}
static void paths() { // paths up to the longest that can be opened
	static const int N[] = {1, 2, 3, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 514, 1000, 1023, 1024, 1025, 1026, 2046, 2047, 2048, 2049, 2050, 4000, 4093, 4094, 4095}; int n = N[mc_choose(36, "length")], k = mc_choose(3, "way"); mc_shard(); enter(); str p; while ((int)p.size() < n - 2) p += "./"; p += str(n - p.size(), 't'); put(p, "of xXx @name xXx"); one(p, "of xXx @name xXx", 1, k, 2); unlink(p.c_str()); ups = 0;
}
int main(int c, char **v) { return mc_main(c, v, {
	{"bytes", bytes, 0, 0, "8 sizes x 6 awkward bytes (NUL included) at 5 positions x 2 ways"},
	{"ratio", ratio, 0, 0, "15 file sizes x 15 sizes it renders to x 2 kinds of template x 3 ways"},
	{"paths", paths, 0, 0, "36 path lengths up to 4095 x 3 ways"},
	{"templates", templates, 0, 0, "all pairs of 14 template fragments x (direct, through the server with both heap clean-ups), rendered twice"},
	{"missing", missing, 0, 0, "missing file, directory, below a file, stat/open/mmap failing; before or after a successful rendering; direct and through the server"},
	{"filtered", filtered, 0, 0, "0-3 filter calls"},
	{"sizes", sizes, 0, 0, "sizes within 35 bytes of 0, 2048, 4096, 8192 (65536) x 6 endings x 2 ways"},
	{"all sizes", all_sizes, 0, 0, "every size 0..4199 (8299)"}}); }

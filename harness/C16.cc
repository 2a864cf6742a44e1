// C16: files are served byte for byte with the right type.
#include "http.h"
#include <errno.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
static const std::pair<const char *, const char *> TYPES[] = {{".css", "text/css"}, {".jpg", "image/jpeg"}, {".txt", "text/plain"}, {".html", "text/html"}, {".svg", "image/svg+xml"}, {".ico", "image/x-icon"}, {".webm", "video/webm"}, {".gif", "image/gif"}, {".json", "application/json"}, {".js", "text/javascript"}};
static const char OCTET[] = "application/octet-stream";
static str lower(str s) { for (auto &c : s) if (c >= 'A' && c <= 'Z') c |= 32; return s; }
static str expected_type(const str &path) {
	size_t sl = path.rfind('/'); str base = sl == str::npos ? path : path.substr(sl + 1); size_t d = base.rfind('.');
	if (d == str::npos) return "text/html";
	str e = lower(base.substr(d)); for (auto &t : TYPES) if (e == t.first) return t.second;
	return OCTET;
}
// run in the scratch directory, so that short relative paths can be used
static void enter() { if (chdir(env_dir().c_str())) mc_fail("harness: chdir"); }
static void mkdirs(const str &p) { for (size_t i = 1; i < p.size(); i++) if (p[i] == '/') mkdir(p.substr(0, i).c_str(), 0755); }
static void put(const str &p, const str &d) { mkdirs(p); unlink(p.c_str()); FILE *f = fopen(p.c_str(), "w"); if (!f || fwrite(d.data(), 1, d.size(), f) != d.size()) mc_fail("harness: cannot write %s", p.c_str()); fclose(f); }
static void rm(const str &p) { unlink(p.c_str()); }
static void serve_file(const str &path, const str &data, const char *preset, bool direct) {
	str want = preset ? preset : expected_type(path); Exact p(path, true); mc_nontrivial();
	if (direct) {
		void *r = sh_resp_new(); if (preset) sh_resp_set_mime(r, preset);
		int rc = sh_mmap_file(p.p, r); mc_step();
		CHECK(rc == 200, "%s: status %d", Q(path), rc); CHECK(sh_resp_outsize(r) == data.size(), "%s: %zu bytes instead of %zu", Q(path), sh_resp_outsize(r), data.size());
		CHECK(!data.size() || !memcmp(sh_resp_out(r), data.data(), data.size()), "%s: wrong contents", Q(path));
		CHECK(str(sh_resp_mime(r)) == want, "%s has type %s, not %s", Q(path), Q(sh_resp_mime(r)), Q(want));
		sh_mmap_cleanup(rc, r); sh_resp_free(r);
	} else {
		App app({{"GET", "f", "^/f", 0, H[0], sh_p_mmap_cleanup}}); on_handle = [&](int, const void *, void *r, const Seen &) { if (preset) sh_resp_set_mime(r, preset); return sh_mmap_file(p.p, r); };
		Conn *c = env_conn("GET /f HTTP/1.1\r\n\r\n"); serve(app, c); Resp r = parse_resp(c->out); CHECK(r.ok, "%s: %s", Q(path), r.err.c_str());
		CHECK(r.code == 200, "%s: status %d", Q(path), r.code); CHECK(r.body == data, "%s: %zu bytes sent, not the file's %zu", Q(path), r.body.size(), data.size());
		CHECK(r.all("Content-Type")[0] == want, "%s has type %s, not %s", Q(path), Q(r.all("Content-Type")[0]), Q(want));
	}
	mc_outcome(mc_hash(want, data.size())); mc_state(mc_hash(path, data.size()));
}
static void sizes() {
	static const size_t S[] = {0, 1, 2, 43, 44, 45, 46, 47, 50, 51, 52, 100, 511, 512, 513, 2047, 2048, 2049, 4094, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 65535, 65536, 65537, 131072, 1000000, 1048576, 3000001};
	size_t n = S[mc_choose(mc_thorough() ? 33 : 32, "size")]; int seed = mc_choose(2, "contents"), pre = mc_choose(2, "type set before"), direct = mc_choose(2, "direct"), zero = mc_choose(2, "descriptor 0 is free"); mc_shard();
	env_zero_fd = zero; enter(); str d = seed ? str(n, 0) : pattern(n, 3); put("f.json", d); mc_note("%zu bytes", n); serve_file("f.json", d, pre ? "x/y" : nullptr, direct); rm("f.json");
}
static void huge() { // files larger than 32-bit numbers count: sparse, with marks near the boundaries
	static const unsigned long long Z[] = {(1ull << 31) - 1, 1ull << 31, (1ull << 31) + 1, (1ull << 32) - 1, 1ull << 32, (1ull << 32) + 1, 5000000000ull, 4096ull * 3000000}; unsigned long long n = Z[mc_choose(8, "size")]; int cl = mc_choose(2, "part through the server"); mc_shard(); enter();
	put("h.webm", ""); int fd = open("h.webm", O_WRONLY); if (fd < 0 || ftruncate(fd, n) || pwrite(fd, "begin", 5, 0) != 5 || pwrite(fd, "end", 3, n - 3) != 3) mc_fail("harness: cannot make a large file"); close(fd); mc_note("a file of %llu bytes", n); mc_nontrivial(); mc_state(n + cl);
	if (!cl) { void *r = sh_resp_new(); int rc = sh_mmap_file("h.webm", r); mc_step(); CHECK(rc == 200, "status %d", rc); CHECK(sh_resp_outsize(r) == n, "%zu bytes instead of %llu", sh_resp_outsize(r), n); CHECK(!memcmp(sh_resp_out(r), "begin", 6) && !memcmp((char *)sh_resp_out(r) + n - 4, "\0end", 4), "wrong contents"); CHECK(str(sh_resp_mime(r)) == "video/webm", "the type is %s", Q(sh_resp_mime(r))); sh_mmap_cleanup(rc, r); sh_resp_free(r); }
	else { App app({{"GET", "f", "^/f", 0, H[0], sh_p_mmap_cleanup}}); on_handle = [&](int, const void *, void *r, const Seen &) { return sh_mmap_file("h.webm", r); }; Conn *c = env_conn("GET /f HTTP/1.1\r\nRange: bytes=" + num(n - 4) + "-\r\n\r\n"); serve(app, c); Resp r = parse_resp(c->out); CHECK(r.ok && r.code == 206 && r.body == str("\0end", 4) && r.all("Content-Range") == std::vector<str>{"bytes " + num(n - 4) + "-" + num(n - 1) + "/" + num(n)}, "the end of the file is served as %s", Q(c->out.substr(0, 400))); }
	mc_outcome(n * 2 + cl); rm("h.webm");
}
static void all_sizes() { // every size in a row around the page size
	size_t n = mc_choose(mc_thorough() ? 9000 : 4300, "size"); mc_shard(); enter(); str d = pattern(n, n); put("g.txt", d); mc_note("%zu bytes", n); serve_file("g.txt", d, nullptr, false); rm("g.txt");
}
static void types() { // every case variant of every known extension, and near misses
	int t = mc_choose(10, "extension"); str e = TYPES[t].first; int how = mc_choose(6, "kind"); unsigned m = 0;
	if (how == 0) for (size_t i = 1; i < e.size(); i++) if (mc_choose(2, "upper")) m |= 1u << i;
	mc_shard(); enter(); for (size_t i = 1; i < e.size(); i++) if (m >> i & 1) e[i] -= 32;
	str p = "d/file"; switch (how) { case 0: p += e; break; case 1: p += e + "x"; break; case 2: p += e.substr(0, e.size() - 1); break; case 3: p += e + ".bin"; break; case 4: p += ".bin" + e; break; default: p = "d" + e + "/file"; }
	put(p, "abc"); mc_note("%s", p.c_str()); serve_file(p, "abc", nullptr, mc_thorough()); serve_file(p, "abc", "application/x-mine", true); rm(p); if (how == 5) rmdir(("d" + e).c_str());
}
static void presets() { // a type that was set, however short or long, stays
	static const char *E[] = {".css", "", ".unknown", ".json"}; int n = 1 + mc_choose(31, "length"), e = mc_choose(4, "extension"), k = mc_choose(3, "kind"), direct = mc_choose(2, "direct"); mc_shard(); enter(); str p = str("f") + E[e], t; while ((int)t.size() < n) t += k == 0 ? 'x' : k == 1 ? "a/b; c=d"[t.size() % 8] : " %s"[t.size() % 3]; put(p, "data"); mc_note("%s with type %s", p.c_str(), Q(t)); serve_file(p, "data", t.c_str(), direct); rm(p);
}
static void lengths() { // the path's and the extension's length do not matter
	static const char *E[] = {"", ".js", ".txt", ".html", ".unknown", ".x", ".JPEG", ".webmwebmwebmwebmwebm", ".css.css.css.css.css.css", "."};
	str e = E[mc_choose(10, "extension")]; size_t n = 1 + mc_choose(mc_thorough() ? 600 : 300, "length"); int dots = mc_choose(2, "dotted directories"); mc_shard(); enter();
	str b; while (b.size() < n) { b += b.size() % 100 == 99 ? '/' : dots && b.size() % 100 == 40 && n > b.size() + 60 ? '.' : 'p'; } if (b.back() == '/') b.back() = 'q'; 
	if (b.size() - (b.rfind('/') == str::npos ? 0 : b.rfind('/') + 1) + e.size() > 250) mc_skip();
	str p = b + e; put(p, "contents"); mc_note("%s", p.c_str()); serve_file(p, "contents", nullptr, true); rm(p);
}
static void missing(const str &path, int rcwant) {
	void *r = sh_resp_new(); Exact p(path, true); int rc = sh_mmap_file(p.p, r); CHECK(rc == rcwant, "%s: status %d, not %d", Q(path), rc, rcwant);
	CHECK(sh_resp_out(r) && sh_resp_outsize(r) > 0, "%s: no error page", Q(path)); str s((char *)sh_resp_out(r), sh_resp_outsize(r)); CHECK(s.find('\0') == str::npos && s.compare(0, 6, "<html>") == 0 && s.size() > 14 && s.compare(s.size() - 7, 7, "</html>") == 0, "%s: error page is %s", Q(path), Q(s));
	size_t live = env_live(); sh_mmap_cleanup(rc, r); CHECK(env_live() == live, "the clean-up of a 404 released something"); sh_resp_free(r); mc_step(); mc_nontrivial();
}
static void faults() {
	static const char *FN[] = {"stat", "open", "mmap"}; static const int ER[] = {EACCES, EMFILE, ENOENT, ENOMEM, EIO};
	int k = mc_choose(6, "what"), e = mc_choose(5, "error"), srv = mc_choose(2, "through the server"), again = mc_choose(2, "then again"); size_t n = mc_choose(2, "size") ? 5000 : 0; mc_shard(); enter();
	if (n == 0 && k == 2) mc_skip();
	str p = "m.txt"; put(p, pattern(n)); if (k == 3) p = "not-there.txt"; if (k == 4) p = "."; if (k == 5) p = "m.txt/x";
	mc_note("%s: %s", k < 3 ? FN[k] : k == 3 ? "missing" : k == 4 ? "directory" : "below a file", p.c_str());
	bool fired = k >= 3;
	env_fault = [&](const char *f) { bool x = k < 3 && (!strcmp(f, FN[k]) || (k == 0 && !strcmp(f, "fstat")) || (k == 1 && !strcmp(f, "fopen"))); fired |= x; return x ? ER[e] : 0; };
	{ void *r = sh_resp_new(); int rc = sh_mmap_file(p.c_str(), r); sh_mmap_cleanup(rc, r); sh_resp_free(r); if (!fired) { env_fault = nullptr; rm("m.txt"); return; } } // that call is not used
	if (!srv) missing(p, 404); else {
		App app({{"GET", "f", "^/f", 0, H[0], sh_p_mmap_cleanup}}); on_handle = [&](int, const void *, void *r, const Seen &) { return sh_mmap_file(p.c_str(), r); };
		Conn *c = env_conn("GET /f HTTP/1.1\r\n\r\n"); serve(app, c); Resp r = parse_resp(c->out); CHECK(r.ok && r.code == 404, "%s: %s %d", Q(p), r.err.c_str(), r.code); CHECK(r.body.find("<html>") == 0, "error page is %s", Q(r.body)); mc_step(); mc_nontrivial();
	}
	env_fault = nullptr; mc_outcome(k * 10 + e);
	if (again && k < 3) serve_file("m.txt", pattern(n), nullptr, !srv);
	rm("m.txt");
}
static void changes() { // the contents at the time of the request are served, whatever was served before
	static const size_t S[] = {0, 1, 4096, 100}; size_t a = S[mc_choose(4, "first")], b = S[mc_choose(4, "second")]; int gone = mc_choose(3, "between"), how = mc_choose(2, "direct"); mc_shard(); enter();
	mc_note("%zu, %s, %zu", a, gone == 1 ? "missing" : gone == 2 ? "another file" : "nothing", b); put("c.css", pattern(a, 1)); serve_file("c.css", pattern(a, 1), nullptr, how);
	if (gone == 1) { rm("c.css"); missing("c.css", 404); } if (gone == 2) { put("other.gif", "zz"); serve_file("other.gif", "zz", nullptr, how); rm("other.gif"); }
	put("c.css", pattern(b, 2)); serve_file("c.css", pattern(b, 2), nullptr, how); rm("c.css");
}
static void paths() { // paths up to the longest that can be opened
	static const int N[] = {255, 256, 257, 300, 511, 512, 513, 514, 1000, 1023, 1024, 1025, 1026, 2046, 2047, 2048, 2049, 2050, 4000, 4093, 4094, 4095}; int n = N[mc_choose(22, "length")], how = mc_choose(2, "direct"), ext = mc_choose(3, "extension"); mc_shard(); enter(); str p, f = ext == 0 ? "f.css" : ext == 1 ? "f.tar.json" : "noext"; while ((int)(p.size() + f.size()) < n) p += (int)(p.size() + f.size()) == n - 1 ? "/" : "./"; if (p[0] == '/') p = "./" + p.substr(1); p += f; put(p, pattern(77, 1)); serve_file(p, pattern(77, 1), nullptr, how); rm(p);
}
int main(int c, char **v) { return mc_main(c, v, {
	{"presets", presets, 0, 0, "types of 1-31 bytes x 4 extensions x 3 kinds"},
	{"paths", paths, 0, 0, "22 path lengths from 255 to 4095 x 3 names x 2 ways"},
	{"huge", huge, 0, 0, "8 file sizes from 2^31-1 to 12 GB (sparse): whole files, and their ends through the server"},
	{"sizes", sizes, 0, 0, "32 sizes around every buffer and page multiple up to 1 MB, two contents, type preset or not, directly and through the server"},
	{"types", types, 0, 0, "all upper/lower-case variants of the 10 known extensions; longer, shorter, doubled extensions; extension in the directory"},
	{"lengths", lengths, 0, 0, "10 extensions x every path length 1..300 (600), with and without dotted directories"},
	{"faults", faults, 0, 0, "missing, directory, below a file, and stat/open/mmap failing with 5 errors; served again afterwards"},
	{"changes", changes, 0, 0, "all pairs of 4 contents served one after the other, with removal or another file between"},
	{"all sizes", all_sizes, 0, 0, "every size 0..4299 (8999)"}}); }

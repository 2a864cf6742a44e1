// C12: every response is one correctly framed HTTP message.
#include "http.h"
struct Hdr { str n, v; size_t nl, vl; };
static void expect(const str &out, int code, const str &type, const str &body, const std::vector<Hdr> &hs) {
	Resp p = parse_resp(out); CHECK(p.ok, "%s in %s", p.err.c_str(), Q(out)); mc_nontrivial();
	CHECK(p.code == code, "status %d was asked for, the client got %d", code, p.code);
	CHECK(p.status.size() > 13 && p.status[12] == ' ', "no reason phrase in %s", Q(p.status));
	CHECK(p.body == body, "the body of %zu bytes arrived as %s", body.size(), mc_quote(p.body, 80).c_str());
	CHECK(p.all("Content-Type")[0] == (type.empty() ? "text/html" : type), "Content-Type is %s", Q(p.all("Content-Type")[0]));
	CHECK(p.all("Connection").size() == 1 && p.all("Connection")[0] == "close", "the response does not announce the close once");
	std::vector<std::pair<str, str>> got; for (auto &x : p.h) if (x.first != "Content-Type" && x.first != "Content-Length" && x.first != "Connection" && x.first != "Server" && x.first != "Date") got.push_back(x);
	std::vector<std::pair<str, str>> want; for (auto &x : hs) want.push_back({x.n.substr(0, std::min(x.nl, x.n.size())), x.v.substr(0, std::min(x.vl, x.v.size()))});
	CHECK(got.size() == want.size(), "%zu custom headers were added, %zu arrived: %s", want.size(), got.size(), Q(out));
	for (size_t i = 0; i < got.size(); i++) CHECK(got[i] == want[i], "custom header %zu is %s: %s, added was %s: %s", i, mc_quote(got[i].first, 80).c_str(), mc_quote(got[i].second, 80).c_str(), mc_quote(want[i].first, 80).c_str(), mc_quote(want[i].second, 80).c_str());
	mc_outcome(mc_hash(out)); mc_state(mc_hash(out));
}
static void run(int code, const str &type, const str &body, const std::vector<Hdr> &hs, bool null_out = false, const char *extra = "") {
	App app({{"GET", "r", "^/r", 0, H[0], C[0]}});
	mc_note("status %d, type %s, body of %zu bytes, %zu custom headers", code, Q(type), body.size(), hs.size());
	for (auto &x : hs) mc_note("  %s (%zu): %s (%zu)", mc_quote(x.n, 60).c_str(), x.nl, mc_quote(x.v, 60).c_str(), x.vl);
	on_handle = [&](int, const void *, void *resp, const Seen &) {
		if (!type.empty()) sh_resp_set_mime(resp, type.c_str());
		for (auto &x : hs) { Exact n(x.n, x.nl > x.n.size()), v(x.v, x.vl > x.v.size()); int rc = sh_insert_header(resp, n.p, x.nl, v.p, x.vl); mc_step(); CHECK(rc == 1, "adding a custom header returned %d", rc); }
		if (null_out) { sh_resp_set(resp, nullptr, 0); return code; }
		return reply(resp, body, code);
	};
	on_clean = [&](int, int c, void *r) { CHECK(c == code, "the clean-up got status %d, the response had %d", c, code); CHECK(sh_resp_outsize(r) == body.size(), "the clean-up sees a body of %zu bytes", sh_resp_outsize(r)); if (sh_resp_out(r)) env_free(sh_resp_out(r)); };
	Conn *c = env_conn(str("GET /r HTTP/1.1\r\n") + extra + "\r\n"); Reply r = serve(app, c); CHECK(r.answered, "no response"); CHECK(cleans.size() == 1, "the clean-up ran %zu times", cleans.size());
	expect(c->out, code, type, body, hs);
}
static const int CODES[] = {200, 301, 302, 400, 403, 404, 500};
static Hdr hd(const str &n, const str &v) { return {n, v, n.size(), v.size()}; }
static void sizes() { // every body size
	int code = CODES[mc_choose(7, "status")]; size_t n = mc_choose(mc_thorough() ? 20001 : 4400, "body size"); mc_shard();
	if (code == 404 && n == 0) mc_skip();
	run(code, "", pattern(n, code), {});
}
static void bounds() {
	static const size_t S[] = {0, 1, 9, 10, 11, 99, 100, 101, 999, 1000, 4095, 4096, 4097, 8191, 8192, 8193, 9999, 10000, 10001, 65535, 65536, 99999, 100000, 100001, 999999, 1000000};
	static const std::vector<str> T = {"", "a", "text/plain", "application/json; charset=utf-8", "x/%s%d%n", str(31, 'm')};
	int code = CODES[mc_choose(7, "status")]; size_t n = S[mc_choose(mc_thorough() ? 26 : 24, "body size")]; const str &t = T[mc_choose(T.size(), "type")]; int nh = mc_choose(3, "headers"); bool nul = n == 0 && mc_choose(2, "null body"); mc_shard();
	if (code == 404 && n == 0) mc_skip();
	std::vector<Hdr> h; if (nh >= 1) h.push_back(hd("Location", "/else/where?x=%20y")); if (nh == 2) h.push_back(hd("Set-Cookie", "a=b; Path=/"));
	run(code, t, pattern(n, 3), h, nul);
}
static void headers() { // lists of custom headers: every length around the growth steps
	int code = CODES[mc_choose(7, "status")]; int n = mc_choose(mc_thorough() ? 140 : 70, "headers"), kind = mc_choose(5, "kind"), bs = mc_choose(4, "body"); mc_shard(); if (bs == 3 && code == 404) mc_skip();
	std::vector<Hdr> h;
	for (int i = 0; i < n; i++) {
		if (kind == 0) h.push_back(hd("X-H" + num(i), "v" + num(i)));
		else if (kind == 1) h.push_back(hd("Set-Cookie", "same"));
		else if (kind == 2) h.push_back(hd("X", str(i * 3, 'v')));
		else if (kind == 3) { Hdr x = hd("Name" + num(i) + "-rest", "value" + num(i) + "-rest"); x.nl -= 5; x.vl -= 5; h.push_back(x); }
		else { Hdr x = hd("Name" + num(i), "value"); x.nl += 1 + i; x.vl += 7; h.push_back(x); }
	}
	run(code, "text/plain", bs == 3 ? "" : bs == 0 ? "b" : bs == 1 ? pattern(100) : pattern(5000), h);
}
static void manyheaders() { // more headers than any small integer counts
	static const int N[] = {70, 100, 126, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 5000}; int n = N[mc_choose(mc_thorough() ? 20 : 18, "headers")], kind = mc_choose(3, "kind"), code = CODES[mc_choose(3, "status")]; mc_shard(); std::vector<Hdr> h; for (int i = 0; i < n; i++) h.push_back(kind == 0 ? hd("H" + num(i), num(i)) : kind == 1 ? hd("H", "") : hd("H" + num(i), str(i % 40, 'v'))); run(code, "", "body", h);
}
static void lengths() { // every name and value length
	int which = mc_choose(3, "which"), n = mc_choose(mc_thorough() ? 6000 : 2500, "length"); mc_shard();
	run(200, "", "body", {hd("First", "1"), which == 0 ? hd("X-" + str(n, 'n'), "v") : which == 1 ? hd("X", str(n, '%')) : hd("N" + str(n, 'n'), str(n, 's')), hd("Last", "2")});
}
static void alphabet() { // every sequence of up to 4 headers
	static const std::vector<Hdr> A = {hd("A", "1"), hd("A", "2"), hd("B", ""), hd("C", "%s%n%zu"), hd("D", str(300, 'd')), {"E-cut", "value-cut", 1, 5}, hd("Fgh", "a: b: c"), {"G", "past the end", 9, 99}};
	int n = mc_choose(mc_thorough() ? 6 : 5, "headers"); std::vector<Hdr> h; for (int i = 0; i < n; i++) { h.push_back(A[mc_choose(A.size(), "header")]); if (i == 0) mc_shard(); } if (!n) mc_shard();
	run(n & 1 ? 302 : 200, "", "0123456789", h);
}
static void arguments() { // refused additions change nothing; memory running out while adding
	int k = mc_choose(4, "case"); int nth = mc_choose(6, "allocation that fails"), before = mc_choose(10, "headers before"); mc_shard(); mc_note("case %d, allocation %d fails, %d headers before", k, nth, before);
	App app({{"GET", "r", "^/r", 0, H[0], C[0]}}); std::vector<Hdr> h;
	on_handle = [&](int, const void *, void *resp, const Seen &) {
		for (int i = 0; i < before; i++) { h.push_back(hd("H" + num(i), "v")); CHECK(sh_insert_header(resp, h.back().n.c_str(), h.back().nl, "v", 1) == 1, "adding a custom header failed"); }
		if (k < 3) { CHECK(sh_insert_header(k == 0 ? nullptr : resp, k == 1 ? nullptr : "N", 1, k == 2 ? nullptr : "v", 1) == 0, "adding nothing reports success"); }
		else { env_fail_alloc(nth); int rc = sh_insert_header(resp, "New", 3, "value", 5); bool f = env_alloc_failed; env_fail_alloc(0); CHECK(rc == (f ? 0 : 1), "adding a header returned %d, memory %s", rc, f ? "ran out" : "was there"); if (rc) h.push_back(hd("New", "value")); }
		h.push_back(hd("Later", "x")); CHECK(sh_insert_header(resp, "Later", 5, "x", 1) == 1, "adding a custom header failed");
		return reply(resp, "body");
	};
	on_clean = [&](int, int, void *r) { env_free(sh_resp_out(r)); };
	Conn *c = env_conn("GET /r HTTP/1.1\r\n\r\n"); Reply r = serve(app, c); CHECK(r.answered, "no response"); expect(c->out, 200, "", "body", h);
}
static void builtin() { // the responses the library makes itself
	static const char *RQ[] = {"GET /no HTTP/1.1\r\n\r\n", "POST /no HTTP/1.1\r\nContent-Length: 2\r\n\r\nhi"};
	int q = mc_choose(2, "request"), w = mc_choose(4, "page"); mc_shard(); std::vector<sh_route> rt; if (w) rt.push_back({q ? "POST" : "GET", "m", "^/", 0, H[0], w == 3 ? sh_p_mmap_cleanup : nullptr}); App app(rt); mc_note("%s, page %d", RQ[q], w);
	str path = w == 3 ? env_put_file("file.txt", pattern(777)) : env_dir() + "/missing";
	on_handle = [&](int, const void *, void *resp, const Seen &) { if (w == 1) { sh_resp_set(resp, nullptr, 0); return 404; } if (w == 2 || w == 3) return sh_mmap_file(path.c_str(), resp); return 404; };
	Conn *c = env_conn(RQ[q]); Reply r = serve(app, c); CHECK(r.answered, "no response"); Resp p = parse_resp(c->out); CHECK(p.ok, "%s: %s", p.err.c_str(), Q(c->out)); mc_nontrivial(); CHECK(p.code == (w == 3 ? 200 : 404), "status %d", p.code); CHECK(!p.body.empty(), "an empty page"); if (w == 3) CHECK(p.body == pattern(777) && p.all("Content-Type")[0] == "text/plain", "the file arrived as %s", Q(c->out)); mc_outcome(mc_hash(c->out)); mc_state(w * 2 + q);
}
static void bulk() { // headers of any total size
	static const int Z[] = {1000, 2000, 3000, 4000, 4096, 8000, 8192, 16000, 16384, 32000, 32767, 32768, 40000, 64000, 65000, 65400, 65535, 65536, 66000, 100000, 131072, 200000, 1000000}; static const int N[] = {1, 2, 3, 10, 100, 300}; int z = Z[mc_choose(23, "total")], n = N[mc_choose(6, "headers")], d = mc_choose(5, "near") - 2, b = mc_choose(3, "body"); mc_shard(); z += d; if (z / n < 20) mc_skip(); std::vector<Hdr> h; int left = z; for (int i = 0; i < n; i++) { int m = i + 1 < n ? z / n : left; left -= m; str nm = "X" + num(i); h.push_back(hd(nm, str(m - nm.size() - 4, 'a' + i % 26))); } run(b == 1 ? 404 : 200, "", b == 0 ? "b" : b == 1 ? pattern(5000) : pattern(70000), h);
}
static void magnitudes() { // bodies around every power of ten
	int k = mc_choose(9, "power"), d = mc_choose(5, "near") - 2, w = mc_choose(3, "status"); if (k >= 7 && (d < -1 || d > 0 || w)) mc_skip(); mc_shard(); size_t n = 1; for (int i = 0; i < k; i++) n *= 10; if ((long)n + d < 1) mc_skip(); run(CODES[w * 3 % 7], "", str(n + d, 'a' + k), {hd("Last", "1")});
}
int main(int c, char **v) { return mc_main(c, v, {
	{"magnitudes", magnitudes, 0, 0, "body sizes around every power of ten up to 10^8 x 3 codes"},
	{"bulk", bulk, 0, 0, "115 total sizes of custom headers up to 1 MB in up to 300 headers x 3 bodies"},
	{"manyheaders", manyheaders, 0, 0, "18 (20) numbers of custom headers from 70 to 1025 (5000) x 3 kinds x 3 codes"},
	{"alphabet", alphabet, 0, 0, "all sequences of up to 4 (thorough 5) of 8 custom headers"},
	{"headers", headers, 0, 0, "7 codes x 0..69 (139) custom headers x 5 kinds (incl. cut and over-long length arguments) x 4 bodies"},
	{"sizes", sizes, 0, 0, "7 codes x every body size 0..4399 (20000)"},
	{"bounds", bounds, 0, 0, "7 codes x 24 (26) body sizes around digit-count and slice boundaries x 6 content types x 0..2 custom headers"},
	{"lengths", lengths, 0, 0, "custom header name/value lengths 0..2499 (5999)"},
	{"arguments", arguments, 0, 0, "missing arguments, and every placement of an allocation failure while adding after 0..9 headers"},
	{"builtin", builtin, 0, 0, "built-in 404, empty 404, missing file, file"}}); }

// C13: byte ranges are self-consistent and deliver the requested bytes.
#include "http.h"
typedef unsigned long long ull;
static std::vector<std::pair<str, str>> XH = {{"X-One", "1"}, {"X-Two", "%d two"}};
static Resp fetch(const str &range, size_t size, int code, bool null_body = false, const str &type = "") {
	App app({{"GET", "r", "^/r", 0, H[0], C[0]}}); mc_note("Range: %s, body of %zu bytes, status %d", Q(range), size, code);
	str body = pattern(size, 5);
	on_handle = [&](int, const void *, void *resp, const Seen &) { for (auto &x : XH) CHECK(sh_insert_header(resp, x.first.c_str(), x.first.size(), x.second.c_str(), x.second.size()) == 1, "custom header refused"); if (!type.empty()) sh_resp_set_mime(resp, type.c_str()); if (null_body) { sh_resp_set(resp, nullptr, 0); return code; } return reply(resp, body, code); };
	on_clean = [&](int, int, void *r) { if (sh_resp_out(r)) env_free(sh_resp_out(r)); };
	Conn *c = env_conn("GET /r HTTP/1.1\r\nHost: h\r\nRange: " + range + "\r\n\r\n"); Reply r = serve(app, c); CHECK(r.answered, "no response");
	Resp p = parse_resp(c->out); CHECK(p.ok, "%s: %s", p.err.c_str(), Q(c->out)); CHECK(cleans.size() == 1, "clean-up ran %zu times", cleans.size()); mc_nontrivial();
	if (p.code != 404 || code == 404) for (auto &x : XH) CHECK(p.all(x.first) == std::vector<str>{x.second}, "custom header %s was lost", x.first.c_str());
	CHECK(p.all("Content-Type")[0] == (type.empty() ? "text/html" : type), "content type changed");
	mc_outcome(mc_hash(c->out)); mc_state(mc_hash(range, size * 1000 + code));
	return p;
}
// any answer must be either the whole body with the handler's status, or an exact part of it
static void consistent(const Resp &p, size_t size, int code) {
	str body = pattern(size, 5); auto cr = p.all("Content-Range");
	if (p.code == 206) {
		CHECK(code == 200 && size > 0, "a response with status %d and %zu bytes was turned into 206", code, size);
		CHECK(cr.size() == 1, "206 with %zu Content-Range headers", cr.size()); ull a, b, t; int n = 0;
		CHECK(sscanf(cr[0].c_str(), "bytes %llu-%llu/%llu%n", &a, &b, &t, &n) == 3 && n == (int)cr[0].size(), "malformed Content-Range %s", Q(cr[0]));
		CHECK(t == size, "Content-Range says %llu bytes in total, there are %zu", t, size); CHECK(a <= b && b < size, "Content-Range %s does not lie inside the body of %zu bytes", Q(cr[0]), size);
		CHECK(p.body == body.substr(a, b - a + 1), "Content-Range says %s but other bytes (%zu of them) were sent", Q(cr[0]), p.body.size());
	} else { CHECK(p.code == code || (p.code == 416 && code == 200), "status %d became %d", code, p.code); if (p.code == code) { CHECK(cr.empty(), "Content-Range on status %d", code); CHECK(p.body == body, "only %zu of %zu bytes were sent with status %d", p.body.size(), size, code); } }
}
static void exact(const Resp &p, size_t size, ull a, ull b) {
	consistent(p, size, 200); CHECK(p.code == 206, "a satisfiable range got status %d", p.code); if (b > size - 1) b = size - 1;
	str want = "bytes " + num(a) + "-" + num(b) + "/" + num(size); CHECK(p.all("Content-Range")[0] == want, "Content-Range is %s, expected %s", Q(p.all("Content-Range")[0]), want.c_str());
}
static void numbers(size_t size, const str &a, const str &b, bool valid) {
	Resp p = fetch("bytes=" + a + "-" + b, size, 200);
	ull x = strtoull(a.c_str(), 0, 10), y = b.empty() ? ~0ull : strtoull(b.c_str(), 0, 10); bool huge = a.size() > 19;
	if (valid && !huge && x < size && (b.empty() || (x <= y && y >= 1))) exact(p, size, x, b.size() > 19 ? ~0ull : y); else consistent(p, size, 200);
}
static void small() { // all pairs for all small bodies
	size_t size = 1 + mc_choose(mc_thorough() ? 30 : 16, "size"); int a = mc_choose(size + 4, "a"), b = mc_choose(size + 5, "b"); mc_shard(); numbers(size, num(a), b == (int)size + 4 ? "" : num(b), true);
}
static const size_t S[] = {1, 2, 9, 10, 11, 26, 99, 100, 101, 999, 1000, 1001, 4096, 9999, 10000, 10001, 100000, 1000000};
static void bounds() {
	size_t size = S[mc_choose(mc_thorough() ? 18 : 17, "size")];
	std::vector<str> v; for (long k : {0L, 1L, 2L, 8L, 9L, 10L, 11L, 50L, 98L, 99L, 100L, 101L, 998L, 999L, 1000L, 4095L, 4096L, 9998L, 9999L, 10000L, 10001L, 99999L, 100000L}) v.push_back(num(k)); for (long d = -3; d <= 3; d++) if ((long)size + d >= 0) v.push_back(num((long)size + d));
	for (const char *s : {"2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "00", "01", "0000000000000000000007"}) v.push_back(s);
	int a = mc_choose(v.size(), "a"), b = mc_choose(v.size() + 1, "b"); mc_shard(); const str &A = v[a]; str B = b == (int)v.size() ? "" : v[b];
	auto odd = [](const str &s) { return s.size() > 19 || (s.size() > 1 && s[0] == '0'); };
	numbers(size, A, B, !odd(A) && !(odd(B)) );
}
static const std::vector<str> BAD = {"", "b", "bytes", "bytes=", "bytes=-", "bytes=-5", "bytes=--", "bytes=a-b", "bytes=5", "bytes=5-3", "bytes=0-0", "bytes=1-2,4-5", "bytes=,", "bytes= 1-2", "bytes=1 -2", "bytes=1- 2", "bytes=1-2 ", "Bytes=1-2", "bytes 1-2", "items=1-2", "bytes=1-2-3", "bytes=+1-2", "bytes=1-+2", "bytes=-1-2", "bytes=1--2", "bytes=0x1-0x3", "bytes=1.5-2", "bytes=%s-%n", "=1-2", "1-2", "-", "bytes==1-2", "bytes=1-2=3", "bytes=\xff-\xfe", "bytes=1-b", "bytes=b-1", str(500, '9'), "bytes=" + str(300, '1') + "-" + str(300, '2'), "bytes=1-" + str(400, '9'), "bytes=" + str(400, '0') + "-5"};
static void malformed() {
	static const size_t Z[] = {1, 2, 3, 10, 100, 4096}; int k = mc_choose(BAD.size(), "range"), s = mc_choose(6, "size"); mc_shard(); consistent(fetch(BAD[k], Z[s], 200), Z[s], 200);
}
static void strings() { // every range text of a few bytes
	static const char *A[] = {"0", "3", "-", ",", " ", "=", "x", "9999999999999999999999"}; int n = mc_choose(mc_thorough() ? 8 : 6, "length"); str r; int pre = mc_choose(2, "prefix"); if (pre) r = "bytes="; for (int i = 0; i < n; i++) { r += A[mc_choose(8, "part")]; if (i == 1) mc_shard(); } if (n < 2) mc_shard();
	consistent(fetch(r, 7, 200), 7, 200);
}
static void statuses() { // only successes with a body become partial
	static const int CO[] = {200, 301, 302, 400, 403, 404, 500}; static const char *R[] = {"bytes=0-1", "bytes=1-", "bytes=0-", "bytes=5-9", "bytes=9-5", "bytes=100-200", "nonsense", "bytes=0-0"}; static const std::vector<str> T = {"", "video/webm", str(31, 'm')};
	int code = CO[mc_choose(7, "status")]; const char *r = R[mc_choose(8, "range")]; static const size_t Z[] = {0, 0, 1, 2, 10, 4097}; int z = mc_choose(6, "size"), t = mc_choose(3, "type"); mc_shard(); if (code == 404 && Z[z] == 0) mc_skip();
	Resp p = fetch(r, Z[z], code, z == 0, T[t]); consistent(p, Z[z], code); if (code != 200 || Z[z] == 0) CHECK(p.code == code, "status %d with %zu bytes became %d", code, Z[z], p.code);
}
static void parser() { // the parser itself on exact buffers: nothing is read beyond the terminator
	static const char A[] = "bytes=-0159 ,x"; int n = mc_choose(mc_thorough() ? 7 : 6, "length"), pre = mc_choose(3, "prefix"); str r = pre == 0 ? "" : pre == 1 ? "bytes=" : "bytes=12-"; for (int i = 0; i < n; i++) { r += A[mc_choose(14, "byte")]; if (i == 1) mc_shard(); } if (n < 2) mc_shard();
	mc_note("%s", Q(r)); Exact e(r, true); size_t l = 0, o = 0; sh_range(e.p, &l, &o); mc_step(); mc_nontrivial(); ull a, b; int k = 0;
	auto digits = [](const str &s) { return !s.empty() && s.size() < 15 && s.find_first_not_of("0123456789") == str::npos; };
	if (r.compare(0, 6, "bytes=") == 0) { size_t d = r.find('-', 6); if (d != str::npos && digits(r.substr(6, d - 6)) && digits(r.substr(d + 1))) { sscanf(r.c_str(), "bytes=%llu-%llu%n", &a, &b, &k); if (a <= b) CHECK(o == a && l == b, "parsed as offset %zu limit %zu", o, l); } else if (d != str::npos && digits(r.substr(6, d - 6)) && d + 1 == r.size()) { a = strtoull(r.c_str() + 6, 0, 10); CHECK(o == a && l == 0, "parsed as offset %zu limit %zu", o, l); } }
	mc_outcome(l * 1000003 + o); mc_state(mc_hash(r));
}
static void headers() { // partial responses with any number of custom headers
	int n = mc_choose(mc_thorough() ? 300 : 140, "headers"), r = mc_choose(3, "range"); mc_shard(); auto keep = XH; XH.clear(); for (int i = 0; i < n; i++) XH.push_back({"X-" + num(i) + "-n", str(i % 23, 'v') + num(i)});
	if (r == 0) exact(fetch("bytes=2-5", 20, 200), 20, 2, 5); else if (r == 1) exact(fetch("bytes=0-", 20, 200), 20, 0, 19); else consistent(fetch("bytes=5", 20, 200), 20, 200);
	XH = keep;
}
// Bodies larger than 32-bit numbers hold. They are sparse: the bytes near the boundaries differ from one another, all others are zero.
#include <sys/mman.h>
static const ull K[] = {0, 1ull << 31, 1ull << 32, 5000000000ull, 1000000, 10000000, 100000000, 1000000000}; static char *sparse; static unsigned char at(ull i) { for (ull k : K) if (i + 64 >= k && i < k + 64) return 'A' + (i * 7 + k / 1000003) % 26; return 0; }
static void huge() {
	static const ull Z[] = {(1ull << 31) - 1, 1ull << 31, (1ull << 31) + 5, (1ull << 32) - 1, 1ull << 32, (1ull << 32) + 5, 5000000000ull, 5000000060ull, 999999, 1000000, 9999999, 10000000, 99999999, 100000000, 999999999, 1000000000}; ull size = Z[mc_choose(16, "size")]; ull k = K[mc_choose(8, "near")]; int d = mc_choose(13, "distance"), l = mc_choose(8, "length"); mc_shard(); if (k + d < 6) mc_skip(); if (l == 7 && (k || d > 8 || size > 100000000)) mc_skip();
	ull a = k + d - 6; if (a >= size || (a == 0 && l == 0)) mc_skip(); ull b = l < 4 ? a + l * 3 : l == 7 ? a + (size > 10000000 ? 9999998 : 999998) : l == 4 ? size - 1 : l == 5 ? size + 100000 : ~0ull >> 1; if (l >= 4 && l < 7 && size - a > 100) mc_skip();
	if (!sparse) { sparse = (char *)mmap(nullptr, 5000000000ull + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (sparse == MAP_FAILED) mc_fail("harness: no room for a large body"); for (ull q : K) for (ull i = q < 64 ? 0 : q - 64; i < q + 64; i++) sparse[i] = at(i); }
	str rg = "bytes=" + num(a) + "-" + (l == 4 ? "" : num(b)); App app({{"GET", "r", "^/r", 0, H[0], C[0]}}); mc_note("Range: %s, body of %llu bytes", Q(rg), size); on_handle = [&](int, const void *, void *resp, const Seen &) { sh_resp_set(resp, sparse, size); return 200; };
	Conn *c = env_conn("GET /r HTTP/1.1\r\nRange: " + rg + "\r\n\r\n"); Reply r = serve(app, c); CHECK(r.answered, "no response"); Resp p = parse_resp(c->out); CHECK(p.ok, "%s: %s", p.err.c_str(), Q(c->out.substr(0, 400))); mc_nontrivial(); if (b > size - 1) b = size - 1;
	CHECK(p.code == 206, "a satisfiable range got status %d", p.code); str want = "bytes " + num(a) + "-" + num(b) + "/" + num(size); CHECK(p.all("Content-Range") == std::vector<str>{want}, "Content-Range is %s, expected %s", Q(p.all("Content-Range").empty() ? str() : p.all("Content-Range")[0]), want.c_str());
	str body; for (ull i = a; i <= b; i++) body += (char)(sparse[i]); CHECK(p.body == body, "the payload is %s, bytes %llu to %llu are %s", Q(p.body), a, b, Q(body)); CHECK(cleans.size() == 1 && cleans[0].outsize == size, "the clean-up was told another size"); mc_outcome(mc_hash(c->out)); mc_state(mc_hash(rg, size));
}
int main(int c, char **v) { return mc_main(c, v, {
	{"small", small, 0, 0, "all a, b (and open end) up to past the end for all body sizes 1..16 (30)"},
	{"bounds", bounds, 0, 0, "17 (18) body sizes x about 42 x 43 numbers around digit-count, size and integer-type boundaries"},
	{"huge", huge, 0, 0, "16 body sizes around powers of ten and of 2 to 5 GB x ranges of 8 lengths (up to 10 MB) that start near 0, 2^31, 2^32, powers of ten and the end"},
	{"headers", headers, 0, 0, "ranges of three kinds on responses with 0..139 (299) custom headers"},
	{"malformed", malformed, 0, 0, "40 malformed ranges x 6 sizes"}, {"strings", strings, 0, 0, "all range texts of up to 5 (7) parts over 0 3 - , space = x and a huge number, with and without the unit"},
	{"statuses", statuses, 0, 0, "7 statuses x 8 ranges x 6 bodies x 3 types"}, {"parser", parser, 0, 0, "every text of up to 5 (6) bytes over 14 characters after three prefixes, in exact buffers"}}); }

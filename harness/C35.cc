// C35: parsing a request received elsewhere: exact on every buffer, and nothing beyond it.
#include "http.h"
struct Req { void *r; Req() : r(sh_mkreq(nullptr, 0)) {} ~Req() { sh_freereq(r); } };
static sh_req view(const Req &q) { sh_req v; sh_req_view(q.r, &v); return v; }
// bytes that may lie behind the given ones: a terminator, always
static int parse(Req &q, const str &raw, size_t n) { Exact e(raw, true); mc_step(); return sh_parse_request(e.p, n, q.r); }
static void invariant(const str &raw, size_t n, bool must, const str &verb, const str &res, size_t hlen) {
	Req q; int rc = parse(q, raw, n); sh_req v = view(q); mc_note("%s, %zu bytes", Q(raw), n); mc_nontrivial(); mc_state(mc_hash(raw, n)); mc_outcome(mc_hash(num(rc) + str(v.verb, strnlen(v.verb, 16)), v.header_len));
	CHECK(rc == 0 || rc == -1, "parsing returns %d", rc);
	if (must) { CHECK(rc == 0, "a complete request was rejected"); CHECK(verb == v.verb, "the verb is %s", Q(str(v.verb))); CHECK(res == v.resource, "the resource is %s", Q(str(v.resource))); CHECK(v.header_len == hlen, "the header has %zu bytes, not %zu", v.header_len, hlen); }
	if (rc != 0) { CHECK(!v.header && !v.header_len, "a rejected request has a header"); CHECK(env_live() == 0, "rejecting the request left %s", env_live_desc().c_str()); return; }
	CHECK(strnlen(v.verb, 16) < 16 && strnlen(v.resource, 512) < 512, "the verb or the resource is not terminated");
	size_t e = raw.substr(0, n).find("\r\n\r\n"); CHECK(e != str::npos, "a request without end of header was accepted");
	CHECK(v.header_len == e + 4 && v.header && !memcmp(v.header, raw.data(), e + 4) && !v.header[e + 4], "the header is %s, not %s", v.header ? Q(str(v.header, v.header_len)) : "none", Q(raw.substr(0, e + 4)));
}
static const std::vector<str> WELL = {"GET / HTTP/1.1\r\n\r\n", "POST /form?x=%20 HTTP/1.0\r\nContent-Length: 5\r\nHost: h\r\n\r\na=b&c", "DELETE /a/b/c HTTP/1.1\r\nX: \r\n\r\nbody\r\n\r\nmore", "O * HTTP/1.1\r\nA: b c d\r\n\r\n\r\n\r\n", "PROPPATCHMETHOD /" + str(510, 'r') + " HTTP/1.1\r\n\r\n", "GET /x HTTP/1.1\r\nLong: " + str(1500, 'l') + "\r\n\r\ntail", "GET /n HTTP/1.1\r\nX: " + str("\0\0\0a\0\r\0\n\0\0", 10) + "\r\n\r\n", "G\xff! /\x01\x7f\t HTTP\r\n" + str("\0\0", 2) + "\r\n\r\n"};
static bool complete(const str &t, size_t n, str &verb, str &res, size_t &h) { // a request line of three words, header lines, a blank line
	str u = t.substr(0, n); size_t e = u.find("\r\n\r\n"), l = u.find("\r\n"); if (e == str::npos) return false; h = e + 4; str q = u.substr(0, l); for (char c : q) if (!c || c == '\r' || c == '\n') return false; size_t a = q.find(' '), b = a == str::npos ? a : q.find(' ', a + 1); if (b == str::npos || a == 0 || b == a + 1 || a > 15 || b - a - 1 > 511) return false; verb = q.substr(0, a); res = q.substr(a + 1, b - a - 1); return true;
}
static void prefixes() { // every number of bytes of well-formed requests, with the rest behind it or not
	int w = mc_choose(WELL.size(), "request"), n = mc_choose(WELL[w].size() + 1, "bytes"), rest = mc_choose(2, "rest follows"); mc_shard(); const str &t = WELL[w]; size_t h = t.find("\r\n\r\n") + 4, a = t.find(' '), b = t.find(' ', a + 1);
	invariant(rest ? t : t.substr(0, n), n, (size_t)n >= h, t.substr(0, a), t.substr(a + 1, b - a - 1), h);
	if ((size_t)n < h) { Req q; CHECK(parse(q, rest ? t : t.substr(0, n), n) == -1, "a request of which only %d bytes are there was accepted", n); }
}
static void tokens() { // any pieces in any order
	static const std::vector<str> T = {"GET", " ", "/", "\r\n", "\r", "\n", "\r\n\r\n", str("\0", 1), "HTTP/1.1", "A: b", "\xff", "VERBOF16CHARACTE"};
	str t; int d = mc_choose(mc_thorough() ? 8 : 7, "length"); for (int i = 0; i < d; i++) { t += T[mc_choose(T.size(), "piece")]; if (i == 1) mc_shard(); } if (d < 2) mc_shard();
	str v, r; size_t h = 0; bool must = complete(t, t.size(), v, r, h); invariant(t, t.size(), must, v, r, h);
	for (size_t n = t.size(); n-- > 0 && d <= 4;) { bool m = complete(t, n, v, r, h); invariant(t, n, m, v, r, h); }
}
static void sizes() { // verbs, resources and headers of every length around what can be stored
	int what = mc_choose(3, "what"), n = 1 + mc_choose(mc_thorough() ? 3000 : 1300, "length"), z = mc_choose(2, "bytes behind"); mc_shard(); str verb = what == 0 ? str(n, 'V') : "GET", res = what == 1 ? str(n, 'r') : "/", hd = what == 2 ? "X: " + str(n, 'h') + "\r\n" : ""; str t = verb + " " + res + " HTTP/1.1\r\n" + hd + "\r\n"; size_t h = t.size(); if (z) t += "trailing bytes";
	bool fits = verb.size() <= 15 && res.size() <= 511; invariant(t, t.size(), fits, verb, res, h); if (!fits) { Req q; CHECK(parse(q, t, t.size()) == -1, "a %s of %d bytes was accepted", what ? "resource" : "verb", n); }
}
static void large() { // headers and requests of any size
	static const size_t L[] = {2047, 2048, 4095, 4096, 8191, 8192, 16383, 16384, 32767, 32768, 65535, 65536, 65537, 131072, 1000000, 1048576, 16777217}; size_t l = L[mc_choose(mc_thorough() ? 17 : 16, "size")]; int d = mc_choose(9, "difference"), tail = mc_choose(3, "bytes behind"), end = mc_choose(2, "complete"); mc_shard(); str head = "POST /x HTTP/1.1\r\nX: "; size_t h = l - 4 + d; str t = head + str(h - head.size() - (end ? 4 : 0), 'h') + (end ? "\r\n\r\n" : ""); if (tail) t += tail == 1 ? str(100, 't') : str(70000, '\r'); invariant(t, t.size(), end, "POST", "/x", h); if (!end) { Req q; CHECK(parse(q, t, t.size()) == -1, "a request without blank line was accepted"); }
}
static void memory_() { // no memory: reported, nothing held
	int w = mc_choose(WELL.size(), "request"), k = mc_choose(2, "call"), n = 1 + mc_choose(3, "allocation"); mc_shard(); const str &t = WELL[w]; Req q; Exact e(t, true); if (k == 0) env_fail_alloc(n); int rc = sh_parse_request(e.p, t.size(), q.r); bool hit = env_alloc_failed; env_fail_alloc(0);
	if (k == 0 && hit) { CHECK(rc == -1, "without memory parsing returns %d", rc); mc_nontrivial(); mc_outcome(1); return; } CHECK(rc == 0, "rejected"); sh_req v = view(q); size_t got = t.size() - v.header_len; env_fail_alloc(k ? n : 0); rc = sh_parse_body(got, got, e.p, q.r); hit = env_alloc_failed; env_fail_alloc(0); if (hit) { CHECK(rc == -1 && !view(q).body, "without memory for the body parsing returns %d", rc); mc_nontrivial(); } else CHECK(rc == 0, "the body was rejected"); mc_outcome(rc + 10);
}
static void body(const str &head, const str &have, size_t got, size_t ann) { // what was received and what was announced
	Req q; str t = head + have; { Exact e(head, true); CHECK(sh_parse_request(e.p, head.size(), q.r) == 0, "rejected"); } Exact e(head + have.substr(0, std::min(got, ann))); int rc = sh_parse_body(got, ann, e.p, q.r); sh_req v = view(q); mc_note("%zu bytes received, %zu announced", got, ann); mc_nontrivial(); mc_step();
	if (ann == 0 && got > 0) { CHECK(rc == -1 && !v.body && !v.body_len, "a body nobody announced was accepted (%d, %zu bytes)", rc, v.body_len); mc_outcome(1); return; }
	size_t n = std::min(got, ann); CHECK(rc == 0 && v.body, "the body was rejected (%d)", rc); CHECK(v.body_len == n, "the body has %zu bytes, not %zu", v.body_len, n); CHECK(!memcmp(v.body, have.data(), n), "the body is %s, not %s", Q(str((const char *)v.body, n)), Q(have.substr(0, n))); CHECK(!v.body[n], "the body is not terminated"); mc_outcome(2 + n); mc_state(got * 100003 + ann);
}
static void bodies() { // all small pairs, and large ones
	static const size_t S[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 17, 255, 256, 1023, 1024, 1025, 4096, 65535, 65536, 65537, 100000, 1000000, 8388609}; int N = mc_thorough() ? 24 : 23, a = mc_choose(N, "received"), b = mc_choose(N, "announced"), w = mc_choose(WELL.size(), "request"), k = mc_choose(3, "content"); mc_shard(); size_t h = WELL[w].find("\r\n\r\n") + 4;
	size_t m = std::max(S[a], S[b]); body(WELL[w].substr(0, h), k == 0 ? pattern(m, 3) : k == 1 ? str(m, 0) : str(m, 'b'), S[a], S[b]);
}
static void lines() { // complete requests with any pieces in their header
	static const std::vector<str> T = {str("\0", 1), "\r", "\n", "\r\n", "a", ":", " ", "\xff"}; str t; int d = mc_choose(mc_thorough() ? 8 : 7, "length"); for (int i = 0; i < d; i++) { t += T[mc_choose(T.size(), "piece")]; if (i == 1) mc_shard(); } if (d < 2) mc_shard();
	t = "GET /x HTTP/1.1\r\n" + t + "\r\n\r\n"; str v, r; size_t h = 0; bool m = complete(t, t.size(), v, r, h); CHECK(m, "harness: not complete"); invariant(t, t.size(), m, v, r, h);
}
static void everybyte() { // every byte, and every pair of bytes, in the verb, the resource and the header
	int w = mc_choose(4, "where"), a = mc_choose(256, "byte"); mc_shard(); for (int b = 0; b < 256; b++) { str s{(char)a, (char)b}; str t = w == 0 ? s + "ET /x HTTP/1.1\r\n\r\n" : w == 1 ? "GET /" + s + "x HTTP/1.1\r\n\r\n" : w == 2 ? "GET /x HTTP" + s + "\r\n\r\n" : "GET /x HTTP/1.1\r\n" + s + "\r\n\r\n"; str v, r; size_t h = 0; bool m = complete(t, t.size(), v, r, h); invariant(t, t.size(), m, v, r, h); }
}
int main(int c, char **v) { return mc_main(c, v, {
	{"lines", lines, 0, 0, "complete requests with all sequences of up to 6 (7) of 8 pieces in the header"}, {"everybyte", everybyte, 0, 0, "every pair of bytes at 4 places of a request"},
	{"prefixes", prefixes, 0, 0, "every prefix of 8 requests, with the rest behind it or not"}, {"sizes", sizes, 0, 0, "every length 1-1300 (3000) of verb, resource and header, with and without bytes behind"},
	{"large", large, 0, 0, "headers within 4 bytes of 16 (17) sizes up to a megabyte (16) x 3 kinds of bytes behind x complete or not"},
	{"memory", memory_, 0, 0, "every allocation failing for 8 requests and their bodies"}, {"bodies", bodies, 0, 0, "23 x 23 (24 x 24) numbers of bytes received and announced x 8 headers x 3 contents"},
	{"tokens", tokens, 0, 0, "all sequences of up to 6 (7) of 12 pieces, and all their prefixes up to 4 pieces"}}); }

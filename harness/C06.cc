// C06: handlers see the request exactly as sent.
#include "http.h"
static void expect(const str &verb, const str &res, const str &hdrs, const str &body, bool must, const char *what) {
	static const char *VB[] = {"GET", "POST", "PUT", "DELETE", "PATCH", "OPTIONS", "HEAD", "PROPPATCHMETHOD"};
	std::vector<sh_route> rt; for (int i = 0; i < 8; i++) rt.push_back({VB[i], "r", "^", 0, H[i], C[i]});
	App app(rt);
	on_handle = [&](int, const void *, void *resp, const Seen &) { return reply(resp, "ok"); };
	on_clean = [&](int, int, void *r) { env_free(sh_resp_out(r)); };
	str head = verb + " " + res + " HTTP/1.1\r\n" + hdrs + "\r\n"; mc_note("%s: %s + %zu body bytes %s", what, mc_quote(head, 200).c_str(), body.size(), mc_quote(body, 60).c_str());
	Conn *c = env_conn(head + body, T_SILENT); Reply r = serve(app, c); mc_nontrivial();
	if (!r.answered) { CHECK(!must, "a well-formed request was rejected"); CHECK(seen.empty(), "the handler ran but the connection was closed without a response"); mc_outcome(0); return; }
	CHECK(seen.size() == 1, "%zu handlers ran for the request", seen.size()); const Seen &s = seen[0];
	CHECK(s.verb == verb, "verb is %s, sent %s", Q(s.verb), Q(verb)); CHECK(VB[s.route] == verb, "wrong route");
	CHECK(s.resource == res, "resource is %s (%zu bytes), sent %s (%zu bytes)", Q(s.resource), s.resource.size(), Q(res), res.size());
	CHECK(s.header == head, "header block is %s, sent %s", Q(s.header), Q(head));
	CHECK(s.body_len == body.size(), "body length is %zu, sent %zu", s.body_len, body.size()); CHECK(s.body == body, "body is %s, sent %s", Q(s.body), Q(body));
	mc_state(mc_hash(head + body)); mc_outcome(mc_hash(num(s.route) + s.resource + s.body));
}
static str cl(size_t n) { return "Content-Length: " + num(n) + "\r\n"; }
static void bodies() { // short bodies over an awkward alphabet
	static const char A[] = {0, '\r', '\n', 'a', (char)0xff, '&'}; int n = mc_choose(mc_thorough() ? 8 : 7, "length"); str b; for (int i = 0; i < n; i++) { b += A[mc_choose(6, "byte")]; if (i == 1) mc_shard(); } if (n < 2) mc_shard();
	expect("POST", "/x", cl(n), b, true, "body");
}
static void lengths() { int n = mc_choose(mc_thorough() ? 9000 : 4200, "body length"), k = mc_choose(3, "content"); mc_shard(); expect("PUT", "/x", "Host: a\r\n" + cl(n), k == 0 ? pattern(n) : k == 1 ? str(n, '\0') : str(n, 'q'), true, "body"); }
static void big() { static const int N[] = {65535, 65536, 100000, 1000000, 2000000, 2096000}; int n = N[mc_choose(6, "size")]; mc_shard(); expect("POST", "/x", cl(n), pattern(n, 5), true, "large body"); }
static void resources() {
	int n = 1 + mc_choose(1100, "resource length"), k = mc_choose(3, "content"); mc_shard(); str r = "/"; for (int i = 1; i < n; i++) r += k == 0 ? 'a' : k == 1 ? "/%?=&.-~"[i % 8] : (char)(33 + i % 94);
	expect("GET", r, k ? "Host: h\r\n" : "", "", n <= 511, "resource");
	if (n < 520 && k == 0) expect("POST", r, cl(3), "xyz", n <= 511, "resource");
}
static void verbs() { // verbs of any length: stored whole or rejected
	int n = 1 + mc_choose(mc_thorough() ? 1200 : 600, "verb length"), k = mc_choose(3, "content"), body = mc_choose(2, "body"); mc_shard(); str v; for (int i = 0; i < n; i++) v += k == 0 ? 'V' : k == 1 ? (char)('A' + i % 26) : "!#$%&'*+-.^_`|~09az"[i % 19];
	App app({{v.size() < 16 ? v.c_str() : "GET", "r", "^/x$", 0, H[0], C[0]}, {v.substr(0, 15).c_str(), "cut", "^", 0, H[1], C[1]}}); on_handle = [&](int, const void *, void *resp, const Seen &) { return reply(resp, "ok"); }; on_clean = [&](int, int, void *r) { env_free(sh_resp_out(r)); };
	mc_note("a verb of %d bytes: %s", n, mc_quote(v, 40).c_str()); Conn *c = env_conn(v + " /x HTTP/1.1\r\n" + (body ? cl(2) : "") + "\r\n" + (body ? "ab" : ""), T_SILENT); Reply r = serve(app, c); mc_nontrivial();
	if (n <= 15) CHECK(r.answered && seen.size() == 1 && seen[0].route == 0 && seen[0].verb == v && seen[0].resource == "/x" && seen[0].body == (body ? "ab" : ""), "the handler did not get the request"); else CHECK(!r.answered && c->out.empty() && seen.empty(), "a verb of %d bytes was not rejected", n);
	mc_state(n * 3 + k); mc_outcome(r.answered ? n : 0);
}
static void headers() { // header blocks and their sizes
	static const str L[] = {str("X-Nul: a\0b\0\r\n", 13), str("X-Nuls: \0\0\0\0\0\r\n", 15), str("Null: \r\0\n\r\0\0\n\0\0\r\n", 17), "Host: localhost\r\n", "X-Empty: \r\n", "A:b\r\n", "Content-Length: 4\r\n", "X-Long: 0123456789012345678901234567890123456789\r\n", "Accept: */*\r\n", "Cookie: a=b; c=d\r\n", "X-Content-Length: 9\r\n", "X-Note: Content-Length: 7\r\n"};
	int n = mc_choose(5, "lines"); str h; bool have = false; for (int i = 0; i < n; i++) { int k = mc_choose(mc_thorough() || i < 3 ? 12 : 8, "line"); if (k == 6) { if (have) mc_skip(); have = true; } h += L[k]; if (i == 1) mc_shard(); } if (n < 2) mc_shard();
	int v = mc_choose(8, "verb"); static const char *VB[] = {"GET", "POST", "PUT", "DELETE", "PATCH", "OPTIONS", "HEAD", "PROPPATCHMETHOD"};
	expect(VB[v], "/r", h, have ? str("a\0b\n", 4) : "", true, "headers");
}
static void longheader() { int n = mc_choose(mc_thorough() ? 9000 : 4300, "header length"); mc_shard(); expect("POST", "/r", "X: " + str(n, 'h') + "\r\n" + cl(2), "ok", true, "long header"); }
static void announced() { // the announced length however it may be written
	static const char *B[] = {"", " ", "  ", "\t", " \t ", "\t\t"}, *A[] = {"", " ", "\t", " \t ", "\t \t", "     "}; static const int N[] = {0, 1, 9, 10, 99, 100, 1000, 5000}; int b = mc_choose(6, "before"), a = mc_choose(6, "after"), z = mc_choose(4, "zeros"), n = N[mc_choose(8, "length")], w = mc_choose(3, "place"); mc_shard(); str h = str("Content-Length:") + B[b] + str(z, '0') + num(n) + A[a] + "\r\n";
	expect("POST", "/x", w == 0 ? h : w == 1 ? "Host: h\r\n" + h : h + "X: y\r\n", pattern(n), true, "length");
}
static void huge() { // an announced length no body has: no handler gets a shorter one as if it was it
	static const char *L[] = {"2147483648", "4294967296", "4294967297", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "18446744073709551617", "18446744073709551621", "184467440737095516160", "36893488147419103233", "340282366920938463463374607431768211456", "340282366920938463463374607431768211461", "99999999999999999999999999999999999999999999999999", "100000000000000000000000000000000000000000000000000000000000000000000000000000005"};
	int i = mc_choose(15, "length"), z = mc_choose(3, "zeros before"), b = mc_choose(12, "body bytes"), cut = mc_choose(3, "arrival"); mc_shard(); str l = str(z == 2 ? 30 : z, '0') + L[i], in = "POST /x HTTP/1.1\r\nContent-Length: " + l + "\r\n\r\n";
	App app({{"POST", "r", "^", 0, H[0], C[0]}}); on_handle = [&](int, const void *, void *resp, const Seen &) { return reply(resp, "ok"); }; on_clean = [&](int, int, void *r) { env_free(sh_resp_out(r)); }; mc_note("Content-Length: %s with %d bytes of body", l.c_str(), b);
	Conn *c = env_conn(in + str(b, 'b'), T_SILENT); if (cut == 1) c->cuts = {in.size()}; if (cut == 2) c->cuts = {in.size() - 1, in.size() + b / 2}; serve(app, c); mc_nontrivial(); CHECK(seen.empty(), "the handler got a body of %zu bytes, %s bytes were announced", seen[0].body_len, l.c_str()); mc_state(mc_hash(l, b * 3 + cut)); mc_outcome(c->recvs);
}
int main(int c, char **v) { return mc_main(c, v, {
	{"announced", announced, 0, 0, "8 lengths with 6 kinds of space before and behind and up to 3 zeros x 3 places"},
	{"huge", huge, 0, 0, "15 announced lengths beyond 32, 64 and 128 bits x leading zeros x 0-11 bytes of body x 3 arrivals"},
	{"bodies", bodies, 0, 0, "all bodies up to 6 (thorough 7) bytes over NUL, CR, LF, letter, 0xff, '&'"}, {"lengths", lengths, 0, 0, "every body length up to 4199 (8999), 3 contents"}, {"large", big, 0, 0, "bodies up to 2 MB"},
	{"resources", resources, 0, 0, "every resource length 1..1100, 3 contents"}, {"verbs", verbs, 0, 0, "every verb length 1..600 (1200), 3 contents, with and without a body"}, {"headers", headers, 0, 0, "all header blocks of up to 4 of 12 (quick: the last of 8) lines, 8 verbs"}, {"longheader", longheader, 0, 0, "every header length up to 4299 (8999)"}}); }

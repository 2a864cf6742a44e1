// C07: no request bytes can crash, hang or corrupt the server.
#include "http.h"
static const str BODY = "<p>body of the response</p>";
static void feed(const str &bytes, Tail tail, const std::vector<size_t> &cuts = {}) {
	App app({{"GET", "g", "^/([a-z]*)/?([0-9]*)", 2, H[0], C[0]}, {"POST", "p", "^/", 0, H[1], C[1]}, {"PUT", "f", "^/file", 0, H[2], nullptr}, {"GET", "r", "^", 0, H[3], C[3]}});
	mc_note("%zu bytes %s then %s", bytes.size(), mc_quote(bytes, 500).c_str(), tail == T_SILENT ? "silence" : tail == T_EOF ? "end" : "error");
	env_alloc_limit = 16u << 20;
	on_handle = [&](int id, const void *q, void *resp, const Seen &s) {
		for (const char *h : {"Range", "Cookie", "Content-Type", "X"}) { char *x = sh_header_req(q, h); if (x) { char *k = sh_cookie(x, strlen(x), "id"); env_free(k); } env_free(x); }
		sh_req v; sh_req_view(q, &v);
		if (v.form) for (const char *k : {"a", "", "b"}) { size_t n = 0; char *p = (char *)sh_dict_get(v.form, k, strlen(k), &n); if (p && n) { volatile char z = p[n - 1]; (void)z; } }
		if (id == 0) CHECK(s.m[1].first >= 0 && s.m[1].second <= (long)s.resource.size(), "captures outside the resource");
		return reply(resp, BODY);
	};
	on_clean = [&](int, int, void *r) { env_free(sh_resp_out(r)); };
	if (!mc_exploring()) mc_note("(replaying)");
	Conn *c = env_conn(bytes, tail); c->cuts = cuts; Reply r = serve(app, c);
	if (r.answered) {
		Resp p = parse_resp(c->out); CHECK(p.ok, "ill-formed response %s: %s", Q(c->out), p.err.c_str());
		if (seen.empty()) CHECK(p.code == 404, "no handler ran, yet the response has status %d", p.code);
		else if (p.code == 206) { size_t a, b, t; auto cr = p.all("Content-Range"); CHECK(cr.size() == 1 && sscanf(cr[0].c_str(), "bytes %zu-%zu/%zu", &a, &b, &t) == 3 && a <= b && b < BODY.size() && p.body == BODY.substr(a, b - a + 1), "206 response carries %s which is not the announced part of the body", Q(p.body)); }
		else CHECK(p.code == 200 && p.body == BODY, "response %s is not what the handler returned", Q(c->out));
		mc_outcome(mc_hash(c->out));
	} else { CHECK(c->out.empty(), "bytes were sent although no response was made"); mc_outcome(1); }
	for (auto &s : seen) mc_state(mc_hash(s.verb + "|" + s.resource + "|" + s.header + "|" + s.body));
	mc_nontrivial();
}
static Tail tails[] = {T_SILENT, T_EOF, T_ERR};
static void tokens() {
	static const std::vector<str> T = {"GET ", "POST ", "/ ", "/a/1 ", " ", "HTTP/1.1\r\n", "\r\n", "\r\n\r\n", "\r", "\n", str(1, '\0'), "X: y\r\n", "Content-Length: 3\r\n", "Content-Length: -1\r\n", "Range: bytes=1-2\r\n", "Range\r\n", "a=b&c", "%", str(600, 'A'), ": "};
	int n = mc_choose(mc_thorough() ? 6 : 5, "tokens"); str s; for (int i = 0; i < n; i++) { s += T[mc_choose(T.size(), "token")]; if (i == 1) mc_shard(); } if (n < 2) mc_shard();
	feed(s, tails[mc_choose(n > 3 ? 2 : 3, "then")]);
}
static void headers() {
	static const std::vector<str> L = {"Content-Length: 3\r\n", "Content-Length: 0\r\n", "Content-Length: -1\r\n", "Content-Length: 99999999999999999999999\r\n", "Content-Length: 4294967298\r\n", "Content-Length: abc\r\n", "Content-Length:\r\n", "Content-Length\r\n", "Content-Type: application/x-www-form-urlencoded\r\n", "Content-Type: application/x-www-form-urlencoded; charset=utf-8\r\n", "Range: bytes=0-\r\n", "Range: bytes=5-2\r\n", "Range: bytes=1-5\r\n", "Range: bytes=9999-\r\n", "Range: bytes=-3\r\n", "Range: bytes=26-26\r\n", "Range: bytes=0-99999999999999999999\r\n", "Range: x\r\n", "X: Range\r\n", "Cookie: id=1; b\r\n", "User-Agent\r\n", str("X: \0\r\n", 6), ":\r\n", "X-Real-IP: \r\n", "\n", "Range:\r\n"};
	static const std::vector<str> B = {"", "abc", "a=1", "a=b&a=c", "a=%zz&=&&b", "a=%", str("\0\0\0", 3), "abcdef"};
	str s = mc_choose(2, "verb") ? "POST / HTTP/1.1\r\n" : "GET /q HTTP/1.1\r\n"; int n = 1 + mc_choose(mc_thorough() ? 4 : 3, "lines"); for (int i = 0; i < n; i++) { s += L[mc_choose(L.size(), "line")]; if (i == 0) mc_shard(); }
	s += "\r\n"; s += B[mc_choose(n > 2 ? 4 : 8, "body")]; feed(s, n > 2 ? T_SILENT : tails[mc_choose(3, "then")]);
}
static const std::vector<str> &valid() {
	static const std::vector<str> V = {"GET /abc/12 HTTP/1.1\r\nHost: localhost\r\nRange: bytes=2-9\r\nCookie: id=7; x=y\r\n\r\n", "POST /f HTTP/1.1\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: 14\r\n\r\na=b&c=%20&d=+x", "GET / HTTP/1.1\r\n\r\n"};
	return V;
}
static void edits() { // every request one edit away from a valid one
	int i = mc_choose(3, "request"); str s = valid()[i]; int k = mc_choose(4, "edit"); size_t p = mc_choose(s.size(), "position"); mc_shard();
	if (k == 0) { for (int b = 0; b < 256; b += 1) { str t = s; t[p] = (char)b; feed(t, T_SILENT); } }
	else if (k == 1) { str t = s; t.erase(p, 1); feed(t, T_SILENT); feed(t, T_EOF); t = s; t.erase(p, 2); feed(t, T_SILENT); }
	else if (k == 2) for (const char *x : {"\r", "\n", " ", ":", "-", "9", "%", "\r\n", "\r\n\r\n", "=", "&", "GET "}) { str t = s; t.insert(p, x); feed(t, T_SILENT); }
	else for (Tail t : tails) { feed(s.substr(0, p), t); if (p > 1) feed(s.substr(0, p), t, {p / 2}); }
}
static void pairs() { // two edits
	int i = mc_choose(3, "request"); str s = valid()[i]; if (!mc_thorough() && i != 2) mc_skip(); size_t p = mc_choose(s.size(), "position"); mc_shard(); static const char A[] = {0, '\r', '\n', ' ', ':', '-', '0', '=', '%', '~', (char)0xff};
	for (size_t q = p + 1; q < s.size(); q++) for (char a : A) for (char b : A) { str t = s; t[p] = a; t[q] = b; feed(t, T_SILENT); }
}
static void lengths() {
	int n = mc_choose(mc_thorough() ? 6200 : 3200, "length"), k = mc_choose(8, "content"); mc_shard(); str s;
	switch (k) { case 0: s = str(n, 'A'); break; case 1: s = str(n, ' '); break; case 2: s = str(n, '\0'); break; case 3: s = "GET " + str(n, '/'); break; case 4: s = "GET / HTTP/1.1\r\nA: " + str(n, 'x'); break; case 5: s = str(n, 'V') + " / HTTP/1.1\r\n\r\n"; break; case 6: s = "GET / HTTP/1.1\r\n" + str(n, '\r'); break; default: s = "POST / HTTP/1.1\r\nContent-Length: " + num(n + 1) + "\r\n\r\n" + str(n, 'b'); }
	feed(s, tails[n % 3]); if (k == 4 || k == 0) feed(s, T_SILENT, {(size_t)n / 2 + 1});
}
static void huge() { // around the maximum request size
	static const int N[] = {2097000, 2097151, 2097152, 2097153, 2098175, 2098176, 2098177, 3000000, 4200000}; int n = N[mc_choose(9, "size")], k = mc_choose(3, "content"); mc_shard();
	str s = k == 0 ? str(n, 'A') : k == 1 ? "POST / HTTP/1.1\r\nContent-Length: " + num(n) + "\r\n\r\n" + str(n, 'b') : "GET / HTTP/1.1\r\nX: " + str(n, 'y') + "\r\n\r\n"; feed(s, T_SILENT);
}
int main(int c, char **v) { return mc_main(c, v, {
	{"tokens", tokens, 0, 0, "all sequences of up to 4 (thorough 5) of 20 request fragments, then silence, end of stream or an error"}, {"headers", headers, 0, 0, "all header blocks of up to 3 (4) of 26 hostile lines x 4-8 bodies"},
	{"edits", edits, 0, 0, "every substitution of one byte by any byte, every deletion, 12 insertions and every truncation of 3 requests"}, {"pairs", pairs, 0, 0, "every pair of substitutions by 11 special bytes in a minimal (thorough: all 3) request"},
	{"lengths", lengths, 0, 0, "8 kinds of degenerate requests of every length up to 3199 (6199)"}, {"huge", huge, 0, 0, "sizes around and beyond the request limit"}}); }

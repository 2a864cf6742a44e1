#pragma once
#include "h.h"
#include <functional>
// handlers and cleanups with an identity, so that it is known which one the server called
struct Seen {
	int route = -1; str verb, resource, header, body; bool nobody = false; size_t header_len = 0, body_len = 0; std::vector<std::pair<long, long>> m; const void *req = nullptr;
};
static std::vector<Seen> seen;
struct Clean { int route, code; const void *out; size_t outsize; size_t sent; };
static std::vector<Clean> cleans;
static std::function<int(int, const void *, void *, const Seen &)> on_handle;
static std::function<void(int, int, void *)> on_clean;
static Conn *cur_conn;
static bool copy_all = true;
static int handle(int id, const void *req, void *resp) {
	sh_req v; sh_req_view(req, &v); Seen s; s.route = id; s.req = req;
	s.verb = str(v.verb, strnlen(v.verb, 16)); s.resource = str(v.resource, strnlen(v.resource, 512)); s.header_len = v.header_len; s.body_len = v.body_len;
	CHECK(s.verb.size() < 16 && s.resource.size() < 512, "the handler got an unterminated verb or resource");
	s.nobody = !v.body;
	CHECK(v.body || !v.body_len, "the handler got no body but body length %zu", v.body_len);
	if (copy_all) { // read exactly what the handler was told it may read
		if (v.header) { char *h = (char *)malloc(v.header_len + 1); memcpy(h, v.header, v.header_len); s.header.assign(h, v.header_len); free(h); }
		if (v.body) { char *h = (char *)malloc(v.body_len + 1); memcpy(h, v.body, v.body_len); s.body.assign(h, v.body_len); free(h); }
	}
	for (int i = 0; i < 4; i++) s.m.push_back({v.so[i], v.eo[i]});
	seen.push_back(s); mc_step();
	return on_handle(id, req, resp, seen.back());
}
static void clean(int id, int code, void *resp) {
	cleans.push_back({id, code, sh_resp_out(resp), sh_resp_outsize(resp), cur_conn ? cur_conn->out.size() : 0});
	if (on_clean) on_clean(id, code, resp);
}
template <int N> int hN(const void *q, void *r) { return handle(N, q, r); }
template <int N> void cN(int c, void *r) { clean(N, c, r); }
static const sh_handler H[] = {hN<0>, hN<1>, hN<2>, hN<3>, hN<4>, hN<5>, hN<6>, hN<7>, hN<8>, hN<9>};
static const sh_cleanup C[] = {cN<0>, cN<1>, cN<2>, cN<3>, cN<4>, cN<5>, cN<6>, cN<7>, cN<8>, cN<9>};
static int sockfd_;
struct App {
	void *a; std::vector<sh_route> r;
	App(std::vector<sh_route> rr, int port = 8080, int threads = 1) : r(rr) { seen.clear(); cleans.clear(); on_handle = nullptr; on_clean = nullptr; cur_conn = nullptr; copy_all = true; a = sh_app_new(r.data(), r.size(), port, threads, &sockfd_); }
	~App() { sh_app_free(a); }
};
struct Reply { bool answered = false; int steps = 0; };
// one connection through the real code, from its first byte to the end
static Reply serve(App &app, Conn *c) {
	Reply r; cur_conn = c; void *h = sh_generate(c->fd, app.a); r.answered = !!h;
	while (h) {
		CHECK(c->open, "the connection was closed before the response was complete");
		if (++r.steps > 100000) mc_fail("sending never ends");
		void *n = sh_send(h); h = n;
	}
	CHECK(!c->open, "the connection stays open after it was dealt with (%s)", r.answered ? "answered" : "no response was made");
	CHECK(c->closes == 1, "the connection was closed %d times", c->closes);
	return r;
}
struct Resp { bool ok = false; str err; int code = 0; str status; std::vector<std::pair<str, str>> h; str body; size_t hlen = 0;
	std::vector<str> all(const str &n) const { std::vector<str> r; for (auto &x : h) if (x.first == n) r.push_back(x.second); return r; } };
static Resp parse_resp(const str &o) {
	Resp r; size_t e = o.find("\r\n\r\n"); if (e == str::npos) { r.err = "no end of header"; return r; }
	r.hlen = e + 4; r.body = o.substr(e + 4); size_t p = o.find("\r\n"); r.status = o.substr(0, p);
	if (r.status.compare(0, 9, "HTTP/1.1 ") || r.status.size() < 13 || sscanf(r.status.c_str() + 9, "%d", &r.code) != 1) { r.err = "bad status line"; return r; }
	p += 2;
	while (p < e + 2) { size_t q = o.find("\r\n", p); str l = o.substr(p, q - p); size_t k = l.find(": "); if (k == str::npos) { r.err = "bad header line " + mc_quote(l, 60); return r; } r.h.push_back({l.substr(0, k), l.substr(k + 2)}); p = q + 2; }
	auto cl = r.all("Content-Length"); if (cl.size() != 1) { r.err = "Content-Length occurs " + num(cl.size()) + " times"; return r; }
	if (cl[0] != num(r.body.size())) { r.err = "Content-Length is " + cl[0] + " but " + num(r.body.size()) + " body bytes were sent"; return r; }
	if (r.all("Content-Type").size() != 1) { r.err = "Content-Type occurs " + num(r.all("Content-Type").size()) + " times"; return r; }
	r.ok = true; return r;
}
static str pattern(size_t n, int seed = 0) { str s(n, 0); for (size_t i = 0; i < n; i++) s[i] = (char)((i * 131 + i / 251 + seed * 17) & 0xff); return s; }
static int reply(void *resp, const str &b, int code = 200) { char *p = (char *)env_malloc(b.size() ? b.size() : 1); memcpy(p, b.data(), b.size()); sh_resp_set(resp, p, b.size()); return code; }

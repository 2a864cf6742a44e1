// C15: serving a request leaves nothing behind and cleans up exactly once.
#include "http.h"
#include <errno.h>
static str filep, tmplp, emptyp;
struct Kind { const char *name; int code; int cleanup; size_t size; }; // cleanup: 0 none, 1 heap, 2 heap without check, 3 mmap, 4 own
static const std::vector<Kind> K = {
	{"heap body", 200, 1, 3000}, {"heap body released always", 500, 2, 100}, {"mapped file", 200, 3, 5000}, {"rendered file", 200, 1, 40}, {"raw buffer", 200, 0, 12},
	{"missing file", 404, 3, 45}, {"rendering a missing file", 404, 1, 45}, {"empty 404", 404, 2, 0}, {"redirect with headers", 302, 2, 30}, {"own clean-up", 403, 4, 9000}, {"own 404 page", 404, 4, 50}, {"empty body", 200, 1, 0}, {"empty file", 200, 3, 0}, {"empty template", 200, 1, 0}};
static void heap(void *resp, size_t n) { char *p = (char *)env_malloc(n ? n : 1); memset(p, 'x', n); sh_resp_set(resp, p, n); }
static int act(int kind, void *resp) {
	static const char raw[] = "raw contents";
	switch (kind) {
	case 0: heap(resp, 3000); return 200;
	case 1: heap(resp, 100); return 500;
	case 2: return sh_mmap_file(filep.c_str(), resp);
	case 3: case 6: { void *c = sh_ctx(); sh_add_string(c, "name", "world"); void *l = sh_add_array(c, "list"); for (int i = 0; i < 3; i++) sh_loop_int(l, i); sh_loop_done(l); return sh_render_file(c, kind == 3 ? tmplp.c_str() : (filep + ".gone").c_str(), resp); }
	case 4: return sh_return_raw(raw, strlen(raw), resp);
	case 5: return sh_mmap_file((filep + ".gone").c_str(), resp);
	case 7: sh_resp_set(resp, nullptr, 0); return 404;
	case 8: heap(resp, 30); for (int i = 0; i < 7; i++) sh_insert_header(resp, "Location", 8, "/elsewhere", 10); return 302;
	case 9: heap(resp, 9000); return 403;
	case 10: heap(resp, 50); return 404;
	case 11: heap(resp, 0); return 200;
	case 12: return sh_mmap_file(emptyp.c_str(), resp);
	default: { void *c = sh_ctx(); sh_add_string(c, "name", "world"); return sh_render_file(c, emptyp.c_str(), resp); }
	}
}
struct Req { const char *name; str text; };
static const std::vector<Req> R = {
	{"get", "GET /r HTTP/1.1\r\nHost: h\r\nUser-Agent: u\r\nX-Real-IP: 1.2.3.4\r\n\r\n"},
	{"range", "GET /r HTTP/1.1\r\nRange: bytes=2-7\r\n\r\n"},
	{"form", "POST /r HTTP/1.1\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: 19\r\n\r\na=1&bb=%41&a=2&c=%z"},
	{"body", "POST /r HTTP/1.1\r\nContent-Length: 5\r\nContent-Type: text/plain\r\n\r\nhello"},
	{"unmatched", "GET /nothing HTTP/1.1\r\nRange: x\r\n\r\n"},
	{"no verb", "\r\n\r\n"}, {"long verb", "GETGETGETGETGETGETGET /r HTTP/1.1\r\n\r\n"}, {"long path", "GET /r" + str(600, 'p') + " HTTP/1.1\r\n\r\n"},
	{"bad length", "POST /r HTTP/1.1\r\nContent-Length: 5x\r\n\r\nhello"}, {"negative length", "POST /r HTTP/1.1\r\nContent-Length: -5\r\n\r\nhello"}, {"long length", "POST /r HTTP/1.1\r\nContent-Length: 99999999999\r\n\r\nhello"}, {"one word", "GET\r\n\r\n"}, {"two bodies", "POST /r HTTP/1.1\r\nContent-Length: 2\r\n\r\nhello"}};
static void setup() { filep = env_put_file("some.txt", pattern(5000)); emptyp = env_put_file("empty.html", ""); tmplp = env_put_file("t.html", "Hello xXx @name xXx\nxXx LOOP i list xXx<xXx @i xXx>xXx BBL xXx\n"); }
static const char *FD;
struct Scn { Kind k; int kind; };
// one request; the app's handler answers with the given kind
static bool once(App &app, int kind, int rq, long cut, Tail tail, long failsend, long amount, long faultat) {
	seen.clear(); cleans.clear(); str text = R[rq].text; if (cut >= 0) text.resize(cut);
	on_handle = [kind](int id, const void *, void *resp, const Seen &) { if (id == 5) { heap(resp, 60); return 404; } return act(kind, resp); };
	env_zero_fd = text.size() % 2; Conn *c = env_conn(text, tail); long k = 0, fk = 0; if (cut > 0) c->cuts = {(size_t)cut / 2};
	c->on_send = [&](Conn &, size_t n) -> ssize_t { if (k++ == failsend) return -(kind & 1 ? EPIPE : ECONNRESET); return std::min<size_t>(n, amount); };
	if (faultat >= 0) env_fault = [&](const char *) { return fk++ == faultat ? EIO : 0; };
	Reply r = serve(app, c); env_fault = nullptr; bool faulted = faultat >= 0 && fk > faultat; mc_nontrivial();
	int answering = -1; for (auto &s : seen) answering = s.route;
	CHECK(r.answered || seen.empty() || faulted, "a handler answered but no response was made");
	if (cut < 0 && tail == T_SILENT && failsend < 0 && !faulted && rq <= 4) { CHECK(r.answered, "the request was not answered"); Resp p = parse_resp(c->out); CHECK(p.ok, "%s: %s", p.err.c_str(), Q(c->out)); }
	std::vector<Clean> want; // routes 0 and 5 have a counted clean-up
	size_t n = 0; for (auto &x : cleans) { CHECK(x.route == answering, "the clean-up of route %d ran, route %d answered", x.route, answering); n++; }
	bool has = answering >= 0; CHECK(n == (has ? 1 : 0), "the clean-up ran %zu times (%s)", n, has ? "a handler answered" : "no handler answered");
	if (n) { Resp p = parse_resp(c->out); if (c->out.size() > 12) CHECK(cleans[0].code == atoi(c->out.c_str() + 9), "the clean-up got status %d, the client %s", cleans[0].code, mc_quote(c->out, 30).c_str()); }
	mc_outcome(r.answered * 1000 + answering * 10 + c->sends + rq * 100000); mc_state(mc_hash(c->out, kind * 100 + rq)); return faultat < 0 || faulted;
}
static std::vector<sh_route> routes() { return {{"GET", "g", "^/r", 0, H[0], C[0]}, {"POST", "p", "^/r", 0, H[0], C[0]}}; }
static void stock(int kind, App &app, bool custom404) {
	on_clean = [kind](int id, int code, void *r) { if (id == 5) { sh_heap_cleanup_nc(code, r); return; } switch (K[kind].cleanup) { case 1: sh_heap_cleanup(code, r); break; case 2: sh_heap_cleanup_nc(code, r); break; case 3: sh_mmap_cleanup(code, r); break; case 4: env_free(sh_resp_out(r)); } };
	if (custom404) { sh_set_404_handler(app.a, H[5]); sh_set_404_cleanup(app.a, C[5]); }
}
static void drops() { // the client disappears after every prefix of every request
	int kind = mc_choose(K.size(), "answer"), rq = mc_choose(R.size(), "request"); long cut = mc_choose(R[rq].text.size() + 1, "bytes sent"); int tail = mc_choose(3, "then"); mc_shard(); if (!mc_thorough() && kind > 3 && rq > 3 && rq != 12) mc_skip();
	setup(); App app(routes()); stock(kind, app, kind == 7); mc_note("%s: %s, %ld bytes then %s", K[kind].name, Q(R[rq].text), cut, tail == 0 ? "silence" : tail == 1 ? "close" : "reset"); once(app, kind, rq, cut, (Tail)tail, -1, 1 << 20, -1);
}
static void sends() { // the client disappears while it is being answered
	int kind = mc_choose(K.size(), "answer"), rq = mc_choose(5, "request"); static const long A[] = {1 << 20, 4095, 1000, 64, 1}; int a = mc_choose(5, "per send"); long f = mc_choose(mc_thorough() ? 200 : 60, "failing send"); mc_shard();
	setup(); App app(routes()); stock(kind, app, kind == 7); mc_note("%s: %s, at most %ld bytes per send, send %ld fails", K[kind].name, Q(R[rq].text), A[a], f - 1); once(app, kind, rq, -1, T_SILENT, f - 1, A[a], -1);
}
static void faults() { // a system call fails while answering
	int kind = mc_choose(K.size(), "answer"), rq = mc_choose(5, "request"), at = mc_choose(8, "failing call"); mc_shard(); setup(); App app(routes()); stock(kind, app, kind == 7); mc_note("%s: %s, system call %d fails", K[kind].name, Q(R[rq].text), at); once(app, kind, rq, -1, T_SILENT, -1, 1 << 20, at);
}
static void headers() { // any number of custom headers, whatever the outcome
	static const int N[] = {0, 1, 3, 4, 5, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000}; int n = N[mc_choose(22, "headers")], code = mc_choose(4, "status"), how = mc_choose(4, "end"), size = mc_choose(3, "lengths"); mc_shard(); App app(routes()); static const int CD[] = {200, 302, 404, 500}; mc_note("%d custom headers, status %d, %s", n, CD[code], how == 0 ? "complete" : "the client leaves");
	on_handle = [&](int, const void *, void *resp, const Seen &) { heap(resp, 20); for (int i = 0; i < n; i++) { str h = "H" + num(i), v(size == 0 ? 0 : size == 1 ? 8 : 100 + i, 'v'); CHECK(sh_insert_header(resp, h.c_str(), h.size(), v.c_str(), v.size()) == 1, "adding a header fails"); } return CD[code]; }; on_clean = [](int, int, void *r) { env_free(sh_resp_out(r)); };
	Conn *c = env_conn("GET /r HTTP/1.1\r\n\r\n"); c->on_send = [&](Conn &c, size_t k) -> ssize_t { return how == 1 && c.sends > 0 ? -EPIPE : how == 2 ? -ECONNRESET : how == 3 ? (ssize_t)std::min<size_t>(k, 100) : (ssize_t)k; }; Reply r = serve(app, c); CHECK(r.answered && cleans.size() == 1, "the clean-up ran %zu times", cleans.size()); mc_nontrivial(); mc_state(n * 16 + code * 4 + how); mc_outcome(mc_hash(num(n), c->sends));
}
static void sequences() { // several requests one after the other, good and bad
	int n = 2 + mc_choose(mc_thorough() ? 2 : 2, "requests"); struct S { int rq, kind, how; }; std::vector<S> s; static const int RQ[] = {0, 2, 4, 6, 3}, KD[] = {0, 2, 3, 7, 9}; if (n == 3 && !mc_thorough()) { for (int i = 0; i < 3; i++) { s.push_back({RQ[mc_choose(3, "request")], KD[mc_choose(4, "answer")], mc_choose(2, "end")}); if (i == 0) mc_shard(); } } else for (int i = 0; i < n; i++) { s.push_back({RQ[mc_choose(5, "request")], KD[mc_choose(5, "answer")], mc_choose(3, "end")}); if (i == 0) mc_shard(); }
	setup(); App app(routes()); sh_set_404_handler(app.a, H[5]); sh_set_404_cleanup(app.a, C[5]);
	for (auto &x : s) { stock(x.kind, app, false); mc_note("%s: %s, %s", K[x.kind].name, R[x.rq].name, x.how == 0 ? "complete" : x.how == 1 ? "second send fails" : "cut short"); once(app, x.kind, x.rq, x.how == 2 ? (long)R[x.rq].text.size() - 1 : -1, x.how == 2 ? T_ERR : T_SILENT, x.how == 1 ? 1 : -1, x.how == 1 ? 500 : 1 << 20, -1); }
}
static void bare() { // routes without a clean-up, whole or in part
	static str big; if (big.empty()) big = pattern(9000); static const char *RG[] = {"", "Range: bytes=0-\r\n", "Range: bytes=5-4000\r\n", "Range: bytes=0-0\r\n", "Range: bytes=100-99999\r\n", "Range: bytes=9000-\r\n", "Range: x\r\n"}; static const int SZ[] = {1, 10, 100, 4096, 9000}, CD[] = {200, 301, 403, 404, 500}; int r = mc_choose(7, "range"), sz = SZ[mc_choose(5, "size")], cd = CD[mc_choose(5, "status")], how = mc_choose(4, "end"), cu = mc_choose(3, "clean-up"); mc_shard();
	App app({{"GET", "g", "^/r", 0, H[0], cu == 0 ? nullptr : cu == 1 ? C[0] : nullptr}}); if (cu == 2) sh_set_404_handler(app.a, H[5]); int hs = mc_choose(2, "headers"); mc_note("%d bytes, status %d, %s, %s", sz, cd, RG[r], cu == 1 ? "clean-up" : "no clean-up"); on_handle = [&](int, const void *, void *resp, const Seen &) { if (hs) sh_insert_header(resp, "X", 1, "y", 1); sh_resp_set(resp, big.data(), sz); return cd; }; on_clean = [](int, int, void *) {};
	env_zero_fd = r % 2; Conn *c = env_conn(str("GET /r HTTP/1.1\r\n") + RG[r] + "\r\n"); c->on_send = [&](Conn &c, size_t k) -> ssize_t { return how == 1 && c.sends > 0 ? -EPIPE : how == 2 ? -ECONNRESET : how == 3 ? (ssize_t)std::min<size_t>(k, 100) : (ssize_t)k; }; Reply y = serve(app, c); CHECK(y.answered && seen.size() == 1, "the request was not answered"); CHECK(cleans.size() == (cu == 1 ? 1 : 0), "the clean-up ran %zu times", cleans.size()); mc_nontrivial(); mc_state(mc_hash(c->out, cu)); mc_outcome(mc_hash(c->out));
}
int main(int c, char **v) { return mc_main(c, v, {
	{"bare", bare, 0, 0, "7 ranges x 5 sizes x 5 codes x 4 endings x with and without clean-up and custom headers"},
	{"headers", headers, 0, 0, "22 numbers of custom headers up to 1000 x 4 codes x 4 endings x 3 lengths"},
	{"sends", sends, 0, 0, "14 kinds of answer x 5 requests x 5 amounts per send x every failing send up to the 59th (199th)"},
	{"drops", drops, 0, 0, "14 kinds of answer x 13 requests (malformed included) x every number of bytes sent before silence, close or reset (quick: malformed requests with 4 kinds only)"},
	{"faults", faults, 0, 0, "14 kinds x 5 requests x every failing recv/stat/open/mmap"},
	{"sequences", sequences, 0, 0, "2 and 3 requests of 5 kinds x 5 answers x 3 endings in one process (quick: 3 with fewer kinds)"}}); }

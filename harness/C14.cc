// C14: sending survives short writes and failures.
#include "http.h"
#include <errno.h>
static str head(size_t n) { return "/r" + num(n); }
struct Run { Conn *c; Reply r; };
static Conn *go(size_t n, std::function<ssize_t(Conn &, size_t)> on_send, const char *req = "GET /r HTTP/1.1\r\n\r\n", const str *b = nullptr) {
	App app({{"GET", "r", "^/r", 0, H[0], C[0]}}); str body = b ? *b : pattern(n, 7);
	on_handle = [&](int, const void *, void *resp, const Seen &) { sh_insert_header(resp, "X-Extra", 7, "value", 5); return reply(resp, body); };
	on_clean = [&](int, int code, void *r) { CHECK(cur_conn->open, "the clean-up ran after the connection was closed"); CHECK(code == 200 || code == 206, "the clean-up got status %d", code); env_free(sh_resp_out(r)); };
	Conn *c = env_conn(req); c->on_send = on_send; Reply r = serve(app, c); CHECK(r.answered, "no response was made");
	CHECK(cleans.size() == 1, "the clean-up ran %zu times", cleans.size());
	return c;
}
static str full(size_t n, const char *req = "GET /r HTTP/1.1\r\n\r\n", const str *b = nullptr) { return go(n, [](Conn &, size_t k) { return (ssize_t)k; }, req, b)->out; }
static void check(Conn *c, const str &want, bool failed, int after) {
	mc_nontrivial(); CHECK(want.compare(0, c->out.size(), c->out) == 0, "the client received %zu bytes which are not the beginning of the response of %zu bytes: they differ at byte %zu", c->out.size(), want.size(), (size_t)(std::mismatch(c->out.begin(), c->out.begin() + std::min(c->out.size(), want.size()), want.begin()).first - c->out.begin()));
	if (!failed) { CHECK(c->out.size() == want.size(), "the client received %zu of %zu bytes although no send failed", c->out.size(), want.size()); CHECK(cleans[0].sent == want.size(), "the clean-up ran after %zu of %zu bytes", cleans[0].sent, want.size()); }
	else CHECK(after == 0, "%d more sends after a failed one", after);
	mc_state(mc_hash(c->out, c->sends)); mc_outcome(c->out.size() * 2 + failed);
}
static const int ERRS[] = {EPIPE, ECONNRESET, ETIMEDOUT, ENOBUFS, EINVAL};
static void writes() { // bounded deviations from whole slices accepted
	static const size_t S[] = {0, 1, 3000, 3900, 4096, 8000, 8192, 12300, 20000, 40960}; static const int OFF[] = {-3, -2, -1, 0, 1, 2, 3}; int s = mc_choose(mc_thorough() ? 10 : 9, "body size"), o = mc_choose(7, "offset"); size_t n = S[s];
	mc_shard();
	str h = full(n); size_t hl = h.find("\r\n\r\n") + 4; if (n >= hl + 3) { // so that the whole response, header included, sits around the size
		n = n - hl + OFF[o]; h = full(n); if (h.size() != S[s] + OFF[o]) { n += S[s] + OFF[o] - h.size(); h = full(n); } } else if (o != 3) mc_skip();
	str want = h, trace; bool failed = false; int after = 0;
	Conn *c = go(n, [&](Conn &, size_t k) -> ssize_t {
		if (failed) { after++; return -EPIPE; }
		int v = mc_choose_dev(10, "how much a send accepts"); ssize_t r;
		switch (v) { case 0: r = k; break; case 1: r = 1; break; case 2: r = k - 1; break; case 3: r = k / 2; break; case 4: r = (k + 2) / 3; break; default: r = -ERRS[v - 5]; }
		if (r == 0) r = k; if (r < 0) failed = true; if (v) trace += " #" + num(c ? 0 : 0) + (v >= 5 ? "error" : num(r) + " of " + num(k)); return r;
	});
	mc_note("response of %zu bytes, sends deviating:%s", want.size(), trace.c_str()); check(c, want, failed, after);
}
static void cuts() { // every pair of cut positions of one response
	str want = full(20); size_t L = want.size(); size_t a = 1 + mc_choose(L, "first cut"), b = 1 + mc_choose(L, "second cut"); int f = mc_choose(3, "then"); mc_shard(); if (b < a) mc_skip();
	mc_note("response of %zu bytes cut at %zu and %zu, then %s", L, a, b, f == 0 ? "everything" : f == 1 ? "an error" : "byte by byte"); bool failed = false; int after = 0;
	Conn *c = go(20, [&](Conn &cc, size_t k) -> ssize_t { size_t p = cc.out.size(); if (failed) { after++; return -EPIPE; } if (p < a) return std::min(k, a - p); if (p < b) return std::min(k, b - p); if (f == 1) { failed = true; return -ECONNRESET; } return f == 2 ? 1 : k; });
	check(c, want, failed, after);
}
static void steady() { // every constant amount, and a failure at every send
	static const size_t S[] = {100, 4000, 4096, 5000, 12288}; size_t n = S[mc_choose(5, "body size")]; int mode = mc_choose(2, "mode"); int k = mc_choose(mc_thorough() ? 4200 : 900, "amount or send number"); mc_shard();
	if (mode == 1 && k > 60) mc_skip();
	size_t step = k + 1; if (mode == 0 && k > 500) step = 4096 - (mc_thorough() ? (k - 500) : (k - 500) * 9);
	str want = full(n); mc_note(mode ? "response of %zu bytes, send number %zu fails" : "response of %zu bytes, at most %zu bytes accepted per send", want.size(), mode ? (size_t)k : step); bool failed = false; int after = 0, i = 0;
	Conn *c = go(n, [&](Conn &, size_t m) -> ssize_t { if (failed) { after++; return -EPIPE; } if (mode == 1) { if (i++ == k) { failed = true; return -EPIPE; } return std::min(m, (size_t)997); } return std::min(m, step); });
	check(c, want, failed, after);
}
static void kinds() { // other responses: ranges, binary content, built-in page, error statuses
	static const char *RQ[] = {"GET /r HTTP/1.1\r\nRange: bytes=5-4300\r\n\r\n", "GET /r HTTP/1.1\r\nRange: bytes=7-\r\n\r\n", "GET /none HTTP/1.1\r\n\r\n", "HEAD /r HTTP/1.1\r\n\r\n"}; int q = mc_choose(4, "request"); str zeros(6000, '\0'); size_t k = 1 + mc_choose(400, "amount"); int f = mc_choose(2, "failure"); mc_shard();
	auto run = [&](std::function<ssize_t(Conn &, size_t)> fn) { App app({{"GET", "r", "^/r", 0, H[0], C[0]}}); on_handle = [&](int, const void *, void *resp, const Seen &) { return reply(resp, zeros); }; on_clean = [&](int, int, void *r) { env_free(sh_resp_out(r)); }; Conn *c = env_conn(RQ[q]); c->on_send = fn; serve(app, c); CHECK(cleans.size() == (q < 2 ? 1 : 0), "clean-up ran %zu times", cleans.size()); return c; };
	str want = run([](Conn &, size_t n) { return (ssize_t)n; })->out; bool failed = false; int after = 0, i = 0; mc_note("%s: %zu bytes, %zu per send%s", Q(str(RQ[q])), want.size(), k * 11, f ? ", then failure" : "");
	Conn *c = run([&](Conn &, size_t n) -> ssize_t { if (failed) { after++; return -EPIPE; } if (f && i++ == 2) { failed = true; return -EPIPE; } return std::min(n, k * 11); });
	mc_nontrivial(); CHECK(want.compare(0, c->out.size(), c->out) == 0, "the client received other bytes"); if (!failed) CHECK(c->out == want, "only %zu of %zu bytes arrived", c->out.size(), want.size()); CHECK(!after, "more sends after a failed one"); mc_state(mc_hash(c->out, q)); mc_outcome(c->out.size());
}
static void big() { // responses larger than any small number, after a first send that takes less
	static const size_t S[] = {61000, 65000, 65300, 65535, 65536, 66000, 70000, 131072, 200000, 1000000}, F[] = {0, 1, 2, 100, 1000, 4094, 4095, 4096, 5000, 30000}, A[] = {1 << 30, 65537, 65536, 65535, 65534, 40000, 32768, 32767, 5000, 4095}; size_t n = S[mc_choose(10, "size")], f = F[mc_choose(10, "first")], a = A[mc_choose(10, "then")]; int e = mc_choose(3, "end"); mc_shard();
	static std::map<size_t, str> w; if (!w.count(n)) { w.clear(); w[n] = full(n); } const str &want = w[n]; mc_note("response of %zu bytes, first send takes %zu, later ones up to %zu%s", want.size(), f, a, e == 1 ? ", the fourth fails" : e == 2 ? ", odd ones take one byte" : ""); bool failed = false; int after = 0, i = 0;
	Conn *c = go(n, [&](Conn &, size_t k) -> ssize_t { if (failed) { after++; return -EPIPE; } int j = i++; if (e == 1 && j == 3) { failed = true; return -ECONNRESET; } if (e == 2 && j % 2 && j < 40) return 1; return std::min(k, j || !f ? a : f); }); check(c, want, failed, after);
}
static void larger() { // more than 24 bits count
	static const size_t S[] = {16777000, 16777216, 16777300, 20000000, 40000000}; size_t n = S[mc_choose(mc_thorough() ? 5 : 4, "size")]; int e = mc_choose(3, "sends"); mc_shard(); str b = pattern(n, 3), want = full(n, "GET /r HTTP/1.1\r\n\r\n", &b); size_t h = want.find("\r\n\r\n") + 4; mc_note("body of %zu bytes", n); CHECK(want.size() == h + n && !want.compare(h, n, b), "the client received %zu bytes instead of %zu, or others", want.size(), h + n); bool failed = false; int after = 0, i = 0;
	Conn *c = go(n, [&](Conn &cc, size_t k) -> ssize_t { if (failed) { after++; return -EPIPE; } int j = i++; if (e == 2 && cc.out.size() > 16777216) { failed = true; return -ECONNRESET; } return e == 1 && j % 3 == 0 ? (k + 1) / 2 : k; }, "GET /r HTTP/1.1\r\n\r\n", &b); check(c, want, failed, after);
}
static void signals() { // a send that is interrupted, or would have to wait: what arrives is still the beginning of the response, and all of it if sending goes on
	static const size_t S[] = {0, 100, 5000, 20000}; static const int R[] = {EINTR, EAGAIN}; size_t n = S[mc_choose(4, "size")]; int e = mc_choose(2, "reason"), at = mc_choose(12, "which"), times = 1 + mc_choose(4, "in a row"), a = mc_choose(4, "amount"); mc_shard(); static const size_t A[] = {1 << 30, 4000, 1000, 64};
	str want = full(n); mc_note("response of %zu bytes, send %d ends with %s %d times", want.size(), at + 1, strerror(R[e]), times); int i = 0, left = times, after = 0; Conn *c = go(n, [&](Conn &, size_t k) -> ssize_t { if (i++ >= at && left) { left--; if (left + 1 < times) after++; return -R[e]; } if (left < times) after++; return std::min(k, A[a]); });
	mc_nontrivial(); CHECK(want.compare(0, c->out.size(), c->out) == 0, "the client received bytes that are not the beginning of the response"); if (left == times || (after && !left)) CHECK(c->out == want, "the client received %zu of %zu bytes", c->out.size(), want.size()); mc_state(mc_hash(c->out, c->sends)); mc_outcome(c->out.size());
}
int main(int c, char **v) { return mc_main(c, v, {
	{"big", big, 0, 0, "10 sizes up to 1 MB x 10 amounts of the first send x 10 of the later ones x 3 endings"},
	{"larger", larger, 0, 0, "4 (5) sizes around 2^24 and up to 20 (40) MB x 3 ways of sending"},
	{"signals", signals, 0, 0, "4 sizes x each of the first 12 sends interrupted or told to wait 1-4 times x 4 amounts"},
	{"writes", writes, 2, 3, "63 (70) response sizes around multiples of the slice size x at most 2 (3) sends deviating from full acceptance: 1, n-1, n/2, n/3 bytes or one of 5 errors"},
	{"cuts", cuts, 0, 0, "all pairs of cut positions of one small response, then all the rest, an error, or byte by byte"},
	{"steady", steady, 0, 0, "every amount per send 1..501 and others up to 4096, and every position of a failing send, for 5 sizes"},
	{"kinds", kinds, 0, 0, "ranges, built-in 404 x 400 amounts x failure"}}); }

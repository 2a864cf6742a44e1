// The whole server under the controlled scheduler.
#pragma once
#include "http.h"
#include "ctlthr.h"
enum Kind { GOOD, LONG, SLOW, POST, NOROUTE, MALFORMED, CUT, SILENT, RESET, GONE, GONE_LATER, EMPTY, FOUND404, KINDS };
static const char *KN[] = {"GET", "GET of a long body", "GET by a slow client", "POST", "no route", "malformed", "end in the request", "silent in the request", "reset in the request", "gone before the response", "gone in the response", "nothing sent", "404 without body"};
static str request(Kind k, int i) {
	str id = num(i), h = "\r\nHost: h\r\nX-Id: id" + id + "\r\n";
	switch (k) {
	case GOOD: case GONE: return "GET /g/" + id + " HTTP/1.1" + h + "\r\n";
	case LONG: return "GET /long/" + id + " HTTP/1.1" + h + "\r\n";
	case SLOW: case GONE_LATER: return "GET /slow/" + id + " HTTP/1.1" + h + "\r\n";
	case POST: { str b = "a=" + id + "&key" + id + "=v%41" + id; return "POST /p/" + id + " HTTP/1.1" + h + "Content-Type: application/x-www-form-urlencoded\r\nContent-Length: " + num(b.size()) + "\r\n\r\n" + b; }
	case NOROUTE: return "GET /nothing/" + id + " HTTP/1.1" + h + "\r\n";
	case FOUND404: return "GET /404/" + id + " HTTP/1.1" + h + "\r\n";
	case MALFORMED: return "GARBAGE" + id + "\r\n\r\n";
	case CUT: case SILENT: case RESET: return "GET /g/" + id + " HTTP/1.1\r\nHost";
	default: return "";
	}
}
static bool answerable(Kind k) { return k <= NOROUTE || k == FOUND404; }
static Conn *client(Kind k, int i, bool open) {
	str r = request(k, i); Tail t = k == CUT || k == EMPTY ? T_EOF : k == RESET ? T_ERR : T_SILENT; Conn *c = open ? env_conn(r, t) : env_conn_unopened(r, t);
	if (k == SLOW) c->on_send = [](Conn &, size_t n) -> ssize_t { return n < 90 ? n : 90; };
	if (k == GONE) c->on_send = [](Conn &, size_t) -> ssize_t { return -EPIPE; };
	if (k == GONE_LATER) c->on_send = [](Conn &c, size_t n) -> ssize_t { return c.sends < 3 ? (n < 90 ? n : 90) : -ECONNRESET; };
	if (r.size() > 30) c->cuts = {r.size() / 2}; // arrives in two pieces
	return c;
}
static size_t long_len = 1500; // how long the body of LONG is
// what handlers do: look at their own request only, in several steps
static int app_handle(int id, const void *req, void *resp, const Seen &s) {
	char *x = sh_header_req(req, "X-Id"); str hid = x ? x : "none"; if (x) env_free(x); env_sched_point("handler", 0);
	str r = s.resource; str b = "route " + num(id) + " resource " + r + " id " + hid + " body " + s.body;
	if (id == 2) b += str(long_len, 'L') + r; if (id == 3) b += str(200, 's') + r; if (id == 4) { return 404; }
	sh_insert_header(resp, "X-Reply", 7, hid.c_str(), hid.size()); env_sched_point("handler", 0); return reply(resp, b);
}
static std::vector<sh_route> routes() { return {{"GET", "g", "^/g/([0-9]+)$", 1, H[0], sh_p_heap_cleanup}, {"POST", "p", "^/p/([0-9]+)$", 1, H[1], sh_p_heap_cleanup}, {"GET", "long", "^/long/([0-9]+)$", 1, H[2], sh_p_heap_cleanup}, {"GET", "slow", "^/slow/([0-9]+)$", 1, H[3], sh_p_heap_cleanup}, {"GET", "404", "^/404/([0-9]+)$", 1, H[4], nullptr}}; }
// the response the same request gets when it is handled alone
static std::map<std::pair<int, int>, str> alone_;
static const str &alone(App &app, Kind k, int i) {
	auto &r = alone_[{k, i}]; if (r.size()) return r;
	Conn *c = client(k, i, true); c->on_send = nullptr; Reply y = serve(app, c); Resp p = parse_resp(c->out); if (!y.answered || !p.ok) mc_fail("handled alone, a request (%s) gets no proper response: %s", KN[k], p.err.c_str()); r = c->out; cur_conn = nullptr; return r;
}
struct Server {
	App app; int root, rc = -99; std::vector<std::pair<Kind, Conn *>> cs; size_t base = 0; int T;
	Server(int threads, int port = 8080) : app(routes(), port, threads), T(threads) { env_leaks(false); on_handle = app_handle; }
	void precompute(const std::vector<Kind> &ks) { int i = 0; for (auto k : ks) { if (answerable(k)) alone(app, k, i); i++; } seen.clear(); cleans.clear(); }
	void start() { void *a = app.a; root = sched_spawn([this, a] { rc = sh_serve(a); }); }
	void connect(Kind k) { int i = cs.size(); Conn *c = client(k, i, false); cs.push_back({k, c}); sched_arrive(c); }
	// every connection dealt with exactly once, with its own reply
	std::set<Conn *> dropped; // refused by a queue: closed without an answer, if not answered after all
	void check(const char *when) {
		CHECK(!sched_unaccepted(), "%s: %d connections are not accepted; %s", when, sched_unaccepted(), sched_where().c_str());
		for (size_t i = 0; i < cs.size(); i++) {
			Kind k = cs[i].first; Conn *c = cs[i].second; c->closes += 0;
			CHECK(!c->open, "%s: connection %zu (%s) is never closed, %zu bytes sent; %s", when, i, KN[k], c->out.size(), sched_where().c_str());
			CHECK(c->closes == 1, "%s: connection %zu (%s) was closed %d times", when, i, KN[k], c->closes);
			if (dropped.count(c) && c->out.empty()) continue;
			if (answerable(k)) { const str &w = alone(app, k, i); CHECK(c->out == w, "%s: connection %zu (%s) got %s instead of %s", when, i, KN[k], Q(c->out), Q(w)); mc_nontrivial(); }
			else if (k == GONE || k == GONE_LATER) { str w = alone_[{k == GONE ? GOOD : SLOW, (int)i}]; CHECK(w.empty() || w.compare(0, c->out.size(), c->out) == 0, "%s: connection %zu (%s) got bytes that are not its own: %s", when, i, KN[k], Q(c->out)); }
			else CHECK(c->out.empty() || parse_resp(c->out).ok, "%s: connection %zu (%s) got %s", when, i, KN[k], Q(c->out));
		}
		CHECK(!sched_done(root), "%s: the server stopped with %d", when, rc);
	}
	~Server() {}
};

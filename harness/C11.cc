// C11: unmatched requests and empty 404s get the 404 page.
#include "http.h"
struct Model { int handler = -1, cleanup = -1; };
static int mode_code; static bool mode_empty;
static str builtin_page; // of an application that has nothing else
static void request(App &app, Model &m, int kind, str &hist) { // 0 unmatched, 1 empty 404, 2 404 with its own body, 3 200
	static const char *RS[] = {"/nothing", "/empty", "/own", "/fine", "/null"}; hist += str(" GET ") + RS[kind]; mc_note("%s", hist.c_str());
	seen.clear(); cleans.clear();
	Conn *c = env_conn(str("GET ") + RS[kind] + " HTTP/1.1\r\n\r\n"); Reply r = serve(app, c); CHECK(r.answered, "no response"); Resp p = parse_resp(c->out); CHECK(p.ok, "%s: %s", p.err.c_str(), Q(c->out)); mc_nontrivial();
	std::vector<int> ran; for (auto &s : seen) ran.push_back(s.route);
	size_t k = 0;
	if (kind > 0) { CHECK(ran.size() && ran[0] == kind, "the route's handler did not run first"); k = 1; }
	if (kind == 2 || kind == 3) { CHECK(ran.size() == 1, "another handler ran although the route's has answered"); CHECK(p.code == (kind == 2 ? 404 : 200) && p.body == (kind == 2 ? "own 404" : "fine"), "the handler's answer was replaced by %s", Q(c->out)); CHECK(cleans.size() == 1 && cleans[0].route == kind, "clean-up of the route that answered did not run once"); mc_outcome(kind); return; }
	if (m.handler < 0) { // the built-in page
		CHECK(ran.size() == k, "a handler ran that is not set"); CHECK(p.code == 404 && !p.body.empty(), "the built-in 404 page is missing: %s", Q(c->out)); CHECK(p.body == builtin_page, "this is not the built-in 404 page: %s", Q(c->out)); mc_outcome(100 + kind); return;
	}
	CHECK(ran.size() == k + 1 && ran[k] == m.handler, "the custom 404 handler %d did not run (once)", m.handler);
	str want = mode_empty ? "" : "custom " + num(m.handler); CHECK(p.code == mode_code && p.body == want, "the custom 404 answered %d %s, the client got %s", mode_code, Q(want), Q(c->out));
	int n = 0; for (auto &x : cleans) { CHECK(x.route == m.cleanup, "clean-up %d ran, %d was set last", x.route, m.cleanup); CHECK(x.code == mode_code, "the clean-up got status %d, the response had %d", x.code, mode_code); n++; }
	CHECK(n == (m.cleanup >= 0 ? 1 : 0), "the 404 clean-up ran %d times", n); mc_outcome(m.handler * 10 + m.cleanup + 200); mc_state(mc_hash(hist));
}
static void sequences() {
	static const std::vector<sh_route> rt = {{"GET", "e", "^/empty", 0, H[1], C[1]}, {"GET", "o", "^/own", 0, H[2], C[2]}, {"GET", "f", "^/fine", 0, H[3], C[3]}, {"GET", "n", "^/null", 0, H[4], nullptr}};
	int cm = mc_choose(3, "what the custom handler returns"); mode_code = cm == 1 ? 200 : 404; mode_empty = cm == 2;
	int n = mc_choose(mc_thorough() ? 6 : 5, "operations"); std::vector<int> ops; for (int i = 0; i < n; i++) { ops.push_back(mc_choose(mc_thorough() && n == 5 ? 8 : 10, "operation")); if (i == 0) mc_shard(); } if (!n) mc_shard();
	{ App none({}); Conn *c = env_conn("GET /nothing HTTP/1.1\r\n\r\n"); serve(none, c); builtin_page = parse_resp(c->out).body; } App app(rt); Model m; str hist = "custom handler returns " + str(cm == 0 ? "404 with body" : cm == 1 ? "200" : "an empty 404") + ":"; static char own[] = "own 404", fine[] = "fine";
	static std::vector<str> cust(10);
	on_handle = [&](int id, const void *, void *resp, const Seen &) {
		if (id == 1) { sh_resp_set(resp, own, 0); return 404; }   // a pointer but no bytes
		if (id == 4) { sh_resp_set(resp, nullptr, 0); return 404; }
		if (id == 2) { sh_resp_set(resp, own, strlen(own)); return 404; }
		if (id == 3) { sh_resp_set(resp, fine, strlen(fine)); return 200; }
		if (mode_empty) { sh_resp_set(resp, nullptr, 0); return 404; }
		cust[id] = "custom " + num(id); sh_resp_set(resp, cust[id].data(), cust[id].size()); return mode_code;
	};
	for (int o : ops) {
		if (o == 0 || o == 1) { hist += " set_404_handler(" + num(6 + o) + ")"; CHECK(sh_set_404_handler(app.a, H[6 + o]) == 0, "setting the handler failed"); m.handler = 6 + o; mc_step(); }
		else if (o == 2 || o == 3) { hist += " set_404_cleanup(" + num(6 + o) + ")"; CHECK(sh_set_404_cleanup(app.a, C[6 + o]) == 0, "setting the clean-up failed"); m.cleanup = 6 + o; mc_step(); }
		else if (o == 8) { hist += " set_404_handler(none)"; CHECK(sh_set_404_handler(app.a, nullptr) == 0, "setting the handler failed"); m.handler = -1; mc_step(); }
		else if (o == 9) { hist += " set_404_cleanup(none)"; CHECK(sh_set_404_cleanup(app.a, nullptr) == 0, "setting the clean-up failed"); m.cleanup = -1; mc_step(); }
		else request(app, m, o - 4, hist);
	}
	for (int k = 0; k < 5; k++) request(app, m, k, hist);
}
static void verbs() { // every kind of unmatched request
	static const char *RQ[] = {"POST /fine HTTP/1.1\r\n\r\n", "GET / HTTP/1.1\r\n\r\n", "HEAD /fine HTTP/1.1\r\n\r\n", "PUT /x HTTP/1.1\r\nContent-Length: 3\r\n\r\nabc", "get /fine HTTP/1.1\r\n\r\n", "GET /Fine HTTP/1.1\r\nRange: bytes=1-2\r\n\r\n", "POST /f HTTP/1.1\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: 3\r\n\r\na=b", "FOO * HTTP/1.1\r\nRange: x\r\n\r\n"};
	int q = mc_choose(8, "request"), set = mc_choose(2, "custom"), nroutes = mc_choose(2, "routes"); mc_shard(); std::vector<sh_route> rt; if (nroutes) rt.push_back({"GET", "f", "^/fine", 0, H[3], C[3]}); App app(rt); mc_note("%s %s", Q(str(RQ[q])), set ? "custom handler set" : "");
	static char page[] = "custom page"; on_handle = [&](int, const void *, void *resp, const Seen &) { sh_resp_set(resp, page, strlen(page)); return 404; };
	if (set) { sh_set_404_handler(app.a, H[6]); sh_set_404_cleanup(app.a, C[6]); }
	Conn *c = env_conn(RQ[q]); Reply r = serve(app, c); CHECK(r.answered, "no response"); Resp p = parse_resp(c->out); CHECK(p.ok && p.code == 404, "got %s", Q(c->out)); mc_nontrivial();
	if (set) CHECK(seen.size() == 1 && seen[0].route == 6 && p.body == page && cleans.size() == 1 && cleans[0].route == 6 && cleans[0].code == 404, "the custom 404 was not used: %s", Q(c->out)); else CHECK(seen.empty() && !p.body.empty(), "the built-in page was not used: %s", Q(c->out));
	mc_outcome(q * 2 + set); mc_state(q * 4 + set * 2 + nroutes);
}
static void odd() { // a 404 with a body of its own, whatever the body is
	int k = mc_choose(256 + 40, "body"), custom = mc_choose(2, "custom"), rest = mc_choose(4, "rest"); mc_shard(); static const str O[] = {"404", "\r\n", "\r\n\r\n", "<html></html>", "not found", "HTTP/1.1 404 Not Found\r\n\r\n", str("\0\0", 2), str("\0page", 5), str("page\0", 5), "null"}; str b = k < 256 ? str(1, (char)k) : k < 266 ? O[k - 256] : pattern((size_t)1 << (k - 266 > 20 ? 20 : k - 266), k); if (k >= 287) mc_skip(); if (rest == 1) b += " and more"; if (rest == 2) b += str(100, '\0'); if (rest == 3) b = b + b;
	App app({{"GET", "o", "^/own", 0, H[2], C[2]}}); if (custom) { sh_set_404_handler(app.a, H[6]); sh_set_404_cleanup(app.a, C[6]); } on_handle = [&](int id, const void *, void *resp, const Seen &) { return id == 2 ? reply(resp, b, 404) : reply(resp, "custom", 404); }; on_clean = [&](int, int, void *r) { env_free(sh_resp_out(r)); };
	mc_note("a 404 with the body %s%s", Q(b), custom ? ", a custom 404 handler is set" : ""); Conn *c = env_conn("GET /own HTTP/1.1\r\n\r\n"); Reply r = serve(app, c); CHECK(r.answered, "no response"); Resp p = parse_resp(c->out); CHECK(p.ok && p.code == 404, "got %s", Q(c->out)); mc_nontrivial(); CHECK(seen.size() == 1 && p.body == b, "the handler's own 404 was replaced by %s", Q(p.body)); CHECK(cleans.size() == 1 && cleans[0].route == 2, "the clean-up of the route did not run once"); mc_outcome(mc_hash(b, custom)); mc_state(mc_hash(b, custom));
}
int main(int c, char **v) { return mc_main(c, v, {{"odd", odd, 0, 0, "404s with 287 bodies of their own (every byte, NULs, header-like, up to 1 MB) x 4 continuations x custom handler set or not"}, {"sequences", sequences, 0, 0, "all sequences of up to 4 (thorough 5) operations (set two handlers, two clean-ups, none of either, request unmatched / empty 404 / 404 with body / 200), then all 5 kinds of request, for 3 behaviours of the custom handler"}, {"verbs", verbs, 0, 0, "8 unmatched requests x custom handler x empty route table"}}); }

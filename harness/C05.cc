// C05: how a request is split over reads never matters.
#include "http.h"
struct Obs { bool answered; str handler, out; };
static Obs run(const str &req, const std::vector<size_t> &cuts) {
	App app({{"GET", "g", "^/g(.*)$", 1, H[0], C[0]}, {"POST", "p", "^/p(.*)$", 1, H[1], C[1]}});
	Obs o;
	on_handle = [&](int id, const void *q, void *resp, const Seen &s) {
		o.handler += num(id) + "|" + s.verb + "|" + s.resource + "|" + s.header + "|" + num(s.body_len) + "|" + s.body + "|" + num(s.m[1].first) + "," + num(s.m[1].second);
		sh_req v; sh_req_view(q, &v);
		if (v.form) for (const char *k : {"a", "key", "zz", "k"}) { size_t n = 0; char *p = (char *)sh_dict_get(v.form, k, strlen(k), &n); if (p) o.handler += str(k) + "=" + str(p, n) + ";"; }
		return reply(resp, "got " + s.resource + " " + s.body);
	};
	on_clean = [&](int, int, void *r) { env_free(sh_resp_out(r)); };
	Conn *c = env_conn(req, T_SILENT); c->cuts = cuts;
	o.answered = serve(app, c).answered; o.out = c->out;
	CHECK(!c->waited, "the whole request has arrived but the server waits for more");
	mc_state(mc_hash(o.handler)); return o;
}
static void compare(const str &req, const std::vector<size_t> &cuts, const str &desc) {
	str d = "request of " + num(req.size()) + " bytes " + mc_quote(req, 160) + " cut at"; for (size_t i = 0; i < cuts.size() && i < 40; i++) d += " " + num(cuts[i]);
	mc_note("%s %s", d.c_str(), desc.c_str());
	static std::map<str, Obs> whole; // the unsplit run, once per process and request
	auto it = whole.find(req);
	if (it == whole.end()) { Obs w = run(req, {}); CHECK(w.answered && seen.size() == 1, "the request is not served when it arrives in one piece"); if (whole.size() > 3000) whole.clear(); it = whole.emplace(req, w).first; }
	Obs o = run(req, cuts); mc_nontrivial();
	CHECK(o.answered, "no response when split");
	CHECK(o.handler == it->second.handler, "the handler saw %s when split, %s in one piece", Q(o.handler), Q(it->second.handler));
	CHECK(o.out == it->second.out, "the response is %s when split, %s in one piece", Q(o.out), Q(it->second.out));
	mc_outcome(mc_hash(o.out));
}
static const char F[] = "Content-Type: application/x-www-form-urlencoded\r\n";
static str post(const str &body, const str &extra = "") { return "POST /p/x HTTP/1.1\r\nHost: h\r\n" + extra + "Content-Length: " + num(body.size()) + "\r\n\r\n" + body; }
static void cuts_few() { // every choice of up to 2 (3) cut points
	std::vector<str> R = {"GET /g HTTP/1.1\r\n\r\n", "GET /g/a?b=c HTTP/1.1\r\nHost: x\r\nA: b\r\n\r\n", post("hello"), post("a=1&key=v%20w", F), post(str("\0\r\n\r\n\xff", 6)), "POST /p HTTP/1.1\r\nContent-Length: 0\r\n\r\n"};
	int i = mc_choose(R.size(), "request"); const str &r = R[i]; int k = mc_choose(mc_thorough() && r.size() < 90 ? 4 : 3, "number of cuts"); std::vector<size_t> cuts; size_t last = 0;
	for (int j = 0; j < k; j++) { if (last + 1 >= r.size()) mc_skip(); last = last + 1 + mc_choose(r.size() - 1 - last, "cut"); cuts.push_back(last); if (j == 0) mc_shard(); }
	if (!k) mc_shard();
	compare(r, cuts, "");
}
static void pieces() { // equal pieces of every size
	std::vector<str> R = {"GET /g HTTP/1.1\r\nHost: x\r\n\r\n", post("hello world"), post("a=1&key=v%20w&zz=+", F), post(pattern(1500)), post(pattern(3000)), "GET /g/" + str(500, 'r') + " HTTP/1.1\r\nX: " + str(2000, 'h') + "\r\n\r\n"};
	int i = mc_choose(R.size(), "request"); int n = 1 + mc_choose(1100, "piece"); mc_shard(); if ((size_t)n >= R[i].size()) mc_skip();
	std::vector<size_t> cuts; for (size_t k = n; k < R[i].size(); k += n) cuts.push_back(k); compare(R[i], cuts, "(equal pieces)");
}
static void sizes() { // totals around multiples of the read size, cut around the same places
	static const int T[] = {1022, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 3071, 3072, 3073, 4096, 5120, 8192, 8193};
	int t = T[mc_choose(15, "total")], kind = mc_choose(3, "kind"); str r;
	if (kind == 0) { str a = "GET /g HTTP/1.1\r\nX: ", b = "\r\n\r\n"; r = a + str(t - a.size() - b.size(), 'x') + b; }
	else { size_t bl = t > 2000 && kind == 2 ? t - 1024 : 300; for (;;) { str body = pattern(bl, 3); r = "POST /p HTTP/1.1\r\nX: " ; str tail = "\r\nContent-Length: " + num(bl) + "\r\n\r\n"; if ((int)(r.size() + tail.size() + bl) > t) { bl--; continue; } r += str(t - r.size() - tail.size() - bl, 'x') + tail + body; break; } }
	size_t he = r.find("\r\n\r\n") + 4; std::vector<size_t> P;
	for (size_t p : {(size_t)1, he - 4, he - 3, he - 2, he - 1, he, he + 1, (size_t)1023, (size_t)1024, (size_t)1025, (size_t)2048, r.size() - 1024, r.size() - 1}) if (p > 0 && p < r.size()) P.push_back(p);
	std::sort(P.begin(), P.end()); P.erase(std::unique(P.begin(), P.end()), P.end());
	std::vector<size_t> cuts; for (size_t j = 0; j < P.size(); j++) { if (mc_choose(2, "cut here")) cuts.push_back(P[j]); if (j == 4) mc_shard(); }
	compare(r, cuts, "");
}
static void every_total() { // every total length, whole and in pieces that end with the header
	int t = mc_choose(mc_thorough() ? 9000 : 4300, "length"), kind = mc_choose(3, "kind"), cut = mc_choose(3, "cut"); mc_shard();
	str r = kind == 0 ? "GET /g HTTP/1.1\r\nX: " + str(t, 'x') + "\r\n\r\n" : kind == 1 ? post(pattern(t, 1)) : post("a=" + str(t, 'b') + "&key=1", F);
	size_t he = r.find("\r\n\r\n") + 4; std::vector<size_t> cuts; if (cut == 1 && he < r.size()) cuts = {he}; if (cut == 2 && r.size() > 1024) cuts = {1024};
	compare(r, cuts, "");
}
static const str &trail(int i) { static const std::vector<str> T = {"", "x", "\r\n", "\r\n\r\n", str("\0", 1), "GET /g/other HTTP/1.1\r\n\r\n", "Content-Length: 5\r\n\r\n", "&zz=9&a=2", pattern(1100), pattern(5000, 3)}; return T[i]; }
static void trailing() { // what a client sends behind its request is not part of it, whichever read it comes with
	std::vector<str> R = {"GET /g/a HTTP/1.1\r\nHost: x\r\n\r\n", post("hello"), post("a=1&key=v%20w", F), "POST /p HTTP/1.1\r\nContent-Length: 0\r\n\r\n", post(pattern(1024)), post(pattern(2100, 5))};
	int q = mc_choose(6, "request"), t = 1 + mc_choose(9, "behind it"); const str &r = R[q], in = r + trail(t); size_t he = r.find("\r\n\r\n") + 4; std::vector<size_t> P; if (r.size() < 200) for (size_t p = 0; p < in.size() && p < r.size() + 30; p++) P.push_back(p); else for (size_t p : {(size_t)0, he - 1, he, he + 1, (size_t)1023, (size_t)1024, (size_t)1025, (size_t)2048, r.size() - 1, r.size(), r.size() + 1, in.size() - 1}) if (p < in.size()) P.push_back(p);
	size_t a = P[mc_choose(P.size(), "cut")], b = P[mc_choose(P.size(), "second cut")]; mc_shard(); if (b && b <= a) mc_skip(); std::vector<size_t> cuts; if (a) cuts.push_back(a); if (b) cuts.push_back(b);
	mc_note("%s followed by %s, cut at %zu and %zu", Q(r), Q(trail(t)), a, b); static std::map<int, Obs> whole; auto it = whole.find(q); if (it == whole.end()) it = whole.emplace(q, run(r, {})).first; Obs o = run(in, cuts); mc_nontrivial();
	CHECK(o.answered, "no response"); CHECK(o.handler == it->second.handler, "the handler saw %s, %s without anything behind the request", Q(o.handler), Q(it->second.handler)); CHECK(o.out == it->second.out, "the response is %s, %s without anything behind the request", Q(o.out), Q(it->second.out)); mc_outcome(mc_hash(o.out));
}
int main(int c, char **v) { return mc_main(c, v, {
	{"trailing", trailing, 0, 0, "6 requests followed by 9 kinds of bytes, every choice of up to 2 cut points"},
	{"cuts", cuts_few, 0, 0, "6 requests (GET, POST, form, binary body, empty body), every choice of up to 2 (thorough 3) cut points"},
	{"pieces", pieces, 0, 0, "6 requests up to 3 kB in equal pieces of every size 1..1100"},
	{"sizes", sizes, 0, 0, "15 total sizes around multiples of 1024 x 3 shapes x every subset of up to 13 cut points around header end, read size and end"},
	{"lengths", every_total, 0, 0, "every header/body length up to 4299 (8999) for GET, POST and form requests, 3 cuts"}}); }

// C34: every answered request leaves exactly one access line, with its own particulars.
#include "http.h"
#include "log.h"
static str got() { return env_streams[1] + env_pending[1]; }
// lines that record a request: the quoted verb and resource are unmistakable
static std::vector<str> records(const str &verb, const str &res) { std::vector<str> r; for (int s = 1; s < 3; s++) { str g = env_streams[s] + env_pending[s], k = "\"" + verb + " " + res + "\""; size_t p = 0; while (p < g.size()) { size_t e = g.find('\n', p); if (e == str::npos) e = g.size(); str l = g.substr(p, e - p); if (l.find(k.substr(0, 600)) != str::npos) r.push_back((s == 2 ? "stderr: " : "") + l); p = e + 1; } } return r; }
static void judge(const str &verb, const str &res, const char *ip, const char *ua, int code, size_t size) {
	str m = str(ip ? ip : "NOIP") + " \"" + verb + " " + res + "\" " + num(code) + " " + num(size) + " \"" + (ua ? ua : "NOUSERAGENT") + "\"", want = str(WHEN) + MARK[4] + " " + m;
	auto r = records(verb, res); CHECK(r.size() == 1, "the request left %zu access lines in %s", r.size(), Q(got())); mc_nontrivial(); mc_outcome(mc_hash(r[0]));
	if (m.size() <= 799) CHECK(r[0] == want, "the access line is %s instead of %s", Q(r[0]), Q(want)); else CHECK(r[0].size() >= want.size() - (m.size() - 799) && want.compare(0, r[0].size(), r[0]) == 0, "the access line is %s, not the beginning of %s", Q(r[0]), Q(want));
	CHECK(env_pending[1].empty(), "the access line is not written out");
}
static void fields() { // who, what, and with which result
	static const char *IP[] = {nullptr, "10.0.0.1", "::1", "", "a b", "%s%n"}, *UA[] = {nullptr, "curl/8", "Mozilla/5.0 (X11; %d) \"q\"", "", "NOIP"}, *RS[] = {"/r", "/r/%s%%d?x=1&y=2", "/none"}, *VB[] = {"GET", "POST", "DELETE"};
	static const int CO[] = {200, 301, 302, 400, 403, 404, 500};
	int i = mc_choose(6, "address"), u = mc_choose(5, "agent"), order = mc_choose(2, "order"), r = mc_choose(3, "resource"), v = mc_choose(3, "verb"), k = r == 2 ? 0 : mc_choose(9, "status"), rg = mc_choose(2, "range"), z = mc_choose(4, "size"); static const size_t Z[] = {0, 1, 12, 5000}; mc_shard(); if ((r == 2 || k >= 7) && z) mc_skip();
	App app({{VB[v], "r", "^/r", 0, H[0], C[0]}}); if (r == 2 || k >= 7) { if (k == 8 || (r == 2 && rg)) { sh_set_404_handler(app.a, H[1]); sh_set_404_cleanup(app.a, C[1]); } }
	bool custom = k == 8 || (r == 2 && rg); size_t page = 0; static const char pg[] = "custom page"; int code = r == 2 || k >= 7 ? 404 : CO[k];
	on_handle = [&](int id, const void *, void *resp, const Seen &) { if (id == 1) return reply(resp, pg, 404); if (k >= 7) { sh_resp_set(resp, nullptr, 0); return 404; } return reply(resp, pattern(Z[z]), code); };
	on_clean = [&](int, int, void *x) { if (sh_resp_out(x)) env_free(sh_resp_out(x)); };
	if (r < 2 && k < 7 && code == 404 && !Z[z]) mc_skip();
	str q = str(VB[v]) + " " + RS[r] + " HTTP/1.1\r\n", a = IP[i] ? str("X-Real-IP: ") + IP[i] + "\r\n" : "", b = UA[u] ? str("User-Agent: ") + UA[u] + "\r\n" : ""; q += order ? b + "Host: h\r\n" + a : a + "X-Real: no\r\n" + b; if (rg) q += "Range: bytes=0-0\r\n"; q += "\r\n";
	env_capture = true; mc_note("%s answered with %d", Q(q), code); Conn *c = env_conn(q); Reply y = serve(app, c); CHECK(y.answered, "no response"); Resp p = parse_resp(c->out); CHECK(p.ok, "%s", p.err.c_str());
	if (r == 2 || k >= 7) page = custom ? strlen(pg) : p.body.size(); else page = Z[z]; if (rg && code == 200 && page) CHECK(p.code == 206, "not a partial response"); mc_state(mc_hash(q, code));
	judge(VB[v], RS[r], IP[i], UA[u], p.code, page);
}
static void ranges() { // the status of every kind of range, and of what looks like one
	static const char *RG[] = {"", " ", "bytes", "bytes=", "bytes=0-", "bytes=0-0", "bytes=1-2", "bytes=2-1", "bytes=-", "bytes=-2", "bytes=99-", "bytes=0-99", "0-1", "lines=0-1", "bytes=0-1,2-3", "bytes=x-y", "bytes=4-4", "bytes=3-3"}; int g = mc_choose(18, "range"), k = mc_choose(4, "status"), z = mc_choose(3, "body"), v = mc_choose(3, "verb"); mc_shard(); static const int CO[] = {200, 302, 404, 500}; static const char *B[] = {"", "1234", "12345"}, *VB[] = {"GET", "POST", "HEAD"}; if (!z && CO[k] == 404) mc_skip();
	App app({{VB[v], "r", "^/r", 0, H[0], C[0]}}); on_handle = [&](int, const void *, void *resp, const Seen &) { return reply(resp, B[z], CO[k]); }; on_clean = [&](int, int, void *x) { env_free(sh_resp_out(x)); }; env_capture = true; str q = str(VB[v]) + " /r HTTP/1.1\r\nRange: " + RG[g] + "\r\n\r\n"; mc_note("%s answered with %d and %s", Q(q), CO[k], B[z]);
	Conn *c = env_conn(q); Reply y = serve(app, c); if (!y.answered) { CHECK(records(VB[v], "/r").empty(), "an access line without a response"); mc_outcome(1); return; } size_t e = c->out.find(' '); int code = atoi(c->out.c_str() + e + 1); judge(VB[v], "/r", nullptr, nullptr, code, strlen(B[z])); mc_state(mc_hash(q, k * 4 + z));
}
static void lengths() { // lines around the longest that is written whole
	int n = 1 + mc_choose(900, "length"), w = mc_choose(3, "what"); mc_shard(); App app({{"GET", "r", "^/", 0, H[0], C[0]}}); on_handle = [&](int, const void *, void *resp, const Seen &) { return reply(resp, "ok"); }; on_clean = [&](int, int, void *x) { env_free(sh_resp_out(x)); };
	str l; for (int i = 0; i < n; i++) l += (char)('a' + i % 26); str res = w == 2 ? "/" + l : "/x"; if (res.size() > 511) mc_skip(); str ip = w == 0 ? l : "1.2.3.4", ua = w == 1 ? l : "agent"; env_capture = true; mc_note("%d bytes in part %d", n, w);
	Conn *c = env_conn("GET " + res + " HTTP/1.1\r\nUser-Agent: " + ua + "\r\nX-Real-IP: " + ip + "\r\n\r\n"); CHECK(serve(app, c).answered, "no response"); auto r = records("GET", res);
	if (w == 0 && n > 780) { CHECK(r.size() <= 1, "%zu access lines", r.size()); mc_nontrivial(); return; }
	judge("GET", res, ip.c_str(), ua.c_str(), 200, 2); mc_state(n * 3 + w);
}
#include <sys/mman.h>
static void huge() { // parts of bodies whose sizes do not fit into small integer types
	static const unsigned long long Z[] = {99999, 100000, 2147483647ull, 2147483648ull, 4294967295ull, 4294967296ull, 4294967301ull, 9999999999ull}; static char *sparse; int z = mc_choose(8, "size"), rg = mc_choose(2, "end"); mc_shard(); if (!sparse) sparse = (char *)mmap(nullptr, 10000000000ull, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (sparse == MAP_FAILED) mc_fail("harness: no room for a large body");
	App app({{"GET", "r", "^/r", 0, H[0], C[0]}}); on_handle = [&](int, const void *, void *resp, const Seen &) { sh_resp_set(resp, sparse, Z[z]); return 200; }; env_capture = true; mc_note("two bytes of a body of %llu bytes", Z[z]);
	Conn *c = env_conn("GET /r HTTP/1.1\r\nRange: bytes=" + (rg ? num(Z[z] - 2) + "-" : str("1-2")) + "\r\n\r\n"); CHECK(serve(app, c).answered, "no response"); Resp p = parse_resp(c->out); CHECK(p.ok && p.code == 206, "%s", p.err.c_str()); judge("GET", "/r", nullptr, nullptr, 206, Z[z]); mc_state(z * 2 + rg);
}
static void history() { // one line per answered request, none for the others, in the order they were answered
	static const char *RQ[] = {"GET /a HTTP/1.1\r\nUser-Agent: one\r\n\r\n", "POST /b HTTP/1.1\r\nContent-Length: 3\r\nX-Real-IP: 9.9.9.9\r\n\r\nabc", "GET /none HTTP/1.1\r\n\r\n", "GARBAGE\r\n\r\n", "GET /a HTTP/1.1\r\nContent-Length: x\r\n\r\n", "POST /b HTTP/1.1\r\nContent-Length: 9\r\n\r\nabc", ""}; static const char *LN[] = {"NOIP \"GET /a\" 200 4 \"one\"", "9.9.9.9 \"POST /b\" 200 4 \"NOUSERAGENT\"", nullptr};
	int d = mc_choose(mc_thorough() ? 6 : 5, "requests"); std::vector<int> k; for (int i = 0; i < d; i++) { k.push_back(mc_choose(8, "request")); if (i == 1) mc_shard(); } if (d < 2) mc_shard();
	App app({{"GET", "a", "^/a", 0, H[0], C[0]}, {"POST", "b", "^/b", 0, H[1], C[1]}}); on_handle = [&](int, const void *, void *resp, const Seen &) { return reply(resp, "four"); }; on_clean = [&](int, int, void *x) { env_free(sh_resp_out(x)); }; env_capture = true; std::vector<str> want; str log;
	for (int x : k) { log += " " + num(x); bool broken = x == 7; Conn *c = env_conn(RQ[broken ? 0 : x], x == 6 ? T_EOF : x == 5 ? T_EOF : T_SILENT); if (broken) c->on_send = [](Conn &, size_t) -> ssize_t { return -EPIPE; }; Reply y = serve(app, c); Resp p = y.answered && !broken ? parse_resp(c->out) : Resp(); if (broken) CHECK(y.answered, "no response was made"); else CHECK(y.answered == (x < 3), "request %d %s", x, y.answered ? "was answered" : "was not answered"); if (x == 2) want.push_back("NOIP \"GET /none\" 404 " + num(p.body.size()) + " \"NOUSERAGENT\""); else if (y.answered) want.push_back(LN[broken ? 0 : x]); }
	mc_note("requests%s", log.c_str()); std::vector<str> have; str g = got(); size_t p = 0; while (p < g.size()) { size_t e = g.find('\n', p); str l = g.substr(p, e - p), head = str(WHEN) + MARK[4] + " "; if (l.compare(0, head.size(), head) == 0 && l.find("\" ") != str::npos && (l.find("\"GET ") != str::npos || l.find("\"POST ") != str::npos)) have.push_back(l.substr(head.size())); p = e + 1; }
	for (size_t i = 0; i < std::max(want.size(), have.size()); i++) CHECK(i < want.size() && i < have.size() && want[i] == have[i], "access line %zu is %s instead of %s", i, i < have.size() ? Q(have[i]) : "missing", i < want.size() ? Q(want[i]) : "none"); mc_nontrivial(); mc_outcome(mc_hash(g)); mc_state(mc_hash(log));
}
static void bytes() { // the address and the agent are what was sent, whatever it is
	int w = mc_choose(2, "field"), a = 1 + mc_choose(255, "byte"); mc_shard(); if (a == '\r' || a == '\n') mc_skip();
	for (int b = 0; b < 256; b++) { if (b == '\r' || b == '\n' || (b > 127 && b < 250 && !mc_thorough())) continue; str v = a == ' ' || a == '\t' ? "1" : ""; v += (char)a; if (b) v += (char)b; v += b % 3 ? ".2" : ""; App app({{"GET", "r", "^/r", 0, H[0], C[0]}}); on_handle = [&](int, const void *, void *resp, const Seen &) { return reply(resp, "x"); }; on_clean = [&](int, int, void *x) { env_free(sh_resp_out(x)); };
		env_capture = true; for (int s = 1; s < 3; s++) env_streams[s].clear(), env_pending[s].clear(); const char *ip = w ? "1.2.3.4" : v.c_str(), *ua = w ? v.c_str() : "agent"; mc_note("%s", Q(v)); Conn *c = env_conn(str("GET /r HTTP/1.1\r\nX-Real-IP: ") + ip + "\r\nUser-Agent: " + ua + "\r\n\r\n"); CHECK(serve(app, c).answered, "no response"); judge("GET", "/r", ip, ua, 200, 1); }
}
#include <errno.h>
int main(int c, char **v) { return mc_main(c, v, {
	{"fields", fields, 0, 0, "6 addresses x 5 agents x 2 orders x 3 resources x 3 verbs x 9 outcomes x with and without a range x 4 sizes"},
	{"bytes", bytes, 0, 0, "addresses and agents of every one and two bytes but CR, LF, NUL (quick: the second of 133)"},
	{"ranges", ranges, 0, 0, "18 Range headers x 4 statuses x 3 bodies x 3 verbs: the status sent is the status recorded"},
	{"huge", huge, 0, 0, "parts of bodies of 8 sizes up to 10 GB"},
	{"history", history, 0, 0, "all sequences of up to 4 (5) of 8 requests: answered, not found, malformed, cut, broken while sending"},
	{"lengths", lengths, 0, 0, "every length 1-900 of address, agent and resource"}}); }

// C10: the first matching route handles the request, with the right captures.
#include "http.h"
#include <regex.h>
struct Opt { const char *verb, *match; int expected; };
static void request(const std::vector<Opt> &t, const str &verb, const str &res, bool note = true) {
	std::vector<sh_route> rt; for (size_t i = 0; i < t.size(); i++) rt.push_back({t[i].verb, "same name", t[i].match, (size_t)t[i].expected, H[i], C[i]});
	int want = -1; std::vector<regmatch_t> m(4, {-9, -9});
	for (size_t i = 0; i < t.size() && want < 0; i++) if (verb == t[i].verb) {
		regex_t re; CHECK(regcomp(&re, t[i].match, REG_EXTENDED) == 0, "bad expression in the harness");
		std::vector<regmatch_t> mm(10); if (regexec(&re, res.c_str(), 10, mm.data(), 0) == 0) { want = i; for (int k = 0; k <= t[i].expected; k++) m[k] = mm[k]; }
		regfree(&re);
	}
	if (note) { str d; for (auto &o : t) d += str(o.verb) + " " + o.match + " [" + num(o.expected) + "]; "; mc_note("%s %s against %s", verb.c_str(), mc_quote(res, 80).c_str(), mc_quote(d, 500).c_str()); }
	App app(rt);
	on_handle = [&](int id, const void *, void *resp, const Seen &) { return reply(resp, "handler " + num(id)); };
	on_clean = [&](int, int, void *r) { env_free(sh_resp_out(r)); };
	Conn *c = env_conn(verb + " " + res + " HTTP/1.1\r\n\r\n"); Reply r = serve(app, c); CHECK(r.answered, "no response"); mc_nontrivial();
	Resp p = parse_resp(c->out); CHECK(p.ok, "%s", p.err.c_str());
	if (want < 0) { CHECK(seen.empty(), "no route matches but handler %d ran", seen[0].route); CHECK(p.code == 404, "no route matches but the status is %d", p.code); mc_outcome(99); return; }
	CHECK(seen.size() == 1, "%zu handlers ran", seen.size()); CHECK(seen[0].route == want, "route %d handled the request, route %d is the first that matches", seen[0].route, want);
	CHECK(p.code == 200 && p.body == "handler " + num(want), "the response is %s", Q(c->out)); CHECK(cleans.size() == 1 && cleans[0].route == want, "the clean-up of another route ran");
	for (int k = 0; k <= t[want].expected && t[want].expected > 0; k++)
		CHECK(seen[0].m[k].first == m[k].rm_so && seen[0].m[k].second == m[k].rm_eo, "capture %d of route %d is %ld..%ld, should be %d..%d", k, want, seen[0].m[k].first, seen[0].m[k].second, (int)m[k].rm_so, (int)m[k].rm_eo);
	mc_outcome(mc_hash(num(want) + "," + num(m[1].rm_so) + "," + num(m[1].rm_eo)));
}
static const std::vector<Opt> O = {{"GET", "^/$", 0}, {"GET", "^/a", 0}, {"GET", "^/a/([0-9]+)$", 1}, {"GET", "^/a/([0-9]+)$", 0}, {"GET", "^/([a-z]+)/([0-9]*)(x)?$", 3}, {"GET", "^/([a-z]+)/([0-9]*)(x)?$", 2}, {"GET", "(b|a)+", 1}, {"GET", "^.*$", 0}, {"GET", "", 0}, {"GET", "/(a)|/(b)", 2},
	{"POST", "^/a", 0}, {"POST", "^/([a-z])?", 1}, {"PO", "^", 0}, {"POSTS", "^", 0}, {"G", ".", 0}, {"GET", "c$", 0}};
static const std::vector<str> R = {"/", "/a", "/a/12", "/ab/7x", "/b", "/A", "a", "/a/", "/a/12?q=/a/3", "/zzz/", "/a/b/c", "*"};
static void tables() {
	int n = mc_choose(4, "routes"); std::vector<Opt> t; for (int i = 0; i < n; i++) { t.push_back(O[mc_choose(i == 2 && !mc_thorough() ? 10 : O.size(), "route")]); if (i == 0) mc_shard(); } if (!n) mc_shard();
	const str &r = R[mc_choose(n == 3 ? 7 : R.size(), "resource")]; int v = mc_choose(n == 3 ? 2 : 4, "verb"); static const char *V[] = {"GET", "POST", "PO", "POSTS"};
	request(t, V[v], r);
}
static void captures() { // expressions with captures in awkward positions, every number of them declared
	static const char *P[] = {"^/(a*)(b*)$", "^/((a)|(b))+$", "^/(a)?(b)?$", "^(/)(.*)$", "^/([^/]*)/?([^/]*)/?([^/]*)$", "/(.)$", "^/(()())", "(a|ab)(c|bcd)(d*)"};
	const char *p = P[mc_choose(8, "expression")]; regex_t re; if (regcomp(&re, p, REG_EXTENDED)) mc_fail("expression"); int k = re.re_nsub < 3 ? re.re_nsub : 3; regfree(&re);
	int e = mc_choose(k + 1, "declared"), pre = mc_choose(2, "another first"); int n = mc_choose(6, "length"); str r = "/"; for (int i = 0; i < n; i++) { r += "ab/c"[mc_choose(4, "byte")]; if (i == 1) mc_shard(); } if (n < 2) mc_shard();
	std::vector<Opt> t; if (pre) t.push_back({"GET", "^(/)(zz)()$", 3}); t.push_back({"GET", p, e}); request(t, "GET", r);
}
static void positions() { // the only match at every position of a long table
	int n = 1 + mc_choose(10, "routes"), at = mc_choose(11, "match at"), second = mc_choose(11, "second match at"), post = mc_choose(2, "wrong verb first"); mc_shard(); std::vector<Opt> t; for (int i = 0; i < n; i++) t.push_back({post && i < at ? "POST" : "GET", (i == at || i == second || (post && i < at)) ? "^/x([0-9])" : "^/y([0-9])", 1});
	request(t, "GET", "/x7");
}
static void lines() { // resources with every byte that may stand in one, line ends included
	static const char *P[] = {"^/a$", "^/.$", "^.*$", "a$", "^b", "^/(.)$", "^/([^x])", "/[^/]*$"}; int p = mc_choose(8, "expression"), n = 1 + mc_choose(mc_thorough() ? 5 : 4, "length"), e = mc_choose(2, "declared"); str r = "/"; for (int i = 0; i < n; i++) { r += "ab\n/\r\t\x80"[mc_choose(7, "byte")]; if (i == 0) mc_shard(); } if (r.find("\r\n") != str::npos) mc_skip(); if (e && p != 5 && p != 6) mc_skip(); request({{"GET", P[p], e}, {"GET", "^/(.)", 1}}, "GET", r);
}
static void bytes() { // every byte a resource may contain belongs to it
	int b = 1 + mc_choose(255, "byte"), at = mc_choose(3, "place"), second = mc_choose(4, "and later"), p = mc_choose(3, "expression"); mc_shard(); if (b == ' ') mc_skip(); static const char *P[] = {"^/(.*)b(.*)$", "^/[^?]*$", "^/(.*)z$"}; static const int E[] = {2, 0, 1}; str x(1, b), r = "/"; r += at == 0 ? x + "ab" : at == 1 ? "a" + x + "b" : "ab" + x; r += second == 0 ? "z" : second == 1 ? "?q=b" + x : second == 2 ? x + x + "z" : "#b"; if (r.find("\r\n") != str::npos) mc_skip(); request({{"GET", P[p], E[p]}, {"GET", "^(/)(.)", 2}}, "GET", r);
	CHECK(seen.empty() || seen[0].resource == r, "the handler sees the resource %s", Q(seen[0].resource)); mc_state(b * 40 + at * 12 + second * 3 + p);
}
static void catchall() { // expressions that match everything, at every position, with others that match before and behind
	static const char *E[] = {"^.*$", "", "^", ".*", "^/x", "^/y"}; int n = 2 + mc_choose(18, "routes"), at = mc_choose(20, "position"), a = mc_choose(6, "there"), rest = mc_choose(6, "behind"), ex = mc_choose(2, "declared"); mc_shard(); if (at >= n) mc_skip(); std::vector<Opt> t; std::vector<int> none; for (int i = 0; i < n; i++) t.push_back({"GET", i < at ? "^/y" : i == at ? E[a] : E[rest], i % 3 == ex ? 0 : 0});
	std::vector<sh_route> rt; for (int i = 0; i < n; i++) rt.push_back({t[i].verb, "r", t[i].match, 0, H[i % 10], C[i % 10]}); int want = -1; for (int i = 0; i < n && want < 0; i++) if (str("^.*$ .* ^ ^/x").find(t[i].match) != str::npos) want = i;
	mc_note("%d routes, the first that matches is %d", n, want); App app(rt); on_handle = [&](int id, const void *, void *resp, const Seen &) { return reply(resp, "handler " + num(id)); }; on_clean = [&](int, int, void *r) { env_free(sh_resp_out(r)); }; Conn *c = env_conn("GET /x HTTP/1.1\r\n\r\n"); Reply r = serve(app, c); CHECK(r.answered, "no response"); mc_nontrivial(); mc_state(mc_hash(num(n * 400 + at * 20 + a * 3), rest)); mc_outcome(want);
	if (want < 0) { CHECK(seen.empty(), "no route matches but a handler ran"); return; } CHECK(seen.size() == 1 && seen[0].route == want % 10, "route %d is the first that matches, handler %d of 10 ran", want, seen.empty() ? -1 : seen[0].route);
}
static void lengths() { // long resources and long expressions
	int n = 1 + mc_choose(509, "length"); mc_shard(); str r = "/" + str(n - 1, 'r'); str pat = "^/(r*)$"; request({{"GET", "^/r*x", 0}, {"GET", pat.c_str(), 1}}, "GET", r);
	if (n < 250) { str lp = "^/" + str(n, 'q') + "(.*)$"; lp = lp.substr(0, 255); if (n < 240) request({{"GET", lp.c_str(), 1}, {"GET", "^/q", 0}}, "GET", "/" + str(n, 'q') + "tail"), request({{"GET", lp.c_str(), 1}, {"GET", "^/q", 0}}, "GET", "/" + str(n - 1, 'q')); }
}
static void repeated() { // a history of requests: what one request matched never shows in the next
	int a = mc_choose(R.size(), "first"), b = mc_choose(R.size(), "second"), o = mc_choose(O.size(), "route"); mc_shard(); request({O[o], {"GET", "^(/).(.*)", 2}}, "GET", R[a]); request({O[o], {"GET", "^(/).(.*)", 2}}, "GET", R[b]);
}
static void large() { // tables longer than any small integer type counts
	static const int N[] = {100, 126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1000, 32766, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 70000};
	int k = mc_choose(mc_thorough() ? 22 : 17, "routes"), n = N[k], w = mc_choose(5, "match at"), same = mc_choose(2, "same verb"); mc_shard(); if (same && n > 1000) mc_skip(); int at = w == 0 ? n - 1 : w == 1 ? n - 2 : w == 2 ? n / 2 : w == 3 ? 99 : -1;
	std::vector<sh_route> rt; rt.reserve(n); for (int i = 0; i < n; i++) { bool m = i == at || (at >= 0 && i == at + 1); rt.push_back({m || same ? "GET" : "POST", "r", m ? "^/x([0-9])" : "^/[y]", (size_t)(m ? 1 : 0), H[i % 9], C[i % 9]}); }
	mc_note("%d routes, the first match is route %d", n, at); App app(rt); on_handle = [&](int id, const void *, void *resp, const Seen &) { return reply(resp, "handler " + num(id)); }; on_clean = [&](int, int, void *r) { env_free(sh_resp_out(r)); };
	Conn *c = env_conn("GET /x7 HTTP/1.1\r\n\r\n"); Reply r = serve(app, c); CHECK(r.answered, "no response"); Resp p = parse_resp(c->out); CHECK(p.ok, "%s", p.err.c_str()); mc_nontrivial(); mc_state(n * 8 + w); mc_outcome(mc_hash(c->out));
	if (at < 0) { CHECK(seen.empty() && p.code == 404, "no route matches but the status is %d", p.code); return; }
	CHECK(seen.size() == 1 && seen[0].route == at % 9, "the first match is route %d, another one handled the request", at); CHECK(p.code == 200 && p.body == "handler " + num(at % 9), "the response is %s", Q(c->out)); CHECK(seen[0].m[1].first == 2 && seen[0].m[1].second == 3, "wrong capture"); CHECK(cleans.size() == 1 && cleans[0].route == at % 9, "the clean-up of another route ran");
}
static void near() { // exact expressions against resources that have something before, behind or between
	static const char *P[] = {"^/$", "^/a$", "^/a/12$", "^/ab$", "^/a/([0-9]+)$", "^/a/?$", "^/a\\?", "/a$", "a/12", "^/([a-z]+)$"}; static const int E[] = {0, 0, 0, 0, 1, 0, 0, 0, 0, 1};
	static const str B[] = {"/", "/a", "/a/12", "/ab", "/A", "/a/1"}; static const str X[] = {"", "?", "?q", "?q=1&r=/a", "#", "#f", "/", "//", "/.", "/..", "/../a", ";x", "&y", "%20", "%2F", "%61", "+", ".html", "a", "1", "\xc3\xa4", "\\", "*", "\"", "'", "~", "!", "@h", ":80", ",", "=", "|", "^", "$"}; static const str F[] = {"", "/", "http://h", "h", "?", "."};
	int p = mc_choose(10, "expression"), b = mc_choose(6, "base"), x = mc_choose(34, "behind"), f = mc_choose(6, "before"), k = mc_choose(3, "table"); mc_shard(); std::vector<Opt> t; if (k == 1) t.push_back({"POST", P[p], E[p]}); t.push_back({"GET", P[p], E[p]}); if (k == 2) t.push_back({"GET", "^(.)", 1}); request(t, "GET", F[f] + B[b] + X[x]); mc_state(mc_hash(F[f] + B[b] + X[x], p * 3 + k));
}
int main(int c, char **v) { return mc_main(c, v, {{"near", near, 0, 0, "10 expressions x 6 resources x 34 things behind x 6 before x 3 tables"}, {"bytes", bytes, 0, 0, "every byte at 3 places of a resource x 4 continuations x 3 expressions"}, {"lines", lines, 0, 0, "8 expressions x all resources up to 4 (5) bytes over 7 bytes, line ends included"}, {"catchall", catchall, 0, 0, "tables of 2-19 routes with 6 expressions at every position x 6 behind it"}, {"large", large, 0, 0, "17 (22) table lengths around 128, 256, 512, 2^15 (2^16) with the match near the end, in the middle or nowhere"}, {"tables", tables, 0, 0, "all tables of up to 3 of 16 routes (third from 10 in the quick tier), 7 to 12 resources, 2 to 4 verbs"}, {"captures", captures, 0, 0, "8 expressions x every declared number of captures x all resources up to 5 bytes over a b / c"}, {"positions", positions, 0, 0, "tables up to 10 routes with one or two matches at every position"}, {"lengths", lengths, 0, 0, "resources up to 509 bytes, expressions up to 255"}, {"repeated", repeated, 0, 0, "pairs of requests in sequence"}}); }

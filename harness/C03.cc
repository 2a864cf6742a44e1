// C03: concurrent requests do not interfere.  Built twice: with race detection, and under AddressSanitizer.
#include "http.h"
#include "ctlthr.h"
#include <unistd.h>
static void enter() { if (chdir(env_dir().c_str())) mc_fail("harness: chdir"); }
static void P_(const char *w = "handler") { env_sched_point(w, 0); }
static char *up(const char *a) { P_("filter"); str s = a ? a : "NONE"; for (auto &c : s) c = c >= 'a' && c <= 'z' ? c - 32 : c; char *p = (char *)env_malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); return p; }
static void upclean(char *p) { env_free(p); }
enum Kind { TMPL, TFILE, STATIC, FORM, COOKIE, HEADERS, RANGE, RAW, NONE, NOTFOUND, TOOLS, NKINDS };
static const char *KN[] = {"template", "template file", "file", "form", "cookies and headers", "custom headers", "range", "raw buffer", "no route", "404 by the handler", "decoding, hashing, containers"};
static const char *TEXT = "<xXx @id xXx>xXx @sub.k xXx\nxXx LOOP i list xXx\n[xXx @i xXx XxX up it xXx @i xXx XxX]\nxXx BBL xXx\nxXx UNLESS @no xXx\nshown xXx @id xXx\nxXx ENDLESS xXx\nxXx SCREAM inc.html xXx\nxXx LOOP s subs xXx\n(xXx @s.k xXx)\nxXx BBL xXx\nXxX up done xXx @id xXx XxX";
static void *context(const str &id) {
	void *c = sh_ctx(); sh_add_string(c, "id", id.c_str()); sh_add_string(c, "no", "FALSE"); sh_add_filter(c, "up", up, upclean); P_(); void *l = sh_add_array(c, "list"); for (int i = 0; i < 2; i++) sh_loop_string(l, (id + (i ? "x" : "y")).c_str()); sh_loop_int(l, atoi(id.c_str())); sh_loop_done(l); P_();
	l = sh_add_array(c, "subs"); for (int i = 0; i < 2; i++) { void *s = sh_ctx(); sh_add_string(s, "k", ("sub" + num(i) + id).c_str()); sh_loop_ctx(l, s); } sh_loop_done(l); void *s = sh_ctx(); sh_add_string(s, "k", ("k" + id).c_str()); sh_add_ctx(c, "sub", s); return c;
}
static str takes(char *p) { str s = p ? p : "(none)"; if (p) env_free(p); return s; }
static int app_handle(int k, const void *req, void *resp, const Seen &s) {
	str id = s.resource.substr(s.resource.rfind('/') + 1); P_(); sh_log(SH_INFO, "handling %s %s", s.verb.c_str(), s.resource.c_str()); P_();
	switch (k) {
	case TMPL: { void *c = context(id); P_(); size_t n = 0; char *o = sh_render(c, TEXT, strlen(TEXT), &n); P_(); str b(o, n); env_free(o); sh_ctx_free(c); P_(); return reply(resp, b); }
	case TFILE: return sh_render_file(context(id), "t.html", resp);
	case STATIC: return sh_mmap_file(id == "0" ? "s.txt" : "p.png", resp);
	case FORM: { str b; int rc = sh_parse_form((void *)req); b += num(rc); for (const char *key : {"a", "key", "long", "none", "n7"}) { P_(); size_t n = 0; sh_req v; sh_req_view(req, &v); char *x = (char *)sh_dict_get(v.form, key, strlen(key), &n); b += str("|") + key + "=" + (x ? str(x, n) : "(none)"); } return reply(resp, b); }
	case COOKIE: { str b; str h = takes(sh_header_req(req, "X-Id")); P_(); str c = takes(sh_header_req(req, "Cookie")); P_(); b = h + "|" + c; for (const char *n : {"a", "session", "none"}) { b += str("|") + takes(sh_cookie(c.c_str(), c.size(), n)); P_(); } return reply(resp, b); }
	case HEADERS: { for (int i = 0; i < 6; i++) { str n = "X-H" + num(i), v = "value" + num(i) + id; sh_insert_header(resp, n.c_str(), n.size(), v.c_str(), v.size()); P_(); } sh_resp_set_mime(resp, ("text/x" + id).c_str()); return reply(resp, "headers " + id); }
	case RANGE: return reply(resp, "0123456789 the body of " + id + " " + str(100, 'a' + id[0] % 26));
	case RAW: { static const char shared[] = "one buffer for everybody, sent from where it is"; return sh_return_raw(shared, sizeof shared - 1 - atoi(id.c_str()), resp); }
	case NOTFOUND: return 404;
	case TOOLS: { str b; char d[64]; str e = "%41+" + id + "%7e"; int n = sh_url_decode(e.c_str(), d); b += num(n) + str(d); P_(); char h[32] = {0}; sh_hash((const unsigned char *)id.c_str(), id.size(), h); b += str("|") + h; P_();
		void *v = sh_vec(sizeof(int), 2); for (int i = 0; i < 5; i++) { int x = i * 10 + id[0]; sh_vec_append(v, &x, sizeof x); P_(); } sh_vec_reverse(v); for (int i = 0; i < 5; i++) b += "," + num(*(int *)sh_vec_get(v, i)); sh_vec_free(v);
		void *D = sh_dict(); for (int i = 0; i < 6; i++) { str kk = id + num(i); sh_dict_set(D, kk.c_str(), kk.size(), kk.c_str(), kk.size()); } P_(); for (int i = 0; i < 7; i++) { str kk = id + num(i); size_t m; char *x = (char *)sh_dict_get(D, kk.c_str(), kk.size(), &m); b += x ? str(";") + str(x, m) : ";-"; } sh_dict_free(D); b += sh_strnstr("abcdef", "cd", 6); b += sh_endswith("abc", "bc") ? "y" : "n"; return reply(resp, b); }
	}
	return 404;
}
static int custom404(const void *, void *resp) { P_(); static const char *m = "custom page"; char *p = (char *)env_malloc(11); memcpy(p, m, 11); sh_resp_set(resp, p, 11); return 404; }
static str request(Kind k, int i) {
	str id = num(i), v = "GET", h = "\r\nHost: h\r\nX-Id: id" + id + "\r\n", b; static const char *R[] = {"tmpl", "tfile", "static", "form", "cookie", "headers", "range", "raw", "nothing", "notfound", "tools"};
	if (k == FORM) { v = "POST"; b = "a=" + id + "&key=v%41" + id + "+x&long=" + str(60, 'l') + id + "&bad=%zz&n7=%37" + id; h += "Content-Type: application/x-www-form-urlencoded\r\nContent-Length: " + num(b.size()) + "\r\n"; }
	if (k == COOKIE) h += "Cookie: a=" + id + "; session=s" + id + str(i + 1, 'z') + "; b=2\r\n"; if (k == RANGE) h += "Range: bytes=" + num(3 + i) + "-" + num(40 + i) + "\r\n";
	return v + " /" + R[k] + "/" + id + " HTTP/1.1" + h + "\r\n" + b;
}
static std::vector<sh_route> routes() { return {{"GET", "t", "^/tmpl/([0-9]+)$", 1, H[TMPL], sh_p_heap_cleanup}, {"GET", "tf", "^/tfile/([0-9]+)$", 1, H[TFILE], sh_p_heap_cleanup}, {"GET", "s", "^/static/([0-9]+)$", 1, H[STATIC], sh_p_mmap_cleanup}, {"POST", "f", "^/form/([0-9]+)$", 1, H[FORM], sh_p_heap_cleanup}, {"GET", "c", "^/cookie/([0-9]+)$", 1, H[COOKIE], sh_p_heap_cleanup}, {"GET", "h", "^/headers/([0-9]+)$", 1, H[HEADERS], sh_p_heap_cleanup}, {"GET", "r", "^/range/([0-9]+)$", 1, H[RANGE], sh_p_heap_cleanup}, {"GET", "raw", "^/raw/([0-9]+)$", 1, H[RAW], nullptr}, {"GET", "nf", "^/notfound/([0-9]+)$", 1, H[NOTFOUND], nullptr}, {"GET", "tools", "^/tools/([0-9]+)$", 1, hN<TOOLS>, sh_p_heap_cleanup}}; }
static std::map<str, str> alone_; static const void *req0;
static const str &alone(App &app, Kind k, int i, int c404) {
	auto &r = alone_[num(k) + "." + num(i) + "." + num(c404)]; if (r.size()) return r;
	Conn *c = env_conn(request(k, i)); serve(app, c); Resp p = parse_resp(c->out); if (!p.ok) mc_fail("handled alone, a request (%s) gets no proper response: %s", KN[k], p.err.c_str()); r = c->out; cur_conn = nullptr; return r;
}
static bool outputs;
static void go(int T, std::vector<Kind> ks, int late, int points) {
	int c404 = ks[0] % 2; sched_announce(points); enter(); env_put_file("inc.html", "inc xXx @id xXx\n"); env_put_file("t.html", TEXT); env_put_file("s.txt", "static text\n"); env_put_file("p.png", str(3000, '\x89')); (void)req0;
	App app(routes(), 8080, T); env_leaks(false); on_handle = app_handle; if (c404) { sh_set_404_handler(app.a, custom404); sh_set_404_cleanup(app.a, sh_p_heap_cleanup); }
	str n; for (auto k : ks) n += str(n.size() ? ", " : "") + KN[k]; mc_note("%d workers; %s", T, n.c_str());
	std::vector<str> want; for (size_t i = 0; i < ks.size(); i++) want.push_back(alone(app, ks[i], i, c404));
	seen.clear(); cleans.clear(); env_reset_statics(); // as in a process that has not done anything yet
	sched_output_points = outputs; int rc = -9; void *a = app.a; sched_spawn([&rc, a] { rc = sh_serve(a); }); if (late) sched_run();
	std::vector<Conn *> cs; for (size_t i = 0; i < ks.size(); i++) { Conn *c = env_conn_unopened(request(ks[i], i)); if (i % 2 == 0) c->cuts = {20}; c->on_send = [](Conn &, size_t n) -> ssize_t { return n > 700 ? 700 : n; }; cs.push_back(c); sched_arrive(c); }
	sched_run();
	for (size_t i = 0; i < ks.size(); i++) { CHECK(!cs[i]->open && cs[i]->closes == 1, "request %zu (%s) is not completed: %s", i, KN[ks[i]], sched_where().c_str()); CHECK(cs[i]->out == want[i], "request %zu (%s) next to others gets %s, alone %s", i, KN[ks[i]], Q(cs[i]->out), Q(want[i])); }
	if (sched_beyond()) return; mc_nontrivial(); mc_outcome(mc_hash(n, T));
}
static void pairs() { outputs = false; Kind a = (Kind)mc_choose(NKINDS, "first"), b = (Kind)mc_choose(NKINDS, "second"); go(2 + (mc_thorough() ? mc_choose(2, "workers") : 0), {a, b}, mc_choose(2, "arrival"), 1000); }
static void same() { outputs = false; Kind a = (Kind)mc_choose(NKINDS, "kind"); go(3, {a, a, a}, 1, 1000); }
static void lines() { outputs = true; Kind a = (Kind)mc_choose(NKINDS, "first"), b = (Kind)mc_choose(NKINDS, "second"); go(2, {a, b}, 1, 2000); }
static void triples() { outputs = false; Kind a = (Kind)mc_choose(NKINDS, "first"), b = (Kind)mc_choose(NKINDS, "second"), c = (Kind)mc_choose(NKINDS, "third"); go(2 + mc_choose(2, "workers"), {a, b, c}, 1, mc_thorough() ? 1000 : 0); }
static void all() { outputs = false; int T = 1 + mc_choose(4, "workers"), s = mc_choose(mc_thorough() ? NKINDS : 4, "start"); std::vector<Kind> ks; for (int i = 0; i < 9; i++) ks.push_back((Kind)((s + i * 5) % NKINDS)); go(T, ks, 1, 3000); }

int main(int c, char **v) { return mc_main(c, v, {
	{"pairs", pairs, 0, 1, "all pairs of 11 kinds of requests x 2 (2-3) workers x waiting or later arrival; every schedule with at most 1 (2) deviations"},
	{"same", same, 0, 1, "3 requests of one kind, 11 kinds, 3 workers; every schedule with at most 1 (2) deviations"},
	{"triples", triples, 0, 0, "all triples of 11 kinds x 2-3 workers (thorough: every schedule with at most 1 deviation)"},
	{"all", all, 0, 0, "9 requests, 4 (11) mixtures x 1-4 workers; every schedule with at most 1 deviation"},
	{"lines", lines, 0, 0, "all pairs of 11 kinds x 2 workers with every output call as a scheduling point; every schedule with at most 1 deviation"}}); }

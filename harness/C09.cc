// C09: form bodies decode to exactly the submitted pairs.
#include "http.h"
static int hexv(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static bool decode(const str &v, str &o) {
	o.clear();
	for (size_t i = 0; i < v.size(); i++) {
		if (v[i] == '+') o += ' ';
		else if (v[i] == '%') { if (i + 2 >= v.size() || hexv(v[i + 1]) < 0 || hexv(v[i + 2]) < 0) return false; o += (char)(hexv(v[i + 1]) * 16 + hexv(v[i + 2])); i += 2; }
		else o += v[i];
	}
	return true;
}
static std::map<str, str> reference(const str &b) {
	std::map<str, str> m; size_t p = 0;
	for (;;) {
		size_t e = b.find('&', p); str pair = b.substr(p, e == str::npos ? str::npos : e - p), d; size_t q = pair.find('=');
		if (q != str::npos && decode(pair.substr(q + 1), d)) m[pair.substr(0, q)] = d;
		if (e == str::npos) return m;
		p = e + 1;
	}
}
static void compare(void *form, const std::map<str, str> &want, const std::vector<str> &others) {
	CHECK(form, "no dictionary for the form body");
	for (auto &x : want) {
		Exact k(x.first); size_t n = 77777; char *v = (char *)sh_dict_get(form, k.p, k.n, &n); mc_step();
		CHECK(v || (x.second.empty() && n == 0), "key %s is not found", Q(x.first));
		CHECK(n == x.second.size(), "key %s has a value of %zu bytes, submitted %zu bytes %s", Q(x.first), n, x.second.size(), Q(x.second));
		if (v) CHECK(str(v, n) == x.second, "key %s has value %s, submitted %s", Q(x.first), Q(str(v, n)), Q(x.second));
	}
	for (auto &o : others) if (!want.count(o)) {
		Exact k(o); size_t n = 0; void *v = sh_dict_get(form, k.p, k.n, &n);
		CHECK(!v, "key %s was not submitted but a value of %zu bytes is found", Q(o), n);
	}
}
static void direct(const str &body, const std::vector<str> &others) {
	mc_note("form body of %zu bytes %s", body.size(), mc_quote(body, 300).c_str());
	auto want = reference(body);
	// Exactly as the server holds it: the bytes of the body followed by a terminator the length does not count
	str z = body + str(1, '\0'); void *r = sh_mkreq(z.data(), z.size()); sh_req v; sh_req_view(r, &v);
	size_t *bl = nullptr; (void)bl;
	sh_set_body_len(r, body.size());
	int rc = sh_parse_form(r); mc_step(); CHECK(rc == 0, "decoding the form failed"); mc_nontrivial();
	sh_req_view(r, &v); CHECK(v.body && v.body_len == body.size() && !memcmp(v.body, body.data(), body.size()), "the raw body changed: %s", v.body ? Q(str((const char *)v.body, v.body_len)) : "(gone)");
	compare(v.form, want, others); sh_freereq(r);
	uint64_t h = 1; for (auto &x : want) h = mc_hash(x.first + "=" + x.second, h); mc_outcome(h); mc_state(mc_hash(body));
}
static std::vector<str> parts(const str &b) { std::vector<str> o; for (size_t i = 0; i <= b.size(); i++) for (size_t n = 0; i + n <= b.size(); n++) o.push_back(b.substr(i, n)); std::sort(o.begin(), o.end()); o.erase(std::unique(o.begin(), o.end()), o.end()); return o; }
static void strings() {
	static const char A[] = "a=&%+20b"; int n = mc_choose(mc_thorough() ? 8 : 7, "length"); str b; for (int i = 0; i < n; i++) { b += A[mc_choose(8, "byte")]; if (i == 1) mc_shard(); } if (n < 2) mc_shard();
	direct(b, parts(b));
}
static void pairs() { // larger pairs
	static const std::vector<str> K = {"k", "kk", "", "k%20", "key", "k+"}, V = {"", "v", "v=w", "%00", "%41%", "a%00b", "%e4%B8", "x+y", "%zz", "="};
	int n = 1 + mc_choose(mc_thorough() ? 4 : 3, "pairs"); str b; for (int i = 0; i < n; i++) { if (i) b += "&"; int k = mc_choose(i < 3 ? K.size() + 1 : 3, "key"); if (k == (int)K.size()) b += "lonely"; else b += K[k] + "=" + V[mc_choose(i < 2 ? V.size() : 5, "value")]; if (i == 0) mc_shard(); }
	direct(b, {"", "k", "kk", "kkk", "k ", "k%20", "lonely", "key", "ke", "v", "w", "k+", "key="});
}
static void many() {
	int n = mc_choose(mc_thorough() ? 3000 : 700, "number of pairs"), rep = mc_choose(2, "repeated"); mc_shard(); str b; std::vector<str> o;
	for (int i = 0; i < n; i++) { b += (i ? "&" : "") + str("key") + num(i) + "=v" + num(i * 7) + "%20"; o.push_back("key" + num(i + n)); o.push_back("ke" + num(i)); }
	if (rep) for (int i = 0; i < n; i += 3) b += "&key" + num(i) + "=second" + num(i);
	direct(b, o);
}
static void lengths() {
	int n = mc_choose(mc_thorough() ? 5000 : 2000, "length"), kind = mc_choose(5, "kind"); mc_shard(); str b;
	if (kind == 0) b = str(n, 'k') + "=v"; else if (kind == 1) b = "k=" + str(n, 'v'); else if (kind == 2) { b = "k="; for (int i = 0; i < n; i++) b += "%ff"; } else if (kind == 3) b = "a=1&" + str(n, 'k') + "=" + str(n, '+') + "&b=2"; else b = "a=1&" + str(n, '&') + "b=%4&c=3";
	direct(b, {"", "k", "kk", "a=", "v", str(n + 1, 'k'), n ? str(n - 1, 'k') : "z", str(255, 'k'), str(256, 'k')});
}
static void same_hash() { // keys the dictionary cannot tell apart by their hashes
	static const std::vector<str> K = {"ylolxbiDZbi", "IwLwrAXvh4f", "JjTvmuXZSPap5ol2OEiErm", "key", "keyfoxKwCzm83d-ooAv-p0z_j"};
	int n = 1 + mc_choose(mc_thorough() ? 5 : 4, "pairs"); str b; for (int i = 0; i < n; i++) { b += i ? "&" : ""; b += K[mc_choose(K.size(), "key")] + "=" + (mc_choose(2, "value") ? str(1, 'a' + i) : str(20, 'A' + i)); if (i == 0) mc_shard(); }
	std::vector<str> o = K; o.push_back("ke"); o.push_back("keyf"); direct(b, o);
}
static void served() { // through a request: the handler gets both
	static const std::vector<str> B = {"a=1", "a=1&b=2", "a=%00x", "", "a", "a=&b=%zz&c=+", "a=1&a=2", "x=%25%26"};
	static const char *T[] = {"application/x-www-form-urlencoded", "application/x-www-form-urlencoded; charset=utf-8", "application/x-www-form-urlencoded;q"};
	const str &b = B[mc_choose(B.size(), "body")]; const char *t = T[mc_choose(3, "type")]; int cut = mc_choose(b.size() + 1, "cut"); mc_shard();
	App app({{"POST", "p", "^/", 0, H[0], C[0]}}); mc_note("%s: %s", t, Q(b));
	on_handle = [&](int, const void *q, void *resp, const Seen &s) { sh_req v; sh_req_view(q, &v); CHECK(s.body == b, "the handler's raw body is %s", Q(s.body)); compare(v.form, reference(b), parts(b)); return reply(resp, "ok"); };
	on_clean = [&](int, int, void *r) { env_free(sh_resp_out(r)); };
	str head = str("POST /f HTTP/1.1\r\nContent-Type: ") + t + "\r\nContent-Length: " + num(b.size()) + "\r\n\r\n";
	Conn *c = env_conn(head + b); if (cut) c->cuts = {head.size() + cut - 1}; Reply r = serve(app, c); CHECK(r.answered && seen.size() == 1, "the form was not handled"); mc_nontrivial(); mc_state(mc_hash(c->in)); mc_outcome(mc_hash(b));
}
static void bytes() { // every one and two bytes in keys and values, and around a single pair
	int k = mc_choose(6, "place"), a = 1 + mc_choose(255, "byte"); mc_shard(); for (int b = 0; b < 256; b++) { str s(1, (char)a); if (b) s += (char)b; str body = k == 0 ? s + "=v" : k == 1 ? "k=" + s : k == 2 ? s + "k=v" + s : k == 3 ? "a=1&k" + s + "=x" + s + "y&b=2" : k == 4 ? "a=1&" + s + "&b=2" : "k" + s + "k=%2" + s; direct(body, {"", "k", "kk", "a", "b", s, s + "k", "k" + s, "v", str(1, (char)a)}); }
}
static void large() { // more and longer than any small number
	static const int N[] = {8191, 8192, 8193, 16384, 32767, 32768, 65534, 65535, 65536, 65537, 100000, 262144, 1000000}; int n = N[mc_choose(13, "length")], kind = mc_choose(5, "kind"); mc_shard(); str b; std::vector<str> o{"", "k", "kk", "v"};
	if (kind == 0) b = "a=1&k=" + str(n, 'v') + "&b=2"; else if (kind == 1) b = "a=1&" + str(n, 'k') + "=v&b=2"; else if (kind == 2) { b = "k="; for (int i = 0; i < n / 3; i++) b += "%e4"; } else if (kind == 3) b = "a=1&" + str(n, '&') + "b=2"; else { if (n > 20000) n = n / 20; for (int i = 0; i < n; i++) b += (i ? "&k" : "k") + num(i) + "=" + num(i); } direct(b, o);
}
int main(int c, char **v) { return mc_main(c, v, {
	{"bytes", bytes, 0, 0, "every one and two bytes at 6 places of a form"}, {"large", large, 0, 0, "13 lengths up to 1 MB of values, keys, escapes, separators, and up to 50000 pairs"},
	{"strings", strings, 0, 0, "every body up to 6 (thorough 7) bytes over a b 2 0 = & % +, looking up every substring"},
	{"pairs", pairs, 0, 0, "up to 3 (4) pairs over 7 keys and 10 values"}, {"many", many, 0, 0, "0..699 (2999) pairs, with and without repeated keys"},
	{"lengths", lengths, 0, 0, "key, value and escape lengths up to 1999 (4999)"}, {"samehash", same_hash, 0, 0, "up to 4 (5) pairs over 5 keys with equal 64-bit hashes (in groups) and 2 values"}, {"served", served, 0, 0, "8 bodies x 3 content types x cuts through the server"}}); }

// C08: header lookup.
#include "http.h"
struct Line { str text, name, value; };
static void look(const std::vector<Line> &L, const str &reqline, const str &after, const str &name, int mode) {
	str head = reqline; for (auto &l : L) head += l.text + "\r\n"; head += "\r\n"; str all = head + after;
	const str *want = nullptr; for (auto &l : L) if (l.name == name) { want = &l.value; break; }
	mc_note("look up %s in %s", Q(name), Q(all)); mc_step(); mc_nontrivial();
	Exact e(all), k(name, true); char *r = sh_header_raw(e.p, mode ? head.size() : all.size(), k.p);
	if (!want) CHECK(!r, "no field is named %s but the lookup returns %s", Q(name), Q(str(r)));
	else { CHECK(r, "field %s is not found", Q(name)); CHECK(*want == r, "field %s has value %s but the lookup returns %s", Q(name), Q(*want), Q(str(r))); }
	env_free(r); mc_state(mc_hash(all + name)); mc_outcome(mc_hash(want ? *want : str("\1")));
}
static const char *NM[] = {"Range", "If-Range", "Accept-Ranges", "Rang", "X", "Content-Length"};
static const char *VL[] = {"v", "", "Range", "Range: bytes=1-2", "a: b, c", "Content-Length: 12", "0123456789 end"};
static void blocks() {
	static const char *RL[] = {"GET / HTTP/1.1\r\n", "GET /Range:x?Range:%20y HTTP/1.1\r\n", "Range: / HTTP/1.1\r\n"};
	int n = mc_choose(4, "fields"); std::vector<Line> L; for (int i = 0; i < n; i++) { Line l; l.name = NM[mc_choose(i == 2 ? 4 : 6, "name")]; l.value = VL[mc_choose(i == 2 ? 4 : 7, "value")]; l.text = l.name + (mc_choose(i == 2 ? 1 : 2, "separator") ? ":" : ": ") + l.value; L.push_back(l); if (i == 0) mc_shard(); }
	if (!n) mc_shard();
	str rl = RL[mc_choose(n > 2 ? 1 : 3, "request line")]; str after = mc_choose(2, "body") ? "Range: inbody\r\nX: inbody\r\n\r\n" : "";
	for (const char *nm : {"Range", "X", "Content-Length"}) { look(L, rl, after, nm, 0); look(L, rl, after, nm, 1); }
}
static void limits() { // every limit inside a block, in a buffer of exactly that size
	static const char *S[] = {"GET / HTTP/1.1\r\nRange: bytes=0-5\r\nX: y\r\n\r\n", "GET / HTTP/1.1\r\nX: Range\r\nIf-Range: z\r\n\r\n", "GET / HTTP/1.1\r\nX:\r\nRange:abc\r\nRange: second\r\n\r\n", "X\r\nRange\r\n\r\n", "", "\r\n", "Range: a"};
	static const char *W[] = {"bytes=0-5", "", "abc", "", "", "", ""}; int i = mc_choose(7, "block"); str s = S[i]; size_t n = mc_choose(s.size() + 1, "limit"); mc_shard();
	Exact e(s.substr(0, n)), k("Range", true); mc_note("look up Range in the first %zu bytes of %s", n, Q(s)); mc_nontrivial(); mc_step(); char *r = sh_header_raw(e.p, n, k.p);
	str w = W[i]; size_t at = w.empty() ? str::npos : s.find(w), end = at == str::npos ? 0 : at + w.size() + 2;
	if (w.empty()) CHECK(!r, "found %s though no field has that name", Q(str(r)));
	else if (n >= end) CHECK(r && w == r, "returned %s, expected %s", r ? Q(str(r)) : "nothing", Q(w));
	else if (r) CHECK(w.compare(0, strlen(r), r) == 0 && strlen(r) <= w.size(), "returned %s from a cut field with value %s", Q(str(r)), Q(w));
	env_free(r); mc_state(n * 8 + i); mc_outcome(mc_hash(num(i) + num(n >= end)));
}
static void letters() { // every spelling of a short name, of which exactly one is asked for
	static const char *B[] = {"ab", "a-c", "eTag", "X-Id"}; const char *b = B[mc_choose(4, "name")]; str n = b, k = b; for (auto *s : {&n, &k}) for (auto &c : *s) if (isalpha((unsigned char)c)) c = mc_choose(2, "case") ? toupper(c) : tolower(c); int third = mc_choose(3, "others"); mc_shard();
	std::vector<Line> L; if (third == 1) L.push_back({k + "x: no", k + "x", "no"}); L.push_back({n + ": value", n, "value"}); if (third == 2) L.push_back({k + ": later", k, "later"}); look(L, "GET / HTTP/1.1\r\n", "", k, 0);
}
static void lengths() { // long names and values
	int n = mc_choose(2200, "length"), k = mc_choose(3, "kind"); mc_shard(); Line a{"", k == 1 ? str(n + 1, 'N') : "X", k == 0 ? str(n, 'v') : "val"}; a.text = a.name + ": " + a.value; Line p{"Pad: " + str(k == 2 ? n : 3, 'X'), "Pad", str(k == 2 ? n : 3, 'X')};
	if (k == 2 && n) { Line z{"Pad: " + str(n, '\0'), "Pad", "" }; look({z, a}, "GET / HTTP/1.1\r\n", "", a.name, 0); }
	look({p, a}, "GET / HTTP/1.1\r\n", "", a.name, 0); look({p, a}, "GET / HTTP/1.1\r\n", "", a.name + "x", 0);
}
static void crowd() { // blocks of any number of fields, of any size
	static const int N[] = {3, 7, 8, 15, 16, 31, 32, 33, 49, 50, 51, 63, 64, 65, 99, 100, 101, 102, 127, 128, 129, 199, 200, 255, 256, 257, 400, 500, 511, 512, 513, 999, 1000, 1001, 1024, 2000, 4097}; int n = N[mc_choose(37, "fields")], at = mc_choose(3, "place"), kind = mc_choose(3, "others"); mc_shard(); std::vector<Line> L; for (int i = 0; i < n; i++) { Line l; l.name = kind == 0 ? "X" + num(i) : kind == 1 ? "Rang" : "Range" + num(i); l.value = kind == 1 ? "" : "Range: " + num(i); l.text = l.name + ": " + l.value; L.push_back(l); }
	Line w{"Range: wanted", "Range", "wanted"}; L.insert(L.begin() + (at == 0 ? n : at == 1 ? n - 1 : n / 2), w); look(L, "GET / HTTP/1.1\r\n", "", "Range", 1); L.push_back({"Range: second", "Range", "second"}); look(L, "GET / HTTP/1.1\r\n", "", "Range", 0); look(L, "GET / HTTP/1.1\r\n", "", "Absent", 0);
}
static void large() { // long values, in front of the wanted field and in it
	static const int Z[] = {2999, 3000, 3999, 4000, 4001, 4095, 4096, 4097, 8000, 8190, 8191, 8192, 8193, 10000, 16383, 16384, 16385, 32767, 32768, 65534, 65535, 65536, 65537, 100000, 1000000}; int n = Z[mc_choose(25, "length")] + mc_choose(3, "and") - 1, k = mc_choose(3, "which"); mc_shard(); Line a{"", "Range", k == 0 ? str(n, 'v') : "val"}, p{"", k == 1 ? str(n, 'N') : "Pad", k == 2 ? str(n, 'p') : "p"}; a.text = a.name + ": " + a.value; p.text = p.name + ": " + p.value; look({p, a}, "GET / HTTP/1.1\r\n", "", "Range", 0); look({a, p}, "GET / HTTP/1.1\r\n", "", p.name, 1);
}
static void handler() { // through a request, as a handler sees it
	int i = mc_choose(6, "name"), v = mc_choose(7, "value"), j = mc_choose(6, "other"); mc_shard(); App app({{"GET", "g", "^", 0, H[0], C[0]}}); str nm = NM[i], val = VL[v]; if (nm == "Content-Length" || str(NM[j]) == nm || str(NM[j]) == "Content-Length") mc_skip();
	static const str PRE[] = {"", str("Nul: a\0b\r\n", 10), str("\0: x\r\n", 6), "Hi: \xff\r\n"}; int pre = mc_choose(4, "before"); str got; bool found = false; on_handle = [&](int, const void *q, void *resp, const Seen &) { char *x = sh_header_req(q, nm.c_str()); if (x) { got = x; found = true; } env_free(x); x = sh_header_req(q, "Absent"); CHECK(!x, "an absent field was found"); return reply(resp, "ok", 404); };
	on_clean = [&](int, int, void *r) { env_free(sh_resp_out(r)); }; Conn *c = env_conn(str("GET / HTTP/1.1\r\n") + PRE[pre] + NM[j] + ": " + nm + ": no\r\n" + nm + ": " + val + "\r\n\r\n"); mc_note("%s", Q(c->in)); serve(app, c); mc_nontrivial();
	CHECK(found && got == val, "the handler's lookup of %s gives %s, sent %s", Q(nm), found ? Q(got) : "nothing", Q(val)); mc_outcome(mc_hash(nm + val)); mc_state(mc_hash(nm + val + NM[j], pre));
}
static void bytes() { // values of all bytes, names of all the bytes names can have
	static const char TK[] = "!#$%&'*+-.^_`|~0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"; int k = mc_choose(2, "kind"); if (k == 0) { int a = 1 + mc_choose(255, "byte"); mc_shard(); if (a == '\r' || a == '\n') mc_skip(); for (int b = 0; b < 256; b++) { if (b == '\r' || b == '\n') continue; str v = str(1, (char)a); if (b) v += (char)b; if (a == ' ' || a == '\t') v = "v" + v; look({{"Pad: p", "Pad", "p"}, {"X: " + v, "X", v}, {"X: other", "X", "other"}}, "GET / HTTP/1.1\r\n", "", "X", b % 2); if (a != ' ' && a != '\t') look({{"Pad:" + v, "Pad", v}, {"X:" + v + "v", "X", v + "v"}}, "GET / HTTP/1.1\r\n", "", "X", 0); } return; }
	str a = str(1, TK[mc_choose(77, "byte")]); int where = mc_choose(3, "place"); mc_shard(); auto nm = [&](const str &x) { return where == 0 ? x + "n" : where == 1 ? "n" + x : x; }; for (int b = 0; b < 77; b++) { str n = nm(a), o = nm(str(1, TK[b])); if (n == o) continue; look({{o + ": no", o, "no"}, {n + ": value", n, "value"}}, "GET / HTTP/1.1\r\n", "", n, 0); look({{o + ": no", o, "no"}}, "GET / HTTP/1.1\r\n", n + ": body\r\n", n, 1); }
}
int main(int c, char **v) { return mc_main(c, v, {{"bytes", bytes, 0, 0, "values of every one and two bytes (but CR, LF, NUL), names with every pair of name characters at the same place"}, {"crowd", crowd, 0, 0, "37 numbers of fields up to 4097 x 3 places x 3 kinds of other fields"}, {"large", large, 0, 0, "75 lengths up to 1 MB of the value, another value or another name"}, {"letters", letters, 0, 0, "4 names in every spelling x every spelling looked up x other fields"}, {"blocks", blocks, 0, 0, "all header blocks of up to 3 fields over 6 names (containing one another) and 7 values (containing names), 3 request lines, with and without header-like body text, 3 looked-up names"}, {"limits", limits, 0, 0, "7 blocks cut at every length, in buffers of exactly that size"}, {"lengths", lengths, 0, 0, "name, value and padding lengths up to 2199"}, {"handler", handler, 0, 0, "lookups through a served request"}}); }

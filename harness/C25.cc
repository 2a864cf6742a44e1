// C25: the dictionary is a map, against std::map after every operation.
#include "h.h"
static uint64_t fnv(const str &k) { uint64_t h = 14695981039346656037ULL; for (char c : k) { h ^= (unsigned char)c; h *= 1099511628211ULL; } return h; }
static std::vector<str> colliding(unsigned bits, size_t want, const str &pre) { // keys whose hashes agree in the low bits
	std::vector<str> r; uint64_t m = (1u << bits) - 1, t = fnv(pre + "0") & m;
	for (long i = 0; r.size() < want; i++) { str k = pre + num(i); if ((fnv(k) & m) == t) r.push_back(k); }
	return r;
}
typedef std::map<str, str> Model;
static void check_all(void *d, const Model &m, const std::vector<str> &absent, const char *when) {
	uint64_t h = 1;
	for (auto &kv : m) {
		Exact k(kv.first); size_t n = 77777;
		const char *v = (const char *)sh_dict_get(d, k.p, kv.first.size(), &n);
		CHECK(v, "%s: key %s (length %zu) was stored but is not found; %zu entries", when, Q(kv.first), kv.first.size(), m.size());
		CHECK(n == kv.second.size() && memcmp(v, kv.second.data(), n) == 0, "%s: key %s returns %s, stored %s", when, Q(kv.first), Q(str(v, n < 600 ? n : 600)), Q(kv.second));
	}
	for (auto &a : absent) if (!m.count(a)) {
		Exact k(a); size_t n = 5; CHECK(!sh_dict_get(d, k.p, a.size(), &n), "%s: key %s was never stored but is found", when, Q(a));
	}
	h = mc_hash(str(when), m.size()); for (auto &kv : m) h = mc_hash(kv.first + "=" + kv.second, h);
	mc_state(h);
}
static void put(void *d, Model &m, const str &k, const str &v) {
	Exact ek(k), evv(v);
	int r = sh_dict_set(d, ek.p, k.size(), evv.p, v.size()); mc_step();
	CHECK(r == 1, "storing key %s (length %zu) as entry %zu failed", Q(k), k.size(), m.size() + 1);
	m[k] = v;
}
static const std::vector<str> &alpha() {
	static std::vector<str> a;
	if (a.empty()) {
		a = colliding(10, 3, "c"); a.push_back(""); a.push_back("a"); a.push_back(str("a\0b", 3)); a.push_back(str(256, 'k'));
		a.push_back(str(255, 'k')); a.push_back("\xff\x80");
	}
	return a;
}
static void sequences() {
	static const int prefill[] = {0, 23, 24, 25, 50, 51, 101};
	int pf = mc_choose(mc_thorough() ? 7 : 4, "prefilled entries"); int depth = mc_thorough() ? 5 : 4;
	const auto &A = alpha(); std::vector<std::pair<int, int>> ops;
	for (int i = 0; i < depth; i++) { int k = mc_choose(A.size(), "key"), v = mc_choose(2, "value"); ops.push_back({k, v}); if (i == 2) mc_shard(); }
	void *d = sh_dict(); Model m; mc_nontrivial();
	for (int i = 0; i < prefill[pf]; i++) put(d, m, "fill" + num(i), "f" + num(i));
	str desc = num(prefill[pf]) + " entries, then";
	for (auto &o : ops) desc += " set(" + mc_quote(A[o.first], 12) + "," + (o.second ? "long" : "short") + ")";
	mc_note("%s", desc.c_str());
	for (size_t i = 0; i < ops.size(); i++) {
		put(d, m, A[ops[i].first], ops[i].second ? str(100, 'A' + i) : str(1, 'a' + i));
		check_all(d, m, A, "after a store");
	}
	mc_outcome(mc_hash(desc));
	sh_dict_free(d);
}
static void population() {
	int fam = mc_choose(7, "key family"); int n = mc_choose(mc_thorough() ? 1300 : 460, "entries"); int over = mc_choose(3, "overwrite"); mc_shard();
	static std::vector<str> col, col2; if (col.empty()) { col = colliding(5, 1400, "x"); col2 = colliding(8, 1400, "y"); }
	auto key = [&](int i) -> str {
		switch (fam) {
		case 0: return num(i); case 1: return "key-" + num(i * 7919); case 2: return col[i]; case 3: return col2[i];
		case 4: return str(i, 'p'); case 5: return str(250 + i % 9, 'q') + num(i); default: return str(i % 40, '\xc3') + num(i);
		}
	};
	mc_note("family %d: %d keys, overwrite mode %d", fam, n, over); mc_nontrivial();
	void *d = sh_dict(); Model m;
	for (int i = 0; i < n; i++) { put(d, m, key(i), "v" + num(i)); if (over == 1 && i % 3 == 0) put(d, m, key(i / 2), str(i % 50, 'w')); }
	if (over == 2) for (int i = 0; i < n; i += 2) put(d, m, key(i), "again" + num(i));
	std::vector<str> ab; for (int i = n; i < n + 20; i++) ab.push_back(key(i));
	check_all(d, m, ab, "at the end"); mc_outcome(mc_hash(num(fam) + "/" + num(n)));
	sh_dict_free(d);
}
// Keys whose 64-bit hashes agree: of one length, with a common start up to a NUL byte, extensions of one another (by NUL bytes, by text).
static void same_hash_of(const std::vector<str> &K);
static const str Z = "JjTvmuXZSPap5ol2OEiErm";
static void same_hash() {
	static const std::vector<str> K = {"ylolxbiDZbi", "IwLwrAXvh4f", str("a\0b-PNMeDiPmn", 13), str("a\0wkaNrQvK4th", 13), Z, Z + str(1, '\0'), Z + str(2, '\0'), "key", "keyfoxKwCzm83d-ooAv-p0z_j"}; same_hash_of(K);
}
static void same_hash_long() { // long ones, that differ at their ends or at their beginnings only
	static const std::vector<str> K = {str(300, 'k') + "QAMi3UlucQJ", str(300, 'k') + "j1OdC64q1nJ", "ylolxbiDZbi" + str(300, 's'), "IwLwrAXvh4f" + str(300, 's'), "key"}; same_hash_of(K);
}
static void same_hash_of(const std::vector<str> &K) {
	static const int prefill[] = {0, 24, 50}; int pf = mc_choose(3, "prefilled entries"), depth = mc_thorough() ? 5 : 4;
	std::vector<std::pair<int, int>> ops; for (int i = 0; i < depth; i++) { int k = mc_choose(K.size(), "key"), v = mc_choose(2, "value"); ops.push_back({k, v}); if (i == 2) mc_shard(); }
	str desc = num(prefill[pf]) + " entries, then"; for (auto &o : ops) desc += " set(" + mc_quote(K[o.first], 30) + ")"; mc_note("%s", desc.c_str()); mc_nontrivial();
	void *d = sh_dict(); Model m; std::vector<str> ab = K; ab.push_back(str("a\0", 2)); ab.push_back(Z + "x"); ab.push_back(Z.substr(1)); ab.push_back("ke");
	for (int i = 0; i < prefill[pf]; i++) put(d, m, "fill" + num(i), "f" + num(i));
	for (size_t i = 0; i < ops.size(); i++) { put(d, m, K[ops[i].first], ops[i].second ? str(100, 'A' + i) : str(1, 'a' + i)); check_all(d, m, ab, "after a store"); }
	mc_outcome(mc_hash(desc)); sh_dict_free(d);
}
static void overwriting() { // every length of value over every other, and back
	static const int L[] = {0, 1, 2, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 255, 256, 257, 1000, 5000}; int a = mc_choose(22, "first"), b = mc_choose(22, "second"), c = mc_choose(mc_thorough() ? 22 : 8, "third"), pf = mc_choose(3, "prefilled entries"), k = mc_choose(3, "key"); mc_shard(); if (!mc_thorough()) c = c * 3; static const int PF[] = {0, 24, 60}; static const char *K[] = {"key", "", "other"}; mc_nontrivial(); mc_note("values of %d, %d and %d bytes", L[a], L[b], L[c]);
	void *d = sh_dict(); Model m; for (int i = 0; i < PF[pf]; i++) put(d, m, "fill" + num(i), "f" + num(i)); std::vector<str> ab = {"ke", "keys"}; int s = 0; for (int x : {a, b, c}) { put(d, m, K[k], str(L[x], 'a' + s++)); check_all(d, m, ab, "after a store"); } mc_outcome(a * 500 + b * 22 + c); sh_dict_free(d);
}
static void large() { // many thousand entries: every growth, and far beyond 16 bits
	static const int N[] = {5000, 20000, 45000, 66000, 100000}; int n = N[mc_choose(mc_thorough() ? 5 : 4, "entries")], fam = mc_choose(2, "key family"); mc_shard(); mc_note("%d entries", n); mc_nontrivial(); void *d = sh_dict(); auto key = [&](int i) { return fam ? "/static/" + num(i * 2654435761u) : num(i); };
	for (int i = 0; i < n; i++) { str k = key(i), v = num(i); CHECK(sh_dict_set(d, k.data(), k.size(), v.data(), v.size()) == 1, "storing entry %d failed", i); if (i % 64 == 0) mc_step(); } for (int i = 0; i < n + 100; i++) { str k = key(i); size_t s = 0; const char *v = (const char *)sh_dict_get(d, k.data(), k.size(), &s); CHECK(i < n ? v && str(v, s) == num(i) : !v, "entry %d of %d is %s", i, n, v ? Q(str(v, s)) : "missing"); } mc_outcome(n); mc_state(n); sh_dict_free(d);
}
int main(int c, char **v) {
	return mc_main(c, v, {{"large", large, 0, 0, "tables of 5000 to 66000 (100000) entries of 2 key families, every one looked up"}, {"overwriting", overwriting, 0, 0, "all triples of value lengths from 22 (third of 8) up to 5000 stored under one key, in tables of 3 sizes"}, {"sequences", sequences, 0, 0, "all sequences of 4 (thorough 5) stores over 9 keys (colliding, empty, with NUL, 255/256 bytes, non-ASCII) and 2 values, into tables prefilled up to the growth points; every key looked up after every store"},
	                      {"population", population, 0, 0, "every table size up to 459 (thorough 1299) for 7 key families incl. fully colliding hashes and lengths 0..1299, with overwrites"},
	                      {"samehashlong", same_hash_long, 0, 0, "the same over 5 keys of 311 bytes whose full hashes agree in pairs and that differ in their last or first 11 bytes only"},
	                      {"samehash", same_hash, 0, 0, "all sequences of 4 (thorough 5) stores over 9 keys whose full 64-bit hashes agree (in groups; equal lengths, common start up to a NUL byte, extensions by NUL bytes and by text) and 2 values, into tables with 0, 24 or 50 entries"}});
}

// C26: the sparse array is a bounded array.
#include "h.h"
static void body() {
	static const size_t ES[] = {1, 8, 20}; static const uint32_t MX[] = {1, 2, 32, 47, 48, 49, 96, 97, 200};
	size_t es = ES[mc_choose(3, "element size")]; uint32_t mx = MX[mc_choose(9, "maximum")];
	std::vector<uint32_t> idx;
	for (uint32_t i : {0u, 1u, 15u, 30u, 31u, 32u, 33u, 46u, 47u, 48u, 49u, 63u, 64u, 95u, 96u}) if (i < mx) idx.push_back(i);
	if (std::find(idx.begin(), idx.end(), mx - 1) == idx.end()) idx.push_back(mx - 1);
	idx.push_back(mx); idx.push_back(mx + 1); idx.push_back(mx * 2); idx.push_back(mx + 48); idx.push_back(0xffffffffu);
	int depth = mc_thorough() ? 4 : 3; std::vector<std::pair<uint32_t, size_t>> ops;
	for (int i = 0; i < depth; i++) {
		uint32_t x = idx[mc_choose(idx.size(), "index")]; size_t L[] = {es, 1, es + 1};
		size_t l = L[mc_choose(es == 1 ? 1 : 2, "length")]; if (i == 1 && mc_choose(2, "oversized")) l = es + 1;
		ops.push_back({x, l}); if (i == 1) mc_shard();
	}
	mc_nontrivial(); str desc = "element " + num(es) + " maximum " + num(mx) + ":"; for (auto &o : ops) desc += " set(" + num(o.first) + ",len " + num(o.second) + ")"; mc_note("%s", desc.c_str());
	void *a = sh_arr(es, mx); CHECK(a, "init failed"); std::map<uint32_t, str> m;
	for (size_t i = 0; i < ops.size(); i++) {
		str v; for (size_t k = 0; k < ops[i].second; k++) v += (char)('A' + i * 7 + k); Exact e(v);
		int r = sh_arr_set(a, ops[i].first, e.p, v.size()); mc_step();
		bool ok = ops[i].first < mx && v.size() <= es;
		CHECK(!!r == ok, "store of %zu bytes at index %u of an array with maximum %u, element size %zu %s", v.size(), ops[i].first, mx, es, r ? "was accepted" : "was refused");
		if (ok) m[ops[i].first] = v;
		for (uint32_t j = 0; j < mx + 60; j++) {
			size_t n = 999; const char *p = (const char *)sh_arr_get(a, j, &n); auto it = m.find(j);
			if (it == m.end()) CHECK(!p, "index %u reads as a value though nothing was stored there", j);
			else CHECK(p && n == it->second.size() && !memcmp(p, it->second.data(), n), "index %u does not read back what was stored", j);
		}
		CHECK(!sh_arr_get(a, 0xffffffffu, nullptr), "index 4294967295 reads as a value");
		uint64_t h = mc_hash(desc.substr(0, 20)); for (auto &x : m) h = mc_hash(x.second, h * 31 + x.first); mc_state(h);
	}
	mc_outcome(mc_hash(desc)); sh_arr_free(a);
}
static void fill() { // whole groups in different orders
	uint32_t mx = 1 + mc_choose(mc_thorough() ? 150 : 100, "maximum"); int order = mc_choose(5, "order"); mc_shard(); mc_nontrivial();
	void *a = sh_arr(4, mx); std::map<uint32_t, uint32_t> m; mc_note("maximum %u order %d", mx, order);
	for (uint32_t i = 0; i < mx; i++) {
		uint32_t j = order == 0 ? i : order == 1 ? mx - 1 - i : order == 2 ? (i % 2 ? mx - 1 - i / 2 : i / 2) : order == 3 ? (i * 37) % mx : (i * 11 + 5) % mx;
		uint32_t v = j * 2654435761u; CHECK(sh_arr_set(a, j, &v, 4), "store at %u refused", j); m[j] = v; mc_step();
	}
	for (uint32_t j = 0; j < mx + 5; j++) { size_t n; const void *p = sh_arr_get(a, j, &n); CHECK(!!p == !!m.count(j) && (!p || (n == 4 && !memcmp(p, &m[j], 4))), "index %u wrong after filling", j); }
	mc_outcome(mx * 8 + order); mc_state(mx * 8 + order); sh_arr_free(a);
}
static void large() { // large elements: every order of storing moves many bytes
	static const size_t ES[] = {255, 256, 257, 1000, 1365, 1400, 4096, 65535, 65536, 70000}; size_t es = ES[mc_choose(10, "element size")]; uint32_t mx = mc_choose(2, "maximum") ? 50 : 110; int order = mc_choose(3, "order"), len = mc_choose(3, "length"); mc_shard(); mc_nontrivial(); mc_note("elements of %zu bytes, maximum %u order %d", es, mx, order); void *a = sh_arr(es, mx); CHECK(a, "init failed"); std::map<uint32_t, str> m;
	for (uint32_t i = 0; i < mx; i++) { uint32_t j = order == 0 ? mx - 1 - i : order == 1 ? (i % 2 ? mx - 1 - i / 2 : i / 2) : (i * 37) % mx; str v(len == 0 ? es : len == 1 ? es - 1 : i % 5 ? es : 1, 0); for (size_t k = 0; k < v.size(); k++) v[k] = (char)(j * 31 + k * 7 + (k >> 8)); Exact e(v); CHECK(sh_arr_set(a, j, e.p, v.size()), "store at %u refused", j); m[j] = v; mc_step(); if (i % 8 == 7 || i + 1 == mx) for (uint32_t x = 0; x < mx; x++) { size_t n = 0; const void *p = sh_arr_get(a, x, &n); auto it = m.find(x); CHECK(!!p == (it != m.end()) && (!p || (n == it->second.size() && !memcmp(p, it->second.data(), n))), "index %u wrong", x); } }
	str big(es + 1, 'x'); CHECK(!sh_arr_set(a, 0, big.data(), big.size()), "an oversized store was accepted"); mc_outcome(es * 100 + order * 10 + len); mc_state(es * 1000 + mx * 10 + order * 3 + len); sh_arr_free(a);
}
static void wide() { // arrays of any maximum: stores at every boundary, in both orders
	static const uint32_t MX[] = {255, 256, 257, 1024, 4096, 32767, 32768, 32769, 65535, 65536, 65537, 70000, 131072, 200000, 1000000}; uint32_t mx = MX[mc_choose(15, "maximum")]; int order = mc_choose(2, "order"), es = mc_choose(2, "element size") ? 24 : 4; mc_shard(); mc_nontrivial(); mc_note("maximum %u order %d", mx, order); void *a = sh_arr(es, mx); CHECK(a, "init failed"); std::vector<uint32_t> ix; for (uint64_t b = 1; b < 2 * (uint64_t)mx; b *= 2) for (int d = -2; d <= 2; d++) for (uint64_t x : {b + d, (uint64_t)mx - b + d, b * 48 + d, b + 65536 + d}) if (x < mx) ix.push_back(x); std::sort(ix.begin(), ix.end()); ix.erase(std::unique(ix.begin(), ix.end()), ix.end()); if (order) std::reverse(ix.begin(), ix.end());
	std::map<uint32_t, str> m; for (uint32_t i : ix) { str v(es, 0); for (int k = 0; k < es; k++) v[k] = (char)((i * 2654435761u >> (k % 24)) + k); Exact e(v); CHECK(sh_arr_set(a, i, e.p, es), "store at %u refused", i); m[i] = v; mc_step(); } CHECK(!sh_arr_set(a, mx, m.begin()->second.data(), es), "store at the maximum accepted");
	for (uint32_t j = 0; j < mx + 5; j++) { size_t n = 9999; const void *p = sh_arr_get(a, j, &n); auto it = m.find(j); CHECK(!!p == (it != m.end()) && (!p || (n == (size_t)es && !memcmp(p, it->second.data(), es))), "index %u wrong", j); } mc_outcome(mx * 4 + order); mc_state(mx * 100 + order * 50 + es); sh_arr_free(a);
}
int main(int c, char **v) { return mc_main(c, v, {{"stores", body, 0, 0, "all sequences of 3 (thorough 4) stores at boundary indices (group, word and maximum boundaries) with 3 element sizes, 9 maxima, short/full/oversized values; every index read after every store"}, {"large", large, 0, 0, "10 element sizes from 255 to 70000 bytes x 2 maxima x 3 orders x 3 kinds of lengths, filled completely, read after every eighth store"}, {"wide", wide, 0, 0, "15 maxima up to a million, stores around every power of two from both ends, in both orders, 2 element sizes; every index read"}, {"fill", fill, 0, 0, "all maxima up to 100 (150), filled in 5 orders"}}); }

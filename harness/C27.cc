// C27: the vector is a list.
#include "h.h"
static int target;
static void body() {
	static const size_t IS[] = {8, 1, 4, 33}; size_t is = IS[mc_choose(4, "item size")]; size_t cap = mc_choose(6, "initial capacity");
	int depth = mc_thorough() ? 8 : 6; std::vector<int> ops; int nop = is == 8 ? 8 : 6;
	for (int i = 0; i < depth; i++) { ops.push_back(mc_choose(nop, "operation")); if (i == 2) mc_shard(); }
	static const char *N[] = {"append", "append-short", "append-empty", "reverse", "append-too-large", "append-without-memory", "append-pointer", "append-pointer-without-memory"};
	str desc = "items of " + num(is) + ", capacity " + num(cap) + ":"; for (int o : ops) { desc += " "; desc += N[o]; } mc_note("%s", desc.c_str()); mc_nontrivial();
	void *v = sh_vec(is, cap); CHECK(v, "vector_new failed"); std::vector<str> m; std::vector<size_t> full;
	for (size_t i = 0; i < ops.size(); i++) {
		str it; int r; mc_step();
		switch (ops[i]) {
		case 0: case 5: {
			for (size_t k = 0; k < is; k++) it += (char)('a' + (i * 5 + k) % 26); Exact e(it);
			if (ops[i] == 5) env_fail_alloc(1);
			r = sh_vec_append(v, e.p, is); bool failed = env_alloc_failed; env_fail_alloc(0);
			if (failed) CHECK(r != 1, "an append reported success though there was no memory"); else { CHECK(r == 1, "append failed"); m.push_back(it); }
			break; }
		case 1: { size_t n = is / 2; for (size_t k = 0; k < n; k++) it += (char)('A' + (i * 3 + k) % 26); Exact e(it); r = sh_vec_append(v, e.p, n); CHECK(r == 1, "short append failed"); m.push_back(n ? it : str(is, '\0')); break; }
		case 2: r = sh_vec_append(v, nullptr, 0); CHECK(r == 1, "empty append failed"); m.push_back(str(is, '\0')); break;
		case 3: r = sh_vec_reverse(v); CHECK(r == 1, "reverse failed"); std::reverse(m.begin(), m.end()); break;
		case 4: { Exact e(str(is + 1, 'X')); r = sh_vec_append(v, e.p, is + 1); CHECK(r != 1, "an item larger than the item size was accepted"); break; }
		case 7: { const void *p = (char *)&target + i; env_fail_alloc(1); r = sh_vec_append_ptr(v, p); bool failed = env_alloc_failed; env_fail_alloc(0); if (failed) CHECK(r != 1, "an append reported success though there was no memory"); else { CHECK(r == 1, "pointer append failed"); m.push_back(str((char *)&p, 8)); } break; }
		case 6: { const void *p = (char *)&target + i; r = sh_vec_append_ptr(v, p); CHECK(r == 1, "pointer append failed"); m.push_back(str((char *)&p, 8)); break; }
		}
		CHECK(sh_vec_count(v) == m.size(), "count is %zu after %zu items", sh_vec_count(v), m.size());
		uint64_t h = mc_hash(num(is));
		for (size_t j = 0; j < m.size(); j++) {
			const char *p = (const char *)sh_vec_get(v, j); CHECK(p, "item %zu of %zu reads as nothing", j, m.size());
			CHECK(!memcmp(p, m[j].data(), m[j].size()), "item %zu is %s, appended %s", j, Q(str(p, m[j].size())), Q(m[j]));
			if (m[j].size() < is) CHECK(p[m[j].size()] == 0, "short item %zu is not terminated", j);
			h = mc_hash(m[j], h);
		}
		for (size_t j : {m.size(), m.size() + 1, m.size() + 2, m.size() * 2, (size_t)64, (size_t)0xffffffffu}) if (j >= m.size()) CHECK(!sh_vec_get(v, j), "index %zu of a vector with %zu items reads as an item", j, m.size());
		mc_state(h);
	}
	mc_outcome(mc_hash(desc)); sh_vec_free(v);
}
static void grow() {
	static const size_t IS[] = {8, 1, 3, 552}; size_t is = IS[mc_choose(4, "item size")]; size_t cap = mc_choose(40, "initial capacity"); int n = mc_choose(mc_thorough() ? 300 : 130, "items"); int kind = mc_choose(is == 8 ? 2 : 1, "kind"); mc_shard();
	mc_nontrivial(); void *v = sh_vec(is, cap); mc_note("items of %zu, capacity %zu, %d appended (kind %d)", is, cap, n, kind);
	for (int i = 0; i < n; i++) { mc_step(); if (kind) CHECK(sh_vec_append_ptr(v, (char *)&target + i), "append %d failed", i); else { Exact e(str(is, 'a' + i % 26)); CHECK(sh_vec_append(v, e.p, is) == 1, "append %d failed", i); } }
	for (int rev = 0; rev < 2; rev++) {
		CHECK(sh_vec_count(v) == (size_t)n, "count %zu, appended %d", sh_vec_count(v), n);
		for (int i = 0; i < n; i++) { int k = rev ? n - 1 - i : i; const char *p = (const char *)sh_vec_get(v, i); CHECK(p, "item %d missing", i); const void *q = (char *)&target + k; if (kind) CHECK(!memcmp(p, &q, 8), "pointer %d wrong", i); else CHECK(!memcmp(p, str(is, 'a' + k % 26).data(), is), "item %d wrong", i); }
		CHECK(!sh_vec_get(v, n), "item %d exists", n);
		if (!rev) CHECK(sh_vec_reverse(v) == 1, "reverse failed");
	}
	mc_state(mc_hash(num(is) + "," + num(cap) + "," + num(n))); mc_outcome(mc_hash(num(is) + "," + num(n) + "," + num(kind)));
	sh_vec_free(v);
}
int main(int c, char **v) { return mc_main(c, v, {{"operations", body, 0, 0, "all sequences of 6 (thorough 8) operations (append full/short/empty/pointer/too large/without memory, reverse), item sizes 1,4,8,33, initial capacities 0..5; all indices read after each"}, {"growth", grow, 0, 0, "all item counts up to 129 (299) with initial capacities 0..39, 4 item sizes"}}); }

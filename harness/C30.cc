// C30: the exported hash is FNV-1a.
#include "h.h"
static void check(const str &s) {
	uint64_t h = 14695981039346656037ULL; for (char c : s) { h ^= (unsigned char)c; h *= 1099511628211ULL; }
	char want[32]; snprintf(want, sizeof want, "%lX", (unsigned long)h); Exact e(s), o(str(65, '#')); mc_step(); mc_nontrivial();
	mc_note("%zu bytes %s -> %s", s.size(), mc_quote(s, 20).c_str(), want);
	sh_hash((unsigned char *)e.p, s.size(), o.p);
	CHECK(!strncmp(o.p, want, 65), "hash of %zu bytes is %.64s, expected %s", s.size(), o.p, want); mc_state(h); mc_outcome(h);
}
static void small() { int n = mc_choose(mc_thorough() ? 4 : 3, "length"); str s; for (int i = 0; i < n; i++) { s += (char)mc_choose(i < 2 ? 256 : 20, "byte"); if (i == 0) mc_shard(); } if (!n) mc_shard(); check(s); }
static void lengths() { int n = mc_choose(mc_thorough() ? 70000 : 3000, "length"); int k = mc_choose(3, "content"); mc_shard(); str s; for (int i = 0; i < n; i++) s += k == 0 ? '\0' : k == 1 ? (char)0xff : (char)(i * 31 + i / 256); check(s); if (n < 6) check(str(65534 + n, 'z')); }
int main(int c, char **v) { return mc_main(c, v, {{"small", small, 0, 0, "all byte strings of length 0..2 (thorough 3 over 20 bytes in third place)"}, {"lengths", lengths, 0, 0, "every length 0..2999 (69999) with 3 contents, and around 65536"}}); }

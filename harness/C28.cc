// C28: URL decoding, against a reference decoder on every string over an alphabet.
#include "h.h"
static int hex(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static void check(const str &in) {
	str want; bool bad = false;
	for (size_t i = 0; i < in.size(); i++) {
		unsigned char c = in[i];
		if (c == '+') want += ' ';
		else if (c == '%') { int a = i + 1 < in.size() ? hex(in[i + 1]) : -1, b = i + 2 < in.size() ? hex(in[i + 2]) : -1; if (a < 0 || b < 0) { bad = true; break; } want += (char)(a * 16 + b); i += 2; }
		else want += c;
	}
	Exact e(in, true); mc_note("input %s", Q(in)); mc_step();
	int m = sh_url_decode(e.p, nullptr);
	if (bad) { CHECK(m < 0, "measuring an invalid string gives %d", m); }
	else CHECK(m == (int)want.size() + 1, "measuring gives %d, decoded length with terminator is %zu", m, want.size() + 1);
	Exact o(str(bad ? in.size() + 1 : want.size() + 1, '#'));
	int r = sh_url_decode(e.p, o.p);
	if (bad) { CHECK(r < 0, "decoding an invalid string returns %d", r); }
	else { CHECK(r == (int)want.size() + 1, "decoding reports %d, expected %zu", r, want.size() + 1); CHECK(!memcmp(o.p, want.data(), want.size()) && o.p[want.size()] == 0, "decoded to %s, expected %s", Q(str(o.p, want.size())), Q(want)); }
	mc_nontrivial(); mc_state(mc_hash(in)); mc_outcome(mc_hash(bad ? "!" : want));
}
static void strings() {
	static const char A[] = "a+%4fGF0 \x80"; int n = mc_choose(mc_thorough() ? 8 : 7, "length"); str s;
	for (int i = 0; i < n; i++) { s += A[mc_choose(i < 5 ? 10 : 7, "byte")]; if (i == 2) mc_shard(); }
	if (n < 3) mc_shard();
	check(s);
}
static void escapes() { // every byte value after '%', and every byte alone
	int a = mc_choose(255, "first") + 1; int pos = mc_choose(3, "context"); mc_shard();
	for (int b = 0; b < 256; b++) {
		str s = pos == 1 ? "x%" : pos == 2 ? "%41%" : "%"; s += (char)a; if (b) s += (char)b;
		check(s); if (pos == 1) check(s + "y");
	}
	check(str(1, (char)a));
}
static void lengths() { int n = mc_choose(mc_thorough() ? 5000 : 1500, "length"), k = mc_choose(3, "kind"); mc_shard(); str s; for (int i = 0; i < n; i++) s += k == 0 ? "z" : k == 1 ? "%7e" : "+"; check(s); }
int main(int c, char **v) { return mc_main(c, v, {{"strings", strings, 0, 0, "all strings up to length 6 (thorough 7) over letters, hex digits, '+', '%', space and a high byte"}, {"escapes", escapes, 0, 0, "every pair of bytes after '%' in 3 contexts, every single byte"}, {"lengths", lengths, 0, 0, "every length up to 1499 (4999) of plain, escaped and '+' text"}}); }

// C36: the size and the date of a file are the file's own, now.
#include "h.h"
#include <errno.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
static void enter() { if (chdir(env_dir().c_str())) mc_fail("harness: chdir"); for (const char *n : {"a", "b", "l", "d"}) if (remove(n) && errno == EISDIR) rmdir(n); }
static void stamp(const str &p, time_t t) { struct timespec ts[2] = {{t > 1000 ? t - 777 : t + 777, 0}, {t, 0}}; if (utimensat(AT_FDCWD, p.c_str(), ts, 0)) mc_fail("harness: utimensat"); }
static void file(const str &p, size_t n, time_t t) { unlink(p.c_str()); int f = open(p.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644); if (f < 0 || ftruncate(f, n)) mc_fail("harness: cannot make a file of %zu bytes", n); close(f); stamp(p, t); }
static void ask(const str &p, size_t n, time_t t, const char *what) {
	Exact e(p, true); size_t s = sh_file_size(e.p); time_t d = sh_file_date(e.p); mc_step(); mc_nontrivial(); mc_outcome(mc_hash(num(s), (uint64_t)d));
	CHECK(s == n, "%s: size %zu instead of %zu", what, s, n); CHECK(d == t, "%s: date %lld instead of %lld", what, (long long)d, (long long)t); CHECK(env_live() == 0, "%s: asking left %s", what, env_live_desc().c_str());
}
static void sizes() {
	static const size_t S[] = {0, 1, 2, 511, 512, 513, 4095, 4096, 4097, 65535, 65536, 1000000, 0x7fffffffUL, 0x80000000UL, 0xffffffffUL, 0x100000000UL, 0x100000001UL, 5000000000UL}; static const time_t D[] = {0, 1, 2, 1000000000, 0x7fffffffL, 0x80000000L, 0xfffffffeL, 1700000000};
	int s = mc_choose(18, "size"), d = mc_choose(8, "date"), way = mc_choose(3, "name"); mc_shard(); enter(); mc_note("%zu bytes, date %lld", S[s], (long long)D[d]); file("a", S[s], D[d]); struct stat st; if (stat("a", &st) || (size_t)st.st_size != S[s] || st.st_mtime != D[d]) mc_skip(); // the file system cannot hold it
	if (way == 1 && symlink("a", "l")) mc_fail("harness: symlink"); ask(way == 0 ? "a" : way == 1 ? "l" : env_dir() + "/./a", S[s], D[d], "file"); enter(); mc_state(s * 8 + d);
}
static void modes() { // whoever may read it
	int m = mc_choose(07777 + 1, "mode"), n = mc_choose(3, "size"); mc_shard(); if (!mc_thorough() && n && m > 0777) mc_skip(); enter(); file("a", n * 700, 5 + n); if (chmod("a", m)) mc_fail("harness: chmod"); mc_note("mode %o", m); ask("a", n * 700, 5 + n, "file"); enter(); mc_state(m * 3 + n);
}
static void missing() { // nothing there, or not to be reached
	int k = mc_choose(7, "name"); mc_shard(); enter(); file("a", 5, 500); if (k == 5 && symlink("nowhere", "l")) mc_fail("harness: symlink"); if (k == 6 && symlink("l", "l")) mc_fail("harness: symlink"); static const str N[] = {"b", "", "a/x", "d/e/f", str(5000, 'n'), "l", "l"}; mc_note("%s", Q(N[k])); ask(N[k], 0, 0, "missing file"); enter();
}
static void faults() { // asking the system fails
	static const int E[] = {EACCES, ENOMEM, ENOENT, EIO, EOVERFLOW}; int e = mc_choose(5, "reason"), n = mc_choose(2, "call"); mc_shard(); enter(); file("a", 5, 500); int c = 0; bool hit = false; env_fault = [&](const char *fn) { if (strcmp(fn, "stat") && strcmp(fn, "open") && strcmp(fn, "fstat")) return 0; if (c++ != n) return 0; hit = true; return E[e]; };
	Exact p("a", true); size_t s = sh_file_size(p.p); time_t d; if (hit) { CHECK(s == 0, "the size is %zu although asking failed", s); env_fault = nullptr; } d = sh_file_date(p.p); env_fault = nullptr; if (!hit) mc_skip(); CHECK(s == 0 ? d == 500 : d == 0, "size %zu, date %lld", s, (long long)d); mc_nontrivial(); mc_outcome(e); enter(); CHECK(env_live() == 0, "asking left %s", env_live_desc().c_str());
}
static void history() { // whatever happens to the files, the answers follow
	int d = mc_thorough() ? 6 : 5; std::vector<int> op; for (int i = 0; i < d; i++) { op.push_back(mc_choose(7, "operation")); if (i == 1) mc_shard(); } enter(); struct F { bool is = false; size_t n = 0; time_t t = 0; } a, b; str log;
	for (int i = 0; i < d; i++) { int o = op[i]; log += " " + num(o); time_t t = 1000 * (i + 1);
		switch (o) {
		case 0: file("a", 10 + i, t); a = {true, (size_t)10 + i, t}; break;
		case 1: file("b", 1, 5 + i); b = {true, 1, 5 + i}; break;
		case 2: if (a.is) { a.n += 3; if (truncate("a", a.n)) mc_fail("harness: truncate"); a.t = t; stamp("a", t); } break;
		case 3: if (a.is) { a.n = 0; if (truncate("a", 0)) mc_fail("harness: truncate"); a.t = t; stamp("a", t); } break;
		case 4: if (a.is) { unlink("a"); a = F(); } break;
		case 5: if (b.is) { if (rename("b", "a")) mc_fail("harness: rename"); a = b; b = F(); } break;
		case 6: if (a.is) { a.t = 3; stamp("a", 3); } break;
		}
		mc_note("operations%s", log.c_str()); ask("a", a.n, a.t, "first file"); ask("b", b.n, b.t, "second file"); mc_state(mc_hash(num(a.n * 100 + a.t), b.n * 100 + b.t)); }
	enter();
}
int main(int c, char **v) { return mc_main(c, v, {
	{"sizes", sizes, 0, 0, "18 sizes up to 5 GB x 8 dates around integer-type boundaries x 3 ways to name the file"}, {"modes", modes, 0, 0, "all 4096 permission bits x 3 sizes"}, {"missing", missing, 0, 0, "7 names that lead nowhere"},
	{"faults", faults, 0, 0, "5 reasons x each call failing"}, {"history", history, 0, 0, "all sequences of 5 (6) of 7 operations on two files, both asked after each"}}); }

#include "mc.h"
#include <errno.h>
#include <fcntl.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <unordered_set>

enum { MAXCH = 16384, NOTE = 1 << 16, MSG = 1 << 14, SAMPLES = 4, SAMPLE = 1200 };
struct Shared {                       // one per worker, survives its death
	volatile uint64_t execs, steps, nontrivial, skipped, maxdepth;
	volatile int failed, done, capped;
	int nch; int ch[MAXCH];
	char msg[MSG]; char note[NOTE]; size_t notelen;
	char sample[SAMPLES][SAMPLE]; int nsamples;
};
static Shared *sh;                    // the current process's slot
struct Ch { int n, v; };
static std::vector<Ch> stk;
static size_t pos_;
static int devs, dev_bound, tier;
static long backtracked;              // index of the choice changed since the previous execution
static int shard_me, shard_n = 1; static uint64_t shard_ctr;
static bool replaying, verbose, rerun;
static jmp_buf skip_jmp;
static std::unordered_set<uint64_t> states, outcomes;
static double deadline;
enum { STATECAP = 3000000 };

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

extern "C" {
uint64_t mc_hash(const void *p, size_t n, uint64_t h) {
	const unsigned char *c = (const unsigned char *)p;
	for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; h ^= h >> 29; }
	return h;
}
int mc_thorough(void) { return tier; }
int mc_known(const char *id) {
	const char *v = getenv("MC_VERIF"), *t = getenv("MC_TMP"), *prop = getenv("MC_PROP"); if (!v || !t || !prop) return 0;
	FILE *f = fopen((std::string(v) + "/known-findings.txt").c_str(), "r"); if (!f) return 0;
	char l[4096]; std::string want = std::string("finding: property=") + prop + " id=" + id + " "; bool hit = false;
	while (!hit && fgets(l, sizeof l, f)) hit = !strncmp(l, want.c_str(), want.size());
	fclose(f);
	if (hit) { f = fopen((std::string(t) + "/known." + id).c_str(), "w"); if (f) fclose(f); }
	return hit;
}
int mc_exploring(void) { return !replaying; }
static int take(int n, const char *label) {
	if (n <= 0) { fprintf(stderr, "mc: choice with no alternatives (%s)\n", label); _exit(99); }
	if (n == 1) return 0;
	if (pos_ < stk.size()) {
		if (stk[pos_].n == -1 && stk[pos_].v < n) stk[pos_].n = n;   // replaying: arities are learnt
		if (stk[pos_].n != n || stk[pos_].v >= n)
			mc_fail("nondeterminism: repeating the same choices led to a different point (%s: %d alternatives, %d before)", label, n, stk[pos_].n);
	} else {
		if (stk.size() >= MAXCH) mc_fail("no end in sight: more than %d choices in one execution", MAXCH);
		stk.push_back({n, 0});
	}
	int v = stk[pos_].v;
	sh->ch[pos_] = v; sh->nch = ++pos_;
	if (verbose) printf("  choice %zu %s = %d of %d\n", pos_ - 1, label, v, n);
	return v;
}
static const void *running_;
uint64_t mc_prefix(void) { uint64_t h = mc_hash(&running_, sizeof running_, 99); for (size_t i = 0; i < pos_; i++) h = mc_hash(&stk[i].v, sizeof stk[i].v, h); return h; }
int mc_choose(int n, const char *label) { return take(n, label); }
int mc_choose_dev(int n, const char *label) {
	if (devs >= dev_bound) return 0;
	int v = take(n, label);
	if (v) devs++;
	return v;
}
void mc_shard(void) {
	if (shard_n <= 1 || replaying || rerun) return;
	if (backtracked < (long)pos_) shard_ctr++;
	if ((int)(shard_ctr % shard_n) != shard_me) { longjmp(skip_jmp, 2); }
}
void mc_skip(void) { longjmp(skip_jmp, 1); }
void mc_note(const char *fmt, ...) {
	char buf[4096]; va_list ap; va_start(ap, fmt); int n = vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
	if (n > (int)sizeof buf - 1) n = sizeof buf - 1;
	if (sh->notelen + n + 2 < NOTE) { memcpy(sh->note + sh->notelen, buf, n); sh->notelen += n; sh->note[sh->notelen++] = '\n'; sh->note[sh->notelen] = 0; }
	if (verbose) { fwrite(buf, 1, n, stdout); putchar('\n'); }
}
void mc_fail(const char *fmt, ...) {
	va_list ap; va_start(ap, fmt); vsnprintf(sh->msg, MSG, fmt, ap); va_end(ap);
	sh->failed = 1;
	_exit(42);
}
void mc_state(uint64_t h) { if (states.size() < STATECAP) states.insert(h); }
void mc_outcome(uint64_t h) { if (outcomes.size() < STATECAP) outcomes.insert(h); }
void mc_step(void) { sh->steps++; }
void mc_incomplete(void) { sh->capped = 1; }
static bool nt;
void mc_nontrivial(void) { nt = true; }
void __asan_set_error_report_callback(void (*)(const char *)) __attribute__((weak));
const char *__asan_default_options(void) {
#ifdef MC_FIBERS
#define UAR "0"
#else
#define UAR "1"
#endif
	return "detect_leaks=0:exitcode=43:allocator_may_return_null=1:max_malloc_fill_size=65536:malloc_fill_byte=190:"
	       "max_free_fill_size=65536:free_fill_byte=222:detect_stack_use_after_return=" UAR ":handle_abort=1:"
	       "print_stats=0:symbolize=1:abort_on_error=0:quarantine_size_mb=8:detect_odr_violation=0";
}
}
static void on_asan(const char *rep) {
	if (sh->failed) return;
	size_t n = strlen(rep); if (n > MSG - 64) n = MSG - 64;
	snprintf(sh->msg, MSG, "invalid memory access: ");
	strncat(sh->msg, rep, n);
	if (char *p = strstr(sh->msg, "Shadow bytes")) *p = 0;
	sh->failed = 1;
}
std::string mc_quote(const std::string &s, size_t max) {
	std::string r = "\""; char b[8];
	for (size_t i = 0; i < s.size() && i < max; i++) {
		unsigned char c = s[i];
		if (c == '\n') r += "\\n"; else if (c == '\r') r += "\\r"; else if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\x%02x", c); r += b; } else r += c;
	}
	r += '"'; if (s.size() > max) r += "...(" + std::to_string(s.size()) + " bytes)";
	return r;
}
extern "C" const char *mc_exec_end(void);   // non-null: something was left behind
static void one(const McHarness &h) {
	pos_ = 0; devs = 0; nt = false;
	sh->nch = 0; sh->notelen = 0; sh->note[0] = 0;
	running_ = (const void *)h.body; mc_on_exec_start();
	int r = setjmp(skip_jmp);
	if (r == 0) {
		h.body();
		const char *left = mc_exec_end();
		if (left) { // a lazily filled cache is no leak: only growth on every repetition counts
			if (rerun) mc_fail("%s", left);
			rerun = true; one(h); rerun = false; return;
		}
		sh->execs++;
		if (nt) sh->nontrivial++;
		if (pos_ > sh->maxdepth) sh->maxdepth = pos_;
		uint64_t e = sh->execs;
		if (sh->nsamples < SAMPLES && (nt || e > 50) && (e & (e - 1)) == 0 && sh->notelen) {
			size_t n = sh->notelen < SAMPLE - 1 ? sh->notelen : SAMPLE - 1;
			memcpy(sh->sample[sh->nsamples], sh->note, n); sh->sample[sh->nsamples][n] = 0; sh->nsamples++;
		}
	} else { mc_exec_end(); if (r == 1) sh->skipped++; }
	if (pos_ < stk.size()) { // the execution ended before using up its prefix
		if (r == 0 || r == 1) mc_fail("nondeterminism: repeating the same choices ended earlier than before");
	}
}
static bool next_seq() {
	while (!stk.empty()) {
		if (stk.back().v + 1 < stk.back().n) { stk.back().v++; backtracked = stk.size() - 1; return true; }
		stk.pop_back();
	}
	return false;
}
static void dump_set(const std::string &f, const std::unordered_set<uint64_t> &s) {
	FILE *o = fopen(f.c_str(), "w"); if (!o) _exit(98);
	for (uint64_t x : s) fwrite(&x, 8, 1, o);
	fclose(o);
}
static void child_init() {
	signal(SIGPIPE, SIG_DFL);
	struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
	if (__asan_set_error_report_callback) __asan_set_error_report_callback(on_asan);
}
static void worker(const McHarness &h, int me, int n, Shared *s, const std::string &tmp) {
	sh = s; shard_me = me; shard_n = n; shard_ctr = 0; backtracked = -1; stk.clear();
	child_init();
	if (int fd = open("/dev/null", O_WRONLY); fd >= 0) { dup2(fd, 2); close(fd); }
	do {
		one(h);
		if ((sh->execs & 63) == 0 && now() > deadline) { sh->capped = 1; break; }
	} while (next_seq());
	dump_set(tmp + "/st." + std::to_string(me), states);
	dump_set(tmp + "/oc." + std::to_string(me), outcomes);
	sh->done = 1;
	_exit(0);
}
static Shared *newslot() {
	return (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}
struct Fail { std::string msg, note; std::vector<int> ch; std::string how; };
// run one choice sequence alone in a fresh process
static bool run_single(const McHarness &h, const std::vector<int> &ch, double limit, Fail &f, bool verb) {
	Shared *s = newslot();
	fflush(stdout);
	pid_t p = fork();
	if (p == 0) {
		sh = s; replaying = true; verbose = verb; stk.clear(); child_init();
		if (int fd = verb ? -1 : open("/dev/null", O_WRONLY); fd >= 0) { dup2(fd, 2); close(fd); }
		// the arities are not recorded: accept whatever arity is met while following the values
		for (int v : ch) stk.push_back({-1, v});
		backtracked = -1;
		struct L { static void go(const McHarness &h) { one(h); } };
		L::go(h);
		sh->done = 1; fflush(stdout); _exit(0);
	}
	double t0 = now(); int st; bool hung = false;
	while (waitpid(p, &st, WNOHANG) == 0) {
		if (now() - t0 > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); hung = true; break; }
		usleep(5000);
	}
	bool bad = true;
	if (hung) f.msg = "does not terminate (no end within " + std::to_string((int)limit) + " s)";
	else if (s->failed) f.msg = s->msg;
	else if (WIFSIGNALED(st)) f.msg = std::string("killed by signal ") + strsignal(WTERMSIG(st));
	else if (!s->done) f.msg = "process ended unexpectedly with status " + std::to_string(WEXITSTATUS(st));
	else bad = false;
	f.note = s->note; f.ch.assign(s->ch, s->ch + s->nch);
	munmap(s, sizeof *s);
	return bad;
}
static std::string jesc(const std::string &s) {
	std::string r; char b[8];
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c;
	}
	return r;
}
int mc_main(int argc, char **argv, const std::vector<McHarness> &hs) {
	std::string out = "result.json", replay, only, tmp = "."; int jobs = 8; double budget = 600, hang = 12;
	if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("MC_NOASLR")) {
		setenv("MC_NOASLR", "1", 1);
		if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
	}
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i]; auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--out") out = nx(); else if (a == "--replay") replay = nx(); else if (a == "--tier") tier = nx() == "thorough";
		else if (a == "--jobs") jobs = atoi(nx().c_str()); else if (a == "--budget") budget = atof(nx().c_str());
		else if (a == "--hang") hang = atof(nx().c_str()); else if (a == "--only") only = nx(); else if (a == "--tmp") tmp = nx();
	}
	setvbuf(stdout, 0, _IOLBF, 0);
	if (!replay.empty()) {
		FILE *f = fopen(replay.c_str(), "r"); if (!f) { perror(replay.c_str()); return 2; }
		char line[1 << 17]; std::string name; std::vector<int> ch;
		while (fgets(line, sizeof line, f)) {
			if (!strncmp(line, "harness ", 8)) { name = line + 8; name.erase(name.find_last_not_of("\n") + 1); }
			else if (!strncmp(line, "tier ", 5)) tier = !strncmp(line + 5, "thorough", 8);
			else if (!strncmp(line, "deviations ", 11)) dev_bound = atoi(line + 11);
			else if (!strncmp(line, "choices", 7)) { char *p = line + 7, *e; long v; while (v = strtol(p, &e, 10), e != p) { ch.push_back(v); p = e; } }
		}
		fclose(f);
		for (auto &h : hs) if (name == h.name) {
			Fail fl; bool bad = run_single(h, ch, hang * 3, fl, true);
			printf("%s\n%s\n", bad ? "FAILS:" : "passes", fl.msg.c_str());
			return bad ? 1 : 0;
		}
		fprintf(stderr, "no harness %s\n", name.c_str()); return 2;
	}
	std::string js = "{\"harnesses\":["; bool first = true, violated = false; std::string vmsg, vreplay;
	double tstart = now();
	for (auto &h : hs) {
		if (!only.empty() && only != h.name) continue;
		int maxdev = tier ? h.dev_thorough : h.dev_quick;
		for (int d = (maxdev > 1 ? maxdev - 1 : maxdev); d <= maxdev && !violated; d++) {
			// a cheaper pass with one deviation less finds simpler counterexamples first
			dev_bound = d; double t0 = now(); deadline = tstart + budget;
			std::vector<Shared *> sl; std::vector<pid_t> pid; std::vector<uint64_t> last(jobs, 0); std::vector<double> lastt(jobs, now());
			fflush(stdout);
			for (int i = 0; i < jobs; i++) {
				sl.push_back(newslot()); pid_t p = fork();
				if (p == 0) worker(h, i, jobs, sl[i], tmp);
				pid.push_back(p);
			}
			int live = jobs; int failw = -1; std::string fmsg; std::vector<int> fch; std::string fnote;
			bool hangsusp = false;
			while (live > 0 && failw < 0) {
				usleep(2000); live = 0;
				for (int i = 0; i < jobs; i++) {
					if (pid[i] == 0) continue;
					int st; pid_t r = waitpid(pid[i], &st, WNOHANG);
					if (r == 0) {
						live++;
						uint64_t e = sl[i]->execs + sl[i]->skipped;
						if (e != last[i]) { last[i] = e; lastt[i] = now(); }
						else if (now() - lastt[i] > hang) { kill(pid[i], SIGKILL); waitpid(pid[i], &st, 0); pid[i] = 0; failw = i; hangsusp = true; fmsg = "does not terminate"; break; }
						continue;
					}
					pid[i] = 0;
					if (sl[i]->done) continue;
					failw = i;
					if (sl[i]->failed) fmsg = sl[i]->msg;
					else if (WIFSIGNALED(st)) fmsg = std::string("killed by signal ") + strsignal(WTERMSIG(st));
					else fmsg = "process ended unexpectedly with status " + std::to_string(WEXITSTATUS(st));
					break;
				}
			}
			if (failw >= 0) {
				for (int i = 0; i < jobs; i++) if (pid[i] > 0) { kill(pid[i], SIGKILL); waitpid(pid[i], 0, 0); }
				fch.assign(sl[failw]->ch, sl[failw]->ch + sl[failw]->nch); fnote = sl[failw]->note;
				Fail f; bool again = run_single(h, fch, hang * 3, f, false);
				std::string how = "alone";
				if (again) { fmsg = f.msg; if (f.note.size()) fnote = f.note; }
				else if (hangsusp) { // slow, not stuck: start over with more patience
					hang *= 4; d--; for (auto s : sl) munmap(s, sizeof *s);
					if (hang > 400) { fprintf(stderr, "mc: cannot decide a slow execution\n"); return 2; }
					continue;
				} else {
					// not reproduced alone: repeat the worker's whole deterministic run up to the same point
					Shared *s2 = newslot(); fflush(stdout); pid_t p = fork();
					if (p == 0) worker(h, failw, jobs, s2, tmp);
					int st; waitpid(p, &st, 0);
					if (s2->done) { how = "seen once, not on repetition"; }
					else { how = "only after the preceding executions of the same process (worker " + std::to_string(failw) + " of " + std::to_string(jobs) + ")"; fch.assign(s2->ch, s2->ch + s2->nch); if (s2->failed) fmsg = s2->msg; fnote = s2->note; }
					munmap(s2, sizeof *s2);
				}
				violated = true;
				vreplay = std::string(tmp) + "/replay-" + h.name + ".txt";
				FILE *o = fopen(vreplay.c_str(), "w");
				if (o) {
					fprintf(o, "harness %s\ntier %s\ndeviations %d\nchoices", h.name, tier ? "thorough" : "quick", d);
					for (int c : fch) fprintf(o, " %d", c);
					fprintf(o, "\nreproduced %s\n--- what failed\n%s\n--- execution\n%s\n", how.c_str(), fmsg.c_str(), fnote.c_str());
					fclose(o);
				}
				vmsg = std::string(h.name) + ": " + fmsg;
				printf("FAIL %s (%s)\n%s\n--- execution\n%s\n", h.name, how.c_str(), fmsg.c_str(), fnote.c_str());
			}
			uint64_t ex = 0, stp = 0, ntv = 0, sk = 0, md = 0; bool cap = false; std::vector<uint64_t> S, O; std::string samples; int nsam = 0;
			for (int i = 0; i < jobs; i++) {
				ex += sl[i]->execs; stp += sl[i]->steps; ntv += sl[i]->nontrivial; sk += sl[i]->skipped; if (sl[i]->maxdepth > md) md = sl[i]->maxdepth;
				cap |= sl[i]->capped;
				for (int k = sl[i]->nsamples - 1; k >= 0 && nsam < 3; k--, nsam++) { samples += (nsam ? "," : ""); samples += "\"" + jesc(sl[i]->sample[k]) + "\""; }
				for (int w = 0; w < 2; w++) {
					std::string fn = tmp + (w ? "/oc." : "/st.") + std::to_string(i); FILE *f = fopen(fn.c_str(), "r");
					if (f) { uint64_t x; while (fread(&x, 8, 1, f) == 1) (w ? O : S).push_back(x); fclose(f); unlink(fn.c_str()); }
				}
				munmap(sl[i], sizeof(Shared));
			}
			for (auto v : {&S, &O}) { std::sort(v->begin(), v->end()); v->erase(std::unique(v->begin(), v->end()), v->end()); }
			if (d < maxdev && !violated) continue;   // only the deepest completed pass is reported
			char buf[8192];
			snprintf(buf, sizeof buf, "%s{\"name\":\"%s\",\"executions\":%lu,\"skipped\":%lu,\"transitions\":%lu,\"states\":%zu,\"outcomes\":%zu,\"nontrivial\":%lu,\"max_choices\":%lu,\"deviation_bound\":%d,\"complete\":%s,\"bound\":\"%s\",\"wall_s\":%.2f,\"samples\":[",
			         first ? "" : ",", h.name, ex, sk, stp, S.size(), O.size(), ntv, md, d, (cap || violated) ? "false" : "true", jesc(h.bound ? h.bound : "").c_str(), now() - t0);
			js += buf + samples + "]}"; first = false;
			printf("%-28s executions=%lu states=%zu transitions=%lu outcomes=%zu nontrivial=%lu depth=%lu dev<=%d %s %.1fs\n", h.name, ex, S.size(), stp, O.size(), ntv, md, d, cap ? "CAPPED" : violated ? "VIOLATED" : "complete", now() - t0);
		}
		if (violated) break;
	}
	js += "],\"violated\":"; js += violated ? "true" : "false";
	js += ",\"message\":\"" + jesc(vmsg) + "\",\"replay\":\"" + jesc(vreplay) + "\"}";
	FILE *o = fopen(out.c_str(), "w"); if (!o) { perror(out.c_str()); return 2; }
	fputs(js.c_str(), o); fputc('\n', o); fclose(o);
	return violated ? 1 : 0;
}

// Stateless model checker core: exhaustive depth-first enumeration of choice sequences.
// A harness body calls mc_choose()/mc_choose_dev() for every nondeterministic decision (input
// fragment, operation, environment answer, thread to run next), drives the real code, and checks
// an oracle.  The explorer runs the body once per choice sequence until all are covered.
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
int  mc_choose(int n, const char *label);       // branch over 0..n-1
int  mc_choose_dev(int n, const char *label);   // 0 is the default; others cost one deviation (bounded)
void mc_shard(void);                            // work-sharing point: call once, before touching the code
void mc_skip(void) __attribute__((noreturn));   // abandon this choice sequence (outside the domain); nothing may be held
void mc_fail(const char *fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));
void mc_note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));  // describe the current execution
void mc_state(uint64_t h);                      // fingerprint of an observed state
void mc_outcome(uint64_t h);                    // fingerprint of a final outcome
void mc_step(void);                             // one transition executed on the implementation
uint64_t mc_prefix(void);                        // identifies the harness and the choices made so far
void mc_incomplete(void);                       // something within the stated bound was left out
void mc_nontrivial(void);                       // this execution exercised what the property is about
int  mc_known(const char *id);                  // is this failure listed in known-findings.txt? (then it is reported as such)
int  mc_thorough(void);
int  mc_exploring(void);
uint64_t mc_hash(const void *p, size_t n, uint64_t seed);
void mc_on_exec_start(void);                    // provided by the environment: reset per-execution state
#ifdef __cplusplus
}
#include <string>
#include <vector>
struct McHarness { const char *name; void (*body)(); int dev_quick, dev_thorough; const char *bound; };
int mc_main(int argc, char **argv, const std::vector<McHarness> &hs);
inline uint64_t mc_hash(const std::string &s, uint64_t seed = 14695981039346656037ULL) { return mc_hash(s.data(), s.size(), seed); }
std::string mc_quote(const std::string &s, size_t max = 400);
#endif

// Controlled threads (fibers), POSIX queues, and the race detector's recording functions.
#pragma once
#include <stddef.h>
#include <stdarg.h>
#ifdef __cplusplus
extern "C" {
#endif
void sched_reset(void);
void sched_wake_all(void);
void sched_yield_(void);
void sched_file_lock(int s);
void sched_file_unlock(int s);
void sched_file_wait(int s);
#ifdef MC_RACE
void race_new(void *p, size_t n);
void race_free(void *p, size_t n);
void race_read(const void *p, size_t n);
void race_write(void *p, size_t n);
void race_static(const char *what, void *p, size_t n);
void race_format(const char *f, va_list ap, int scan);
#else
static inline void race_new(void *, size_t) {}
static inline void race_free(void *, size_t) {}
static inline void race_read(const void *, size_t) {}
static inline void race_write(void *, size_t) {}
static inline void race_static(const char *, void *, size_t) {}
static inline void race_format(const char *, va_list, int) {}
#endif
#ifdef __cplusplus
}
#ifdef MC_FIBERS
#include "env.h"
// A deviation from the default: which of n alternatives (0 is the default).  The first deviation of an
// execution happens at the point announced with sched_first(); later ones count as mc_choose_dev().
void sched_first(int point);                 // 0.. : index of the first deviation; negative: none
int  sched_announce(int points);             // chooses it, and shares the work; the last choice before the execution starts
bool sched_beyond();                         // at the end: was it later than the execution is long?  (nothing was explored)
int  sched_dev(int n, const char *label);
int  sched_passed();                         // number of points with alternatives passed so far
bool sched_deviated();                       // has the announced deviation happened?
int  sched_spawn(std::function<void()> f);   // a thread of the harness
void sched_run();                            // until no thread can go on
bool sched_done(int id);
int  sched_threads();                        // threads created so far
int  sched_alive();                          // not finished
std::string sched_where();                   // what every thread waits for
const char *sched_waits(int id);
void sched_arrive(Conn *c);                  // a client connects
int  sched_unaccepted();
extern bool sched_output_points;             // is every output call a scheduling point?
extern long sched_queue_limit;               // queues hold no more messages than this (0: as many as asked for)
extern int  sched_mem_points;                // (race mode) accesses to static variables are scheduling points, not races
long mq_model_len(const char *name);
void mq_model_preload(const char *name, long maxmsg, long msgsize, const std::string &msg);
int  mq_model_open();                        // descriptors open now
bool mq_model_writer(const char *name);
bool sched_in_thread();
int  sched_self();
#ifdef MC_RACE
void race_reset(); void race_fork(int parent, int child); void race_join(int by, int of); void race_acquire(const void *o); void race_release(const void *o); void race_acqrel_msg(const std::vector<unsigned> &vc); std::vector<unsigned> race_clock(); void race_tick(); extern std::function<void(const char *)> race_on; void race_thread_done(int id, void *stk, size_t n);
#endif
#endif
#endif

#include "env.h"
#include "ctlthr.h"
void env_sched_point(const char *, long) {}
extern "C" {
void sched_reset(void) {}
void sched_wake_all(void) {}
void sched_yield_(void) {}
void sched_file_lock(int) {}
void sched_file_unlock(int) {}
void sched_file_wait(int) {}
}

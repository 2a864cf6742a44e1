// The environment the code under test runs in: every libc call that touches the outside world
// (sockets, files, memory, time, output, queues, threads) is redirected to an mcx_* function here.
#pragma once
#include "mc.h"
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <sys/types.h>

enum Tail { T_SILENT, T_EOF, T_ERR };     // what follows the client's bytes
struct Conn {
	int id = 0, fd = -1;
	std::string in; size_t pos = 0; Tail tail = T_SILENT;
	std::vector<size_t> cuts;                // offsets at which the network cuts the stream (sorted)
	std::string out;                         // what the client received
	bool open = false, accepted = false, waited = false, sendfailed = false, eofseen = false;
	int closes = 0, recvs = 0, sends = 0; bool full = false;
	// how much of n bytes a send accepts; negative = -errno
	std::function<ssize_t(Conn &, size_t)> on_send;
	std::function<size_t(Conn &, size_t)> on_recv; // optionally: how many bytes of n available to hand out now
};
Conn *env_conn(const std::string &in, Tail tail = T_SILENT);  // a connected client; fd is allocated at once
void  env_conn_open(Conn *c);
Conn *env_conn_by_fd(int fd);
Conn *env_conn_unopened(const std::string &in, Tail tail = T_SILENT);
extern std::function<int(const char *)> env_fault;  // returns an errno to fail the named call with, or 0
extern std::function<void(const char *, long)> env_event; // observes calls: "close" fd, "send" fd ...
extern bool env_zero_fd;   // descriptor 0 is free: it is the next one that is handed out
extern int  env_lastport, env_listen_fd;
extern bool env_listening;
void  env_fail_alloc(long nth);           // the nth allocation (1-based) from now returns NULL; 0 = none
extern bool env_alloc_failed;
extern size_t env_alloc_limit;            // a larger request counts as runaway
void *env_malloc(size_t n);               // memory the code under test may release
void  env_free(void *p);
size_t env_live();                        // allocations, mappings, descriptors and compiled expressions held now
std::string env_live_desc();
bool  env_is_live(void *p);
void  env_leaks(bool on);                 // check at the end of the execution that nothing is held (default on)
void  env_reset_statics();                // the library's static variables as in a new process
std::string env_dir();                    // scratch directory of this worker
std::string env_put_file(const std::string &name, const std::string &data);  // returns its path
struct LogEv { int stream; std::string text; };  // stream 1 stdout, 2 stderr
extern bool env_capture; extern std::vector<LogEv> env_log; // one entry per library output call
extern std::string env_streams[3], env_pending[3];
void env_sched_point(const char *what, long obj);  // scheduling point (no-op unless threads are controlled)
uint64_t env_digest();
extern std::function<void()> env_on_assert;  // called for a failed assertion instead of failing (must not return)

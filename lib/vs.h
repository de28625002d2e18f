// Virtual scheduler: threads are fibers of one process, the libuv and pthread calls of the code under test are modelled
// here, and every scheduling decision, completion order and timeout is a choice of the explorer (mc.h).
#pragma once
#include "mc.h"
#include <functional>
#include <string>
#include <vector>

namespace vs {
typedef std::vector<unsigned char> Bytes;
// install the runtime as mc::exec_hook.  unlock: also preempt before a lock is released (needed when somebody tries locks)
void init(bool spurious = false, bool unlock = false);
int  spawn(std::function<void()> f);              // start a thread
void join(int t);
void yield(const char * what);                    // a scheduling point of the harness
bool self_is(int t);
int  self();
void file_put(const char * path, const Bytes & b);
bool file_get(const char * path, Bytes & b);
int  open_fds();
// asked for every file operation (op: "open","stat","read","write","close"); answer 0 or a negative errno
extern std::function<int(const char * op, bool async, int64_t off)> fault;
extern std::function<void()> between;             // called at every scheduling point (must not block)
void free_order();                                // explore every completion order, whatever the deviation bound
void exit_points();                               // a thread can be preempted between its last call and its end
void cap(int max_points);                         // scheduling points one execution may take
void assert_done();                               // no other thread is alive
uint64_t vtime_ms();
struct Int { int v; Int(int x = 0) : v(x) {} int get() const; void set(int x); int add(int d = 1); };   // harness state: no scheduling points
struct Log { int v[64]; int n; Log() : n(0) {} void put(int x); int size() const; int at(int i) const; uint64_t hash() const; std::string str() const; };
}

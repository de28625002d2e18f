// Bounded exhaustive explorer: depth first enumeration of every sequence of choices a unit makes.
// A unit is a closed driver ("body") around real code.  Every nondeterministic decision goes through
// mc::choose / mc::choose_dev; the body is re-run until every sequence of answers was executed.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <functional>
#include <vector>

namespace mc {

struct Opt {
	int  dev;        // how many deviations (non default answers of choose_dev) one execution may take
	bool conc;       // informational
	Opt(int d = 0) : dev(d), conc(false) {}
};

int  choose(int n);                 // every answer is explored
int  choose_dev(int n);             // answers > 0 cost one deviation each
int  dev_left();
void step(uint64_t n = 1);          // count n transitions
void state(uint64_t h);             // an observed (abstract) state; distinct ones are counted
void outcome(uint64_t h);           // an observed end result; distinct ones are counted
bool tracing();
void note(const char * fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void fail(const char * fmt, ...) __attribute__((format(printf, 1, 2)));
void restart_unit();                // ask for the exploration of this unit to start over (new choice points)
bool thorough();
uint64_t seed();
uint64_t exec_no();                 // executions of this unit so far

void unit(const std::string & prop, const std::string & name, std::function<void()> body, Opt o = Opt());
int  run(int argc, char ** argv, void (*reg)());

// hooks the virtual scheduler installs: called instead of body() when set
extern void (*exec_hook)(const std::function<void()> & body);

struct H {                          // small FNV style hasher
	uint64_t h;
	H(uint64_t s = 1469598103934665603ULL) : h(s) {}
	H & add(const void * p, size_t n) { const unsigned char * c = (const unsigned char *)p; for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; } return *this; }
	H & u(uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 1099511628211ULL; return *this; }
	H & s(const std::string & v) { u(v.size()); return add(v.data(), v.size()); }
};
std::string strf(const char * fmt, ...) __attribute__((format(printf, 1, 2)));
std::string hex(const void * p, size_t n);
}

#define MC_NOTE(...) do { if (mc::tracing()) mc::note(__VA_ARGS__); } while (0)
#define MC_CHECK(c, ...) do { if (!(c)) mc::fail(__VA_ARGS__); } while (0)

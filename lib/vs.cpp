#include "vs.h"
#include <uv.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <dlfcn.h>
#include <unistd.h>
#include <new>
#include <map>
#include <iostream>
#include <cxxabi.h>
#include <execinfo.h>

namespace mc { extern int g_internal; uint64_t * aux(int & n, int & cap); void aux_grow(int n); }

namespace vs {
std::function<int(const char *, bool, int64_t)> fault;
std::function<void()> between;

// ------------------------------------------------------------------ memory of one execution
static unsigned char * A;                       // arena
static unsigned char * SH;                      // one shadow byte per arena byte: 0 never given out, 1 live, 2 freed
static const size_t AN = 96u << 20;
static size_t a_top, a_base;
static bool g_on;                               // inside an execution
static inline bool in_arena(const void * p) { return (size_t)((const unsigned char *)p - A) < AN; }

static void * arena_new(size_t n)
{
	size_t need = ((n + 15) & ~(size_t)15) + 48;
	if (a_top + need > AN) mc::fail("execution allocated more than %zu MB", AN >> 20);
	unsigned char * p = A + a_top + 32;
	a_top += need;
	*(size_t *)(p - 16) = n; *(size_t *)(p - 8) = 0x600dcafe;
	memset(p, 0xCD, n);
	memset(SH + (p - A), 1, n ? n : 1);
	return p;
}
static void arena_delete(void * v)
{
	unsigned char * p = (unsigned char *)v;
	if (*(size_t *)(p - 8) != 0x600dcafe) mc::fail("free of a pointer that was not allocated");
	size_t n = *(size_t *)(p - 16);
	if (SH[p - A] == 2) mc::fail("object freed twice");
	memset(SH + (p - A), 2, n ? n : 1);
	memset(p, 0xDD, n);
}

// ------------------------------------------------------------------ fibers
enum St { RUN, MUTEX, COND, JOIN, DONE };
struct Fiber {
	void * sp; unsigned char * stk; size_t stk_n;
	St st; std::function<void()> fn; void (*cfn)(void *); void * carg;
	void * obj; uint64_t deadline; bool timed_out; uint64_t seq; bool detached_done;
	uint64_t eh[2];
	void * calls[64]; int depth;
	const char * doing;
	void * held[8]; int nheld;
	uint64_t marks[64]; int nmarks;          // own stack cells another thread touched
	unsigned char * fa[64];
};
static const int MAXF = 12;
static const size_t STK = 256 << 10;
static Fiber F[MAXF]; static int nf, cur; static void * host_sp;
static uint64_t vt, g_seq; static int g_points, g_cap = 60000, g_run; static bool g_spurious, g_unlock, g_free_order, g_exit_point;
static int alive;                                // fibers not done

extern "C" void vs_swap(void ** from, void * to);
asm(".text\n.globl vs_swap\nvs_swap:\n"
	"pushq %rbp\npushq %rbx\npushq %r12\npushq %r13\npushq %r14\npushq %r15\n"
	"movq %rsp,(%rdi)\nmovq %rsi,%rsp\n"
	"popq %r15\npopq %r14\npopq %r13\npopq %r12\npopq %rbx\npopq %rbp\nret\n");

struct RT { RT() { mc::g_internal++; } ~RT() { mc::g_internal--; } };

static std::string where(int f)
{
	std::string s; int n = 0;
	for (int i = F[f].depth - 1; i >= 0 && n < 6; i--) {
		if (i >= 64) continue;
		Dl_info d; if (!dladdr(F[f].calls[i], &d) || !d.dli_sname) continue;
		int st; char * dm = abi::__cxa_demangle(d.dli_sname, 0, 0, &st);
		std::string nm = dm ? dm : d.dli_sname; free(dm);
		size_t p = nm.find('('); if (p != std::string::npos) nm.resize(p);
		if (nm.size() > 60) nm = nm.substr(0, 60);
		s += (n++ ? " < " : "") + nm;
	}
	return s;
}
static const char * stname[] = { "runnable", "waits for a lock", "waits for a signal", "joins", "ended" };
static std::string dump()
{
	RT r; std::string s;
	for (int i = 0; i < nf; i++) s += mc::strf("%s thread %d %s (%s) in %s", i ? ";" : "", i, stname[F[i].st], F[i].doing ? F[i].doing : "", where(i).c_str());
	return s;
}
[[noreturn]] static void bad(const char * what, const void * o = NULL)
{
	mc::g_internal++;
	std::string s = where(cur);
	mc::fail("%s [thread %d in %s]", what, cur, s.c_str());
}

static void switch_to(int t)
{
	if (t == cur) return;
	MC_NOTE("  -> thread %d%s", t, F[t].doing ? (std::string(" (") + F[t].doing + ")").c_str() : "");
	int f = cur;
	memcpy(F[f].eh, (void *)abi::__cxa_get_globals(), 16);
	cur = t; g_run = 0;
	memcpy((void *)abi::__cxa_get_globals(), F[t].eh, 16);
	vs_swap(&F[f].sp, F[t].sp);
}
struct M { uint32_t magic; int32_t owner; uint32_t count; uint32_t rec; };
struct C { uint32_t magic; };
static const uint32_t MM = 0x4d757458, CM = 0x436f6e64;

static bool enabled(int f)
{
	switch (F[f].st) {
	case RUN: return true;
	case MUTEX: return ((M *)F[f].obj)->owner < 0;
	case JOIN: return F[(intptr_t)F[f].obj].st == DONE;
	default: return false;
	}
}
static void wake_cond(int f, bool timed_out) { F[f].timed_out = timed_out; F[f].st = RUN; }

// the current fiber cannot go on: somebody else must
static void block()
{
	for (;;) {
		int en[MAXF], n = 0, tm[MAXF], k = 0;
		for (int i = 0; i < nf; i++) { if (enabled(i)) en[n++] = i; else if (F[i].st == COND && (F[i].deadline || g_spurious)) tm[k++] = i; }
		if (n == 0) {
			int best = -1;
			for (int i = 0; i < nf; i++) if (F[i].st == COND && F[i].deadline && (best < 0 || F[i].deadline < F[best].deadline)) best = i;
			if (best < 0) { std::string d = dump(); mc::g_internal++; mc::fail("deadlock:%s", d.c_str()); }
			int same[MAXF], m = 0; for (int i = 0; i < nf; i++) if (F[i].st == COND && F[i].deadline == F[best].deadline) same[m++] = i;
			best = same[mc::choose(m)];
			if (F[best].deadline > vt) vt = F[best].deadline;
			if (++g_points > g_cap) { std::string d = dump(); mc::g_internal++; mc::fail("does not end:%s", d.c_str()); }
			mc::step();
			MC_NOTE("  time %llu ms: wait of thread %d ends", (unsigned long long)(vt / 1000000), best);
			wake_cond(best, true);
			switch_to(best);
			return;
		}
		if (k && mc::dev_left() > 0) {
			int c = mc::choose_dev(1 + k);
			if (c) { int f = tm[c - 1]; if (F[f].deadline) { MC_NOTE("  wait of thread %d times out", f); if (F[f].deadline > vt) vt = F[f].deadline; } else MC_NOTE("  thread %d wakes spuriously", f);
				wake_cond(f, F[f].deadline != 0); switch_to(f); return; }
		}
		int t = en[n > 1 ? mc::choose(n) : 0];
		switch_to(t);
		return;
	}
}

static void point(const char * what, const void * obj)
{
	if (!g_on || mc::g_internal) return;
	F[cur].doing = what;
	mc::step(); g_points++; g_run++;
	{ mc::H h; h.u(cur); for (int i = 0; i < nf; i++) { h.u(F[i].st).u((uint64_t)F[i].doing).u(F[i].depth); if (F[i].depth && F[i].depth <= 64) h.u((uint64_t)F[i].calls[F[i].depth - 1]); } mc::state(h.h); }
	if (g_points > g_cap) { std::string d = dump(); mc::g_internal++; mc::fail("does not end:%s", d.c_str()); }
	{ RT r; if (between) between(); }
	if (alive < 2) return;
	int en[MAXF], n = 0, k = 0, tm[MAXF];
	for (int i = 0; i < nf; i++) if (i != cur) { if (enabled(i)) en[n++] = i; else if (F[i].st == COND && (F[i].deadline || g_spurious)) tm[k++] = i; }
	if (g_run > 80 && !n && alive > 1) {      // spinning takes time too
		int best = -1; for (int i = 0; i < nf; i++) if (F[i].st == COND && F[i].deadline && (best < 0 || F[i].deadline < F[best].deadline)) best = i;
		if (best >= 0) { if (F[best].deadline > vt) vt = F[best].deadline; wake_cond(best, true); switch_to(best); return; }
	}
	if (g_run > 80 && n) { int t = en[0]; for (int i = 0; i < n; i++) if (en[i] > cur) { t = en[i]; break; } switch_to(t); return; }   // fairness
	if (mc::dev_left() <= 0 || n + k == 0) return;
	int c = mc::choose_dev(1 + n + k);
	if (c == 0) return;
	if (mc::tracing()) { RT r; std::string w = where(cur); mc::note("  thread %d preempted before %s in %s", cur, what, w.c_str()); }
	if (c <= n) { switch_to(en[c - 1]); return; }
	int f = tm[c - 1 - n];
	if (F[f].deadline) { MC_NOTE("  wait of thread %d times out", f); if (F[f].deadline > vt) vt = F[f].deadline; } else MC_NOTE("  thread %d wakes spuriously", f);
	wake_cond(f, F[f].deadline != 0);
	switch_to(f);
}

static void fiber_main()
{
	Fiber & f = F[cur];
	try { if (f.cfn) f.cfn(f.carg); else f.fn(); }
	catch (const std::exception & e) { mc::g_internal++; mc::fail("exception leaves thread %d: %s", cur, e.what()); }
	catch (...) { mc::g_internal++; mc::fail("exception leaves thread %d", cur); }
	{ RT r; f.fn = nullptr; }
	if (g_exit_point && cur) point("thread exit", NULL);
	f.st = DONE; f.doing = "ended"; alive--;
	MC_NOTE("  thread %d ended", cur);
	if (alive == 0) { void * dummy; memcpy(f.eh, (void *)abi::__cxa_get_globals(), 16); vs_swap(&dummy, host_sp); }
	block();
	abort();
}
static int new_fiber()
{
	if (nf >= MAXF) mc::fail("more than %d threads", MAXF);
	int t = nf++; Fiber & f = F[t];
	if (!f.stk) { f.stk_n = STK; f.stk = (unsigned char *)mmap(NULL, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }
	f.st = RUN; f.fn = nullptr; f.cfn = NULL; f.obj = NULL; f.deadline = 0; f.eh[0] = f.eh[1] = 0; f.depth = 0; f.nheld = f.nmarks = 0; f.doing = "start";
	void ** s = (void **)(f.stk + f.stk_n - 64);
	*--s = 0;                       // alignment
	*--s = (void *)fiber_main;
	for (int i = 0; i < 6; i++) *--s = 0;
	f.sp = s; alive++;
	return t;
}

// ------------------------------------------------------------------ shared memory discovery
// A memory cell (8 bytes) becomes interesting when two threads touch it, one of them writes after it stopped being the
// property of one thread, and no lock was held at every access since (accesses a lock orders need no scheduling point of
// their own: taking the lock is one).
struct Gr { uint64_t key; uint32_t gen; uint8_t first, npc; bool multi, written, shared; uint8_t nls; void * ls[8]; void * pc[6]; };
static const int GN = 1 << 16;
static Gr * G; static uint32_t g_gen; static void * pend[512]; static int npend;
static const int PCN = 1 << 12; static uint64_t pcs[PCN]; static int npcs;
static bool pc_in(uint64_t p) { size_t i = (p * 0x9e3779b97f4a7c15ULL >> 40) & (PCN - 1); while (pcs[i] && pcs[i] != p) i = (i + 1) & (PCN - 1); return pcs[i] != 0; }
static void pc_put(uint64_t p) { if (npcs * 2 > PCN) mc::fail("too many shared program points"); size_t i = (p * 0x9e3779b97f4a7c15ULL >> 40) & (PCN - 1); while (pcs[i] && pcs[i] != p) i = (i + 1) & (PCN - 1); if (!pcs[i]) { pcs[i] = p; npcs++; } }
static uint64_t img0;
static void pc_shared(void * pc)
{
	// found now, a scheduling point from the next execution on: the points of one execution are fixed when it starts
	if (pc_in((uint64_t)pc)) return;
	for (int i = 0; i < npend; i++) if (pend[i] == pc) return;
	if (npend < 512) pend[npend++] = pc;
}
static void pc_apply()
{
	if (!npend) return;
	int n, cap; uint64_t * a = mc::aux(n, cap);
	for (int i = 0; i < npend; i++) { pc_put((uint64_t)pend[i]); if (n >= cap) mc::fail("too many shared program points"); a[n++] = (uint64_t)pend[i] - img0; }
	mc::aux_grow(n); npend = 0; mc::restart_unit();
}
static void learn(const void * addr, bool w, void * pc, bool atomic, bool stack)
{
	uint64_t key = (uint64_t)addr >> 3; size_t i = (key * 0x9e3779b97f4a7c15ULL >> 40) & (GN - 1);
	for (int probe = 0; probe < 64; probe++, i = (i + 1) & (GN - 1)) {
		Gr & g = G[i];
		if (g.gen != g_gen) { g.gen = g_gen; g.key = key; g.first = (uint8_t)cur; g.npc = 0; g.multi = g.written = g.shared = false; g.nls = 0; if (stack) { g.multi = true; for (int k = 0; k < F[cur].nheld; k++) g.ls[g.nls++] = F[cur].held[k]; } }
		if (g.key != key) continue;
		if (g.shared) { pc_shared(pc); return; }
		bool have = false; for (int k = 0; k < g.npc; k++) if (g.pc[k] == pc) have = true;
		if (!have && g.npc < 6) g.pc[g.npc++] = pc;
		Fiber & f = F[cur];
		if (!g.multi) {
			if (g.first == cur) { if (atomic) { g.written |= w; } return; }
			g.multi = true; g.nls = 0; for (int k = 0; k < f.nheld; k++) g.ls[g.nls++] = f.held[k];
		} else {
			int n = 0; for (int k = 0; k < g.nls; k++) { bool h = false; for (int q = 0; q < f.nheld; q++) if (f.held[q] == g.ls[k]) h = true; if (h) g.ls[n++] = g.ls[k]; } g.nls = (uint8_t)n;
		}
		g.written |= w;
		if (g.written && g.nls == 0) { g.shared = true; for (int k = 0; k < g.npc; k++) pc_shared(g.pc[k]); pc_shared(pc); }
		return;
	}
}

static inline void mem(const void * p, size_t n, bool w, void * pc, bool atomic = false)
{
	if (!g_on || mc::g_internal) return;
	Fiber & f = F[cur];
	bool stack = false;
	if ((size_t)((const unsigned char *)p - f.stk) < f.stk_n) {
		bool m = false; for (int k = 0; k < f.nmarks; k++) if (f.marks[k] == (uint64_t)p >> 3) m = true;
		if (m && alive >= 2) learn(p, w, pc, atomic, true);
		if (alive >= 2 && pc_in((uint64_t)pc)) point(w ? "write" : "read", p);
		return;
	}
	if (in_arena(p)) {
		size_t o = (const unsigned char *)p - A;
		for (size_t i = 0; i < n; i++) if (SH[o + i] != 1) bad(SH[o + i] == 2 ? (w ? "write to freed memory" : "read of freed memory") : (w ? "write outside an object" : "read outside an object"), p);
	} else {
		for (int i = 0; i < nf; i++) if (i != cur && (size_t)((const unsigned char *)p - F[i].stk) < F[i].stk_n) {
			if (F[i].st == DONE || (const unsigned char *)p < (unsigned char *)F[i].sp) bad("access to a stack object that no longer exists", p);
			stack = true; bool m = false; for (int k = 0; k < F[i].nmarks; k++) if (F[i].marks[k] == (uint64_t)p >> 3) m = true;
			if (!m && F[i].nmarks < 64) F[i].marks[F[i].nmarks++] = (uint64_t)p >> 3;
		}
	}
	if (alive < 2) return;
	learn(p, w, pc, atomic, stack);
	if (pc_in((uint64_t)pc)) point(w ? "write" : "read", p);
}
static void check_range(const void * p, size_t n, bool w, const char * what)
{
	if (!g_on) return;
	if (in_arena(p)) { size_t o = (const unsigned char *)p - A; for (size_t i = 0; i < n; i++) if (SH[o + i] != 1) bad(what, p); }
	else for (int i = 0; i < nf; i++) if ((size_t)((const unsigned char *)p - F[i].stk) < F[i].stk_n && (F[i].st == DONE || (i != cur && (const unsigned char *)p < (unsigned char *)F[i].sp))) bad(what, p);
}

// ------------------------------------------------------------------ locks, signals, threads
static M * mtx(uv_mutex_t * m) { check_range(m, sizeof(M), true, "lock used after it was destroyed"); M * x = (M *)m; if (x->magic != MM) bad("lock used before it was created or after it was destroyed"); return x; }
static C * cnd(uv_cond_t * c) { check_range(c, sizeof(C), true, "signal used after it was destroyed"); C * x = (C *)c; if (x->magic != CM) bad("signal used before it was created or after it was destroyed"); return x; }
static void m_lock(M * x)
{
	if (x->owner == cur) { if (x->rec) { x->count++; return; } bad("thread locks a lock it already holds (self deadlock)"); }
	while (x->owner >= 0) { F[cur].st = MUTEX; F[cur].obj = x; block(); F[cur].st = RUN; }
	x->owner = cur; x->count = 1; if (F[cur].nheld < 8) F[cur].held[F[cur].nheld++] = x;
}
static void drop(M * x) { Fiber & f = F[cur]; for (int i = 0; i < f.nheld; i++) if (f.held[i] == x) { f.held[i] = f.held[--f.nheld]; return; } }
static void m_unlock(M * x) { if (x->owner != cur) bad("thread releases a lock it does not hold"); if (--x->count == 0) { x->owner = -1; drop(x); } }

static void exec(const std::function<void()> & body)
{
	if (!A) {
		A = (unsigned char *)mmap((void *)0x200000000000ULL, AN, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
		SH = (unsigned char *)mmap(NULL, AN, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		G = (Gr *)mmap(NULL, sizeof(Gr) * GN, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		if (A == MAP_FAILED || SH == MAP_FAILED) { fprintf(stderr, "no memory\n"); _exit(9); }
		Dl_info d; dladdr((void *)vs_swap, &d); img0 = (uint64_t)d.dli_fbase;
		std::cout.setstate(std::ios_base::badbit);
	}
	static int warm_pid = 0; bool warm = warm_pid != getpid();
	{
		int n, cap; uint64_t * a = mc::aux(n, cap);
		if (n != npcs) { memset(pcs, 0, sizeof(pcs)); npcs = 0; for (int i = 0; i < n; i++) pc_put(img0 + a[i]); }
	}
	extern void fs_reset(); fs_reset();
	fault = nullptr; between = nullptr; g_cap = 60000; g_free_order = g_exit_point = false;
	memset(SH + a_base, 0, a_top - a_base);
	a_top = a_base; nf = 0; cur = 0; vt = 1000000000ULL; g_points = 0; g_run = 0; alive = 0; npend = 0; g_gen++;
	int t = new_fiber(); F[t].fn = body; g_on = true;
	uint64_t eh[2]; memcpy(eh, (void *)abi::__cxa_get_globals(), 16);
	vs_swap(&host_sp, F[t].sp);
	memcpy((void *)abi::__cxa_get_globals(), eh, 16);
	g_on = false;
	F[0].fn = nullptr; fault = nullptr; between = nullptr;
	if (warm) { a_base = (a_top + 4095) & ~(size_t)4095; a_top = a_base; warm_pid = getpid(); }   // what the first execution leaves (statics) stays
	pc_apply();
}
void init(bool spurious, bool unlock) { g_spurious = spurious; g_unlock = unlock; mc::exec_hook = exec; }
int self() { return cur; }
bool self_is(int t) { return cur == t; }
void cap(int n) { g_cap = n; }
void free_order() { g_free_order = true; }
void exit_points() { g_exit_point = true; }
uint64_t vtime_ms() { return vt / 1000000; }
void assert_done() { for (int i = 0; i < nf; i++) if (i != cur && F[i].st != DONE) { std::string d = dump(); mc::fail("thread %d is still running:%s", i, d.c_str()); } }
void yield(const char * what) { point(what, NULL); }
int spawn(std::function<void()> fn) { int t; { RT r; t = new_fiber(); F[t].fn = fn; } MC_NOTE("  thread %d starts thread %d", cur, t); point("after thread start", NULL); return t; }
void join(int t) { point("join", NULL); while (F[t].st != DONE) { F[cur].st = JOIN; F[cur].obj = (void *)(intptr_t)t; F[cur].doing = "join"; block(); F[cur].st = RUN; } }

int Int::get() const { return v; }
void Int::set(int x) { v = x; }
int Int::add(int d) { return v += d; }
void Log::put(int x) { if (n < 64) v[n++] = x; else mc::fail("more than 64 events recorded"); }
int Log::size() const { return n; }
int Log::at(int i) const { return v[i]; }
uint64_t Log::hash() const { mc::H h; for (int i = 0; i < n; i++) h.u(v[i]); return h.h; }
std::string Log::str() const { std::string s; for (int i = 0; i < n; i++) s += mc::strf("%s%d", i ? " " : "", v[i]); return s; }

// ------------------------------------------------------------------ files and loops
struct Fd { bool open; std::string path; int flags; uint64_t pos; };
struct FS { std::map<std::string, Bytes> files; std::vector<Fd> fds; };
static FS * fs;
struct Rq { uv_fs_t * req; int kind; std::string path; int flags; int fd; uv_buf_t buf; int64_t off; uint64_t id; };
struct Loop { uv_loop_t * key; bool stop, closed; int in_run; std::vector<Rq> q; };
static std::vector<Loop *> * loops;
static uint64_t rq_id;
static uv_loop_t default_loop;
void fs_reset() { RT r; delete fs; fs = new FS; fs->fds.resize(3); if (loops) for (size_t i = 0; i < loops->size(); i++) delete (*loops)[i]; delete loops; loops = new std::vector<Loop *>; rq_id = 0; }
void file_put(const char * path, const Bytes & b) { RT r; fs->files[path] = b; }
bool file_get(const char * path, Bytes & b) { Bytes * f = NULL; { RT r; std::map<std::string, Bytes>::iterator i = fs->files.find(path); if (i != fs->files.end()) f = &i->second; } if (!f) return false; b = Bytes(f->begin(), f->end()); return true; }
int open_fds() { int n = 0; for (size_t i = 3; i < fs->fds.size(); i++) n += fs->fds[i].open; return n; }
static Loop * find(uv_loop_t * l, bool make)
{
	RT r;
	for (size_t i = 0; i < loops->size(); i++) if ((*loops)[i]->key == l) return (*loops)[i];
	if (!make && l != &default_loop) { mc::fail("event loop used before it was created or after it was closed"); }
	Loop * x = new Loop; x->key = l; x->stop = x->closed = false; x->in_run = -1; loops->push_back(x); return x;
}
static const char * opn[] = { "open", "close", "read", "write", "stat" };
static void effect(Rq & q, bool async)
{
	uv_fs_t * req = q.req;
	check_range(req, sizeof(*req), true, "file request freed while it is in flight");
	int e = 0;
	{ RT r; if (fault) e = fault(opn[q.kind], async, q.off); }
	if (e) { req->result = e; return; }
	if (q.kind == 2 || q.kind == 3) check_range(q.buf.base, q.buf.len, q.kind == 2, q.kind == 2 ? "asynchronous read into freed or too small memory" : "asynchronous write from freed or too small memory");
	RT r;
	switch (q.kind) {
	case 4: {
		std::map<std::string, Bytes>::iterator i = fs->files.find(q.path);
		if (i == fs->files.end()) { req->result = UV_ENOENT; return; }
		memset(&req->statbuf, 0, sizeof(req->statbuf)); req->statbuf.st_size = i->second.size(); req->statbuf.st_mode = S_IFREG | 0644; req->ptr = &req->statbuf; req->result = 0; return; }
	case 0: {
		bool have = fs->files.count(q.path) != 0;
		if (!have && !(q.flags & O_CREAT)) { req->result = UV_ENOENT; return; }
		if (have && (q.flags & O_CREAT) && (q.flags & O_EXCL)) { req->result = UV_EEXIST; return; }
		Bytes & b = fs->files[q.path]; if (q.flags & O_TRUNC) b.clear();
		Fd f; f.open = true; f.path = q.path; f.flags = q.flags; f.pos = 0; fs->fds.push_back(f); req->result = (ssize_t)fs->fds.size() - 1; return; }
	}
	if (q.fd < 3 || q.fd >= (int)fs->fds.size() || !fs->fds[q.fd].open) { req->result = UV_EBADF; return; }
	Fd & f = fs->fds[q.fd]; Bytes & b = fs->files[f.path];
	uint64_t off = q.off < 0 ? f.pos : (uint64_t)q.off;
	switch (q.kind) {
	case 1: f.open = false; req->result = 0; return;
	case 2: {
		if ((f.flags & O_ACCMODE) == O_WRONLY) { req->result = UV_EBADF; return; }
		uint64_t n = off < b.size() ? b.size() - off : 0; if (n > q.buf.len) n = q.buf.len;
		if (n) memcpy(q.buf.base, &b[off], n); req->result = n; if (q.off < 0) f.pos += n; return; }
	case 3: {
		if ((f.flags & O_ACCMODE) == O_RDONLY) { req->result = UV_EBADF; return; }
		if (off + q.buf.len > (64u << 20)) { req->result = UV_ENOSPC; return; }
		if (b.size() < off + q.buf.len) b.resize(off + q.buf.len);
		if (q.buf.len) memcpy(&b[off], q.buf.base, q.buf.len); req->result = q.buf.len; if (q.off < 0) f.pos += q.buf.len; return; }
	}
}
static int submit(uv_loop_t * l, uv_fs_t * req, int kind, const char * path, int flags, int fd, const uv_buf_t * b, int64_t off, uv_fs_cb cb)
{
	static const uv_fs_type ty[] = { UV_FS_OPEN, UV_FS_CLOSE, UV_FS_READ, UV_FS_WRITE, UV_FS_STAT };
	check_range(req, sizeof(*req), true, "file request made in freed memory");
	if (b && (kind == 2 || kind == 3)) check_range(b, sizeof(*b), false, "file request made with freed buffers");
	point(cb ? "file request" : "file call", l);
	void * data = req->data;
	{ RT r; Loop * L = find(l, false); if (cb && L->in_run >= 0 && L->in_run != cur) { mc::g_internal--; bad("event loop used by two threads at once"); } }
	req->type = UV_FS; req->fs_type = ty[kind]; req->result = 0; req->ptr = NULL; req->loop = l; req->cb = cb; req->path = NULL; req->data = data;
	RT * r = new (alloca(sizeof(RT))) RT; Rq * q = new Rq; q->req = req; q->kind = kind; if (path) q->path = path; q->flags = flags; q->fd = fd; q->off = off; q->id = ++rq_id; if (b) q->buf = *b; else { q->buf.base = NULL; q->buf.len = 0; } r->~RT();
	if (cb) {
		MC_NOTE("  thread %d asks %s off %lld len %zu", cur, opn[kind], (long long)off, q->buf.len);
		RT r2; find(l, false)->q.push_back(*q); delete q; return 0;
	}
	effect(*q, false); int res = (int)req->result; MC_NOTE("  thread %d %s = %d", cur, opn[kind], res);
	{ RT r2; delete q; }
	return res;
}
}
using namespace vs;

extern "C" {
int uv_mutex_init(uv_mutex_t * m) { M * x = (M *)m; x->magic = MM; x->owner = -1; x->count = 0; x->rec = 0; return 0; }
int uv_mutex_init_recursive(uv_mutex_t * m) { uv_mutex_init(m); ((M *)m)->rec = 1; return 0; }
void uv_mutex_destroy(uv_mutex_t * m) { M * x = mtx(m); point("lock destroy", m); if (x->owner >= 0) bad("lock destroyed while it is held"); for (int i = 0; i < nf; i++) if (F[i].st == MUTEX && F[i].obj == x) bad("lock destroyed while a thread waits for it"); x->magic = 0; }
void uv_mutex_lock(uv_mutex_t * m) { mtx(m); point("lock", m); m_lock(mtx(m)); }
int uv_mutex_trylock(uv_mutex_t * m) { mtx(m); point("try lock", m); M * x = mtx(m); if (x->owner >= 0 && x->owner != cur) return UV_EBUSY; if (x->owner == cur && !x->rec) return UV_EBUSY; m_lock(x); return 0; }
void uv_mutex_unlock(uv_mutex_t * m) { mtx(m); if (g_unlock) point("unlock", m); m_unlock(mtx(m)); }
int uv_cond_init(uv_cond_t * c) { ((C *)c)->magic = CM; return 0; }
void uv_cond_destroy(uv_cond_t * c) { C * x = cnd(c); point("signal destroy", c); for (int i = 0; i < nf; i++) if (F[i].st == COND && F[i].obj == c) bad("signal destroyed while a thread waits for it"); x->magic = 0; }
void uv_cond_signal(uv_cond_t * c)
{
	cnd(c); point("signal", c); cnd(c);
	int w[MAXF], n = 0; for (int i = 0; i < nf; i++) if (F[i].st == COND && F[i].obj == c) w[n++] = i;
	if (n) wake_cond(w[n > 1 ? mc::choose(n) : 0], false);
}
void uv_cond_broadcast(uv_cond_t * c) { cnd(c); point("broadcast", c); cnd(c); for (int i = 0; i < nf; i++) if (F[i].st == COND && F[i].obj == c) wake_cond(i, false); }
static int cwait(uv_cond_t * c, uv_mutex_t * m, bool timed, uint64_t ns)
{
	cnd(c); mtx(m); point(timed ? "timed wait" : "wait", c); cnd(c); M * x = mtx(m);
	if (x->owner != cur) bad("thread waits without holding the lock");
	if (x->count != 1) bad("thread waits while holding the lock more than once");
	x->owner = -1; x->count = 0; drop(x);
	bool to = false;
	if (timed && ns == 0) { to = true; point("zero wait", c); vt += 1000; }
	else {
		F[cur].st = COND; F[cur].obj = c; F[cur].deadline = timed ? vt + ns : 0; F[cur].timed_out = false; F[cur].doing = timed ? "timed wait" : "wait";
		MC_NOTE("  thread %d waits%s", cur, timed ? " (timed)" : "");
		block();
		F[cur].st = RUN; F[cur].deadline = 0; to = F[cur].timed_out;
	}
	m_lock(mtx(m));
	return to ? UV_ETIMEDOUT : 0;
}
void uv_cond_wait(uv_cond_t * c, uv_mutex_t * m) { cwait(c, m, false, 0); }
int uv_cond_timedwait(uv_cond_t * c, uv_mutex_t * m, uint64_t ns) { return cwait(c, m, true, ns); }
int uv_thread_create(uv_thread_t * t, uv_thread_cb fn, void * arg)
{
	int id = new_fiber(); F[id].cfn = fn; F[id].carg = arg; *t = (uv_thread_t)(id + 1);
	MC_NOTE("  thread %d starts thread %d", cur, id); point("after thread start", NULL); return 0;
}
int uv_thread_join(uv_thread_t * t) { int id = (int)*t - 1; if (id < 0 || id >= nf) bad("join of a thread that was not started"); vs::join(id); return 0; }
uv_thread_t uv_thread_self(void) { return (uv_thread_t)(cur + 1); }
int uv_thread_equal(const uv_thread_t * a, const uv_thread_t * b) { return *a == *b; }
uint64_t uv_hrtime(void) { vt += 1000; return vt; }
uint64_t uv_now(const uv_loop_t *) { return vt / 1000000; }
void uv_sleep(unsigned ms) { vt += ms * 1000000ull; point("sleep", NULL); }
const char * uv_strerror(int e) { static const char * n[] = { "error" }; static char b[64]; switch (e) { case UV_ENOENT: return "no such file or directory"; case UV_EEXIST: return "file already exists"; case UV_EBADF: return "bad file descriptor"; case UV_EIO: return "i/o error"; case UV_ENOSPC: return "no space left on device"; case UV_EBUSY: return "resource busy or locked"; case UV_EINVAL: return "invalid argument"; case UV_EACCES: return "permission denied"; } snprintf(b, sizeof(b), "Unknown system error %d", e); return b; }
const char * uv_err_name(int e) { return uv_strerror(e); }

uv_loop_t * uv_default_loop(void) { return &default_loop; }
int uv_loop_init(uv_loop_t * l) { memset(l, 0, sizeof(*l)); Loop * x = find(l, true); x->stop = false; x->in_run = -1; RT r; x->q.clear(); return 0; }
int uv_loop_close(uv_loop_t * l)
{
	Loop * x = find(l, false); point("loop close", l);
	if (x->in_run >= 0) bad("event loop closed while it runs");
	if (x->q.size()) return UV_EBUSY;
	RT r; for (size_t i = 0; i < loops->size(); i++) if ((*loops)[i] == x) { loops->erase(loops->begin() + i); delete x; break; } return 0;
}
int uv_loop_alive(const uv_loop_t * l) { point("loop alive", l); return find((uv_loop_t *)l, false)->q.size() ? 1 : 0; }
void uv_stop(uv_loop_t * l) { point("loop stop", l); find(l, false)->stop = true; }
struct InRun { Loop * l; InRun(Loop * x) : l(x) { if (l->in_run >= 0) bad("event loop run by two threads at once"); l->in_run = cur; } ~InRun() { l->in_run = -1; } };
int uv_run(uv_loop_t * l, uv_run_mode mode)
{
	point("loop run", l);
	Loop * L = find(l, false); InRun ir(L);
	int r = L->q.size() ? 1 : 0;
	while (r && !L->stop) {
		bool more = true;
		while (more && L->q.size()) {
			point("loop poll", l);
			int n = L->q.size() < 4 ? (int)L->q.size() : 4;
			int k = n <= 1 ? 0 : g_free_order ? mc::choose(n) : mc::dev_left() > 0 ? mc::choose_dev(n) : 0;
			uv_fs_t * req;
			{ RT * rt = new (alloca(sizeof(RT))) RT; Rq * q = new Rq(L->q[k]); L->q.erase(L->q.begin() + k); rt->~RT();
			  effect(*q, true); req = q->req; MC_NOTE("  thread %d completes %s #%llu = %lld", cur, opn[q->kind], (unsigned long long)q->id, (long long)req->result);
			  RT r2; delete q; }
			req->cb(req);
			more = L->stop && L->q.size() && mc::dev_left() > 0 ? mc::choose_dev(2) == 1 : false;
		}
		r = L->q.size() ? 1 : 0;
		if (mode != UV_RUN_DEFAULT) break;
	}
	L->stop = false;
	return r;
}
void uv_fs_req_cleanup(uv_fs_t * req)
{
	check_range(req, sizeof(*req), true, "cleanup of a freed file request");
	for (size_t i = 0; i < loops->size(); i++) for (size_t j = 0; j < (*loops)[i]->q.size(); j++) if ((*loops)[i]->q[j].req == req) bad("file request cleaned up while it is in flight");
}
int uv_fs_open(uv_loop_t * l, uv_fs_t * r, const char * p, int flags, int mode, uv_fs_cb cb) { return submit(l, r, 0, p, flags, -1, NULL, 0, cb); }
int uv_fs_close(uv_loop_t * l, uv_fs_t * r, uv_file f, uv_fs_cb cb) { return submit(l, r, 1, NULL, 0, f, NULL, 0, cb); }
int uv_fs_read(uv_loop_t * l, uv_fs_t * r, uv_file f, const uv_buf_t b[], unsigned n, int64_t off, uv_fs_cb cb) { if (n != 1) mc::fail("model: one buffer only"); return submit(l, r, 2, NULL, 0, f, b, off, cb); }
int uv_fs_write(uv_loop_t * l, uv_fs_t * r, uv_file f, const uv_buf_t b[], unsigned n, int64_t off, uv_fs_cb cb) { if (n != 1) mc::fail("model: one buffer only"); return submit(l, r, 3, NULL, 0, f, b, off, cb); }
int uv_fs_stat(uv_loop_t * l, uv_fs_t * r, const char * p, uv_fs_cb cb) { return submit(l, r, 4, p, 0, -1, NULL, 0, cb); }

// pthread calls of the code under test
int vs_pthread_mutexattr_init(pthread_mutexattr_t * a) { *(int *)a = 0; return 0; }
int vs_pthread_mutexattr_destroy(pthread_mutexattr_t * a) { return 0; }
int vs_pthread_mutexattr_settype(pthread_mutexattr_t * a, int k) { *(int *)a = k; return 0; }
int vs_pthread_mutex_init(pthread_mutex_t * m, const pthread_mutexattr_t * a) { uv_mutex_init(m); if (a && *(const int *)a == PTHREAD_MUTEX_RECURSIVE) ((M *)m)->rec = 1; return 0; }
int vs_pthread_mutex_destroy(pthread_mutex_t * m) { uv_mutex_destroy(m); return 0; }
int vs_pthread_mutex_lock(pthread_mutex_t * m) { if (!g_on) return 0; uv_mutex_lock(m); return 0; }
int vs_pthread_mutex_unlock(pthread_mutex_t * m) { if (!g_on) return 0; uv_mutex_unlock(m); return 0; }
int vs_pthread_mutex_trylock(pthread_mutex_t * m) { return uv_mutex_trylock(m) ? EBUSY : 0; }
int vs_pthread_cond_init(pthread_cond_t * c, const pthread_condattr_t *) { return uv_cond_init(c); }
int vs_pthread_cond_destroy(pthread_cond_t * c) { uv_cond_destroy(c); return 0; }
int vs_pthread_cond_signal(pthread_cond_t * c) { uv_cond_signal(c); return 0; }
int vs_pthread_cond_broadcast(pthread_cond_t * c) { uv_cond_broadcast(c); return 0; }
int vs_pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m) { uv_cond_wait(c, m); return 0; }
int vs_pthread_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, const struct timespec *) { mc::fail("model: pthread_cond_timedwait"); }
int vs_pthread_create(pthread_t * t, const pthread_attr_t *, void * (*fn)(void *), void * arg) { return uv_thread_create((uv_thread_t *)t, (uv_thread_cb)fn, arg); }
int vs_pthread_join(pthread_t t, void **) { return uv_thread_join((uv_thread_t *)&t); }
pthread_t vs_pthread_self(void) { return (pthread_t)(cur + 1); }
int vs_sched_yield(void) { point("yield", NULL); return 0; }
int vs_usleep(unsigned us) { vt += us * 1000ull; point("sleep", NULL); return 0; }
int vs_nanosleep(const struct timespec *, struct timespec *) { point("sleep", NULL); return 0; }
static void rng(const void * p, size_t n, bool w, void * pc)
{
	if (!n || !g_on || mc::g_internal) return;
	check_range(p, n, w, w ? "write of freed memory or outside an object" : "read of freed memory or outside an object");
	mem(p, 1, w, pc);
}
void * vs_memcpy(void * d, const void * s, size_t n) { void * pc = __builtin_return_address(0); rng(s, n, false, pc); rng(d, n, true, pc); return memcpy(d, s, n); }
void * vs_memmove(void * d, const void * s, size_t n) { void * pc = __builtin_return_address(0); rng(s, n, false, pc); rng(d, n, true, pc); return memmove(d, s, n); }
void * vs_memset(void * d, int c, size_t n) { void * pc = __builtin_return_address(0); rng(d, n, true, pc); return memset(d, c, n); }

// ------------------------------------------------------------------ compiler instrumentation
#define RA __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void * pc) { if (!g_on) return; Fiber & f = F[cur]; if (f.depth < 64) { f.calls[f.depth] = RA; f.fa[f.depth] = (unsigned char *)__builtin_frame_address(0); } f.depth++; }
void __tsan_func_exit() { if (!g_on) return; Fiber & f = F[cur]; if (f.depth > 0) f.depth--;
	if (f.nmarks && f.depth > 0 && f.depth <= 64) { uint64_t lo = (uint64_t)f.fa[f.depth - 1] >> 3; for (int k = 0; k < f.nmarks; ) if (f.marks[k] < lo) { f.marks[k] = f.marks[--f.nmarks]; } else k++; } }
#define RW(n) void __tsan_read##n(void * p) { mem(p, n, false, RA); } void __tsan_write##n(void * p) { mem(p, n, true, RA); } \
	void __tsan_volatile_read##n(void * p) { mem(p, n, false, RA); } void __tsan_volatile_write##n(void * p) { mem(p, n, true, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#define RU(n) void __tsan_unaligned_read##n(void * p) { mem(p, n, false, RA); } void __tsan_unaligned_write##n(void * p) { mem(p, n, true, RA); }
RU(2) RU(4) RU(8) RU(16)
void __tsan_read_range(void * p, size_t n) { if (n) mem(p, n, false, RA); }
void __tsan_write_range(void * p, size_t n) { if (n) mem(p, n, true, RA); }
void __tsan_vptr_update(void ** p, void * v) { mem(p, 8, true, RA); }
void __tsan_vptr_read(void ** p) { mem(p, 8, false, RA); }
#define AT(N, T) \
	T __tsan_atomic##N##_load(const volatile T * p, int) { mem((void *)p, sizeof(T), false, RA, true); return *p; } \
	void __tsan_atomic##N##_store(volatile T * p, T v, int) { mem((void *)p, sizeof(T), true, RA, true); *p = v; } \
	T __tsan_atomic##N##_exchange(volatile T * p, T v, int) { mem((void *)p, sizeof(T), true, RA, true); T o = *p; *p = v; return o; } \
	T __tsan_atomic##N##_fetch_add(volatile T * p, T v, int) { mem((void *)p, sizeof(T), true, RA, true); T o = *p; *p = o + v; return o; } \
	T __tsan_atomic##N##_fetch_sub(volatile T * p, T v, int) { mem((void *)p, sizeof(T), true, RA, true); T o = *p; *p = o - v; return o; } \
	T __tsan_atomic##N##_fetch_and(volatile T * p, T v, int) { mem((void *)p, sizeof(T), true, RA, true); T o = *p; *p = o & v; return o; } \
	T __tsan_atomic##N##_fetch_or(volatile T * p, T v, int) { mem((void *)p, sizeof(T), true, RA, true); T o = *p; *p = o | v; return o; } \
	T __tsan_atomic##N##_fetch_xor(volatile T * p, T v, int) { mem((void *)p, sizeof(T), true, RA, true); T o = *p; *p = o ^ v; return o; } \
	bool __tsan_atomic##N##_compare_exchange_strong(volatile T * p, T * e, T v, int, int) { mem((void *)p, sizeof(T), true, RA, true); if (*p == *e) { *p = v; return true; } *e = *p; return false; } \
	bool __tsan_atomic##N##_compare_exchange_weak(volatile T * p, T * e, T v, int, int) { mem((void *)p, sizeof(T), true, RA, true); if (*p == *e) { *p = v; return true; } *e = *p; return false; } \
	T __tsan_atomic##N##_compare_exchange_val(volatile T * p, T e, T v, int, int) { mem((void *)p, sizeof(T), true, RA, true); T o = *p; if (o == e) *p = v; return o; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}

void * operator new(size_t n) { if (g_on && !mc::g_internal) return arena_new(n); void * p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void * operator new[](size_t n) { return operator new(n); }
void * operator new(size_t n, const std::nothrow_t &) noexcept { return operator new(n); }
void * operator new[](size_t n, const std::nothrow_t &) noexcept { return operator new(n); }
void operator delete(void * p) noexcept { if (!p) return; if (A && in_arena(p)) arena_delete(p); else free(p); }
void operator delete[](void * p) noexcept { operator delete(p); }
void operator delete(void * p, size_t) noexcept { operator delete(p); }
void operator delete[](void * p, size_t) noexcept { operator delete(p); }

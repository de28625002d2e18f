#include "mc.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <set>
#include <map>
#include <algorithm>

namespace mc {

void (*exec_hook)(const std::function<void()> & body) = NULL;

static const int MAXTRAIL = 1 << 14;
static const int MAXUNITS = 1 << 14;
static const int MAXSLOTS = 64;

struct Pt { uint16_t n, v; uint8_t dev; };
struct Slot {
	volatile int unit;            // unit being explored, -1 none
	volatile int len;             // trail length
	Pt trail[MAXTRAIL];
	volatile uint64_t beat;
	volatile int failed;
	char msg[8192];
	volatile int naux;            // data of the virtual scheduler that replays need (program points of shared memory)
	uint64_t aux[2048];
};
struct UStat {
	volatile int state;           // 0 todo, 1 running, 2 done, 3 violated, 4 capped
	volatile uint64_t execs, steps, states, outcomes, maxlen, restarts, points;
};
struct Shm {
	volatile int next;
	volatile int stop;
	UStat us[MAXUNITS];
	Slot slot[MAXSLOTS];
};
static Shm * shm;
static Slot * me;

struct Unit { std::string prop, name; std::function<void()> body; Opt opt; };
static std::vector<Unit> & units() { static std::vector<Unit> u; return u; }

static bool g_thorough = false;
static uint64_t g_seed = 1;
static double g_budget = 1e9;
static double g_t0;
static bool g_trace = false;
static FILE * g_tracef = NULL;
static bool g_replay = false;
static int g_pos, g_used, g_bound;
static bool g_restart;
static uint64_t g_steps, g_execs;

int g_internal = 0;
struct Int { Int() { g_internal++; } ~Int() { g_internal--; } };
uint64_t * aux(int & n, int & cap) { n = me->naux; cap = 2048; return me->aux; }
void aux_grow(int n) { me->naux = n; }

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct Set {  // open addressing set of nonzero 64 bit values
	std::vector<uint64_t> t; size_t n;
	Set() : t(1 << 10, 0), n(0) {}
	void clear() { t.assign(1 << 10, 0); n = 0; }
	void add(uint64_t h) {
		if (!h) h = 1;
		if (n * 2 > t.size()) { std::vector<uint64_t> o(t.size() * 2, 0); o.swap(t); n = 0; for (size_t i = 0; i < o.size(); i++) if (o[i]) add(o[i]); }
		size_t m = t.size() - 1, i = (h * 0x9e3779b97f4a7c15ULL >> 20) & m;
		while (t[i] && t[i] != h) i = (i + 1) & m;
		if (!t[i]) { t[i] = h; n++; }
	}
};
static Set g_states, g_outcomes;

static int choose_(int n, bool dev)
{
	if (n <= 1) return 0;
	if (n > 65535) { fprintf(stderr, "choice too wide\n"); _exit(9); }
	if (g_pos >= MAXTRAIL - 1) fail("execution did not end within %d choices (livelock)", MAXTRAIL);
	Pt & p = me->trail[g_pos];
	if (g_pos < me->len) {
		if (p.n != n || p.dev != (dev ? 1 : 0)) {
			snprintf(me->msg, sizeof(me->msg), "NONDETERMINISM: choice %d had %d answers, now %d", g_pos, p.n, n);
			me->failed = 9; _exit(9);
		}
	} else {
		p.n = n; p.v = 0; p.dev = dev ? 1 : 0;
		me->len = g_pos + 1;
	}
	g_pos++;
	if (dev && p.v) g_used++;
	return p.v;
}
int choose(int n) { return choose_(n, false); }
int choose_dev(int n) { return choose_(n, true); }
int dev_left() { return g_bound - g_used; }
void step(uint64_t n) { g_steps += n; }
void state(uint64_t h) { Int i; g_states.add(h); }
void outcome(uint64_t h) { Int i; g_outcomes.add(h); }
bool tracing() { return g_trace; }
bool thorough() { return g_thorough; }
uint64_t seed() { return g_seed; }
uint64_t exec_no() { return g_execs; }
void restart_unit() { g_restart = true; }

std::string strf(const char * fmt, ...)
{
	char b[4096]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof(b), fmt, a); va_end(a); return b;
}
std::string hex(const void * p, size_t n)
{
	std::string s; for (size_t i = 0; i < n; i++) s += strf("%02x", ((const unsigned char *)p)[i]); return s;
}
void note(const char * fmt, ...)
{
	if (!g_trace || !g_tracef) return;
	Int in;
	va_list a; va_start(a, fmt); vfprintf(g_tracef, fmt, a); va_end(a);
	fputc('\n', g_tracef); fflush(g_tracef);
}
void fail(const char * fmt, ...)
{
	va_list a; va_start(a, fmt); vsnprintf(me->msg, sizeof(me->msg), fmt, a); va_end(a);
	me->failed = 1;
	if (g_trace && g_tracef) { fprintf(g_tracef, "FAIL: %s\n", me->msg); fflush(g_tracef); }
	_exit(3);
}
void unit(const std::string & prop, const std::string & name, std::function<void()> body, Opt o)
{
	Unit u; u.prop = prop; u.name = name; u.body = body; u.opt = o; units().push_back(u);
}

static bool advance(Slot * s, int bound)
{
	int cost = 0; // deviations used by choices before index i
	for (int i = 0; i < s->len; i++) if (s->trail[i].dev && s->trail[i].v) cost++;
	for (int i = s->len - 1; i >= 0; i--) {
		Pt & p = s->trail[i];
		if (p.dev && p.v) cost--;
		if (p.v + 1 < p.n && (!p.dev || cost + 1 <= bound)) { p.v++; s->len = i + 1; return true; }
	}
	return false;
}

static void one(Unit & u)
{
	g_pos = 0; g_used = 0; g_bound = u.opt.dev;
	try { if (exec_hook) exec_hook(u.body); else u.body(); }
	catch (const std::exception & e) { fail("unexpected exception: %s", e.what()); }
	catch (...) { fail("unexpected exception"); }
}

static void explore(int ui)
{
	Unit & u = units()[ui]; UStat & st = shm->us[ui];
	me->unit = ui; me->naux = 0;
	g_states.clear(); g_outcomes.clear(); g_steps = 0; g_execs = 0;
	uint64_t total = 0;
	bool capped = false;
again:
	me->len = 0; g_restart = false;
	for (;;) {
		one(u);
		if (g_pos < me->len) { snprintf(me->msg, sizeof(me->msg), "NONDETERMINISM: execution ended after %d of %d choices", g_pos, me->len); me->failed = 9; _exit(9); }
		g_execs++; total++; me->beat++;
		st.execs = total; st.steps = g_steps;
		if ((uint64_t)me->len > st.maxlen) st.maxlen = me->len;
		if (g_restart) { st.restarts++; g_execs = 0; if (st.restarts > 200) { capped = true; break; } goto again; }
		if ((total & 255) == 0 && (now() - g_t0 > g_budget || shm->stop)) { capped = true; break; }
		if (!advance(me, u.opt.dev)) break;
	}
	st.steps = g_steps; st.states = g_states.n; st.outcomes = g_outcomes.n; st.points = g_pos;
	st.state = capped ? 4 : 2;
	me->unit = -1;
}

static std::string jstr(const std::string & s)
{
	std::string o = "\"";
	for (size_t i = 0; i < s.size(); i++) {
		unsigned char c = s[i];
		if (c == '"' || c == '\\') { o += '\\'; o += c; }
		else if (c < 32 || c > 126) o += strf("\\u%04x", c);
		else o += c;
	}
	return o + "\"";
}
static std::string slurp(const std::string & p, size_t max = 200000)
{
	std::string s; FILE * f = fopen(p.c_str(), "rb"); if (!f) return s;
	char b[4096]; size_t n; while ((n = fread(b, 1, sizeof(b), f)) > 0 && s.size() < max) s.append(b, n);
	fclose(f); return s;
}
static std::string asan_line(const std::string & log)
{
	size_t p = log.find("ERROR: ");
	if (p == std::string::npos) p = log.find("runtime error");
	std::string m;
	if (p != std::string::npos) { size_t e = log.find('\n', p); m = log.substr(p, e - p); }
	size_t s = log.find("SUMMARY:");
	if (s != std::string::npos) { size_t e = log.find('\n', s); m += " | " + log.substr(s, e - s); }
	// first frames
	size_t q = log.find("    #0", p == std::string::npos ? 0 : p);
	for (int i = 0; i < 6 && q != std::string::npos; i++) { size_t e = log.find('\n', q); m += " |" + log.substr(q + 3, std::min<size_t>(e - q - 3, 160)); q = e == std::string::npos ? e : log.find("    #", e); }
	if (m.empty()) m = log.substr(0, 600);
	return m;
}

static std::string g_dir = ".";

// run one execution in a child with tracing. returns 0 ok, 1 violation, 2 hang, 9 nondeterminism
static int replay_child(int ui, const std::vector<Pt> & tr, std::string & msg, std::string & trace, double limit, const std::vector<uint64_t> & ax = std::vector<uint64_t>())
{
	Slot * s = &shm->slot[MAXSLOTS - 1];
	s->unit = ui; s->len = (int)tr.size(); s->failed = 0; s->msg[0] = 0;
	for (size_t i = 0; i < tr.size(); i++) s->trail[i] = tr[i];
	s->naux = (int)ax.size(); for (size_t i = 0; i < ax.size(); i++) s->aux[i] = ax[i];
	std::string tf = g_dir + "/trace.txt", ef = g_dir + "/replay.err";
	unlink(tf.c_str());
	pid_t pid = fork();
	if (!pid) {
		setpgid(0, 0);
		int fd = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(fd, 2); dup2(fd, 1);
		me = s; g_trace = true; g_replay = true; g_tracef = fopen(tf.c_str(), "w");
		one(units()[ui]);
		_exit(0);
	}
	double t = now(); int st = 0; int rc = -1;
	for (;;) {
		pid_t r = waitpid(pid, &st, WNOHANG);
		if (r == pid) break;
		if (now() - t > limit) { kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &st, 0); rc = 2; msg = strf("no end after %.0f s (hang)", limit); break; }
		usleep(2000);
	}
	trace = slurp(tf, 60000);
	if (rc == 2) return 2;
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
	if (s->failed == 1) { msg = s->msg; return 1; }
	if (s->failed == 9) { msg = s->msg; return 9; }
	msg = WIFSIGNALED(st) ? strf("killed by signal %d", WTERMSIG(st)) : strf("exit %d", WEXITSTATUS(st));
	std::string log = slurp(ef);
	if (log.size()) msg += ": " + asan_line(log);
	return 1;
}

struct Viol { int ui; std::vector<Pt> tr; std::string msg, trace; std::vector<uint64_t> ax; };

int run(int argc, char ** argv, void (*reg)())
{
	std::string prop, out = "result.json", replay, only; int jobs = 8; bool list = false; double hang = 20; int maxv = 1;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		if (a == "--prop") prop = argv[++i];
		else if (a == "--out") out = argv[++i];
		else if (a == "--dir") g_dir = argv[++i];
		else if (a == "--tier") g_thorough = std::string(argv[++i]) == "thorough";
		else if (a == "--seed") g_seed = strtoull(argv[++i], 0, 10);
		else if (a == "--budget") g_budget = atof(argv[++i]);
		else if (a == "--jobs") jobs = atoi(argv[++i]);
		else if (a == "--replay") replay = argv[++i];
		else if (a == "--unit") only = argv[++i];
		else if (a == "--hang") hang = atof(argv[++i]);
		else if (a == "--maxviol") maxv = atoi(argv[++i]);
		else if (a == "--list") list = true;
	}
	g_t0 = now();
	reg();
	std::vector<Unit> & U = units();
	if (prop.size()) { std::vector<Unit> k; for (size_t i = 0; i < U.size(); i++) if (U[i].prop == prop) k.push_back(U[i]); U.swap(k); }
	if (only.size()) { std::vector<Unit> k; for (size_t i = 0; i < U.size(); i++) if (U[i].name == only) k.push_back(U[i]); U.swap(k); }
	if (list) { for (size_t i = 0; i < U.size(); i++) printf("%s %s\n", U[i].prop.c_str(), U[i].name.c_str()); return 0; }
	if (U.empty() || U.size() > (size_t)MAXUNITS) { fprintf(stderr, "no units (or too many: %zu)\n", U.size()); return 2; }
	shm = (Shm *)mmap(NULL, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (shm == MAP_FAILED) return 2;
	for (int i = 0; i < MAXSLOTS; i++) shm->slot[i].unit = -1;

	if (replay.size()) {   // file: unit name, then "n v dev" triples
		FILE * f = fopen(replay.c_str(), "r"); if (!f) { perror("replay"); return 2; }
		char name[4096]; if (!fgets(name, sizeof(name), f)) return 2; name[strcspn(name, "\n")] = 0;
		std::vector<Pt> tr; std::vector<uint64_t> ax; int na = 0; if (fscanf(f, "aux %d", &na) == 1) for (int i = 0; i < na; i++) { unsigned long long x; if (fscanf(f, "%llu", &x) == 1) ax.push_back(x); } int n, v, d; while (fscanf(f, "%d %d %d", &n, &v, &d) == 3) { Pt p; p.n = n; p.v = v; p.dev = d; tr.push_back(p); }
		fclose(f);
		for (size_t i = 0; i < U.size(); i++) if (U[i].name == name) {
			std::string msg, trace; int rc = replay_child((int)i, tr, msg, trace, 120, ax);
			printf("%s", trace.c_str()); printf("%s %s\n", rc == 0 ? "PASS" : "FAIL", msg.c_str());
			return rc == 0 ? 0 : 1;
		}
		fprintf(stderr, "no unit %s\n", name); return 2;
	}

	std::vector<Viol> viols; std::string internal;
	int nslots = std::min(jobs, MAXSLOTS - 1);
	std::vector<pid_t> pid(nslots, 0); std::vector<uint64_t> lastbeat(nslots, 0); std::vector<double> lastt(nslots, 0);
	std::map<int, int> retried; std::map<int, std::string> failkey;
	std::vector<int> requeue;
	int live = 0;
	bool stopping = false;
	for (;;) {
		for (int k = 0; k < nslots; k++) {
			if (!pid[k] && !stopping && ((shm->next < (int)U.size() && now() - g_t0 <= g_budget) || requeue.size())) {
				Slot * s = &shm->slot[k]; s->unit = -1; s->failed = 0; s->msg[0] = 0; s->len = 0;
				int forced = -1; if (requeue.size()) { forced = requeue.back(); requeue.pop_back(); }
				pid_t p = fork();
				if (!p) {
					setpgid(0, 0);
					std::string ef = g_dir + strf("/worker%d.err", k);
					int fd = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644); dup2(fd, 2); dup2(fd, 1); close(fd);
					me = s;
					if (forced >= 0) explore(forced);
					for (;;) {
						if (shm->stop || now() - g_t0 > g_budget) break;
						int ui = __sync_fetch_and_add(&shm->next, 1);
						if (ui >= (int)U.size()) break;
						explore(ui);
					}
					_exit(0);
				}
				pid[k] = p; lastbeat[k] = s->beat; lastt[k] = now(); live++;
			}
		}
		if (!live) break;
		if (stopping) { // a violation is at hand: nothing else is needed from the other workers
			for (int k = 0; k < nslots; k++) if (pid[k]) { int st; kill(-pid[k], SIGKILL); kill(pid[k], SIGKILL); waitpid(pid[k], &st, 0); pid[k] = 0; live--; }
			break;
		}
		usleep(5000);
		for (int k = 0; k < nslots && !stopping; k++) if (pid[k]) {
			Slot * s = &shm->slot[k]; int st; pid_t r = waitpid(pid[k], &st, WNOHANG);
			bool hung = false;
			if (r == 0) {
				if (s->beat != lastbeat[k]) { lastbeat[k] = s->beat; lastt[k] = now(); continue; }
				if (now() - lastt[k] < hang || s->unit < 0) continue;
				kill(-pid[k], SIGKILL); kill(pid[k], SIGKILL); waitpid(pid[k], &st, 0); hung = true;
			}
			pid[k] = 0; live--;
			if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
			// a violation, crash or hang in unit s->unit
			Viol v; v.ui = s->unit;
			if (v.ui < 0) { internal = strf("worker died outside a unit, status %x: ", st) + slurp(g_dir + strf("/worker%d.err", k), 2000); stopping = true; shm->stop = 1; continue; }
			for (int i = 0; i < s->len; i++) v.tr.push_back(s->trail[i]);
			for (int i = 0; i < s->naux; i++) v.ax.push_back(s->aux[i]);
			std::string first = s->msg;
			if (s->failed == 9) { internal = U[v.ui].name + ": " + first; stopping = true; shm->stop = 1; continue; }
			int rc = replay_child(v.ui, v.tr, v.msg, v.trace, hung ? 30 : 60, v.ax);
			if (rc == 1 || rc == 2) {
				std::string m2, t2; int rc2 = replay_child(v.ui, v.tr, m2, t2, hung ? 30 : 60, v.ax);   // replay again: must fail again
				if (rc2 == 1 || rc2 == 2) {
					shm->us[v.ui].state = 3; viols.push_back(v);
					if ((int)viols.size() >= maxv) { shm->stop = 1; stopping = true; }
					continue;
				}
			}
			// A single execution in a fresh process passes.  If the whole unit, explored again from its start in a
			// fresh process, fails at the very same execution, the failure is a deterministic function of the
			// executions before it (state that survives an operation sequence): that is a violation too.
			std::string key = first + "/" + strf("%llu/", (unsigned long long)shm->us[v.ui].execs);
			for (size_t i = 0; i < v.tr.size(); i++) key += strf("%d,", v.tr[i].v);
			if (!hung && failkey.count(v.ui) && failkey[v.ui] == key) {
				v.msg = (first.size() ? first : asan_line(slurp(g_dir + strf("/worker%d.err", k)))) + " [reproduced twice by exploring the unit from its start; needs the executions before it]";
				shm->us[v.ui].state = 3; viols.push_back(v);
				if ((int)viols.size() >= maxv) { shm->stop = 1; stopping = true; }
				continue;
			}
			failkey[v.ui] = key;
			if (retried[v.ui]++ < 3) { shm->us[v.ui].execs = shm->us[v.ui].steps = 0; requeue.push_back(v.ui); continue; }
			internal = U[v.ui].name + ": failure does not replay: " + first + " / " + v.msg + " / " + slurp(g_dir + strf("/worker%d.err", k), 3000);
			stopping = true; shm->stop = 1;
		}
	}

	// samples: trace the first execution of up to 4 units spread over the list, plus its choices
	std::string samples; int ns = 0;
	if (viols.empty() && internal.empty())
	for (int q = 0; q < 4 && q < (int)U.size(); q++) {
		int ui = (int)((uint64_t)q * U.size() / 4); if (U.size() < 4) ui = q;
		std::string msg, trace; std::vector<Pt> none;
		// walk a little into the space: take the last answer at the first few choices
		replay_child(ui, none, msg, trace, 20);
		std::vector<Pt> tr; Slot * s = &shm->slot[MAXSLOTS - 1]; int devs = 0;
		for (int i = 0; i < s->len && i < 3; i++) { Pt p = s->trail[i]; p.v = p.n - 1; if (p.dev) { if (devs < U[ui].opt.dev) devs++; else p.v = 0; } tr.push_back(p); std::string m, t; if (i + 1 < s->len) { std::vector<Pt> t2 = tr; replay_child(ui, t2, m, t, 20); if (t.size()) trace = t; } }
		if (trace.size() > 1500) trace.resize(1500);
		samples += (ns++ ? "," : "") + std::string("{\"unit\":") + jstr(U[ui].name) + ",\"trace\":" + jstr(trace) + "}";
	}
	uint64_t ex = 0, steps = 0, states = 0, outs = 0, maxlen = 0, done = 0, capped = 0; std::string ul;
	for (size_t i = 0; i < U.size(); i++) {
		UStat & s = shm->us[i]; ex += s.execs; steps += s.steps; states += s.states; outs += s.outcomes; if (s.maxlen > maxlen) maxlen = s.maxlen;
		if (s.state == 2) done++; else capped++;
		if (U.size() <= 40 || s.state != 2)
			ul += (ul.size() ? "," : "") + std::string("{\"name\":") + jstr(U[i].name) + strf(",\"dev\":%d,\"executions\":%llu,\"transitions\":%llu,\"states\":%llu,\"outcomes\":%llu,\"choices\":%llu,\"complete\":%s}", U[i].opt.dev,
				(unsigned long long)s.execs, (unsigned long long)s.steps, (unsigned long long)s.states, (unsigned long long)s.outcomes, (unsigned long long)s.maxlen, s.state == 2 ? "true" : "false");
	}
	FILE * f = fopen(out.c_str(), "w"); if (!f) { perror("out"); return 2; }
	fprintf(f, "{\"units\":%zu,\"complete\":%llu,\"incomplete\":%llu,\"executions\":%llu,\"transitions\":%llu,\"states\":%llu,\"outcomes\":%llu,\"max_choices\":%llu,\"wall\":%.2f,\n\"unit_list\":[%s],\n\"samples\":[%s],\n\"internal\":%s,\n\"violations\":[",
		U.size(), (unsigned long long)done, (unsigned long long)capped, (unsigned long long)ex, (unsigned long long)steps, (unsigned long long)states, (unsigned long long)outs, (unsigned long long)maxlen, now() - g_t0, ul.c_str(), samples.c_str(), jstr(internal).c_str());
	for (size_t i = 0; i < viols.size(); i++) {
		std::string tr; for (size_t j = 0; j < viols[i].tr.size(); j++) tr += strf("%s[%d,%d,%d]", j ? "," : "", viols[i].tr[j].n, viols[i].tr[j].v, viols[i].tr[j].dev);
		std::string axs; for (size_t j = 0; j < viols[i].ax.size(); j++) axs += strf("%s%llu", j ? "," : "", (unsigned long long)viols[i].ax[j]);
		fprintf(f, "%s{\"unit\":%s,\"message\":%s,\"aux\":[%s],\"trail\":[%s],\"trace\":%s}", i ? "," : "", jstr(U[viols[i].ui].name).c_str(), jstr(viols[i].msg).c_str(), axs.c_str(), tr.c_str(), jstr(viols[i].trace).c_str());
	}
	fprintf(f, "]}\n"); fclose(f);
	if (internal.size()) { fprintf(stderr, "internal: %s\n", internal.c_str()); return 2; }
	return viols.size() ? 1 : 0;
}
}

// C22 dates, C23 durations, C24 queues, C25 narrowing, C26 directories, files and variables, C27 joining, C28 audio timing, C29 error objects
typedef unsigned char BYTE;
#include "mc.h"
#include <mgcore.h>
#include <mg/media/fixed_queue.h>
#include <mg/media/media_queue.h>
#include <mg/media/hnano.h>
#define MAX_STREAM 16
#include <mg/media/aac_time_fix.h>
#include <mg/media/MediaJoin.h>
#include <deque>
#include <math.h>
#include <time.h>
#include <sys/syscall.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace mg::core;
using mc::strf; using mc::choose;
typedef std::vector<unsigned char> Bytes;
static int D(int quick, int deep) { return mc::thorough() ? deep : quick; }
static std::string str(const Cstring & s) { const char * p = s.operator char *(); return p ? std::string(p) : std::string("(null)"); }

// ---------------------------------------------------------------- C22
static bool fake; static timespec fake_ts;
extern "C" int clock_gettime(clockid_t id, struct timespec * ts) noexcept { if (fake && id == CLOCK_REALTIME) { *ts = fake_ts; return 0; } return (int)syscall(SYS_clock_gettime, id, ts); }
extern "C" time_t time(time_t * t) noexcept { timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
// civil date of a day number, independent of the C library
static int64_t days(int64_t y, int m, int d) { y -= m <= 2; int64_t era = (y >= 0 ? y : y - 399) / 400; int64_t yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + doe - 719468; }
static int mdays(int y, int m) { static const int d[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; return m == 2 && (y % 4 == 0 && (y % 100 || y % 400 == 0)) ? 29 : d[m - 1]; }
struct Zone { const char * tz; int minutes; };
static const Zone zones[] = { { "UTC0", 0 }, { "XXX-1", 60 }, { "XXX+5", -300 }, { "XXX-5:30", 330 }, { "XXX+3:30", -210 }, { "XXX-13", 780 }, { "XXX+12", -720 } };
static std::string offs(int m) { if (!m) return "Z"; int a = abs(m); return strf("%c%02d:%02d", m < 0 ? '-' : '+', a / 60, a % 60); }
struct Fields { int y, mo, d, h, mi, s, ms; };
static Fields fields(bool small) { static const int ys[] = { 1970, 2000, 2016, 1904, 1900, 1969, 2038, 2100, 2399 }; Fields f; f.y = ys[choose(small ? 4 : 9)]; f.mo = small ? 1 + 11 * choose(2) : 1 + choose(12); int dd[] = { 1, 9, 10, 28, mdays(f.y, f.mo) }; f.d = dd[small ? 4 * choose(2) : choose(5)]; int t = choose(small ? 2 : 4); static const int hs[] = { 0, 23, 9, 12 }, mis[] = { 0, 59, 8, 30 }; f.h = hs[t]; f.mi = mis[t]; f.s = mis[t]; static const int ms[] = { 0, 999, 7, 45 }; f.ms = ms[t]; return f; }
static int64_t total(const Fields & f) { return days(f.y, f.mo, f.d) * 86400000LL + f.h * 3600000LL + f.mi * 60000 + f.s * 1000 + f.ms; }
static std::string iso(const Fields & f) { return strf("%04d-%02d-%02dT%02d:%02d:%02d.%03d", f.y, f.mo, f.d, f.h, f.mi, f.s, f.ms); }
static void setzone(const Zone & z) { setenv("TZ", z.tz, 1); tzset(); }
static bool same(const SYSTEMTIME & s, const Fields & f) { return s.wYear == f.y && s.wMonth == f.mo && s.wDay == f.d && s.wHour == f.h && s.wMinute == f.mi && s.wSecond == f.s && s.wMilliseconds == f.ms; }
static void dates_now()
{
	const Zone & z = zones[choose(7)]; bool local = choose(2); Fields f = fields(false); mc::step();
	if (f.y < 1970) return;
	setzone(z); fake = true; int64_t t = total(f) - (local ? z.minutes * 60000LL : 0); fake_ts.tv_sec = (t - f.ms) / 1000; fake_ts.tv_nsec = f.ms * 1000000L + 123456;
	if (t < 0) { fake = false; return; }
	Ctime n(local); std::string x = str(n.ToXml()), w = iso(f) + offs(local ? z.minutes : 0); const SYSTEMTIME s = n.get_Time(); int64_t tm = n.TotalMilliseconds(), off = n.GetUTCOffset(); std::string dd = str(n.ToDateString()), tt = str(n.ToTimeString());
	int64_t since1904 = n.Seconds(&Ctime(1904, 1, 1).get_Time()); fake = false;
	MC_CHECK(same(s, f), "%s in %s: fields %d-%d-%d %d:%d:%d.%d", w.c_str(), z.tz, s.wYear, s.wMonth, s.wDay, s.wHour, s.wMinute, s.wSecond, s.wMilliseconds);
	MC_CHECK(x == w, "%s in %s is written %s", w.c_str(), z.tz, x.c_str());
	MC_CHECK(tm == t, "%s in %s: %lld ms since the epoch, expected %lld", w.c_str(), z.tz, (long long)tm, (long long)t);
	MC_CHECK(off == (local ? z.minutes : 0), "offset in %s is %lld", z.tz, (long long)off);
	MC_CHECK(dd + "T" + tt == iso(f).substr(0, 19), "date %s time %s, expected %s", dd.c_str(), tt.c_str(), iso(f).c_str());
	MC_CHECK(since1904 == (total(f) - f.ms - days(1904, 1, 1) * 86400000LL) / 1000, "%s: %lld seconds since 1904", w.c_str(), (long long)since1904);
	mc::outcome(mc::H().s(w).h);
}
static void dates_dst()
{
	// a zone with summer time, instants around both changes of 2016 (Mar 27 and Oct 30, 01:00 UTC)
	static const int64_t ch[] = { 1459040400, 1477789200 }; static const int dt[] = { -7201, -3601, -3600, -1, 0, 1, 3599, 3600, 7200, 86400 }; int c = choose(2), k = choose(10); int64_t t = ch[c] + dt[k];
	setenv("TZ", "CET-1CEST,M3.5.0,M10.5.0/3", 1); tzset(); fake = true; fake_ts.tv_sec = t; fake_ts.tv_nsec = 5000000; Ctime n(true); std::string x = str(n.ToXml()); int64_t tm = n.TotalMilliseconds(); fake = false; mc::step();
	int off = (c == 0) == (dt[k] >= 0) ? 120 : 60; int64_t l = t + off * 60; int64_t sod = l % 86400; int64_t day = l / 86400; int y = 2016, m = 1; while (days(y, m, 1) + mdays(y, m) <= day) m++; Fields f = { y, m, (int)(day - days(y, m, 1) + 1), (int)(sod / 3600), (int)(sod / 60 % 60), (int)(sod % 60), 5 };
	MC_CHECK(x == iso(f) + offs(off), "%lld is written %s, expected %s%s", (long long)t, x.c_str(), iso(f).c_str(), offs(off).c_str()); MC_CHECK(tm == t * 1000 + 5, "milliseconds since the epoch"); mc::outcome(mc::H().s(x).h);
}
static void dates_text()
{
	const Zone & z = zones[choose(7)]; bool local = choose(2); Fields f = fields(false); setzone(z); mc::step();
	Ctime * p; int how = choose(3);
	// another object of different content lies at the same place before
	alignas(Ctime) unsigned char mem[sizeof(Ctime)]; memset(mem, choose(2) ? 0xa5 : 0, sizeof mem);
	if (how == 0) p = new (mem) Ctime(strf("%04d-%02d-%02d %02d:%02d:%02d.%03d", f.y, f.mo, f.d, f.h, f.mi, f.s, f.ms).c_str(), local);
	else if (how == 1) { f.ms = 0; p = new (mem) Ctime(strf("%04d/%02d/%02d %02d-%02d-%02d", f.y, f.mo, f.d, f.h, f.mi, f.s).c_str(), local, "%4d/%2d/%2d %2d-%2d-%2d"); }
	else { f.h = f.mi = f.s = f.ms = 0; local = false; p = new (mem) Ctime((uint16_t)f.y, (uint16_t)f.mo, (uint16_t)f.d); }
	std::string w = iso(f) + offs(local ? z.minutes : 0), x = str(p->ToXml());
	MC_CHECK(same(p->get_Time(), f), "%s: wrong fields", w.c_str()); MC_CHECK(x == w, "%s is written %s", w.c_str(), x.c_str());
	int64_t t = total(f) - (local ? z.minutes * 60000LL : 0); MC_CHECK(p->TotalMilliseconds() == t, "%s: %lld ms since the epoch, expected %lld", w.c_str(), (long long)p->TotalMilliseconds(), (long long)t);
	MC_CHECK(p->AddMilliSeconds(86400000LL) == t + 86400000LL && p->AddMilliSeconds(-5) == t - 5, "adding milliseconds");
	MC_CHECK(str(p->get_MillisecondsString()) == strf("%03d", f.ms), "milliseconds text");
	mc::outcome(mc::H().s(w).u(how).h);
}
// a local date from text in a zone with summer time (no hour that is missing or repeated), whatever the season of now
static void dates_dst_text()
{
	Fields f = { 2016, 1 + choose(12), 1 + 27 * choose(2), choose(2) ? 12 : 0, 30, 15, 250 }; if (f.mo == 3 && f.d == 28 && f.h == 0) f.d = 27; bool summer = (f.mo > 3 && f.mo < 11) || (f.mo == 3 && f.d == 28);
	bool now = choose(2); setenv("TZ", "CET-1CEST,M3.5.0,M10.5.0/3", 1); tzset(); fake = true; fake_ts.tv_sec = now ? 1467374400 : 1451653200; fake_ts.tv_nsec = 0; mc::step();
	Ctime t(strf("%04d-%02d-%02d %02d:%02d:%02d.%03d", f.y, f.mo, f.d, f.h, f.mi, f.s, f.ms).c_str(), true); int64_t tm = t.TotalMilliseconds(); std::string x = str(t.ToXml()); fake = false;
	int off = summer ? 120 : 60; if (f.mo == 3 && f.d == 27) off = f.h ? 120 : 60;
	MC_CHECK(tm == total(f) - off * 60000LL, "%s is %lld ms since the epoch, expected %lld", iso(f).c_str(), (long long)tm, (long long)(total(f) - off * 60000LL));
	MC_CHECK(x == iso(f) + offs(off), "%s is written %s", iso(f).c_str(), x.c_str()); mc::outcome(mc::H().s(x).h);
}
static void dates_diff()
{
	setzone(zones[choose(3)]); Fields a = fields(true), b = fields(true); mc::step();
	auto mk = [](const Fields & f) { return Ctime(strf("%04d-%02d-%02d %02d:%02d:%02d.%03d", f.y, f.mo, f.d, f.h, f.mi, f.s, f.ms).c_str(), false); };
	Ctime ca = mk(a), cb = mk(b); int64_t d = total(a) - total(b);
	MC_CHECK(ca.MilliSeconds(&cb.get_Time()) == d, "%s minus %s: %lld ms, expected %lld", iso(a).c_str(), iso(b).c_str(), (long long)ca.MilliSeconds(&cb.get_Time()), (long long)d);
	MC_CHECK(ca.Seconds(&cb.get_Time()) == d / 1000 && ca.Minutes(&cb.get_Time()) == d / 60000 && ca.Hours(&cb.get_Time()) == d / 3600000 && ca.Days(&cb.get_Time()) == d / 86400000, "%s minus %s in larger units", iso(a).c_str(), iso(b).c_str());
	// now against a given date
	if (total(a) >= 0) { fake = true; int64_t t = total(a); fake_ts.tv_sec = t / 1000; fake_ts.tv_nsec = a.ms * 1000000L; Ctime n(false); int64_t g = n.MilliSeconds(&cb.get_Time()), h = cb.MilliSeconds(&n.get_Time()), hh = cb.Hours(), dd = cb.Days(); fake_ts.tv_sec += 100; Ctime n2(false); int64_t e = n2.MilliSeconds(&n.get_Time()), e2 = n.MilliSeconds(&n2.get_Time()); int64_t el = clock_elapsed(n); fake = false;
		MC_CHECK(g == d && h == -d, "now %s minus %s: %lld ms and %lld, expected %lld", iso(a).c_str(), iso(b).c_str(), (long long)g, (long long)h, (long long)d); MC_CHECK(hh == d / 3600000 && dd == d / 86400000, "hours and days to now"); MC_CHECK(e == 100000 && e2 == -100000, "two clock readings 100 s apart: %lld, %lld", (long long)e, (long long)e2); MC_CHECK(el == 1000000000, "elapsed"); }
	mc::outcome(mc::H().u(d).h);
}

// ---------------------------------------------------------------- C23
static void durations()
{
	static const int64_t u[] = { 0, 1, 9999, 10000, 99999, 100000, 999999, 1000000, 9999999, 10000000, 99999999, 100000000, 599999999, 600000000, 5999999999LL, 6000000000LL, 35999999999LL, 36000000000LL, 359999999999LL, 360000000000LL, 863999999999LL, 864000000000LL, 36000000000000LL, INT64_MAX };
	int64_t x = u[choose(24)]; static const int64_t add[] = { 0, 10000, 9990000, 590000000LL, 35400000000LL }; int a = choose(5); if (x < INT64_MAX) x += add[a]; bool neg = choose(2); if (neg) x = -x; mc::step();
	uint64_t p = neg ? -(uint64_t)x : x, ms = p / 10000 % 1000, s = p / 10000000 % 60, m = p / 600000000 % 60, h = p / 36000000000ULL;
	std::string w = strf("%s%02llu:%02llu:%02llu.%03llu", x < 0 ? "-" : "", (unsigned long long)h, (unsigned long long)m, (unsigned long long)s, (unsigned long long)ms), g = str(hns(x));
	MC_CHECK(g == w, "%lld is written %s, expected %s", (long long)x, g.c_str(), w.c_str());
	if (x >= 0) { HundredNano n(x); MC_CHECK(n.H() == (int64_t)h && n.M() == (int64_t)m && n.S() == (int64_t)s && n.ML() == (int64_t)ms && (int64_t)n == x, "parts of %lld", (long long)x); HundredNano k(h, m, s, ms); MC_CHECK((int64_t)k == x - x % 10000, "%s composed is %lld", w.c_str(), (long long)(int64_t)k); }
	mc::outcome(mc::H().s(w).h);
}

// ---------------------------------------------------------------- C24
struct Item { int id; Bytes b; };
template<class Q> struct Open : public Q { Open() {} Open(bool d) : Q(d) {} void age(int n) { typename Q::queue_header * h = this->get_queue_heder(); h->total_written = h->total_deleted = n; } int room() { return this->get_queue_heder()->full_size; } };
template<class Q> static void queues(Open<Q> & qu, int kind, int cap, int depth, bool old, int first = -1)
{
	// kind 0: drops the oldest, 1: refuses, 2: grows
	qu.allocate(true, 24 + cap); if (old) qu.age(INT32_MAX - 12);
	std::deque<Item> m; int id = 1; int linear = 0;   // bytes laid out since the queue was last empty
	auto cmp = [&](const char * op) {
		mc::step();
		MC_CHECK(qu.size() == (int)m.size(), "%s: %d items, expected %zu", op, qu.size(), m.size());
		if (m.size()) { int n = -1; BYTE * p = NULL; const int * t = qu.pick_next(&n, &p); MC_CHECK(*t == m[0].id && n == (int)m[0].b.size() && !memcmp(p, m[0].b.data(), n), "%s: the next item is %d of %d bytes, expected %d of %zu", op, *t, n, m[0].id, m[0].b.size()); }
		mc::H h; h.u(m.size()).u(linear); for (auto & i : m) h.u(i.b.size()); mc::state(h.h);
	};
	cmp("start");
	for (int d = 0; d < depth; d++) {
		int op = !d && first >= 0 ? first : choose(9); std::string what;
		static const int len[] = { 0, 1, 5, 16, 40 };
		if (op < 5) {
			int n = op == 4 ? cap - 16 + choose(2) : len[op]; Item it; it.id = id++; for (int i = 0; i < n; i++) it.b.push_back((unsigned char)(it.id * 16 + i)); int space = 16 + n; bool asked = choose(2);
			what = strf("push %d bytes%s", n, asked ? " (refusal accepted)" : ""); bool ok = false, threw = false;
			std::vector<unsigned char> src(it.b);
			try { ok = qu.push(it.id, n ? &src[0] : (BYTE *)"", n, asked); } catch (mgexception &) { threw = true; }
			MC_NOTE("%s -> %d %d", what.c_str(), ok, threw);
			MC_CHECK(ok != threw || (!ok && asked), "%s neither succeeded nor failed", what.c_str()); MC_CHECK(!threw || !asked, "%s raised an error", what.c_str());
			bool fits = space <= cap, easy = m.empty() ? fits : linear + space <= cap;
			if (kind == 2) MC_CHECK(ok, "%s: a growing queue refused", what.c_str());
			else { MC_CHECK(ok || !easy, "%s: refused although there is room", what.c_str()); MC_CHECK(!ok || fits, "%s: accepted an item larger than the queue", what.c_str()); if (kind == 0) MC_CHECK(ok == fits, "%s: accepted %d, fits %d", what.c_str(), ok, fits); }
			size_t now = qu.size(), before = m.size() + (ok ? 1 : 0);
			MC_CHECK(now <= before, "%s: too many items", what.c_str());
			if (kind != 0 || easy) MC_CHECK(now == before, "%s: %zu items disappeared", what.c_str(), before - now);
			while (m.size() + (ok ? 1 : 0) > now) { if (m.empty()) break; m.pop_front(); }
			if (kind == 2 && ok) { if (qu.room() != cap + 24) { cap = qu.room() - 24; linear = 0; for (auto & i : m) linear += 16 + (int)i.b.size(); } }
			if (ok) { if (m.empty()) linear = 0; if (linear + space <= cap) linear += space; else linear = cap + 1; m.push_back(it); }
		}
		else if (op < 7) {
			if (m.empty()) continue; bool little = op == 6 && m[0].b.size() > 0; size_t room = m[0].b.size() - (little ? 1 : 0); Bytes out(room + 1, 0x5a); int n = -1; what = strf("pop into %zu bytes", room);
			int t = qu.pop(&out[0], (int)room, &n); MC_NOTE("%s", what.c_str());
			MC_CHECK(t == m[0].id && n == (int)m[0].b.size(), "%s returned item %d of %d bytes", what.c_str(), t, n);
			if (!little) { MC_CHECK(!memcmp(&out[0], m[0].b.data(), n) && out[room] == 0x5a, "%s: wrong content", what.c_str()); m.pop_front(); } else for (unsigned char c : out) MC_CHECK(c == 0x5a, "%s wrote something", what.c_str());
		}
		else if (op == 7) { if (m.empty()) continue; what = "delete"; qu.delete_item(); m.pop_front(); MC_NOTE("delete"); }
		else { what = "clear"; qu.clear(); m.clear(); MC_NOTE("clear"); }
		if (m.empty()) linear = 0;
		cmp(what.c_str());
	}
	while (m.size()) { Bytes out(m[0].b.size() + 1); int n = -1; int t = qu.pop(&out[0], (int)m[0].b.size(), &n); MC_CHECK(t == m[0].id && n == (int)m[0].b.size() && !memcmp(&out[0], m[0].b.data(), n), "emptying: item %d of %d bytes, expected %d of %zu", t, n, m[0].id, m[0].b.size()); m.pop_front(); cmp("emptying"); }
	mc::outcome(mc::H().u(id).u(linear).u(cap).h);
}

// ---------------------------------------------------------------- C25
template<class F> static bool throws(F f) { try { f(); } catch (mgexceptionbase &) { return true; } return false; }
static void narrowing()
{
	static const uint64_t v[] = { 0, 1, 0x7fffffff, 0x80000000, 0x80000001, 0xffffffff, 0x100000000, 0x100000001, 0x7fffffffffffffff, 0x8000000000000000, 0x8000000000000001, 0xffffffffffffffff };
	uint64_t x = v[choose(12)]; mc::step();
	MC_CHECK(throws([&] { ST_U32(x); }) == (x > 0xffffffff), "ST_U32 of %llx", (unsigned long long)x); if (x <= 0xffffffff) MC_CHECK(ST_U32(x) == x, "ST_U32 changed %llx", (unsigned long long)x);
	MC_CHECK(throws([&] { U64_U32(x); }) == (x > 0xffffffff), "U64_U32 of %llx", (unsigned long long)x); if (x <= 0xffffffff) MC_CHECK(U64_U32(x) == x, "U64_U32 changed %llx", (unsigned long long)x);
	MC_CHECK(throws([&] { ST_I32(x); }) == (x > 0x7fffffff), "ST_I32 of %llx", (unsigned long long)x); if (x <= 0x7fffffff) MC_CHECK(ST_I32(x) == (int)x, "ST_I32 changed %llx", (unsigned long long)x);
	MC_CHECK(throws([&] { U64_i64(x); }) == (x > INT64_MAX), "U64_i64 of %llx", (unsigned long long)x); if (x <= INT64_MAX) MC_CHECK((uint64_t)U64_i64(x) == x, "U64_i64 changed %llx", (unsigned long long)x);
	int64_t s = (int64_t)x; MC_CHECK(throws([&] { IS_U32(s); }) == (s < 0 || s > INT32_MAX), "IS_U32 of %lld", (long long)s); if (s >= 0 && s <= INT32_MAX) MC_CHECK(IS_U32(s) == (uint32_t)s, "IS_U32 changed %lld", (long long)s);
	MC_CHECK(U64_DBL(x) == (double)x, "U64_DBL of %llx", (unsigned long long)x);
	double d[] = { 0.0, 0.9, 1.0, 4294967296.5, 9223372036854775808.0, 18446744073709549568.0, 18446744073709551616.0, 1e300, -1.0, -0.5, INFINITY, -INFINITY, NAN }; double f = d[choose(13)];
	bool bad = !(f >= 0 && f < 18446744073709551616.0); MC_CHECK(throws([&] { DBL_U64(f); }) == bad, "DBL_U64 of %g", f); if (!bad) MC_CHECK(DBL_U64(f) == (uint64_t)f, "DBL_U64 of %g is %llu", f, (unsigned long long)DBL_U64(f));
	mc::outcome(mc::H().u(x).add(&f, 8).h);
}

// ---------------------------------------------------------------- C26
static void directories(int depth)
{
	char base[] = "/tmp/mgdirXXXXXX"; MC_CHECK(mkdtemp(base) != NULL, "no scratch directory"); std::string root(base);
	static const char * n[] = { "a", "a/b", "f" }; bool dir[3] = {}, file[3] = {};
	std::string bad;
	auto check = [&](bool c, const std::string & m) { if (!c && bad.empty()) bad = m; };
	for (int d = 0; d < depth && bad.empty(); d++) {
		int op = choose(4), i = choose(3); std::string p = root + "/" + n[i], what; bool threw = false; int err = 0; mc::step();
		bool parent = i != 1 || dir[0];
		if (op == 0) { what = "create directory " + std::string(n[i]); try { create_directory(p.c_str()); } catch (mgexceptionbase & e) { threw = true; err = e.get_error_number(); } bool ok = parent && !(i == 1 && file[0]); check(threw == !ok, what + (threw ? " failed" : " succeeded")); if (ok && !file[i]) dir[i] = true; }
		else if (op == 1) { what = "delete " + std::string(n[i]); try { delete_file(p.c_str()); } catch (mgexceptionbase & e) { threw = true; } bool ok = file[i] || (dir[i] && !(i == 0 && (dir[1] || file[1]))); check(threw == !ok, what + (threw ? " failed" : " succeeded")); if (ok) file[i] = dir[i] = false; }
		else if (op == 2) { if (!parent || dir[i] || (i == 1 && file[0])) continue; what = "write " + std::string(n[i]); FILE * f = fopen(p.c_str(), "wb"); if (f) { fputs("x", f); fclose(f); file[i] = true; } }
		else { setenv("MG_TEST_VAR", i == 0 ? "" : i == 1 ? "value with spaces" : "x", 1); Cstring v = get_env_variable("MG_TEST_VAR"); check(str(v) == (i == 0 ? "" : i == 1 ? "value with spaces" : "x"), "environment variable"); unsetenv("MG_TEST_VAR"); check(str(get_env_variable("MG_TEST_VAR")) == "", "missing variable"); continue; }
		MC_NOTE("%s%s", what.c_str(), threw ? " failed" : "");
		for (int k = 0; k < 3; k++) { struct stat st; bool e = stat((root + "/" + n[k]).c_str(), &st) == 0; check(e == (dir[k] || file[k]) && (!e || S_ISDIR(st.st_mode) == dir[k]), what + ": state of " + n[k]); if (e && dir[k]) check((st.st_mode & 0700) == 0700, "a created directory cannot be used"); }
		mc::state(mc::H().u(dir[0] * 4 + dir[1] * 2 + dir[2]).u(file[0] * 4 + file[1] * 2 + file[2]).h);
	}
	unlink((root + "/a/b").c_str()); rmdir((root + "/a/b").c_str()); for (int k = 0; k < 3; k += 2) { unlink((root + "/" + n[k]).c_str()); rmdir((root + "/" + n[k]).c_str()); } rmdir(base);
	if (!bad.empty()) mc::fail("%s", bad.c_str());
	mc::outcome(mc::H().u(dir[0] * 4 + dir[1] * 2 + dir[2]).u(file[0] * 4 + file[1] * 2 + file[2]).h);
}

// ---------------------------------------------------------------- C27
static void joins()
{
	int n = 1 + choose(3); static const uint64_t es[] = { 100, 97, 130, 0, 9000000000000ULL, 100, 12345678901ULL }, ss[] = { 0, 3, 40, 9000000000ULL, 1 };
	CMediaJoin j; std::vector<int64_t> e, s; j.SetStreamCount(n); int lim = n == 3 ? 4 : 7, lims = n == 3 ? 3 : 5;
	for (int i = 0; i < n; i++) { e.push_back(es[choose(lim)]); s.push_back(ss[choose(lims)]); j.AddStreamEnd(e[i]); j.AddStreamStart(s[i]); }
	j.Compute(); mc::step(); int64_t gap = INT64_MAX; std::vector<int64_t> t; for (int i = 0; i < n; i++) t.push_back(j.GetJoinTime(i));
	for (int i = 0; i < n; i++) { MC_CHECK(t[i] >= e[i], "stream %d continues at %lld before its end %lld", i, (long long)t[i], (long long)e[i]); MC_CHECK(t[i] - s[i] == t[0] - s[0], "streams 0 and %d are shifted differently: %lld and %lld", i, (long long)(t[0] - s[0]), (long long)(t[i] - s[i])); gap = std::min(gap, t[i] - e[i]); }
	MC_CHECK(gap == 0, "a gap of %lld in every stream", (long long)gap); mc::H h; for (int64_t x : t) h.u(x); mc::outcome(h.h);
}

// ---------------------------------------------------------------- C28
static void audio(int len)
{
	static const unsigned rates[] = { 48000, 44100, 22050 }; unsigned r = rates[choose(3)]; double lo = 1024.0 / r * 1e7, hi = 1025.0 / r * 1e7, one = hi - lo, nominal = lo;
	CAACFix f; int id = choose(2) * 15; MC_CHECK(f.fix_audio_frequency_timing(77, 3) == 77, "a stream without information was changed"); f.set_info(r, id); if (choose(2)) f.set_info(r, id);
	double t = choose(2) * 1e9, prev = 0, base = t; bool clean = true;
	for (int i = 0; i < len; i++) {
		double in = t; int k = 0;
		if (i) { k = choose(6); static const double j[] = { 0, 0, 0, 0, 0, 0 }; (void)j; in = base + i * nominal; if (k == 1) in = floor(in); if (k == 2) in += one * 0.9; if (k == 3) { in += 5 * hi; base += 5 * hi; clean = false; } if (k == 4) in -= one * 0.9; if (k == 5) { in += hi * 0.5; base += hi * 0.5; clean = false; } }
		double o = f.fix_audio_frequency_timing(in, id); mc::step(); MC_NOTE("%.3f -> %.3f", in, o);
		if (!i) MC_CHECK(o == in, "the first time %.3f became %.3f", in, o);
		else {
			double d = o - prev; bool step = d > lo - 1e-3 && d < hi + 1e-3;
			MC_CHECK(step || o == in, "frame %d: %.3f after %.3f for the time %.3f, frames last %.3f..%.3f", i, o, prev, in, lo, hi); MC_CHECK(d > 0, "time went back from %.3f to %.3f", prev, o);
			MC_CHECK(in - o <= hi + 1e-3, "frame %d: %.3f is more than a frame behind %.3f", i, o, in);
			if (clean) MC_CHECK(fabs(o - in) < 4 * one, "frame %d: %.3f drifted from %.3f", i, o, in);
		}
		prev = o;
	}
	mc::outcome(mc::H().add(&prev, 8).h);
}

// long regular inputs: a source clock a little off and a repeated pattern of jitter
static void audio_long(int frames)
{
	static const unsigned rates[] = { 48000, 44100, 22050 }; static const double off[] = { 0, 0.1, 0.5, 0.95 }, jit[] = { 0, 0.45, -0.45, 0.9 };
	unsigned r = rates[choose(3)]; double lo = 1024.0 / r * 1e7, one = 1e7 / r, nominal = lo + one * off[choose(4)], p[4]; int n = 1 + choose(4); for (int i = 0; i < n; i++) p[i] = one * jit[choose(4)];
	CAACFix f; f.set_info(r, 0); double prev = 0, worst = 0;
	for (int i = 0; i < frames; i++) {
		double in = 1e7 + i * nominal + p[i % n], o = f.fix_audio_frequency_timing(in, 0); worst = std::max(worst, fabs(o - in));
		if (i) MC_CHECK(o - prev > lo - 1e-3 && o - prev < lo + one + 1e-3, "frame %d: %.3f after %.3f", i, o, prev);
		MC_CHECK(fabs(o - in) < 4 * one, "frame %d: %.3f drifted from %.3f", i, o, in); prev = o;
	}
	mc::step(frames); mc::outcome(mc::H().u(r).u((uint64_t)(worst * 100)).add(&prev, 8).h);
}

// ---------------------------------------------------------------- C29
static void errors()
{
	static const int num[] = { -1, -101, E_BASE_CUSTOM, INT32_MIN, 0, 5 }; int n = num[choose(6)]; int lines[] = { 0, 1, 99999 }; int line = lines[choose(3)]; std::string msg = choose(2) ? "what happened" : ""; int how = choose(4); std::string file = "some/file.cpp"; mc::step();
	mgexception * e = how & 1 ? new mgexception(n, msg.c_str(), file.c_str(), line) : new mgexception(n, file.c_str(), line); if (!(how & 1)) msg = "";
	std::string w = strf("Exception: %d\r\n%s\r\n%s:%d", n, msg.c_str(), file.c_str(), line); std::string got, ts; int num2 = 0;
	// thrown, caught by base, copied, original gone
	std::exception_ptr p; try { mgexception c(*e); delete e; throw c; } catch (...) { p = std::current_exception(); }
	try { std::rethrow_exception(p); } catch (mgexceptionbase & b) { num2 = b.get_error_number(); got = b.what(); } 
	try { std::rethrow_exception(p); } catch (mgexception & b) { ts = str(b.toString()); } 
	MC_CHECK(num2 == n, "error %d caught as %d", n, num2); MC_CHECK(got == w && ts == w, "text is %s, expected %s", got.c_str(), w.c_str());
	if (n < 0) { bool c = false; try { MGCHECK(n); } catch (mgexception & b) { c = b.get_error_number() == n; } MC_CHECK(c, "MGCHECK did not raise %d", n); } else { MGCHECK(n); }
	bool c = false; try { MGBASECHECK(n); } catch (mgexceptionbase & b) { c = b.get_error_number() == n; } MC_CHECK(c == (n < 0), "MGBASECHECK of %d", n);
	mc::outcome(mc::H().s(w).h);
}

static void reg()
{
	mc::unit("C22", "now", dates_now); mc::unit("C22", "summer time", dates_dst); mc::unit("C22", "from text", dates_text); mc::unit("C22", "summer dates from text", dates_dst_text); mc::unit("C22", "differences", dates_diff);
	mc::unit("C23", "durations", durations);
	for (int cap : { 16, 40, 61, 100 }) for (int old = 0; old < 2; old++) {
		int d = cap == 16 ? 4 : D(4, 5);
		mc::unit("C24", strf("dropping queue of %d%s", cap, old ? ", old" : ""), [=] { Open<cfixed_queue<int> > q(true); queues(q, 0, cap, d, old); });
		mc::unit("C24", strf("refusing queue of %d%s", cap, old ? ", old" : ""), [=] { Open<cfixed_queue<int> > q(false); queues(q, 1, cap, d, old); });
		mc::unit("C24", strf("growing queue of %d%s", cap, old ? ", old" : ""), [=] { Open<grow_queue<int> > q; queues(q, 2, cap, d, old); });
	}
	for (int cap : { 40, 61 }) for (int first = 0; first < 5; first++) {
		int d = D(5, 6);
		mc::unit("C24", strf("dropping queue of %d, deep, %d first", cap, first), [=] { Open<cfixed_queue<int> > q(true); queues(q, 0, cap, d, false, first); });
		mc::unit("C24", strf("refusing queue of %d, deep, %d first", cap, first), [=] { Open<cfixed_queue<int> > q(false); queues(q, 1, cap, d, false, first); });
		mc::unit("C24", strf("growing queue of %d, deep, %d first", cap, first), [=] { Open<grow_queue<int> > q; queues(q, 2, cap, d, false, first); });
	}
	mc::unit("C25", "narrowing", narrowing);
	mc::unit("C26", "directories", [] { directories(D(4, 5)); });
	mc::unit("C27", "joining", joins);
	mc::unit("C28", "audio times", [] { audio(D(6, 8)); }); mc::unit("C28", "long inputs", [] { audio_long(D(2000, 20000)); });
	mc::unit("C29", "errors", errors);
}
int main(int c, char ** v) { return mc::run(c, v, reg); }

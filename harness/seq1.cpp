// C10 handles, C15 buffers, C16 strings, C17 conversions, C18 split/replace, C19 command lines, C20 base64, C21 CRC
#include "mc.h"
#include <mgcore.h>
#include <mg/cmdline.h>
#include <mg/splitter.h>
#include <mg/media/wincrc.h>
#include "../../b64/include/cencode.h"
#include "../../b64/include/cdecode.h"
#include <memory>
#include <set>
#include <map>
#include <math.h>
using namespace mg::core;
using mc::strf; using mc::choose;
typedef std::vector<unsigned char> Bytes;
static int D(int quick, int deep) { return mc::thorough() ? deep : quick; }
static std::string q(const std::string & s) { std::string r = "\""; for (size_t i = 0; i < s.size() && i < 60; i++) r += s[i] >= 32 && s[i] < 127 ? std::string(1, s[i]) : strf("\\x%02x", (unsigned char)s[i]); return r + (s.size() > 60 ? "...\"" : "\""); }

// ---------------------------------------------------------------- C10
struct M { int id; bool clean; std::shared_ptr<M> next; M(); ~M(); };
struct R { int id; CResource<R> next; R(); ~R(); };
static std::set<int> m_live, r_live; static std::multiset<int> m_cleaned, r_cleaned; static int m_id, r_id; static std::string r_bad;
M::M() : id(m_id++), clean(false) { m_live.insert(id); }
M::~M() { if (clean) m_cleaned.insert(id); m_live.erase(id); }
R::R() : id(r_id++) { r_live.insert(id); }
R::~R() { if (!r_live.count(id)) r_bad = strf("object %d destroyed twice", id); r_live.erase(id); }
static std::string sset(const std::set<int> & s) { std::string r; for (int i : s) r += strf("%d ", i); return r; }
static void handles(int depth, bool links)
{
	m_live.clear(); r_live.clear(); m_cleaned.clear(); r_cleaned.clear(); m_id = r_id = 0; r_bad.clear();
	const int N = 3;
	{
	std::vector<CResource<R> > h(N); std::vector<std::shared_ptr<M> > m(N);
	auto cmp = [&](const char * op) {
		mc::step();
		MC_CHECK(r_bad.empty(), "%s: %s", op, r_bad.c_str());
		MC_CHECK(r_live == m_live, "%s: objects alive { %s}, expected { %s}", op, sset(r_live).c_str(), sset(m_live).c_str());
		MC_CHECK(r_cleaned == m_cleaned, "%s: clean up ran %zu times, expected %zu", op, r_cleaned.size(), m_cleaned.size());
		mc::H st;
		for (int i = 0; i < N; i++) {
			MC_CHECK((!h[i]) == (m[i] == NULL), "%s: handle %d is %s", op, i, !h[i] ? "empty" : "not empty");
			if (!m[i]) { st.u(99); continue; }
			MC_CHECK(h[i]->id == m[i]->id && h[i].GetRef().id == m[i]->id, "%s: handle %d points to object %d, expected %d", op, i, h[i]->id, m[i]->id);
			MC_CHECK(h[i].count() == m[i].use_count(), "%s: object %d is counted %ld times, expected %ld", op, m[i]->id, h[i].count(), m[i].use_count());
			st.u(m[i]->id).u(m[i].use_count()).u(m[i]->next ? m[i]->next->id : 77);
		}
		mc::state(st.h);
	};
	for (int d = 0; d < depth; d++) {
		int op = choose(links ? 8 : 6), i = choose(N);
		std::string what;
		if (op == 0) { int j = choose(N); what = strf("handle %d = handle %d", i, j); h[i] = h[j]; m[i] = m[j]; }
		else if (op == 1) {
			what = strf("create handle %d", i); bool threw = false;
			try { h[i].Create(); } catch (mgexceptionbase &) { threw = true; }
			MC_CHECK(threw == (m[i] != NULL), "%s: %s", what.c_str(), threw ? "refused" : "replaced an existing object silently");
			if (!threw) m[i] = std::make_shared<M>();
		}
		else if (op == 2) { what = strf("handle %d = new object", i); h[i] = CResource<R>(new R); m[i] = std::make_shared<M>(); }
		else if (op == 3) { what = strf("handle %d = empty", i); h[i] = CResource<R>(); m[i].reset(); }
		else if (op == 4) { int j = choose(N); what = strf("copy of handle %d to %d and back", i, j); CResource<R> k(h[i]); std::shared_ptr<M> km(m[i]); h[j] = k; m[j] = km; }
		else if (op == 5) {
			what = strf("clean up function of handle %d", i); bool threw = false;
			try { h[i].add_cleanup_function([](R * p) { if (!r_live.count(p->id)) r_bad = "clean up of a dead object"; r_cleaned.insert(p->id); }); } catch (mgexceptionbase &) { threw = true; }
			MC_CHECK(threw == (m[i] == NULL), "%s: %s", what.c_str(), threw ? "refused" : "accepted on an empty handle");
			if (m[i]) m[i]->clean = true;
			else { bool t2 = false; try { h[i].GetRef(); } catch (mgexceptionbase &) { t2 = true; } MC_CHECK(t2, "reference of an empty handle was given out"); MC_CHECK(h[i].operator->() == NULL, "object of an empty handle"); }
		}
		else if (op == 6) { int j = choose(N); if (!m[i]) continue; what = strf("next of %d = handle %d", i, j); h[i]->next = h[j]; m[i]->next = m[j]; }
		else { int j = choose(N); if (!m[j]) continue; what = strf("handle %d = next of %d", i, j); h[i] = h[j]->next; m[i] = std::shared_ptr<M>(m[j]->next); }
		MC_NOTE("%s", what.c_str());
		cmp(what.c_str());
	}
	// no cycles keep anything alive at the end
	for (int i = 0; i < N; i++) { std::set<int> seen; CResource<R> k(h[i]); std::shared_ptr<M> km(m[i]); while (km && seen.insert(km->id).second) { std::shared_ptr<M> n = km->next; CResource<R> rn(k->next); km->next.reset(); k->next = CResource<R>(); km = n; k = rn; } }
	cmp("unlinked");
	}
	MC_CHECK(r_live == m_live && r_cleaned == m_cleaned && r_bad.empty(), "after the last handle: objects alive { %s}, expected { %s}, %zu cleaned, expected %zu %s", sset(r_live).c_str(), sset(m_live).c_str(), r_cleaned.size(), m_cleaned.size(), r_bad.c_str());
	mc::outcome(mc::H().u(r_id).u(r_cleaned.size()).h);
}

// ---------------------------------------------------------------- C15
template<class T> static T elem(int k) { return (T)(0x0101010101010101ULL * (1 + k % 200)); }
template<class T> static void buffers(size_t init, int depth)
{
	CBuffer<T> b(init), o(2); std::vector<T> v, ov; int k = 0; size_t minsize = init, used = 0;      // used: beyond it nothing was ever written
	T two[2] = { elem<T>(150), elem<T>(151) }; o.add(two, 2); ov.assign(two, two + 2);
	auto cmp = [&](const char * op) {
		mc::step();
		MC_CHECK(b.getFull() == v.size() && b.size() == v.size(), "%s: %zu elements, expected %zu", op, (size_t)b.getFull(), v.size());
		MC_CHECK(b.getSize() >= v.size() && b.getFree() == b.getSize() - v.size(), "%s: room of %zu, size %zu, full %zu", op, (size_t)b.getFree(), (size_t)b.getSize(), v.size());
		MC_CHECK(b.getSize() >= minsize, "%s: the buffer shrank", op); minsize = b.getSize(); used = std::max(used, v.size());
		for (size_t i = used; i < b.getSize(); i++) MC_CHECK(b.get()[i] == 0, "%s: element %zu, never written, is not zero", op, i);
		for (size_t i = 0; i < v.size(); i++) MC_CHECK(b.getAt(i) == v[i] && b.get()[i] == v[i], "%s: element %zu of %zu is wrong", op, i, v.size());
		MC_CHECK(b.getCurrent() == b.get() + v.size(), "%s: the current position is not the end", op);
		mc::state(mc::H().u(v.size()).u(b.getSize()).h);
	};
	for (int d = 0; d < depth; d++) {
		int op = choose(10); std::string what;
		static const int ns[] = { 0, 1, 2, 3, 6 };
		switch (op) {
		case 0: { int n = ns[choose(5)]; what = strf("add %d", n); std::vector<T> s; for (int i = 0; i < n; i++) s.push_back(elem<T>(k++)); b.add(n ? &s[0] : NULL, n); v.insert(v.end(), s.begin(), s.end()); break; }
		case 1: { int n = 1 + choose(4), w = choose(n + 1); what = strf("prepare %d, write %d", n, w); b.prepare(n); MC_CHECK(b.getFree() >= (size_t)n, "%s: only %zu free", what.c_str(), (size_t)b.getFree()); T * p = b.getCurrent(); for (int i = 0; i < w; i++) { p[i] = elem<T>(k++); v.push_back(p[i]); } b.updatePosition(w); break; }
		case 2: what = "+= other"; b += o; v.insert(v.end(), ov.begin(), ov.end()); break;
		case 3: { what = "+= itself"; b += b; std::vector<T> c(v); v.insert(v.end(), c.begin(), c.end()); break; }
		case 4: { what = "reset"; ResetBuffer<T> r(b); r.Reset(); v.clear(); used = 0; break; }
		case 5: { size_t n = choose(3); if (n > v.size()) n = v.size(); what = strf("back %zu", n); ResetBuffer<T> r(&b); r.Back(n); v.resize(v.size() - n); for (size_t i = 0; i < n; i++) MC_CHECK(b.getCurrent()[i] == 0, "back left old content"); break; }
		case 6: { size_t n = choose(3); if (n > v.size()) n = v.size(); what = strf("move back %zu", n); ResetBuffer<T> r(b); r.MoveBack(n); v.resize(v.size() - n); break; }
		case 7: { if (v.empty()) continue; size_t i = choose((int)std::min<size_t>(v.size(), 3)); T x = elem<T>(k++); what = strf("write at %zu", i); b.WriteAt(i, &x); v[i] = x; break; }
		case 8: { size_t pos = choose((int)std::min<size_t>(v.size() + 2, 6)); unsigned long n = choose(4), rd = 77; what = strf("read %lu at %zu", n, pos); T out[4]; bool r = b.ReadBuffer(out, n, rd, pos);
			if (pos > v.size()) { MC_CHECK(!r || rd == 0, "%s of %zu elements returned %lu", what.c_str(), v.size(), rd); break; }
			unsigned long want = std::min<unsigned long>(n, v.size() - pos); MC_CHECK(r && rd == want, "%s of %zu elements returned %lu, expected %lu", what.c_str(), v.size(), rd, want);
			for (unsigned long i = 0; i < want; i++) MC_CHECK(out[i] == v[pos + i], "%s: element %lu is wrong", what.c_str(), i); break; }
		case 9: { if (v.empty()) continue; size_t a = choose((int)std::min<size_t>(v.size(), 2)); size_t n = v.size() - a; what = strf("add its own elements %zu..", a); std::vector<T> c(v.begin() + a, v.end()); b.add(b.get() + a, n); v.insert(v.end(), c.begin(), c.end()); break; }
		}
		MC_NOTE("%s", what.c_str()); cmp(what.c_str());
	}
	mc::outcome(mc::H().u(v.size()).u(b.getSize()).h);
}

// ---------------------------------------------------------------- C16
typedef std::shared_ptr<std::string> SP;
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
static std::string str(const Cstring & s) { const char * p = s.operator char *(); return p ? std::string(p) : std::string("(null)"); }
static const char * lits[] = { "", "a", "ab", "ba", "aab", "xyzzy-1234567890" };
static void strings(int depth, int start)
{
	const int N = 2; Cstring s[N]; SP m[N];
	for (int i = 0; i < N; i++) { int k = i ? start / 4 : start % 4; if (k == 0) { m[i] = SP(new std::string("")); } else if (k == 1) { s[i] = lits[2]; m[i] = SP(new std::string(lits[2])); } else if (k == 2) { s[i] = Cstring((uint32_t)2); m[i] = SP(new std::string("")); } else { s[i] = Cstring(lits[4]); m[i] = SP(new std::string(lits[4])); } }
	auto cmp = [&](const char * op) {
		mc::step();
		for (int i = 0; i < N; i++) {
			MC_CHECK(str(s[i]) == *m[i], "%s: string %d is %s, expected %s", op, i, q(str(s[i])).c_str(), q(*m[i]).c_str());
			MC_CHECK(s[i].size() == m[i]->size() && s[i].len() == m[i]->size(), "%s: string %d has size %u, length %zu, expected %zu", op, i, s[i].size(), s[i].len(), m[i]->size());
			MC_CHECK(Equals(s[i], s[1 - i]) == (*m[i] == *m[1 - i]), "%s: Equals", op);
			MC_CHECK((s[i] < s[1 - i]) == (*m[i] < *m[1 - i]), "%s: operator<", op);
			MC_CHECK((s[i] == lits[2]) == (*m[i] == lits[2]) && (s[i] != lits[2]) == (*m[i] != lits[2]) && (lits[2] == s[i]) == (*m[i] == lits[2]) && (lits[2] != s[i]) == (*m[i] != lits[2]), "%s: comparison with \"ab\"", op);
		}
		mc::state(mc::H().s(*m[0]).s(*m[1]).u(m[0] == m[1]).h);
	};
	cmp("start");
	for (int d = 0; d < depth; d++) {
		int op = choose(13), i = choose(N), j = 1 - i; std::string what;
		switch (op) {
		case 0: { int k = choose(6); what = strf("%d = \"%s\"", i, lits[k]); s[i] = lits[k]; m[i] = SP(new std::string(lits[k])); break; }
		case 1: { int k = choose(6); what = strf("%d += \"%s\"", i, lits[k]); s[i] += lits[k]; *m[i] += lits[k]; break; }
		case 2: what = strf("%d = %d", i, j); s[i] = s[j]; m[i] = m[j]; break;
		case 3: what = strf("%d += %d", i, j); s[i] += s[j]; *m[i] += std::string(*m[j]); break;
		case 4: what = strf("%d += itself", i); s[i] += s[i]; *m[i] += std::string(*m[i]); break;
		case 5: { what = strf("%d = clone of %d", i, j); s[i] = s[j].clone(); m[i] = SP(new std::string(*m[j])); break; }
		case 6: { int k = choose(3); what = strf("%d = %d + \"%s\"", i, j, lits[k]); s[i] = s[j] + lits[k]; m[i] = SP(new std::string(*m[j] + lits[k])); break; }
		case 7: what = strf("%d = %d + %d", i, i, j); s[i] = s[i] + s[j]; m[i] = SP(new std::string(*m[i] + *m[j])); break;
		case 8: { int k = choose(3); what = strf("%d = \"%s\" + %d", i, lits[k], j); s[i] = lits[k] + s[j]; m[i] = SP(new std::string(lits[k] + *m[j])); break; }
		case 9: { size_t b = choose((int)std::min<size_t>(m[j]->size() + 1, 4)), n = choose(4); if (n == 3) n = 1000; what = strf("%d = %zu characters of %d from %zu", i, n, j, b); s[i] = s[j].subString(b, n); m[i] = SP(new std::string(m[j]->substr(b, n))); break; }
		case 10: what = strf("clear %d", i); s[i].Clear(); m[i]->clear(); break;
		case 11: { what = strf("%d.append", i); s[i].append("q"); *m[i] += "q"; char * p = s[i].GetBuffer(3, false); memcpy(p, "wer", 3); s[i].CommitBuffer(2); p[2] = 0; *m[i] += "we"; break; }
		case 12: { what = strf("%d += nothing", i); s[i] += (const char *)NULL; break; }
		}
		MC_NOTE("%s", what.c_str()); cmp(what.c_str());
	}
	mc::outcome(mc::H().s(*m[0]).s(*m[1]).h);
}
// searching: every text and every pattern over a small alphabet
static std::string word(int maxn, int alpha) { int n = choose(maxn + 1); std::string r; for (int i = 0; i < n; i++) r += (char)('a' + choose(alpha)); return r; }
static void searching(int tn, int pn)
{
	std::string t = word(tn, 2), p = word(pn, 2); Cstring c(t.c_str());
	for (uint32_t b = 0; b <= t.size() + 1; b++) {
		size_t w = t.find(p, b); int g = c.find(p.c_str(), b); int e = w == std::string::npos ? -1 : (int)w; mc::step();
		MC_CHECK(g == e, "find %s in %s from %u gave %d, expected %d", q(p).c_str(), q(t).c_str(), b, g, e);
		// rfind: the last occurrence at or after b
		size_t lw = t.rfind(p); int le = lw == std::string::npos || lw < b ? -1 : (int)lw; g = c.rfind(p.c_str(), b);
		MC_CHECK(g == le, "rfind %s in %s from %u gave %d, expected %d", q(p).c_str(), q(t).c_str(), b, g, le);
	}
	for (size_t b = 0; b <= t.size(); b++) for (size_t n = 0; n <= t.size() + 1; n++) { Cstring u = c.subString(b, n); mc::step(); MC_CHECK(str(u) == t.substr(b, n) && u.size() == t.substr(b, n).size(), "%zu characters of %s from %zu gave %s", n, q(t).c_str(), b, q(str(u)).c_str()); }
	mc::outcome(mc::H().s(t).s(p).h);
}

// ---------------------------------------------------------------- C17
static void numbers()
{
	static const int64_t v[] = { 0, 1, -1, 9, 10, -10, 99, 2147483647LL, -2147483648LL, 2147483648LL, 4294967295LL, 4294967296LL, 999999999999LL, INT64_MAX, INT64_MIN, INT64_MIN + 1 };
	int64_t x = v[choose(16)]; const char * pre = choose(2) ? "k=" : ""; int kind = choose(6); Cstring c(pre); std::string w(pre); mc::step();
	if (kind == 0) { c += x; w += std::to_string((long long)x); MC_CHECK(str(c) == w, "%lld became %s", (long long)x, q(str(c)).c_str()); }
	if (kind == 1) { c += (uint64_t)x; w += std::to_string((unsigned long long)x); MC_CHECK(str(c) == w, "%llu became %s", (unsigned long long)x, q(str(c)).c_str()); }
	if (kind == 2) { c += (int)x; w += std::to_string((int)x); MC_CHECK(str(c) == w, "%d became %s", (int)x, q(str(c)).c_str()); }
	if (kind == 3) { c += (unsigned int)x; w += std::to_string((unsigned int)x); MC_CHECK(str(c) == w, "%u became %s", (unsigned int)x, q(str(c)).c_str()); }
	if (kind == 4) { Cstring n; n += x; MC_CHECK((int64_t)n == x, "%lld read back as %lld", (long long)x, (long long)(int64_t)n); Cstring k; k += (uint64_t)x; MC_CHECK((uint64_t)k == (uint64_t)x, "%llu read back differently", (unsigned long long)x); if (x == (int)x) MC_CHECK((int)n == (int)x, "%d read back as %d", (int)x, (int)n); }
	if (kind == 5) { float f = (float)x / 8; c += f; char b[400]; sprintf(b, "%s%.6f", pre, f); MC_CHECK(str(c) == b, "%g became %s", f, q(str(c)).c_str()); Cstring n; n += f; MC_CHECK((double)n == strtod(strf("%.6f", f).c_str(), NULL), "%g read back as %g", f, (double)n); }
	mc::outcome(mc::H().s(str(c)).h);
}
static void not_numbers()
{
	static const char * bad[] = { "", "x", " ", "-", "abc1", ".", "true" }; const char * t = bad[choose(7)]; Cstring c(t); int k = choose(4); bool threw = false; mc::step();
	try { if (k == 0) (void)(int)c; if (k == 1) (void)(int64_t)c; if (k == 2) (void)(uint64_t)c; if (k == 3) (void)(double)c; } catch (mgexceptionbase &) { threw = true; }
	MC_CHECK(threw, "\"%s\" was accepted as a number", t);
	static const char * bs[] = { "1", "true", "yes", "TRUE", "True", "0", "", "no", "false", "11", "tru" }; int i = choose(11); Cstring b(bs[i]); MC_CHECK((bool)b == (i < 5), "\"%s\" as a truth value", bs[i]);
}
static void formats()
{
	static const int ns[] = { 0, 1, 5, 100, 1023, 1024, 2000, 2047, 2048, 5000 };
	Cstring c("p:"); int k = choose(4); mc::step();
	if (k == 0) { int n = ns[choose(10)]; std::string a(n, 'z'); bool threw = false; try { c.append_format("%s", a.c_str()); } catch (mgexceptionbase &) { threw = true; } MC_CHECK(threw ? n > 2047 && str(c) == "p:" : str(c) == "p:" + a, "formatting %d characters gave %zu%s", n, str(c).size(), threw ? " and an exception" : ""); }
	if (k == 1) { int a = choose(3) - 1; c.append_format("%d-%s-%02x", a * 1000, "mid", 10 + a); MC_CHECK(str(c) == strf("p:%d-mid-%02x", a * 1000, 10 + a), "got %s", q(str(c)).c_str()); }
	if (k == 2) { c.append_format("%c%c%lld", 'x', 'y', (long long)INT64_MIN); MC_CHECK(str(c) == "p:xy-9223372036854775808", "got %s", q(str(c)).c_str()); }
	if (k == 3) { c.append_format("100%%"); MC_CHECK(str(c) == "p:100%", "got %s", q(str(c)).c_str()); }
	mc::outcome(mc::H().s(str(c)).h);
}
static void hexes()
{
	int n = choose(4), off = choose(3); Bytes b; for (int i = 0; i < n; i++) { static const unsigned char v[] = { 0, 1, 9, 10, 15, 16, 0x7f, 0x80, 0xab, 0xff }; b.push_back(i ? v[choose(10)] : (unsigned char)choose(256)); }
	std::string w(off, '-'); Cstring c(w.c_str()); c.append_hex_buffer(n ? &b[0] : NULL, n); mc::step();
	for (int i = 0; i < n; i++) w += strf("%02X", b[i]);
	MC_CHECK(str(c) == w, "hex of %s is %s", mc::hex(&b[0], n).c_str(), q(str(c)).c_str());
	Bytes r(n + 1, 0x5a); c.extract_binary_hex(&r[0], n, off); MC_CHECK(std::equal(b.begin(), b.end(), r.begin()) && r[n] == 0x5a, "%s read back as %s", q(str(c)).c_str(), mc::hex(&r[0], n).c_str());
	if (n) { std::string l = w; for (char & ch : l) ch = tolower(ch); Cstring lc(l.c_str()); lc.extract_binary_hex(&r[0], n, off); MC_CHECK(std::equal(b.begin(), b.end(), r.begin()), "lower case %s read back as %s", l.c_str(), mc::hex(&r[0], n).c_str()); }
	mc::outcome(mc::H().s(w).h);
}
static void hexdump()
{
	int n = choose(34); unsigned long width = 1 + choose(11); Bytes b(n); for (int i = 0; i < n; i++) b[i] = (unsigned char)(i * 37 + 200); int fmt = choose(2);
	Cstring c = hexformat(n ? &b[0] : (unsigned char *)"", n, width - 1, fmt); std::string t = str(c); mc::step();
	// every byte, in order, in the first column
	Bytes got; size_t p = 0; int lines = 0;
	while (p < t.size()) { size_t tab = t.find('\t', p), e = t.find("\r\n", p); MC_CHECK(tab != std::string::npos && e != std::string::npos && tab < e, "line without its parts in %s", q(t).c_str()); unsigned long k = 0; const char * s = t.c_str() + p; while (s < t.c_str() + tab) { char * x; long v = strtol(s, &x, 16); if (x == s) break; got.push_back((unsigned char)v); s = x + 1; k++; } MC_CHECK(k == width, "line of %lu bytes, expected %lu", k, width); p = e + 2; lines++; }
	MC_CHECK(n == 0 ? t.empty() : got.size() >= (size_t)n && std::equal(b.begin(), b.end(), got.begin()), "%d bytes dumped as %s", n, q(t).c_str());
	for (size_t i = n; i < got.size(); i++) MC_CHECK(got[i] == 0x20, "padding of the dump");
	mc::outcome(mc::H().s(t).h);
}

// ---------------------------------------------------------------- C18
static std::vector<std::string> msplit(const std::string & t, const std::string & sep) { std::vector<std::string> r; size_t b = 0; if (sep.size()) for (size_t e; (e = t.find(sep, b)) != std::string::npos; b = e + sep.size()) r.push_back(t.substr(b, e - b)); r.push_back(t.substr(b)); return r; }
static void splitting(int tn, int pn)
{
	std::string t = word(tn, 3), p = word(pn, 2); mc::step();
	int how = choose(3); Csplitter s; if (how == 0) s.split(t.c_str(), p.c_str()); if (how == 1) { s.split("a,b,c", ","); s.split(t.c_str(), p.c_str()); }
	Csplitter k(t.c_str(), p.c_str()); Csplitter & u = how == 2 ? k : s;
	std::vector<std::string> w = msplit(t, p);
	MC_CHECK(u.getCount() == w.size(), "%s split at %s gave %zu pieces, expected %zu", q(t).c_str(), q(p).c_str(), u.getCount(), w.size());
	for (size_t i = 0; i < w.size(); i++) MC_CHECK(str(u[i]) == w[i] && u[i].size() == w[i].size(), "%s split at %s: piece %zu is %s, expected %s", q(t).c_str(), q(p).c_str(), i, q(str(u[i])).c_str(), q(w[i]).c_str());
	MC_CHECK(str(u.getInternalString()) == t, "internal string");
	if (p.size()) { static const char * by[] = { "", "b", "ab", "cc" }; const char * in = by[choose(4)]; std::string e; for (size_t i = 0; i < w.size(); i++) e += (i ? in : "") + w[i]; Cstring g = replace(t.c_str(), in, p.c_str()); MC_CHECK(str(g) == e, "replacing %s by \"%s\" in %s gave %s", q(p).c_str(), in, q(t).c_str(), q(str(g)).c_str()); }
	mc::outcome(mc::H().s(t).s(p).h);
}

// ---------------------------------------------------------------- C19
struct Got { std::string log; };
struct MyCmd : public Cmdline {
	std::string log; char ** av; int ac;
	void rec(char c, int argc, char ** argv) { log += strf("%c(", c); if (argc) MC_CHECK(argv != NULL, "arguments without a list"); for (int i = 0; i < argc; i++) log += strf("%s,", argv[i]); if (argv && !argc) log += "list without arguments"; log += ") "; }
#define DEF(X) virtual void X(int argc, char * argv[]) { rec(#X[0], argc, argv); }
	DEF(A) DEF(B) DEF(C) DEF(D) DEF(E) DEF(F) DEF(G) DEF(H) DEF(I) DEF(J) DEF(K) DEF(L) DEF(M) DEF(N) DEF(O) DEF(P) DEF(Q) DEF(R) DEF(S) DEF(T) DEF(U) DEF(V) DEF(W) DEF(X) DEF(Y) DEF(Z)
	virtual void Usage() { log += "usage "; }
	virtual void Defaul_T(int argc, char * argv[], char c) { rec(c, argc, argv); }
};
static void letters(int n)
{
	std::vector<std::string> a; a.push_back("prog"); std::string w; std::vector<std::string> args; char cur = 0;
	static const char * tok[] = { "-a", "/B", "-zed", "-?", "-5", "x", "yy", "", "-" };
	auto flush = [&]() { if (cur == 0) return; if (cur == '?') { w += "usage "; return; } w += strf("%c(", toupper(cur)); for (auto & s : args) w += s + ","; w += ") "; };
	int k = choose(n + 1); bool help = false;
	for (int i = 0; i < k; i++) { const char * t = tok[choose(9)]; a.push_back(t); if (*t == '-' || *t == '/') { flush(); cur = t[1]; args.clear(); if (cur == '?') help = true; } else args.push_back(t); }
	if (!k) w = "usage "; else flush();
	std::vector<char *> av; for (auto & s : a) av.push_back(&s[0]); av.push_back(NULL);
	MyCmd c; if (choose(2)) { char * pv[] = { av[0], (char *)"-q", (char *)"w", NULL }; c.process(3, pv); MC_CHECK(c.log == "Q(w,) ", "got %s", c.log.c_str()); c.log.clear(); }
	c.process((int)a.size(), &av[0]); mc::step();
	MC_CHECK(c.log == w, "commands [%s], expected [%s]", c.log.c_str(), w.c_str()); MC_CHECK(c.help() == help, "help() is %d", c.help());
	mc::outcome(mc::H().s(w).h);
}
static void console(int n, int first)
{
	console_command c; c.add("name"); c.add("count", console_command::type_int, false, "a count", 'c'); c.add("flag", console_command::type_bool, false, "a flag", 'f');
	bool req = choose(2) == 1; if (req) c.add("must", console_command::type_string, true, "needed", 'm');
	bool dup = false; try { c.add("count"); } catch (mgexception &) { dup = true; } MC_CHECK(dup, "a command was defined twice");
	static const char * pre[] = { "-", "--" }; static const char * nm[] = { "name", "count", "c", "flag", "f", "must", "m", "other", "x" }; static const char * full[] = { "name", "count", "count", "flag", "flag", "must", "must", "other", "x" };
	static const char * val[] = { NULL, ":v", "=v", ":", "=", "=a:b", ":a=b", "=http://h:80/p?q=1", ":-5", "=c=d" };
	std::map<std::string, std::vector<std::string> > w; std::vector<std::string> a(1, "prog");
	int k = first < 0 ? 0 : 1 + choose(n);
	for (int i = 0; i < k; i++) {
		if (i ? choose(2) == 1 : first == 9) { static const char * junk[] = { "file.mp4", "", "a:b" }; a.push_back(junk[choose(3)]); continue; }
		int x = i ? choose(9) : first, v = choose(10); std::string t = std::string(pre[choose(2)]) + nm[x] + (val[v] ? val[v] : ""); a.push_back(t);
		std::string key = full[x]; if ((x == 5 || x == 6) && !req) key = nm[x];
		w[key].push_back(val[v] ? val[v] + 1 : std::string(nm[x]) == "flag" ? "T" : x == 4 ? "?" : ""); // what a flag given by its letter alone is worth is not specified
	}
	std::vector<char *> av; for (auto & s : a) av.push_back(&s[0]); av.push_back(NULL);
	bool r = c.process((int)a.size(), &av[0]); mc::step();
	bool want = !req || w.count("must"); MC_CHECK(r == want, "accepted %d, expected %d", r, want);
	if (!r) MC_CHECK(str(c.get_error_message()) == "missing parameter: must", "message %s", q(str(c.get_error_message())).c_str());
	static const char * all[] = { "name", "count", "flag", "must", "other", "x", "m", "c", "f" };
	for (const char * k2 : all) {
		std::vector<std::string> & e = w[k2]; MC_CHECK(c.command_specified(k2) == !e.empty(), "%s specified: %d", k2, c.command_specified(k2));
		if (e.empty()) continue;
		MC_CHECK(c.get_command_count(k2) == e.size(), "%s was given %u times, expected %zu", k2, c.get_command_count(k2), e.size());
		for (size_t i = 0; i < e.size(); i++) MC_CHECK(e[i] == "?" || str(c.get_value(k2, i)) == e[i], "value %zu of %s is %s, expected %s", i, k2, q(str(c.get_value(k2, i))).c_str(), q(e[i]).c_str());
		MC_CHECK(!c.command_specified(k2, e.size()), "%s specified too often", k2);
	}
	mc::outcome(mc::H().u(r).u(w.size()).u(a.size()).h);
}
static void console_int()
{
	static const char * v[] = { "0", "1", "-1", "2147483647", "-2147483648", "9223372036854775807", "-9223372036854775808", "17179869184" }; const char * t = v[choose(8)];
	console_command c; c.add("n", console_command::type_int, true); std::string a = std::string("-n") + (choose(2) ? ":" : "=") + t; char * av[] = { (char *)"p", &a[0], NULL };
	MC_CHECK(c.process(2, av), "rejected"); MC_CHECK(c.get_integer64_value("n") == atoll(t), "%s read as %lld", t, (long long)c.get_integer64_value("n")); if (atoll(t) == atoi(t)) MC_CHECK(c.get_integer_value("n") == atoi(t), "%s read as %d", t, c.get_integer_value("n"));
	c.set_value("n", "77", 0); MC_CHECK(c.get_integer_value("n") == 77, "set value"); mc::step(); mc::outcome(mc::H().s(t).h);
}

// ---------------------------------------------------------------- C20
static std::string benc(const Bytes & b) { static const char * e = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string r; for (size_t i = 0; i < b.size(); i += 3) { uint32_t x = b[i] << 16 | (i + 1 < b.size() ? b[i + 1] << 8 : 0) | (i + 2 < b.size() ? b[i + 2] : 0); r += e[x >> 18]; r += e[(x >> 12) & 63]; r += i + 1 < b.size() ? e[(x >> 6) & 63] : '='; r += i + 2 < b.size() ? e[x & 63] : '='; } return r; }
static std::string encode(const Bytes & b, const std::vector<int> & cuts)
{
	size_t p = 0; base64_encodestate st; base64_init_encodestate(&st); std::string out;
	for (size_t i = 0; i <= cuts.size(); i++) {
		size_t e = i < cuts.size() ? cuts[i] : b.size(), n = e - p; std::vector<char> src(b.begin() + p, b.begin() + e); if (src.empty()) src.push_back(0);
		std::vector<char> buf(n * 2 + 4); int k = base64_encode_block(&src[0], (int)n, &buf[0], &st); out.append(&buf[0], k); p = e;
	}
	char end[4]; int k = base64_encode_blockend(end, &st); out.append(end, k); return out;
}
static Bytes decode(const std::string & s, const std::vector<int> & cuts)
{
	size_t p = 0; base64_decodestate st; base64_init_decodestate(&st); Bytes out;
	for (size_t i = 0; i <= cuts.size(); i++) {
		size_t e = i < cuts.size() ? cuts[i] : s.size(), n = e - p; std::vector<char> src(s.begin() + p, s.begin() + e); if (src.empty()) src.push_back(0);
		std::vector<char> buf(n + 2, 0); size_t k = base64_decode_block(&src[0], (int)n, &buf[0], &st); out.insert(out.end(), buf.begin(), buf.begin() + k); p = e;
	}
	return out;
}
static std::vector<int> cutting(int len, int n) { std::vector<int> c; int at = 0; for (int i = 0; i < n; i++) { at += choose(len - at + 1); c.push_back(at); } return c; }
static void b64_small(int n) { Bytes b; for (int i = 0; i < n; i++) { static const unsigned char v[] = { 0, 1, 3, 4, 15, 16, 63, 64, 127, 128, 0xc0, 0xfb, 0xff }; b.push_back(i < (n == 4 && !mc::thorough() ? 1 : 2) ? (unsigned char)choose(256) : v[choose(13)]); } std::string w = benc(b), g = encode(b, std::vector<int>()); mc::step(); MC_CHECK(g == w, "%s encoded as %s, expected %s", mc::hex(n ? &b[0] : NULL, n).c_str(), g.c_str(), w.c_str()); Bytes r = decode(g, std::vector<int>()); MC_CHECK(r == b, "%s decoded as %s", g.c_str(), mc::hex(r.size() ? &r[0] : NULL, r.size()).c_str()); mc::outcome(mc::H().s(g).h); }
static void b64_cuts(int maxlen, int ncuts) { int n = choose(maxlen + 1); Bytes b(n); for (int i = 0; i < n; i++) b[i] = (unsigned char)(i * 83 + 0xd7); std::string w = benc(b); std::vector<int> c = cutting(n, ncuts); std::string g = encode(b, c); mc::step(); MC_CHECK(g == w, "%d bytes in %d pieces encoded as %s, expected %s", n, ncuts + 1, g.c_str(), w.c_str()); mc::outcome(mc::H().s(g).u(c.size()).h); }
static void b64_dcuts(int maxlen, int ncuts)
{
	int n = choose(maxlen + 1); Bytes b(n); for (int i = 0; i < n; i++) b[i] = (unsigned char)(i * 83 + 0xd7); std::string w = benc(b);
	int pad = choose(3); if (pad == 1) while (w.size() && w[w.size() - 1] == '=') w.resize(w.size() - 1); if (pad == 2) { std::string k; for (size_t i = 0; i < w.size(); i++) { k += w[i]; if (i % 3 == 1) k += "\r\n"; } w = k; }
	std::vector<int> c = cutting((int)w.size(), ncuts); Bytes r = decode(w, c); mc::step(); MC_CHECK(r == b, "%s in %d pieces decoded as %s", q(w).c_str(), ncuts + 1, mc::hex(r.size() ? &r[0] : NULL, r.size()).c_str()); mc::outcome(mc::H().u(n).u(pad).h);
}
static void b64_noise()
{
	// a character outside the alphabet is skipped wherever it stands
	int ch = choose(256), at = choose(5); if (isalnum(ch) && ch < 128 || ch == '+' || ch == '/' || ch == 0) return; std::string s = "QUJD"; s.insert(at, 1, (char)ch); Bytes r = decode(s, std::vector<int>()); mc::step(); MC_CHECK(std::string(r.begin(), r.end()) == "ABC", "%s decoded as %s", q(s).c_str(), mc::hex(r.size() ? &r[0] : NULL, r.size()).c_str()); mc::outcome(ch * 8 + at);
}
static void b64_pair() { static const char * e = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; int a = choose(64), k = choose(4); std::string s = "AAAA"; s[k] = e[a]; Bytes r = decode(s, std::vector<int>()); uint32_t x = a << (18 - 6 * k); mc::step(); MC_CHECK(r.size() == 3 && r[0] == (x >> 16 & 255) && r[1] == (x >> 8 & 255) && r[2] == (x & 255), "%s decoded as %s", s.c_str(), mc::hex(r.size() ? &r[0] : NULL, r.size()).c_str()); mc::outcome(a * 4 + k); }

// ---------------------------------------------------------------- C21
static uint32_t ref_crc(const unsigned char * p, size_t n, uint32_t c = 0xffffffff) { for (size_t i = 0; i < n; i++) { c ^= (uint32_t)p[i] << 24; for (int k = 0; k < 8; k++) c = c & 0x80000000 ? c << 1 ^ 0x04C11DB7 : c << 1; } return c; }
static void crc_align() { int n = choose(41), off = choose(8), sel = choose(3); std::vector<unsigned char> b(n + off + 1); unsigned char * p = &b[0] + off; for (int i = 0; i < n; i++) p[i] = sel == 0 ? (unsigned char)(i * 73 + 11) : sel == 1 ? 0xff : 0; std::vector<unsigned char> exact(p, p + n); CWinCrc c; uint32_t g = c.crc_32(p, n), w = ref_crc(p, n); mc::step(); MC_CHECK(g == w, "crc of %d bytes at offset %d is %08x, expected %08x", n, off, g, w); mc::outcome(g); }
static void crc_bytes(int n) { unsigned char b[3]; for (int i = 0; i < n; i++) b[i] = (unsigned char)choose(256); CWinCrc c; uint32_t g = c.crc_32(b, n), w = ref_crc(b, n); mc::step(); MC_CHECK(g == w, "crc of %s is %08x, expected %08x", mc::hex(b, n).c_str(), g, w); mc::outcome(g); }
static void crc_chain() { int n = choose(14), cut = choose(n + 1); unsigned char b[14]; for (int i = 0; i < n; i++) b[i] = (unsigned char)(i * 91 + 5); CWinCrc c, d; uint32_t a = c.crc_32(b, cut); uint32_t g = d.crc_32(b + cut, n - cut, __builtin_bswap32(a)), w = ref_crc(b, n); mc::step(); MC_CHECK(g == w, "crc of %d bytes in two parts at %d is %08x, expected %08x", n, cut, g, w); MC_CHECK(n < 4 || c.crc_32(b, n) == w, "crc changed"); unsigned char t[18]; memcpy(t, b, n); t[n] = w >> 24; t[n + 1] = w >> 16; t[n + 2] = w >> 8; t[n + 3] = w; MC_CHECK(c.crc_32(t, n + 4) == 0, "crc over data and its crc is not zero"); mc::outcome(g); }

static void reg()
{
	mc::unit("C10", "handles", [] { handles(D(4, 5), false); });
	mc::unit("C10", "linked handles", [] { handles(D(3, 4), true); });
	for (size_t n = 1; n <= 5; n++) { mc::unit("C15", strf("bytes, initial size %zu", n), [n] { buffers<unsigned char>(n, n < 4 ? D(4, 5) : D(3, 4)); }); if (n < 4) mc::unit("C15", strf("words, initial size %zu", n), [n] { buffers<uint32_t>(n, D(3, 4)); }); }
	mc::unit("C15", "default size", [] { buffers<unsigned char>(1024, D(3, 4)); });
	for (int s = 0; s < 16; s++) mc::unit("C16", strf("operations, start %d", s), [s] { strings(3, s); }); if (mc::thorough()) for (int s = 0; s < 4; s++) mc::unit("C16", strf("operations, start %d, deeper", s * 5), [s] { strings(4, s * 5); });
	mc::unit("C16", "searching", [] { searching(D(6, 8), D(3, 4)); });
	mc::unit("C17", "numbers", numbers); mc::unit("C17", "not numbers", not_numbers); mc::unit("C17", "formats", formats); mc::unit("C17", "hexadecimal", hexes); mc::unit("C17", "dumps", hexdump);
	mc::unit("C18", "split and replace", [] { splitting(D(6, 7), D(3, 3)); });
	mc::unit("C19", "letter commands", [] { letters(D(5, 6)); });
	for (int x = -1; x < 10; x++) mc::unit("C19", strf("named commands %d", x), [x] { console(D(2, 3), x); });
	mc::unit("C19", "numbers", console_int);
	for (int n = 0; n <= 4; n++) mc::unit("C20", strf("%d bytes", n), [n] { b64_small(n); });
	mc::unit("C20", "encoding in pieces", [] { b64_cuts(D(9, 12), D(3, 4)); });
	mc::unit("C20", "decoding in pieces", [] { b64_dcuts(D(7, 9), 3); });
	mc::unit("C20", "characters outside the alphabet", b64_noise); mc::unit("C20", "every character", b64_pair);
	for (int n = 0; n <= 2 + mc::thorough(); n++) mc::unit("C21", strf("every content of %d bytes", n), [n] { crc_bytes(n); });
	mc::unit("C21", "lengths and alignments", crc_align); mc::unit("C21", "in parts", crc_chain);
}
int main(int c, char ** v) { return mc::run(c, v, reg); }

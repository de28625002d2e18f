// C37: files cut short
#include "dashread.h"
#include "hlsread.h"
#include <iostream>
#include <sstream>
#include <map>
typedef std::map<Str, Str> Out;     // what the command leaves, and what it prints where that is its purpose
// when a file was written is not judged
static void undate(Str & b) { static const char * H[] = { "mvhd", "tkhd", "mdhd" }; for (int k = 0; k < 3; k++) for (size_t p = b.find(H[k]); p != Str::npos && p + 24 < b.size(); p = b.find(H[k], p + 1)) for (int i = 0; i < (b[p + 4] ? 16 : 8); i++) b[p + 8 + i] = 0; }
static int result(Scratch & s, const Strs & cmd, bool text, Out & o)
{
    std::wostringstream w; std::wstreambuf * old = std::wcout.rdbuf(w.rdbuf()); int r; try { r = cli(cmd); } catch (...) { std::wcout.rdbuf(old); throw; } std::wcout.rdbuf(old); std::wcout.clear();
    o.clear(); if (text) { std::wstring x = w.str(); Str t; for (size_t i = 0; i < x.size(); i++) t += (char)x[i]; size_t e = t.find('\n'); size_t z = t.find("Edit add time"); o["text"] = t.substr(e + 1, z == Str::npos ? z : z - e - 1); }
    Strs l = s.list("o"); for (size_t i = 0; i < l.size(); i++) { MC_CHECK(s.get("o/" + l[i], o[l[i]]), "%s", l[i].c_str()); undate(o[l[i]]); } return r;
}
static Str listed(const Str & t) { Str r; size_t b = 0; while (b < t.size()) { size_t e = t.find('\n', b); if (e == Str::npos) e = t.size(); Str l = t.substr(b, e - b); b = e + 1; unsigned long long x, y, z; int n = 0; if (l.size() > 5 && l[4] == ' ' && sscanf(l.c_str() + 4, " %llu %llu %llu%n", &x, &y, &z, &n) == 3 && 4 + n == (int)l.size()) r += l + "\n"; } return r; }
static void boxend(const Str & b, const char * n, size_t & end) { for (size_t p = 0; p < b.size();) { uint64_t z = 0; for (int i = 0; i < 4; i++) z = z << 8 | (unsigned char)b[p + i]; if (z == 1) { z = 0; for (int i = 8; i < 16; i++) z = z << 8 | (unsigned char)b[p + i]; } p += z; if (b.substr(p - z + 4, 4) == n) end = p; } }
static void cut(int n, int lay, int kind, bool sound)
{
    static const char * K[] = { "gop", "analyze", "dash", "hls", "mux" }; static std::map<Str, std::pair<int, Out> > known;
    synth::Movie m; synth::Track v = video(n, 25, 1); v.stss = true; if (n > 1) sync_at(v, n - 1); reorder(v, 2); m.t.push_back(v); if (kind == 3) hls::framed(m.t[0], 1); synth::Track a = audio(2 * n, 48000); a.elst_empty = 20; if (sound) m.t.push_back(a); m.moov_first = lay & 1; m.co64 = m.mdat64 = lay >> 1 & 1; m.extras = lay >> 2 & 1;
    Str b = m.build(); size_t at = choose((int)b.size()), need = 0; boxend(b, "moov", need); if (m.moov_first) { size_t e = need; boxend(b, "mdat", e); need = kind > 1 ? e : std::min(e, need + 16); }
    Scratch s; mkdir(s.in("o").c_str(), 0755); Strs cmd = { Str("-k:") + K[kind], "-i:" + s.in("a.mp4") }; if (kind > 1) { cmd.push_back("-s:0"); cmd.push_back("-e:0"); cmd.push_back("-o:" + s.in(kind == 4 ? "o/out.mp4" : "o")); cmd.push_back("-b:750"); }
    Str key = strf("%d %d %d %d", n, lay, kind, sound); if (!known.count(key)) { s.put("a.mp4", b); std::pair<int, Out> & w = known[key]; w.first = result(s, cmd, kind < 2, w.second); MC_CHECK(w.first == 0, "the whole file: exit code %d", w.first); s.clean(); mkdir(s.dir.c_str(), 0755); mkdir(s.in("o").c_str(), 0755); }
    const Out & w = known[key].second; Out o; s.put("a.mp4", b.substr(0, at)); int r = result(s, cmd, kind < 2, o);
    if (at >= need && kind != 1) MC_CHECK(r == 0, "%zu of %zu bytes: exit code %d", at, b.size(), r);
    if (r == 0 && kind == 1) { Str t = listed(o["text"]), x = listed(w.find("text")->second); MC_CHECK(x.compare(0, t.size(), t) == 0, "%zu of %zu bytes: %s is listed, not %s", at, b.size(), t.c_str(), x.c_str()); }
    else if (r == 0) { MC_CHECK(o.size() == w.size(), "%zu of %zu bytes: %zu files, not %zu", at, b.size(), o.size(), w.size()); for (Out::const_iterator i = w.begin(); i != w.end(); i++) MC_CHECK(o[i->first] == i->second, "%zu of %zu bytes: %s differs: %s", at, b.size(), i->first.c_str(), kind < 1 ? o[i->first].c_str() : ""); }
    mc::outcome(mc::H().u(n).u(lay).u(kind).u(r).u(at).h);
}
// C38: the same movie with its samples further and further back in the file
static void far(int n, int lay, int kind, bool sound)
{
    static const char * K[] = { "gop", "analyze", "dash", "hls", "mux" }; static std::map<Str, Out> known;
    synth::Movie m; synth::Track v = video(n, 25, 1); v.stss = true; if (n > 1) sync_at(v, n - 1); reorder(v, 2); m.t.push_back(v); if (kind == 3) hls::framed(m.t[0], 1); synth::Track a = audio(2 * n, 48000); a.elst_empty = 20; if (sound) m.t.push_back(a); m.moov_first = lay & 1; m.extras = lay >> 1 & 1; m.co64 = m.mdat64 = true;
    Str b = m.build(); Strs cmd; Out o;
    int e = choose(D(2, 5)); static const uint64_t E[] = { 1ULL << 32, 1ULL << 31, 1ULL << 33, 5ULL << 31, 1ULL << 35 }; int j = choose((int)(b.size() - m.gap_at) + (m.moov_first ? 1 : 9)); uint64_t g = E[e] - m.gap_at - j;   // the border lies before the j-th byte after the hole
    Str key = strf("%d %d %d %d", n, lay, kind, sound); int r;
    for (int pass = known.count(key) ? 1 : 0; pass < 2; pass++) {
        Scratch s; mkdir(s.in("o").c_str(), 0755); m.gap = pass ? g : 0; b = m.build(); s.put("a.mp4", b, m.gap_at, m.gap); MC_NOTE("%llu bytes before the samples", (unsigned long long)m.gap);
        cmd.clear(); cmd.push_back(Str("-k:") + K[kind]); cmd.push_back("-i:" + s.in("a.mp4")); if (kind > 1) { cmd.push_back("-s:0"); cmd.push_back("-e:0"); cmd.push_back("-o:" + s.in(kind == 4 ? "o/out.mp4" : "o")); cmd.push_back("-b:750"); }
        r = result(s, cmd, kind < 2, o); MC_CHECK(r == 0, "exit code %d", r);
        if (!pass) known[key] = o;
    }
    const Out & w = known[key]; MC_CHECK(o.size() == w.size(), "%zu files, not %zu", o.size(), w.size()); for (Out::const_iterator i = w.begin(); i != w.end(); i++) MC_CHECK(o[i->first] == i->second, "%s differs: %s, not %s", i->first.c_str(), kind < 2 ? o[i->first].c_str() : mc::hex((const unsigned char *)o[i->first].data(), o[i->first].size()).c_str(), kind < 2 ? i->second.c_str() : mc::hex((const unsigned char *)i->second.data(), i->second.size()).c_str());
    mc::outcome(mc::H().u(n).u(lay).u(kind).u(g).h);
}
static void reg()
{
    for (int n = 1; n <= D(2, 4); n++) for (int k = 0; k < 5; k++) if (k != 1) for (int l = 0; l < 4; l++) for (int x = 0; x < 2; x++) mc::unit("C38", strf("far back: n=%d layout %d kind %d sound %d", n, l, k, x), [=] { far(n, l, k, x); });
    for (int n = 1; n <= D(2, 4); n++) for (int k = 0; k < 5; k++) for (int l = 0; l < 8; l++) for (int x = 0; x < 2; x++) mc::unit("C37", strf("cut short: n=%d layout %d kind %d sound %d", n, l, k, x), [=] { cut(n, l, k, x); });
}
int main(int argc, char ** argv) { return mc::run(argc, argv, reg); }

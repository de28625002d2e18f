// C39: what is written depends on the input only. Every command runs three times on the same input, with the memory it is given filled with three different patterns.
#include "dashread.h"
#include "hlsread.h"
#include <iostream>
#include <sstream>
#include <map>
#include <new>
#include <cstdlib>
static unsigned char g_fill;
static void * given(size_t n) { void * p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); memset(p, g_fill, n); return p; }
void * operator new(size_t n) { return given(n); }
void * operator new[](size_t n) { return given(n); }
void operator delete(void * p) noexcept { free(p); }
void operator delete[](void * p) noexcept { free(p); }
static void __attribute__((noinline)) dirty() { volatile unsigned char b[400000]; for (size_t i = 0; i < sizeof b; i++) b[i] = g_fill; }
typedef std::map<Str, Str> Out;
// when a file was written is not judged
static void undate(Str & b) { static const char * H[] = { "mvhd", "tkhd", "mdhd" }; for (int k = 0; k < 3; k++) for (size_t p = b.find(H[k]); p != Str::npos && p + 24 < b.size(); p = b.find(H[k], p + 1)) for (int i = 0; i < (b[p + 4] ? 16 : 8); i++) b[p + 8 + i] = 0; }
static int result(Scratch & s, const Strs & cmd, bool text, Out & o)
{
    std::wostringstream w; std::wstreambuf * old = std::wcout.rdbuf(w.rdbuf()); int r; dirty(); try { r = cli(cmd); } catch (...) { std::wcout.rdbuf(old); throw; } std::wcout.rdbuf(old); std::wcout.clear();
    o.clear(); if (text) { std::wstring x = w.str(); Str t; for (size_t i = 0; i < x.size(); i++) t += (char)x[i]; size_t e = t.find('\n'); size_t z = t.find("Edit add time"); o["text"] = t.substr(e + 1, z == Str::npos ? z : z - e - 1); }
    Strs l = s.list("o"); for (size_t i = 0; i < l.size(); i++) { MC_CHECK(s.get("o/" + l[i], o[l[i]]), "%s", l[i].c_str()); undate(o[l[i]]); } return r;
}
static const char * K[] = { "gop", "analyze", "dash", "hls", "mux", "adaptive" };
static synth::Movie movie(int n, int kind, int tracks, int order, bool plain)
{
    synth::Movie m; synth::Track v = video(n, 25, 1); v.stss = true; for (int i = 1; i < n; i++) if (choose(2)) sync_at(v, i); reorder(v, order); synth::Track a = audio(2 * n, 48000), b = audio(n + 1, 44100); if (!plain && choose(2)) a.elst_empty = 20;
    if (tracks != 1) m.t.push_back(v); if (tracks) m.t.push_back(a); if (tracks == 3) m.t.push_back(b); if (tracks == 4) std::swap(m.t[0], m.t[1]);
    for (size_t i = 0; i < m.t.size(); i++) if (m.t[i].video && (kind == 3 || kind == 5)) hls::framed(m.t[i], 1);
    int lay = plain ? 0 : choose(4); m.moov_first = lay & 1; m.co64 = m.mdat64 = m.v1 = lay >> 1 & 1; m.extras = !plain && choose(2); return m;
}
static void twice(int n, int kind, int tracks, int order, int files)
{
    Strs b; for (int i = 0; i < files; i++) b.push_back(movie(n, kind, tracks, order, files > 1).build()); int part = choose(3), len = choose(2); Out o[3]; int r[3];
    for (int p = 0; p < 3; p++) {
        g_fill = p == 0 ? 0 : p == 1 ? 0xff : 0x5a; Scratch s; mkdir(s.in("o").c_str(), 0755); Strs cmd = { Str("-k:") + K[kind] }; if (kind > 1) { cmd.push_back("-o:" + s.in(kind == 4 ? "o/out.mp4" : "o")); if (kind != 4 && len) cmd.push_back("-segment:1000000"); }
        for (int i = 0; i < files; i++) { Str f = strf("%c.mp4", 'a' + i); s.put(f, b[i]); cmd.push_back("-i:" + s.in(f)); if (kind > 1) { cmd.push_back(part == 1 ? "-s:400000" : "-s:0"); cmd.push_back(part == 2 ? "-e:1200000" : "-e:0"); cmd.push_back("-b:750"); } else if (part) cmd.push_back(part == 1 ? "-s:400000" : "-e:800000"); }
        r[p] = result(s, cmd, kind < 2, o[p]);
        if (!p) continue;
        MC_CHECK(r[p] == r[0], "exit code %d, or %d", r[0], r[p]); if (r[0]) continue; MC_CHECK(o[p].size() == o[0].size(), "%zu files, or %zu", o[0].size(), o[p].size());
        for (Out::iterator i = o[0].begin(); i != o[0].end(); i++) { const Str & x = i->second, & y = o[p][i->first]; size_t d = 0; while (d < x.size() && d < y.size() && x[d] == y[d]) d++; MC_CHECK(x == y, "%s is not the same each time: byte %zu: %s, or %s", i->first.c_str(), d, kind < 2 ? x.substr(d > 60 ? d - 60 : 0, 90).c_str() : mc::hex(x.data() + d, std::min<size_t>(40, x.size() - d)).c_str(), kind < 2 ? y.substr(d > 60 ? d - 60 : 0, 90).c_str() : mc::hex(y.data() + d, std::min<size_t>(40, y.size() - d)).c_str()); }
    }
    mc::H h; h.u(r[0]); for (Out::iterator i = o[0].begin(); i != o[0].end(); i++) for (size_t k = 0; k < i->second.size(); k++) h.u((unsigned char)i->second[k]); mc::outcome(h.h);
}
static void reg()
{
    for (int n = 1; n <= D(2, 3); n++) for (int k = 0; k < 6; k++) for (int t = 0; t < 5; t++) for (int o = 0; o < 3; o++) for (int f = 1; f <= 2; f++) { if (f == 2 && (k < 2 || n > 2)) continue; if (t == 1 && (o || k == 0)) continue; mc::unit("C39", strf("n=%d %s tracks %d order %d files %d", n, K[k], t, o, f), [=] { twice(n, k, t, o, f); }); }
}
int main(int argc, char ** argv) { return mc::run(argc, argv, reg); }

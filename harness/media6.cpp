// C36: the lists the command line tool prints: groups of pictures (-k:gop) and boxes (-k:analyze)
#include "parts.h"
#include <iostream>
#include <sstream>
// what the command prints
static int said(const Strs & cmd, Str & out)
{
    std::wostringstream w; std::wstreambuf * old = std::wcout.rdbuf(w.rdbuf()); int r;
    try { r = cli(cmd); } catch (...) { std::wcout.rdbuf(old); throw; }
    std::wcout.rdbuf(old); std::wcout.clear(); std::wstring s = w.str(); out.clear(); for (size_t i = 0; i < s.size(); i++) out += (s[i] > 0 && s[i] < 127) ? (char)s[i] : '?'; MC_NOTE("%s", out.c_str()); return r;
}
static Strs lines(const Str & s) { Strs r; size_t b = 0; while (b < s.size()) { size_t e = s.find('\n', b); if (e == Str::npos) e = s.size(); r.push_back(s.substr(b, e - b)); b = e + 1; } return r; }
static Str clock(uint64_t t) { uint64_t ms = t / 10000; return strf("%02llu:%02llu:%02llu.%03llu", (unsigned long long)(ms / 3600000), (unsigned long long)(ms / 60000 % 60), (unsigned long long)(ms / 1000 % 60), (unsigned long long)(ms % 1000)); }
// one line for every group from the one in which start is decoded to the first that is not shown before the end
static void gop(int n, int sc, int order, int sound, int some)
{
    Scratch s; synth::Movie m; synth::Track v = video(n, SCALES[sc][0], SCALES[sc][1] * (some ? 500 : 1)); syncs(v); reorder(v, order); bool all = true; for (int i = 0; i < n; i++) all = all && v.s[i].sync; if (all && choose(2)) v.stss = false;
    m.t.push_back(v); if (sound) { synth::Track a = audio(n * 2, 48000); m.t.insert(sound == 1 ? m.t.end() : m.t.begin(), a); } m.interleave = choose(2); m.co64 = choose(2);
    int b = some && (v.stss || !order) ? choose(n) : 0, e = some ? b + 1 + choose(n - b) : n; uint64_t fr = hns(v.s[0].dur, v.timescale), start = hns(v.dts(b), v.timescale), end = e < n ? shown(v, e) : 0; if (some && b && v.stss) start += choose(2) * fr / 2; if (end && choose(2)) end -= fr / 2;
    s.put("a.mp4", m.build()); Strs cmd = { "-k:gop", "-i:" + s.in("a.mp4") }; if (start || (some && choose(2))) cmd.push_back("-s:" + u(start)); if (end) cmd.push_back("-e:" + u(end));
    Str o; int r = said(cmd, o); MC_CHECK(r == 0, "exit code %d", r); Strs l = lines(o), w; for (size_t i = 0; i < l.size(); i++) if (l[i].find('\t') != Str::npos) w.push_back(l[i]);
    int k = 0; for (int i = 0; i < n; i++) if (v.s[i].sync && hns(v.dts(i), v.timescale) <= start) k = i;
    size_t at = 0; uint64_t t = 0; for (; k < n && (!end || t < end); k++) if (v.s[k].sync) {
        t = shown(v, k); Str x = strf("%d\t%d\t%s\t%llu\t%s", sound == 2 ? 1 : 0, k, clock(t).c_str(), (unsigned long long)t, clock(hns(v.dts(k), v.timescale)).c_str());
        MC_CHECK(at < w.size(), "group at %d is not listed", k); MC_CHECK(w[at] == x, "line %zu is %s, not %s", at, w[at].c_str(), x.c_str()); at++; mc::step();
    }
    MC_CHECK(at == w.size(), "%zu lines, not %zu", w.size(), at); mc::outcome(mc::H().u(n).u(sc).u(order).u(sound).u(at).u(start).u(end).h);
}
// one line for every box: its type, where it begins, its size and where it ends
static void walk(const Str & b, size_t from, size_t to, Strs & r)
{
    static const char * in[] = { "moov", "trak", "mdia", "minf", "dinf", "stbl", "udta", "edts", "mvex", "moof", "traf", 0 };
    while (from < to) { uint64_t z = 0; for (int i = 0; i < 4; i++) z = z << 8 | (unsigned char)b[from + i]; Str t = b.substr(from + 4, 4); size_t h = 8; if (z == 1) { z = 0; for (int i = 0; i < 8; i++) z = z << 8 | (unsigned char)b[from + 8 + i]; h = 16; } MC_CHECK(z >= h && from + z <= to, "harness: box %s", t.c_str());
        r.push_back(strf("%s %zu %llu %llu", t.c_str(), from, (unsigned long long)z, (unsigned long long)(from + z))); for (int i = 0; in[i]; i++) if (t == in[i]) walk(b, from + h, from + z, r); from += z; }
}
static void judge(const Str & o, const Str & b)
{
    Strs l = lines(o), w, got; walk(b, 0, b.size(), w); std::set<Str> types; for (size_t i = 0; i < w.size(); i++) types.insert(w[i].substr(0, 4));
    for (size_t i = 0; i < l.size(); i++) { unsigned long long x, y, z; int n = 0; if (l[i].size() > 5 && l[i][4] == ' ' && sscanf(l[i].c_str() + 4, " %llu %llu %llu%n", &x, &y, &z, &n) == 3 && 4 + n == (int)l[i].size() && types.count(l[i].substr(0, 4))) got.push_back(l[i]); }
    for (size_t i = 0; i < w.size(); i++) { MC_CHECK(i < got.size(), "%s is not listed", w[i].c_str()); MC_CHECK(got[i] == w[i], "%s is listed, not %s", got[i].c_str(), w[i].c_str()); mc::step(); } MC_CHECK(got.size() == w.size(), "%s is listed", got[w.size()].c_str());
}
static void boxes(int n, int sc, int what)
{
    Scratch s; synth::Movie m; synth::Track v = video(n, SCALES[sc][0], SCALES[sc][1]); syncs(v); reorder(v, choose(3)); synth::Track a = audio(n, 48000); if (what & 1) a.elst_empty = choose(2) * 20;
    if (what != 1) m.t.push_back(v); if (what) m.t.insert(choose(2) ? m.t.end() : m.t.begin(), a); m.interleave = choose(2); m.co64 = choose(2); m.moov_first = choose(2); int x = choose(4); m.mdat64 = x == 1; m.extras = x == 2; m.v1 = x == 3;
    Str b = m.build(), o; s.put("a.mp4", b); Strs cmd = { "-k:analyze", "-i:" + s.in("a.mp4") }; int r = said(cmd, o); MC_CHECK(r == 0, "exit code %d", r); judge(o, b);
    mc::outcome(mc::H().u(n).u(sc).u(what).u(b.size()).h);
}
// the files written by the tool
static void ours(int n, int sc, int what, int how)
{
    Scratch s; synth::Movie m; synth::Track v = video(n, SCALES[sc][0], SCALES[sc][1]); syncs(v); reorder(v, choose(3)); synth::Track a = audio(n * 2, 48000);
    if (what != 1) m.t.push_back(v); if (what) m.t.push_back(a); s.put("a.mp4", m.build()); mkdir(s.in("o").c_str(), 0755);
    Strs cmd = { how ? "-k:mux" : "-k:dash", "-i:" + s.in("a.mp4"), "-s:0", "-e:0", "-o:" + s.in(how ? "o/out.mp4" : "o") }; if (!how) cmd.push_back("-b:750"); int r = cli(cmd); MC_CHECK(r == 0, "exit code %d", r);
    Strs l = s.list("o"); size_t k = 0; for (size_t i = 0; i < l.size(); i++) { if (l[i].find(".m") == Str::npos || l[i].find(".mpd") != Str::npos) continue; k++; Str b, o; MC_CHECK(s.get("o/" + l[i], b), "no %s", l[i].c_str()); Strs c = { "-k:analyze", "-i:" + s.in("o/" + l[i]) }; MC_CHECK(said(c, o) == 0, "%s", l[i].c_str()); judge(o, b); }
    MC_CHECK(k, "nothing was written"); mc::outcome(mc::H().u(n).u(sc).u(what).u(how).u(k).h);
}
static void reg()
{
    for (int n = 1; n <= D(5, 8); n++) for (int sc = 0; sc < 5; sc++) for (int o = 0; o < 3; o++) for (int x = 0; x < 3; x++) for (int k = 0; k < 2; k++) mc::unit("C36", strf("groups%s: n=%d scale %d order %d sound %d", k ? " of a part" : "", n, sc, o, x), [=] { gop(n, sc, o, x, k); });
    for (int n = 1; n <= D(4, 7); n++) for (int sc = 0; sc < 5; sc++) for (int w = 0; w < 3; w++) { mc::unit("C36", strf("boxes: n=%d scale %d tracks %d", n, sc, w), [=] { boxes(n, sc, w); }); for (int h = 0; h < 2; h++) mc::unit("C36", strf("boxes of the %s: n=%d scale %d tracks %d", h ? "muxer" : "DASH packager", n, sc, w), [=] { ours(n, sc, w, h); }); }
}
int main(int argc, char ** argv) { return mc::run(argc, argv, reg); }

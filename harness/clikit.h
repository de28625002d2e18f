// Shared by the harnesses that run the command line tool: scratch files, the command, and inputs.
#pragma once
#undef main
#include "mc.h"
#include "mp4synth.h"
#include "mp4check.h"
#include <unistd.h>
#include <dirent.h>
#include <sys/stat.h>
#include <algorithm>
#include <functional>
using mc::strf; using mc::choose;
typedef std::string Str;
typedef std::vector<Str> Strs;
int mg_cli_main(int, char **);
static int D(int quick, int deep) { return mc::thorough() ? deep : quick; }
static uint64_t hns(uint64_t t, uint32_t ts) { return t * 10000000ULL / ts; }

// ---------------------------------------------------------------- running the command on scratch files
struct Scratch {
    Str dir;
    Scratch() { static bool done; if (!done && !mc::tracing()) { done = true; freopen("/dev/null", "w", stdout); freopen("/dev/null", "w", stderr); } const char * e = getenv("VERIF_SCRATCH"); dir = strf("%sscratch%d", e ? e : "", (int)getpid()); clean(); mkdir(dir.c_str(), 0755); }
    ~Scratch() { clean(); }
    static void wipe(const Str & d) { DIR * x = opendir(d.c_str()); if (!x) return; while (dirent * e = readdir(x)) { Str n = e->d_name; if (n == "." || n == "..") continue; Str p = d + "/" + n; if (e->d_type == DT_DIR) wipe(p); else unlink(p.c_str()); } closedir(x); rmdir(d.c_str()); }
    void clean() { wipe(dir); }
    Str in(const Str & n) { return dir + "/" + n; }
    void put(const Str & n, const Str & b) { synth::save(in(n), b); }
    void put(const Str & n, const Str & b, uint64_t at, uint64_t gap) { FILE * f = fopen(in(n).c_str(), "wb"); if (!f) abort(); fwrite(b.data(), 1, at, f); fseeko(f, gap, SEEK_CUR); fwrite(b.data() + at, 1, b.size() - at, f); fclose(f); }   // with a hole
    Strs list(const Str & sub = "") { Strs r; DIR * x = opendir(in(sub).c_str()); if (!x) return r; while (dirent * e = readdir(x)) if (e->d_name[0] != '.') r.push_back(e->d_name); closedir(x); std::sort(r.begin(), r.end()); return r; }
    bool get(const Str & n, Str & b) { FILE * f = fopen(in(n).c_str(), "rb"); if (!f) return false; char t[65536]; size_t k; b.clear(); while ((k = fread(t, 1, sizeof t, f)) > 0) b.append(t, k); fclose(f); return true; }
};
static int cli(const Strs & a)
{
    std::vector<char *> v; Strs k; k.push_back("mg"); k.insert(k.end(), a.begin(), a.end()); Str line;
    for (size_t i = 0; i < k.size(); i++) { v.push_back((char *)k[i].c_str()); line += k[i] + " "; } v.push_back(0);
    MC_NOTE("%s", line.c_str()); mc::step();
    int r = mg_cli_main(k.size(), &v[0]); mc::step(); return r;
}
static Str u(uint64_t v) { return strf("%llu", (unsigned long long)v); }

// ---------------------------------------------------------------- inputs
// unit picture times: fps pictures per second in timescale ts
static synth::Track video(int n, uint32_t ts, uint32_t dur)
{
    synth::Track t; t.video = true; t.timescale = ts; t.stss = true;
    for (int i = 0; i < n; i++) { synth::Sample s; s.dur = dur; s.sync = i == 0; s.data = synth::nal(0x41, i, 5 + i % 3); t.s.push_back(s); }
    return t;
}
static void sync_at(synth::Track & t, int i) { t.s[i].sync = true; t.s[i].data[4] = 0x65; }
static synth::Track audio(int n, uint32_t rate)
{
    synth::Track t; t.video = false; t.timescale = rate; t.stss = false; t.rate = rate;
    for (int i = 0; i < n; i++) { synth::Sample s; s.dur = 1024; s.sync = true; s.data = Str(strf("a%03d", i)) + Str(1 + i % 3, (char)(i * 7)); t.s.push_back(s); }
    return t;
}
// closed groups of pictures with display order different from decoding order: I P b b -> offsets in units of dur
static void reorder(synth::Track & t, int kind)
{
    if (!kind) return; t.ctts = true; uint32_t d = t.s[0].dur;
    size_t i = 0; while (i < t.s.size()) { size_t j = i + 1; while (j < t.s.size() && !t.s[j].sync) j++;
        // group i..j-1: first picture first, then pairs (P, b): decoding P b, display b P
        for (size_t k = i; k < j; k++) t.s[k].cts = d;
        if (kind == 2) for (size_t k = i + 1; k + 1 < j; k += 2) { t.s[k].cts = 2 * d; t.s[k + 1].cts = 0; }
        i = j; }
}
static uint64_t comp(const synth::Track & t, size_t i) { return t.dts(i) + (t.ctts ? t.s[i].cts : 0); }

static void syncs(synth::Track & t) { int n = t.s.size(), p = n > 1 ? choose(1 << (n - 1)) : 0; for (int i = 1; i < n; i++) if (p >> (i - 1) & 1) sync_at(t, i); sync_at(t, 0); }
static const uint32_t SCALES[][2] = { { 25, 1 }, { 90000, 3600 }, { 90000, 3003 }, { 600, 25 }, { 12800, 512 } };
// pictures shown for a minute or more each, so that times leave 32 and 33 bits
static const uint32_t LONG[][2] = { { 1000, 100000 }, { 90000, 9000000 }, { 1, 50 } };
static synth::Track slow(int n, int sc, int every) { synth::Track v = video(n, LONG[sc][0], LONG[sc][1]); for (int i = every; i < n; i += every) sync_at(v, i); return v; }
static const uint32_t RATES[] = { 48000, 44100, 24000 };
static uint64_t diff(uint64_t a, uint64_t b) { return a > b ? a - b : b - a; }

// C32: what the command line makes of MP4 files (HLS)
#include "hlsread.h"
using namespace hls;
static const int KIND[][3] = { { 66, 0xC0, 30 }, { 66, 0, 10 }, { 77, 0x40, 31 }, { 100, 0, 40 }, { 100, 0x0C, 51 }, { 66, 0xE0, 13 } };
static void one(int n, int sc, int rate, int order)
{
    Scratch s; synth::Movie m; synth::Track v = video(n, SCALES[sc][0], SCALES[sc][1]); syncs(v); framed(v, 1 + n % 2); reorder(v, order); v.profile = KIND[n % 6][0]; v.constraint = KIND[n % 6][1]; v.level = KIND[n % 6][2];
    uint64_t fr = hns(SCALES[sc][1], SCALES[sc][0]), shift = 0; int k = 0; synth::Track a; m.t.push_back(v); m.interleave = 0;
    if (rate >= 0) { uint64_t sp = hns(1024, RATES[rate]); int late = choose(3); shift = late == 0 ? 0 : late == 1 ? 20 : 90 + 300 * (n % 2); k = (int)(n * fr / sp) + choose(3) * 2 - 1; if (k < 2) k = 2; a = audio(k, RATES[rate]); a.elst_empty = shift; shift *= 10000; if (choose(2)) m.t.insert(m.t.begin(), a); else m.t.push_back(a); m.interleave = choose(4); }
    uint64_t len = choose(2) ? fr * 5 / 2 : 20000000; s.put("a.mp4", m.build()); mkdir(s.in("o").c_str(), 0755);
    int r = cli({ "-k:hls", "-i:" + s.in("a.mp4"), "-o:" + s.in("o"), "-s:0", "-e:0", "-b:750", "-segment:" + u(len) }); MC_CHECK(r == 0, "exit code %d", r);
    std::vector<Variant> d = load(s, "o"); MC_CHECK(d.size() == 1, "%zu variants", d.size());
    holds(d[0], v, rate >= 0 ? &a : 0, shift, len); master(d[0], v, 750000);
    mc::outcome(mc::H().u(n).u(sc).u(rate).u(k).u(d[0].p.size()).h);
}
// every length of picture and of sound frame: how a packet ends
static void sizes(int from, int n, int form)
{
    Scratch s; synth::Movie m; int z = from + choose(n); synth::Track v = video(3, 25, 1); sync_at(v, 2);
    for (int i = 0; i < 3; i++) { std::vector<Str> k; k.push_back(synth::nal(v.s[i].sync ? 0x65 : 0x41, i, z)); v.s[i].data = synth::avcc(k); }
    m.t.push_back(v); synth::Track a; if (form) { a = audio(6, 48000); for (int i = 0; i < 6; i++) { Str & d = a.s[i].data; int w = form == 1 ? z : z % 997 + 1; d = Str(w, 0); for (int k = 0; k < w; k++) d[k] = (char)(i * 31 + k * 7 + k / 256); } m.t.push_back(a); }
    s.put("a.mp4", m.build()); mkdir(s.in("o").c_str(), 0755);
    int r = cli({ "-k:hls", "-i:" + s.in("a.mp4"), "-o:" + s.in("o"), "-s:0", "-e:0", "-b:750", "-segment:20000000" }); MC_CHECK(r == 0, "exit code %d", r);
    std::vector<Variant> d = load(s, "o"); MC_CHECK(d.size() == 1, "%zu variants", d.size()); holds(d[0], v, form ? &a : 0, 0, 20000000);
    mc::outcome(mc::H().u(z).u(form).h);
}
// more pieces than any counter has values
static void many(int n, int snd)
{
    Scratch s; synth::Movie m; synth::Track v = video(n, 25, 1); framed(v, 1); for (int i = 0; i < n; i++) { v.s[i].sync = true; std::vector<Str> k; k.push_back(synth::nal(0x65, i, 9 + choose(1) + i % 5)); v.s[i].data = synth::avcc(k); }
    m.t.push_back(v); synth::Track a; if (snd) { a = audio(n * 15 / 8 + 1, 48000); m.t.push_back(a); }
    s.put("a.mp4", m.build()); mkdir(s.in("o").c_str(), 0755);
    int r = cli({ "-k:hls", "-i:" + s.in("a.mp4"), "-o:" + s.in("o"), "-s:0", "-e:0", "-b:750", "-segment:1000000" }); MC_CHECK(r == 0, "exit code %d", r);
    std::vector<Variant> d = load(s, "o"); MC_CHECK(d.size() == 1, "%zu variants", d.size()); holds(d[0], v, snd ? &a : 0, 0, 1000000); mc::outcome(mc::H().u(n).u(d[0].p.size()).h);
}
static void reg()
{
    for (int n : { 33, 520, 1100 }) for (int a = 0; a < 2; a++) mc::unit("C32", strf("%d pictures, a piece every two%s", n, a ? ", with sound" : ""), [=] { many(n, a); });
    for (int f = 1; f < D(421, 1201); f += 20) mc::unit("C32", strf("lengths %d to %d, with sound", f, f + 19), [=] { sizes(f, 20, 1); });
    for (int f = 65461; f < D(65561, 66001); f += 20) mc::unit("C32", strf("lengths %d to %d", f, f + 19), [=] { sizes(f, 20, choose(2) * 2); });
    for (int f = 8151; f < 8171; f += 20) mc::unit("C32", strf("lengths %d to %d, with sound", f, f + 19), [=] { sizes(f, 20, 1); });
    for (int n = 1; n <= D(6, 9); n++) for (int sc = 0; sc < 5; sc++) for (int o = 0; o < 3; o++) mc::unit("C32", strf("video n=%d scale %d order %d", n, sc, o), [=] { one(n, sc, -1, o); });
    for (int n = 1; n <= D(4, 6); n++) for (int sc = 0; sc < 5; sc++) for (int r = 0; r < D(2, 3); r++) for (int o = 0; o < 3; o++) mc::unit("C32", strf("video n=%d scale %d order %d, audio rate %u", n, sc, o, RATES[r]), [=] { one(n, sc, r, o); });
}
int main(int argc, char ** argv) { return mc::run(argc, argv, reg); }

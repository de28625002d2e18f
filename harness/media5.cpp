// C35: parts of MP4 files muxed into one MP4 file
#include "parts.h"
static const int KIND[][3] = { { 66, 0xC0, 30 }, { 66, 0, 10 }, { 77, 0x40, 31 }, { 100, 0, 40 }, { 100, 0x0C, 51 }, { 66, 0xE0, 13 } };
struct Made { std::vector<const look::Track *> v, a; look::Movie m; };
// every file that is left in the output directory is the result
static void load(Scratch & s, Made & r, const Str & name = "out.mp4")
{
    Strs l = s.list(); for (size_t i = 0; i < l.size(); i++) MC_CHECK(l[i] == name || l[i].size() == 5, "%s is left", l[i].c_str());
    Str b; MC_CHECK(s.get(name, b), "no result"); if (mc::tracing()) { Str h; for (size_t i = 0; i < b.size() && i < 2000; i++) { unsigned char c = b[i]; h += isalnum(c) ? strf("%c", c) : strf("<%02x>", c); } MC_NOTE("%s", h.c_str()); } try { r.m = look::movie(b); } catch (const Str & e) { MC_CHECK(false, "%s", e.c_str()); }
    std::set<unsigned> id; for (size_t i = 0; i < r.m.t.size(); i++) { (r.m.t[i].c.video ? r.v : r.a).push_back(&r.m.t[i]); MC_CHECK(id.insert(r.m.t[i].id).second, "two tracks %u", r.m.t[i].id); }
}
static std::vector<Got> all(const look::Movie & m, const look::Track & t)
{
    int64_t shift = 0, sub = 0; for (size_t i = 0; i < t.edits.size(); i++) if (t.edits[i].second < 0) shift += hns(t.edits[i].first, m.timescale); else { sub = t.edits[i].second; break; }
    std::vector<Got> g; for (size_t i = 0; i < t.s.size(); i++) { const look::Sample & x = t.s[i]; Got w = { x.data, (int64_t)hns(x.dts, t.timescale), (int64_t)hns(x.dts + x.cts - sub, t.timescale) + shift, hns(x.dur, t.timescale), 0, x.sync }; g.push_back(w); } return g;
}
static void same(const look::Track & k, const synth::Track & t, uint64_t scale)
{
    MC_CHECK(k.timescale == scale, "%s: timescale %u, not %llu", t.video ? "video" : "sound", k.timescale, (unsigned long long)scale);
    if (t.video) { MC_CHECK(k.c.sps == t.sps_of() && k.c.pps == t.pps_of(), "parameter sets differ"); MC_CHECK(k.c.w == t.mbw * 16 && k.c.h == t.mbh * 16, "pictures of %ux%u", k.c.w, k.c.h); }
    else MC_CHECK(k.c.asc == synth::Movie::asc(t), "audio configuration differs");
}
// times are rounded to the timescale of the track: not at all when one part's samples all begin at whole ticks
static int64_t tick(uint64_t scale, const synth::Track & t, size_t parts) { bool exact = parts == 1; for (size_t i = 0; i < t.s.size(); i++) if (t.s[i].dur * 10000000ULL % t.timescale || hns(t.dts(i), t.timescale) * scale % 10000000) exact = false; return exact ? 0 : (int64_t)(10000000ULL / scale) + 1; }
// the recorded durations are those of the samples, give or take the last two
static void lengths(const look::Movie & m)
{
    for (size_t i = 0; i < m.t.size(); i++) {
        const look::Track & t = m.t[i]; uint64_t sum = 0, d = 0, shift = 0; for (size_t k = 0; k < t.s.size(); k++) { sum += t.s[k].dur; d = std::max<uint64_t>(d, t.s[k].dur); } for (size_t k = 0; k < t.edits.size(); k++) if (t.edits[k].second < 0) shift += t.edits[k].first;
        MC_CHECK(t.duration <= sum && t.duration + 2 * d + 2 >= sum, "track %zu: recorded duration %llu, the samples last %llu", i, (unsigned long long)t.duration, (unsigned long long)sum);
        uint64_t w = hns(sum, t.timescale), h = hns(t.tkhd_duration - shift, m.timescale), f = hns(d, t.timescale), k = 10000000 / m.timescale + 2; MC_CHECK(h <= w + k && h + 2 * f + k >= w, "track %zu: recorded duration %llu, the samples last %llu", i, (unsigned long long)h, (unsigned long long)w);
    }
}
static void judge(const Made & r, const std::vector<Part> & p, uint64_t vscale, uint64_t ascale)
{
    std::vector<Moved> mv, ma; int64_t tol = 12 + (int64_t)(10000000ULL / r.m.timescale);
    if (p[0].v) { MC_CHECK(r.v.size() == 1, "%zu video tracks", r.v.size()); same(*r.v[0], *p[0].v, vscale); int64_t k = tick(vscale, *p[0].v, p.size()); mv = moved(all(r.m, *r.v[0]), p, true, k, true); tol += k; }
    if (p[0].a) { MC_CHECK(r.a.size() == 1, "%zu sound tracks", r.a.size()); same(*r.a[0], *p[0].a, ascale); int64_t k = tick(ascale, *p[0].a, p.size()); ma = moved(all(r.m, *r.a[0]), p, false, k); tol += k; }
    lengths(r.m); if (p[0].v) together(mv, ma, p, tol);
}
static void one(int n, int sc, int rate, int order, int opt = 0)
{
    static const uint64_t V[] = { 0, 90000, 0, 600, 10000000, 0 }, A[] = { 0, 0, 90000, 44100, 10000000, 0 }; uint32_t dur = SCALES[sc][1] * (opt == 5 ? 20 : 1);      // 5: pictures that last long, so that the tracks are written in turns
    Scratch s; synth::Movie m; synth::Track v = video(n, SCALES[sc][0], dur); v.profile = KIND[n % 6][0]; v.constraint = KIND[n % 6][1]; v.level = KIND[n % 6][2]; syncs(v); reorder(v, order); uint64_t fr = hns(dur, SCALES[sc][0]); Part p; p.v = &v; p.a = 0; p.shift = 0; m.t.push_back(v);
    synth::Track a; if (rate >= 0) { int k = (int)(n * fr / hns(1024, RATES[rate])) + choose(2) * 2; if (k < 2) k = 2; a = audio(k, RATES[rate]); a.elst_empty = choose(2) * 20; p.shift = a.elst_empty * 10000; p.a = &a; m.t.insert(choose(2) ? m.t.begin() : m.t.end(), a); }
    int b = choose(n), o = b ? choose(3) : 0; p.start = hns(v.dts(b), v.timescale) + (o == 0 ? 0 : o == 1 ? 10 : fr / 2);
    int e = b + 1 + choose(n - b); p.end = e < n ? shown(v, e) : 0; if (e < n && order == 2 && !v.s[e].sync) return; if (e < n && order != 2 && choose(2)) p.end += fr / 2;
    select(p); if (p.v0 >= p.v1 || (p.a && p.a0 >= p.a1)) return;
    s.put("a.mp4", m.build()); Strs cmd = { "-k:mux", "-i:" + s.in("a.mp4"), "-o:" + s.in("out.mp4"), "-s:" + u(p.start), "-e:" + u(p.end) }; uint64_t vs = V[opt], as = A[opt];
    if (vs) cmd.push_back("-videotimescale:" + u(vs)); else vs = v.timescale; if (as) cmd.push_back("-audiotimescale:" + u(as)); else as = RATES[rate < 0 ? 0 : rate];
    int r = cli(cmd); MC_CHECK(r == 0, "exit code %d", r);
    Made d; load(s, d); judge(d, std::vector<Part>(1, p), vs, as);
    mc::outcome(mc::H().u(n).u(sc).u(rate + 1).u(order).u(p.v0).u(p.v1).h);
}
// two files one after the other, or the second put into the first
static void some(int n, int m, int sc, int rate, int order, int how)
{
    Scratch s; uint64_t fr = hns(SCALES[sc][1], SCALES[sc][0]); synth::Track v[2], a[2]; int first = rate >= 0 && choose(2), cnt = how == 0 ? 2 : 3; int late[2] = { 0, 0 };
    for (int f = 0; f < 2; f++) {
        int k = f ? m : n; v[f] = video(k, SCALES[sc][0], SCALES[sc][1]); syncs(v[f]); reorder(v[f], order); for (int i = 0; f && i < k; i++) v[f].s[i].data[v[f].s[i].data.size() - 1] ^= 0x80;
        if (rate >= 0) { int c = (int)(k * fr / hns(1024, RATES[rate])) + choose(3 - f) * 2 - 1; if (c < 2) c = 2; a[f] = audio(c, RATES[rate]); late[f] = choose(2) * 20; a[f].elst_empty = late[f]; for (int i = 0; i < c; i++) a[f].s[i].data += f ? "-b" : "-a"; }
        synth::Movie mv; mv.t.push_back(v[f]); if (rate >= 0) mv.t.insert(first ? mv.t.begin() : mv.t.end(), a[f]); mv.interleave = f * 2; s.put(strf("%c.mp4", 'a' + f), mv.build());
    }
    Part p[3]; for (int k = 0; k < cnt; k++) { p[k].v = &v[k == 1]; p[k].a = rate >= 0 ? &a[k == 1] : 0; p[k].shift = late[k == 1] * 10000; p[k].start = p[k].end = 0; }
    if (how) { int w = 0; for (int i = 1; i < n; i++) w += v[0].s[i].sync; if (!w) return; w = choose(w) + 1; int x = 0; while (w) w -= v[0].s[++x].sync; p[0].end = p[2].start = shown(v[0], x); }
    for (int k = 0; k < cnt; k++) { select(p[k]); if (p[k].v0 >= p[k].v1 || (p[k].a && p[k].a0 >= p[k].a1)) return; }
    Strs cmd = { "-k:mux", "-o:" + s.in("out.mp4") }; for (int k = 0; k < cnt; k++) { cmd.push_back("-i:" + s.in(k == 1 ? "b.mp4" : "a.mp4")); cmd.push_back("-s:" + u(p[k].start)); cmd.push_back("-e:" + u(p[k].end)); }
    int r = cli(cmd); MC_CHECK(r == 0, "exit code %d", r);
    Made d; load(s, d); judge(d, std::vector<Part>(p, p + cnt), v[0].timescale, RATES[rate < 0 ? 0 : rate]);
    mc::outcome(mc::H().u(n).u(m).u(sc).u(rate + 1).u(order).u(how).u(p[0].v1).h);
}
static void reg()
{
    for (int how = 0; how < 2; how++) for (int n = 1 + how; n <= D(3, 5); n++) for (int m = 1; m <= D(2, 3); m++) for (int sc = 0; sc < 5; sc++) for (int r = -1; r < D(1, 2); r++) for (int o = 0; o < 3; o++) mc::unit("C35", strf("%s: n=%d,%d scale %d order %d, %s", how ? "inserted" : "one after the other", n, m, sc, o, r < 0 ? "no sound" : strf("sound of %u", RATES[r]).c_str()), [=] { some(n, m, sc, r, o, how); });
    for (int n = 1; n <= D(3, 5); n++) for (int sc = 0; sc < 5; sc++) for (int r = -1; r < D(1, 2); r++) for (int o = 0; o < 3; o++) for (int x = 1; x < 6; x++) mc::unit("C35", strf("options %d: n=%d scale %d order %d, %s", x, n, sc, o, r < 0 ? "no sound" : strf("sound of %u", RATES[r]).c_str()), [=] { one(n, sc, r, o, x); });
    for (int n = 1; n <= D(4, 6); n++) for (int sc = 0; sc < 5; sc++) for (int r = -1; r < D(2, 3); r++) for (int o = 0; o < 3; o++) mc::unit("C35", strf("one part: n=%d scale %d order %d, %s", n, sc, o, r < 0 ? "no sound" : strf("sound of %u", RATES[r]).c_str()), [=] { one(n, sc, r, o); });
}
int main(int argc, char ** argv) { return mc::run(argc, argv, reg); }

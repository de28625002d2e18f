// Parts of inputs put together: which samples each part has, and by how much they are moved.
#pragma once
#include "clikit.h"
static int64_t sdiff(int64_t a, int64_t b) { return a > b ? a - b : b - a; }
struct Part { const synth::Track * v, * a; uint64_t start, end, shift; size_t v0, v1, a0, a1; };        // shift: of the sound in its file, 100 ns
static uint64_t shown(const synth::Track & v, size_t i) { return hns(comp(v, i), v.timescale); }
static uint64_t heard(const Part & p, size_t i) { return hns(p.a->dts(i), p.a->timescale) + p.shift; }
// the pictures from the group in which the part starts up to its end, and the sound from the first of them on up to the end
static void select(Part & p)
{
    const synth::Track & v = *p.v; p.v0 = 0; for (size_t i = 0; i < v.s.size(); i++) if (v.s[i].sync && hns(v.dts(i), v.timescale) <= p.start) p.v0 = i;
    p.v1 = v.s.size(); if (p.end) while (p.v1 > p.v0 && shown(v, p.v1 - 1) >= p.end) p.v1--;
    if (!p.a) return; uint64_t from = shown(v, p.v0); p.a0 = 0; while (p.a0 < p.a->s.size() && heard(p, p.a0) + 3 < from) p.a0++;
    p.a1 = p.a->s.size(); if (p.end) while (p.a1 > p.a0 && heard(p, p.a1 - 1) >= p.end) p.a1--;
}
struct Got { Str data; int64_t dts, cts; uint64_t dur; size_t piece; bool sync; };
// g is the given samples of the parts one after the other; where says by how much each part is moved, and the gap before it
struct Moved { int64_t by, gap; bool some; };
static std::vector<Moved> moved(const std::vector<Got> & g, const std::vector<Part> & parts, bool video, int64_t slack = 0, bool free = false)
{
    size_t at = 0; std::vector<Moved> m; int64_t until = 0; const char * nm = video ? "video" : "sound";
    for (size_t k = 0; k < parts.size(); k++) {
        const Part & p = parts[k]; const synth::Track & t = video ? *p.v : *p.a; size_t b = video ? p.v0 : p.a0, e = video ? p.v1 : p.a1; Moved w = { 0, 0, b < e }; int64_t d0 = 0, end = until;
        for (size_t i = b; i < e; i++, at++) {
            MC_CHECK(at < g.size(), "%s: part %zu: sample %zu of %zu..%zu is missing", nm, k, i, b, e); MC_CHECK(g[at].data == t.s[i].data, "%s: part %zu: sample %zu of %zu..%zu is not next (%zu of %zu)", nm, k, i, b, e, at, g.size());
            int64_t c = video ? shown(t, i) : heard(p, i), d = hns(t.dts(i), t.timescale); int64_t tol = slack + 4 + (i - b);
            if (i == b) { w.by = g[at].cts - c; w.gap = k ? g[at].cts - until : 0; d0 = g[at].dts - d; MC_CHECK(w.gap >= -tol, "%s: part %zu begins at %lld, the one before ends at %lld", nm, k, (long long)g[at].cts, (long long)until); }
            MC_CHECK(sdiff(g[at].cts - c, w.by) <= tol, "%s: part %zu: sample %zu is moved by %lld, not %lld", nm, k, i, (long long)(g[at].cts - c), (long long)w.by); if (video) MC_CHECK((free || sdiff(g[at].dts - d, d0) <= tol) && g[at].dts <= g[at].cts, "part %zu: picture %zu is decoded at %lld", k, i, (long long)g[at].dts);
            if (video && free) MC_CHECK(g[at].sync == t.s[i].sync, "part %zu: picture %zu %s a sync picture", k, i, g[at].sync ? "is" : "is not");
            end = std::max(end, g[at].cts + (int64_t)g[at].dur); mc::step();
        }
        until = end; m.push_back(w);
    }
    MC_CHECK(at == g.size(), "%s: %zu samples, not %zu", nm, g.size(), at);
    return m;
}
static void together(const std::vector<Moved> & mv, const std::vector<Moved> & ma, const std::vector<Part> & p, int64_t tol)
{
    for (size_t k = 0; k < p.size(); k++) {
        bool x = p[k].a; int64_t gap = mv[k].gap; MC_NOTE("part %zu: video %zu..%zu moved by %lld gap %lld", k, p[k].v0, p[k].v1, (long long)mv[k].by, (long long)mv[k].gap);
        if (x) { MC_NOTE("part %zu: sound %zu..%zu moved by %lld gap %lld", k, p[k].a0, p[k].a1, (long long)ma[k].by, (long long)ma[k].gap); if (ma[k].some) { gap = std::min(gap, ma[k].gap); MC_CHECK(sdiff(ma[k].by, mv[k].by) <= tol + (int64_t)p[k].a0, "part %zu: pictures are moved by %lld, sound by %lld", k, (long long)mv[k].by, (long long)ma[k].by); } }
        MC_CHECK(!k || gap <= tol + 4 || (x && !(ma[k].some && ma[k - 1].some)), "part %zu begins %lld after the end of the one before", k, (long long)gap);
    }
}

// C33: several bitrates; C34: parts of inputs put together
#include "dashread.h"
#include "hlsread.h"
#include "parts.h"
static const int KIND[][3] = { { 66, 0xC0, 30 }, { 66, 0, 10 }, { 77, 0x40, 31 }, { 100, 0, 40 }, { 100, 0x0C, 51 }, { 66, 0xE0, 13 } };
// the same pictures by another encoder: same times, other bytes, size and kind
static synth::Track other(const synth::Track & v, int k)
{
    synth::Track t = v; t.mbw = 20 - 5 * k; t.mbh = 15 - 4 * k; t.profile = KIND[k][0]; t.constraint = KIND[k][1]; t.level = KIND[k][2];
    for (size_t i = 0; i < t.s.size(); i++) { std::vector<Str> n; n.push_back(synth::nal(t.s[i].sync ? 0x65 : 0x41, 60 * k + i * 7 + 1, 3 + (i + k) % 5)); t.s[i].data = synth::avcc(n); }
    return t;
}
static synth::Track otherSound(const synth::Track & a, int k) { synth::Track t = a; for (size_t i = 0; i < t.s.size(); i++) t.s[i].data = strf("s%d-%03d", k, (int)i) + Str(1 + (i + k) % 4, (char)(i + 1)); return t; }
static void rates(int n, int sc, int rate, int order, int kind)     // 0 HLS, 1 DASH, 2 both
{
    Scratch s; synth::Track v = video(n, SCALES[sc][0], SCALES[sc][1]); syncs(v); reorder(v, order);
    uint64_t fr = hns(SCALES[sc][1], SCALES[sc][0]); int k = 0; synth::Track a; if (rate >= 0) { k = (int)(n * fr / hns(1024, RATES[rate])) + 1; if (k < 2) k = 2; a = audio(k, RATES[rate]); }
    int cnt = 2 + choose(2), rot = choose(3), first = rate >= 0 && choose(2), inter = rate >= 0 ? choose(2) * 2 : 0; static const unsigned B[3] = { 750, 1200, 300 };
    std::vector<synth::Track> vs, as; Strs cmd = { kind == 2 ? "-k:adaptive" : kind ? "-k:dash" : "-k:hls", "-s:0", "-e:0", "-o:" + s.in("o") }; std::vector<uint64_t> bw;
    for (int q = 0; q < cnt; q++) {
        synth::Movie m; vs.push_back(other(v, q)); m.t.push_back(vs.back()); m.interleave = (inter + q) % 3; if (rate >= 0) { as.push_back(otherSound(a, q)); m.t.insert(first ? m.t.begin() : m.t.end(), as.back()); }
        s.put(strf("%c.mp4", 'a' + q), m.build()); bw.push_back(B[(q + rot) % 3]); cmd.push_back(strf("-%c:", q ? 'j' : 'i') + s.in(strf("%c.mp4", 'a' + q))); cmd.push_back("-b:" + u(bw.back()));
    }
    uint64_t len = choose(2) ? fr * 5 / 2 : 20000000; cmd.push_back("-segment:" + u(len)); mkdir(s.in("o").c_str(), 0755);
    int r = cli(cmd); MC_CHECK(r == 0, "exit code %d", r); size_t pieces = 0;
    if (kind) {
        dash::Dash d = dash::load(s, "o", kind == 2 ? ".ts.m3u8" : ""); const dash::Set * w = dash::set_of(d, true), * x = dash::set_of(d, false); MC_CHECK(w && !!x == (rate >= 0), "%zu sets", d.sets.size());
        MC_CHECK((int)w->reps.size() == cnt, "%zu qualities, not %d", w->reps.size(), cnt); pieces = w->times.size();
        for (int q = 0; q < cnt; q++) { const dash::Rep * p = 0; for (size_t i = 0; i < w->reps.size(); i++) if (w->reps[i].bitrate == bw[q] * 1000) p = &w->reps[i]; MC_CHECK(p, "no quality of %u kb/s", (unsigned)bw[q]); dash::holds(*p, *w, vs[q], 0, n, 0, 10000000); dash::cuts(*p, vs[q], 0, n, len, 0); }
        if (x) { MC_CHECK(x->reps.size() == 1, "%zu qualities of sound", x->reps.size()); size_t from = dash::first_sound(x->reps[0], as[0], hns(comp(v, 0), v.timescale), 0); dash::holds(x->reps[0], *x, as[0], from, k, 0, 10000000); dash::parts(x->reps[0], as[0], len); }
        synth::Movie none; dash::manifest(d, none);
    }
    if (kind != 1) {
        std::vector<hls::Variant> d = hls::load(s, "o", kind == 2 ? ".mpd.m4v.m4a" : ""); MC_CHECK((int)d.size() == cnt, "%zu variants, not %d", d.size(), cnt); pieces = d[0].p.size();
        for (int q = 0; q < cnt; q++) {
            const hls::Variant * p = 0; for (size_t i = 0; i < d.size(); i++) if (d[i].bandwidth == bw[q] * 1000 + 96000) p = &d[i]; MC_CHECK(p, "no variant of %u kb/s", (unsigned)bw[q]);
            hls::holds(*p, vs[q], rate >= 0 ? &as[q] : 0, 0, len); hls::master(*p, vs[q], bw[q] * 1000);
            for (size_t i = 0; i < p->p.size(); i++) MC_CHECK(p->p[i].dur == d[0].p[i].dur, "piece %zu of %u kb/s lasts %llu", i, (unsigned)bw[q], (unsigned long long)p->p[i].dur);
        }
    }
    mc::outcome(mc::H().u(n).u(sc).u(rate + 1).u(order).u(cnt).u(pieces).u(kind).h);
}
// ---------------------------------------------------------------- parts of inputs
static std::vector<Got> all(const dash::Rep & r) { std::vector<Got> g; for (size_t p = 0; p < r.pieces.size(); p++) for (size_t q = 0; q < r.pieces[p].f.s.size(); q++) { const look::Sample & x = r.pieces[p].f.s[q]; Got w = { x.data, (int64_t)x.dts, (int64_t)x.dts + x.cts, x.dur, p, x.sync }; g.push_back(w); } return g; }
static std::vector<Moved> joined(const dash::Rep & r, const std::vector<Part> & parts, bool video)
{
    std::vector<Got> g = all(r); std::vector<Moved> m = moved(g, parts, video); const char * nm = video ? "video" : "sound";
    for (size_t p = 0; p < r.pieces.size(); p++) {
        const dash::Piece & pc = r.pieces[p]; int64_t c = INT64_MAX, e = 0; for (size_t i = 0; i < g.size(); i++) if (g[i].piece == p) { if (video && c == INT64_MAX) MC_CHECK(g[i].sync, "video piece %zu does not begin with a sync picture", p); c = std::min(c, g[i].cts); e = std::max(e, g[i].cts + (int64_t)g[i].dur); }
        MC_CHECK(c != INT64_MAX, "%s piece %zu is empty", nm, p); MC_CHECK(sdiff(c, pc.t) <= (int64_t)(4 + pc.f.s.size()), "%s piece %zu is shown from %lld, the manifest says %llu", nm, p, (long long)c, (unsigned long long)pc.t);
        MC_CHECK(e <= (int64_t)(pc.t + pc.d + 4 + pc.f.s.size()), "%s piece %zu is shown until %lld, the manifest says %llu", nm, p, (long long)e, (unsigned long long)(pc.t + pc.d));
        if (p + 1 < r.pieces.size()) MC_CHECK(pc.t + pc.d == r.pieces[p + 1].t, "%s piece %zu: the manifest has a hole", nm, p);
    }
    return m;
}
// the pictures at which pieces begin: the first of the part, then the first sync picture at least the length after the last
static std::vector<size_t> due(const Part & p, uint64_t len, uint64_t tol) { std::vector<size_t> w; uint64_t last = 0; for (size_t i = p.v0; i < p.v1; i++) if (p.v->s[i].sync) { uint64_t c = shown(*p.v, i); if (w.empty() || c + tol >= last + len) { w.push_back(i); last = c; } } return w; }
static int64_t since(uint64_t ticks) { return (int64_t)(ticks * 1000 / 9) - 2000000; }
// the same for HLS; times are rounded to ms; sound that begins after the pictures of a part end may be left out
static void joinedHls(const hls::Variant & r, const std::vector<Part> & parts, std::vector<Moved> & mv, std::vector<Moved> & ma, uint64_t len)
{
    const int64_t TOL = 11000; bool snd = parts[0].a; std::vector<hls::Pair> pr = hls::programs(r, snd); size_t p = 0, q = 0; int64_t until = 0; std::vector<int64_t> begin; std::vector<size_t> of; mv.clear(); ma.clear();
    for (size_t k = 0; k < parts.size(); k++) {
        const Part & x = parts[k]; const synth::Track & t = *x.v; std::vector<size_t> w = due(x, len, 660000); Moved m = { 0, 0, x.v0 < x.v1 }; int64_t d0 = 0, end = until; size_t cut = 0;
        for (size_t i = x.v0; i < x.v1; i++) {
            bool first = cut < w.size() && w[cut] == i; if (first) { if (i != x.v0 || k) { MC_CHECK(q == pr[p].g[0]->pes.size(), "part %zu: piece %zu goes on with picture %zu", k, p, i); p++; q = 0; } cut++; }
            MC_CHECK(p < pr.size() && q < pr[p].g[0]->pes.size(), "part %zu: picture %zu of %zu..%zu is not in piece %zu of %zu", k, i, x.v0, x.v1, p, pr.size());
            const look::Pes & e = pr[p].g[0]->pes[q++]; hls::picture(e, t, i, p); int64_t c = since(e.pts), d = since(e.dts), ec = shown(t, i), ed = hns(t.dts(i), t.timescale); MC_CHECK(e.dts <= e.pts, "part %zu: picture %zu is decoded after it is shown", k, i);
            if (i == x.v0) { m.by = c - ec; d0 = d - ed; m.gap = k ? c - until : 0; MC_CHECK(m.gap >= -TOL, "part %zu begins at %lld, the one before ends at %lld", k, (long long)c, (long long)until); }
            MC_CHECK(sdiff(c - ec, m.by) <= TOL, "part %zu: picture %zu is moved by %lld, not %lld", k, i, (long long)(c - ec), (long long)m.by); MC_CHECK(sdiff(d - ed, d0) <= TOL, "part %zu: decoding of picture %zu is moved by %lld, not %lld", k, i, (long long)(d - ed), (long long)d0);
            if (first) { begin.push_back(c); of.push_back(k); } end = std::max(end, c + (int64_t)hns(t.s[i].dur, t.timescale)); mc::step();
        }
        until = end; mv.push_back(m);
    }
    MC_CHECK(p + 1 == pr.size() && q == pr[p].g[0]->pes.size(), "%zu pieces, not %zu; %zu pictures, not %zu", pr.size(), p + 1, pr[p].g[0]->pes.size(), q); begin.push_back(until);
    for (p = 0; p < pr.size(); p++) MC_CHECK(sdiff(r.p[p].dur, begin[p + 1] - begin[p]) <= 2 * TOL, "piece %zu lasts %lld, the playlist says %llu", p, (long long)(begin[p + 1] - begin[p]), (unsigned long long)r.p[p].dur);
    if (!snd) return;
    std::vector<std::vector<hls::Frame> > f; for (p = 0; p < pr.size(); p++) f.push_back(hls::frames(*pr[p].g[1], *parts[of[p]].a, p)); p = q = 0; until = 0;
    for (size_t k = 0; k < parts.size(); k++) {
        const Part & x = parts[k]; uint64_t stop = 0; for (size_t i = x.v0; i < x.v1; i++) stop = std::max<uint64_t>(stop, hns(comp(*x.v, i) + x.v->s[i].dur, x.v->timescale)); Moved m = { 0, 0, false }; int64_t end = until;
        size_t e = x.a1; while (e < x.a->s.size() && heard(x, e) < stop) e++;      // while a picture that began before the end lasts
        for (size_t i = x.a0; i < e; i++) {
            while (p + 1 < pr.size() && of[p + 1] == k && q == f[p].size()) { p++; q = 0; }
            bool here = p < pr.size() && of[p] == k && q < f[p].size(), is = here && f[p][q].a.data == x.a->s[i].data;
            if (!is) { MC_CHECK((!here && (i >= x.a1 || heard(x, i) + 3 >= stop)) || (i == x.a0 && heard(x, i) < shown(*x.v, x.v0) + 3), "part %zu: sound %zu of %zu..%zu is not next in piece %zu", k, i, x.a0, x.a1, p); if (!here) break; continue; }
            int64_t c = since(f[p][q].pts), ec = heard(x, i); if (!m.some) { m.some = true; m.by = c - ec; m.gap = k ? c - until : 0; MC_CHECK(m.gap >= -TOL, "part %zu: sound begins at %lld, the one before ends at %lld", k, (long long)c, (long long)until); }
            MC_CHECK(sdiff(c - ec, m.by) <= TOL, "part %zu: sound %zu is moved by %lld, not %lld", k, i, (long long)(c - ec), (long long)m.by); MC_CHECK(c + TOL >= begin[p] && (c < begin[p + 1] + TOL || p + 1 == pr.size() || of[p + 1] != k), "part %zu: sound %zu at %lld is in the piece from %lld to %lld", k, i, (long long)c, (long long)begin[p], (long long)begin[p + 1]);
            MC_CHECK(f[p][q].a.object == x.a->objtype && f[p][q].a.rate == x.a->rate && f[p][q].a.channels == x.a->channels, "sound %zu: kind %u, rate %u, %u channels", i, f[p][q].a.object, f[p][q].a.rate, f[p][q].a.channels); end = std::max(end, c + (int64_t)hns(1024, x.a->rate)); q++; mc::step();
        }
        while (p < pr.size() && of[p] == k) { MC_CHECK(q == f[p].size(), "part %zu: more sound in piece %zu", k, p); p++; q = 0; }
        until = end; ma.push_back(m);
    }
}
static void dueIs(const dash::Rep & r, const std::vector<Part> & parts, uint64_t len)
{
    size_t p = 0, q = 0; for (size_t k = 0; k < parts.size(); k++) { std::vector<size_t> w = due(parts[k], len, 260000); size_t cut = 0; for (size_t i = parts[k].v0; i < parts[k].v1; i++, q++) { if (p < r.pieces.size() && q == r.pieces[p].f.s.size()) { p++; q = 0; } bool first = cut < w.size() && w[cut] == i; cut += first; MC_CHECK(first == (q == 0), "part %zu: picture %zu %s a piece", k, i, first ? "does not begin" : "begins"); } }
}
static void trim(int n, int sc, int rate, int order, bool dash)
{
    Scratch s; synth::Movie m; synth::Track v = video(n, SCALES[sc][0], SCALES[sc][1]); syncs(v); hls::framed(v, 1); reorder(v, order); uint64_t fr = hns(SCALES[sc][1], SCALES[sc][0]); Part p; p.v = &v; p.a = 0; p.shift = 0; m.t.push_back(v);
    synth::Track a; if (rate >= 0) { int k = (int)(n * fr / hns(1024, RATES[rate])) + choose(2) * 2; if (k < 2) k = 2; a = audio(k, RATES[rate]); p.a = &a; m.t.insert(choose(2) ? m.t.begin() : m.t.end(), a); }
    static const int OFF[3] = { 0, 1, 2 }; int b = choose(n), o = choose(3); p.start = hns(v.dts(b), v.timescale) + (o == 0 ? 0 : o == 1 ? 10 : fr / 2); (void)OFF;
    int e = b + 1 + choose(n - b); p.end = e < n ? shown(v, e) : 0; if (e < n && order == 2 && !v.s[e].sync) return; if (e < n && choose(2)) { if (order == 2) return; p.end += fr / 2; }
    select(p); if (p.v0 >= p.v1 || (p.a && p.a0 >= p.a1)) return;
    uint64_t len = choose(2) ? fr * 5 / 2 : 20000000; s.put("a.mp4", m.build()); mkdir(s.in("o").c_str(), 0755);
    int r = cli({ dash ? "-k:dash" : "-k:hls", "-i:" + s.in("a.mp4"), "-o:" + s.in("o"), "-s:" + u(p.start), "-e:" + u(p.end), "-b:750", "-segment:" + u(len) }); MC_CHECK(r == 0, "exit code %d", r);
    std::vector<Part> ps(1, p); std::vector<Moved> mv, ma; size_t pieces = 0;
    if (dash) {
        dash::Dash d = dash::load(s, "o"); const dash::Set * w = dash::set_of(d, true), * x = dash::set_of(d, false); MC_CHECK(w && !!x == (rate >= 0), "%zu sets", d.sets.size()); MC_CHECK(w->reps.size() == 1 && (!x || x->reps.size() == 1), "several qualities");
        mv = joined(w->reps[0], ps, true); if (x) ma = joined(x->reps[0], ps, false); dueIs(w->reps[0], ps, len); pieces = w->times.size();
    } else { std::vector<hls::Variant> d = hls::load(s, "o"); MC_CHECK(d.size() == 1, "%zu variants", d.size()); joinedHls(d[0], ps, mv, ma, len); pieces = d[0].p.size(); }
    together(mv, ma, ps, dash ? 6 : 11000);
    mc::outcome(mc::H().u(n).u(sc).u(rate + 1).u(order).u(dash).u(p.v0).u(p.v1).u(pieces).h);
}
// two files one after the other, or the second put into the first
static void join(int n, int m, int sc, int rate, int order, int how, bool dash)
{
    Scratch s; uint64_t fr = hns(SCALES[sc][1], SCALES[sc][0]); synth::Track v[2], a[2]; int first = rate >= 0 && choose(2), cnt = how == 0 ? 2 : 3; std::vector<std::vector<synth::Track> > vs(2); std::vector<synth::Track> & va = vs[0], & vb = vs[1];
    int q = order && D(1, 0) ? 1 : 1 + choose(2), late[2] = { 0, 0 };
    for (int f = 0; f < 2; f++) {
        int k = f ? m : n; v[f] = video(k, SCALES[sc][0], SCALES[sc][1]); syncs(v[f]); hls::framed(v[f], 1); reorder(v[f], order); for (int i = 0; f && i < k; i++) v[f].s[i].data[v[f].s[i].data.size() - 1] ^= 0x80;
        if (rate >= 0) { int c = (int)(k * fr / hns(1024, RATES[rate])) + choose(3 - f) * 2 - 1; if (c < 2) c = 2; a[f] = audio(c, RATES[rate]); late[f] = (sc || order) && D(1, 0) ? f * 20 : sc && f ? late[0] : choose(2) * 20; a[f].elst_empty = late[f]; for (int i = 0; i < c; i++) a[f].s[i].data += f ? "-b" : "-a"; }
        for (int g = 0; g < q; g++) { synth::Movie mv; vs[f].push_back(g ? other(v[f], g) : v[f]); if (f && g) for (int i = 0; i < k; i++) vs[f][g].s[i].data[vs[f][g].s[i].data.size() - 1] ^= 0x80; mv.t.push_back(vs[f][g]); if (rate >= 0) mv.t.insert(first ? mv.t.begin() : mv.t.end(), a[f]); s.put(strf("%c%d.mp4", 'a' + f, g), mv.build()); }
    }
    Part p[3]; for (int k = 0; k < cnt; k++) { p[k].v = &v[k == 1]; p[k].a = rate >= 0 ? &a[k == 1] : 0; p[k].shift = late[k == 1] * 10000; p[k].start = p[k].end = 0; }
    if (how) { int w = 0; for (int i = 1; i < n; i++) w += v[0].s[i].sync; if (!w) return; w = choose(w) + 1; int x = 0; while (w) w -= v[0].s[++x].sync; p[0].end = p[2].start = shown(v[0], x); if (order) p[2].start = shown(v[0], x); }
    bool heard = false; for (int k = 0; k < cnt; k++) { select(p[k]); if (p[k].v0 >= p[k].v1) return; heard |= p[k].a && p[k].a0 < p[k].a1; } if (rate >= 0 && !heard) return;
    uint64_t len = choose(2) ? fr * 5 / 2 : 20000000; Strs cmd = { dash ? "-k:dash" : "-k:hls", "-o:" + s.in("o"), "-segment:" + u(len) }; for (int k = 0; k < cnt; k++) for (int g = 0; g < q; g++) { if (!g) { cmd.push_back("-s:" + u(p[k].start)); cmd.push_back("-e:" + u(p[k].end)); } cmd.push_back(strf("-%c:", g ? 'j' : 'i') + s.in(strf("%c%d.mp4", 'a' + (k == 1), g))); cmd.push_back(g ? "-b:300" : "-b:750"); }
    mkdir(s.in("o").c_str(), 0755); int r = cli(cmd); MC_CHECK(r == 0, "exit code %d", r);
    std::vector<Moved> mv, ma; std::vector<Part> ps(p, p + cnt); size_t pieces = 0;
    if (dash) {
        dash::Dash d = dash::load(s, "o"); const dash::Set * w = dash::set_of(d, true), * x = dash::set_of(d, false); MC_CHECK(w && !!x == (rate >= 0), "%zu sets", d.sets.size()); MC_CHECK((int)w->reps.size() == q && (!x || x->reps.size() == 1), "%zu qualities", w->reps.size()); pieces = w->times.size();
        if (x) ma = joined(x->reps[0], ps, false);
        for (int g = 0; g < q; g++) { const dash::Rep * rp = 0; for (int i = 0; i < q; i++) if (w->reps[i].bitrate == (g ? 300000u : 750000u)) rp = &w->reps[i]; MC_CHECK(rp, "no quality %d", g); for (int k = 0; k < cnt; k++) ps[k].v = &vs[k == 1][g]; mv = joined(*rp, ps, true); dueIs(*rp, ps, len); together(mv, ma, ps, 6); }
        synth::Movie none; dash::manifest(d, none);
    } else {
        std::vector<hls::Variant> d = hls::load(s, "o"); MC_CHECK((int)d.size() == q, "%zu variants", d.size()); pieces = d[0].p.size();
        for (int g = 0; g < q; g++) { const hls::Variant * rp = 0; for (int i = 0; i < q; i++) if (d[i].bandwidth == (g ? 396000u : 846000u)) rp = &d[i]; MC_CHECK(rp, "no quality %d", g); for (int k = 0; k < cnt; k++) ps[k].v = &vs[k == 1][g]; joinedHls(*rp, ps, mv, ma, len); together(mv, ma, ps, 11000); }
    }
    mc::outcome(mc::H().u(n).u(m).u(sc).u(rate + 1).u(order).u(dash).u(how).u(q).u(pieces).h);
}
// files with sound only
static void alone(int n, int rate, int cnt)
{
    Scratch s; synth::Track a[2]; Part p[3]; int late[2] = { 0, 0 }, len = 2 + choose(3); uint64_t sp = hns(1024, RATES[rate]);
    for (int f = 0; f < 2 && f < cnt; f++) { a[f] = audio(f ? 2 + choose(n) : n, RATES[rate]); for (size_t i = 0; i < a[f].s.size(); i++) a[f].s[i].data += f ? "-b" : "-a"; late[f] = choose(2) * 20; a[f].elst_empty = late[f]; synth::Movie m; m.t.push_back(a[f]); s.put(strf("%c.mp4", 'a' + f), m.build()); }
    for (int k = 0; k < cnt; k++) {
        Part & x = p[k]; x.v = 0; x.a = &a[k == 1]; x.shift = late[k == 1] * 10000; size_t c = x.a->s.size(), b = 0, e = c; if (k == 2) b = p[0].a1; else if (cnt == 1) b = choose(c); if (k == 0 && cnt != 2) e = b + 1 + choose(c - b); if (k == 1 && choose(2)) e = 1 + choose(c);
        x.a0 = b; x.a1 = e; if (b >= e) return; int w = b && k != 2 ? choose(2) : 0; x.start = b ? heard(x, b) - (w ? sp / 2 : 0) : 0; if (k == 2) x.start = p[0].end; x.end = e < c ? heard(x, e) - (k == 2 ? 0 : choose(2) * (sp / 2)) : 0;
    }
    Strs cmd = { "-k:dash", "-o:" + s.in("o"), "-segment:" + u(len * sp + sp / 2) }; for (int k = 0; k < cnt; k++) { cmd.push_back("-s:" + u(p[k].start)); cmd.push_back("-e:" + u(p[k].end)); cmd.push_back("-i:" + s.in(k == 1 ? "b.mp4" : "a.mp4")); cmd.push_back("-b:750"); }
    mkdir(s.in("o").c_str(), 0755); int r = cli(cmd); MC_CHECK(r == 0, "exit code %d", r);
    dash::Dash d = dash::load(s, "o"); const dash::Set * x = dash::set_of(d, false); MC_CHECK(x && d.sets.size() == 1 && x->reps.size() == 1, "%zu sets", d.sets.size()); std::vector<Moved> m = joined(x->reps[0], std::vector<Part>(p, p + cnt), false);
    for (int k = 0; k < cnt; k++) { MC_NOTE("part %d: sound %zu..%zu moved by %lld gap %lld", k, p[k].a0, p[k].a1, (long long)m[k].by, (long long)m[k].gap); MC_CHECK(!k || m[k].gap <= 10, "part %d begins %lld after the end of the one before", k, (long long)m[k].gap); }
    synth::Movie none; dash::manifest(d, none); mc::outcome(mc::H().u(n).u(rate).u(cnt).u(len).u(x->times.size()).h);
}
static void reg()
{
    for (int n = 2; n <= D(6, 9); n++) for (int r = 0; r < 2; r++) for (int c = 1; c < 4; c++) mc::unit("C34", strf("DASH, sound alone: n=%d rate %d, %d parts", n, r, c), [=] { alone(n, r, c); });
    for (int d = 0; d < 2; d++) for (int how = 0; how < 2; how++) for (int n = 1 + how; n <= D(3, 5); n++) for (int m = 1; m <= D(2, 3); m++) for (int sc = 0; sc < (n + m > D(4, 7) ? 1 : 5); sc++) for (int r = -1; r < D(1, 2); r++) for (int o = 0; o < 3; o++) mc::unit("C34", strf("%s, %s: n=%d,%d scale %d order %d, %s", d ? "DASH" : "HLS", how ? "inserted" : "one after the other", n, m, sc, o, r < 0 ? "no sound" : "with sound"), [=] { join(n, m, sc, r, o, how, d); });
    for (int d = 0; d < 2; d++) for (int n = 1; n <= D(4, 6); n++) for (int sc = 0; sc < (n > D(3, 5) ? 1 : 5); sc++) for (int r = -1; r < D(1, 2); r++) for (int o = 0; o < 3; o++) mc::unit("C34", strf("%s, one part: n=%d scale %d order %d, %s", d ? "DASH" : "HLS", n, sc, o, r < 0 ? "no sound" : "with sound"), [=] { trim(n, sc, r, o, d); });
    for (int d = 0; d < 3; d++) for (int n = 1; n <= D(4, 6); n++) for (int sc = 0; sc < 5; sc++) for (int r = -1; r < D(1, 2); r++) for (int o = 0; o < 3; o++) mc::unit("C33", strf("%s: video n=%d scale %d order %d, %s", d == 2 ? "both" : d ? "DASH" : "HLS", n, sc, o, r < 0 ? "no sound" : "with sound"), [=] { rates(n, sc, r, o, d); });
}
int main(int argc, char ** argv) { return mc::run(argc, argv, reg); }

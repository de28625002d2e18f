// C31: what the command line makes of MP4 files (DASH)
#include "dashread.h"
using namespace dash;
static void dash_video(int n, int sc)
{
    Scratch s; synth::Movie m; synth::Track v = video(n, SCALES[sc][0], SCALES[sc][1]); syncs(v); reorder(v, choose(3));
    static const int KIND[][3] = { { 66, 0xC0, 30 }, { 66, 0, 10 }, { 77, 0x40, 31 }, { 100, 0, 40 }, { 100, 0x0C, 51 }, { 66, 0xE0, 13 } }; v.profile = KIND[n % 6][0]; v.constraint = KIND[n % 6][1]; v.level = KIND[n % 6][2]; m.t.push_back(v);
    uint64_t fr = hns(SCALES[sc][1], SCALES[sc][0]); int l = choose(4); uint64_t len = l == 0 ? fr * 2 : l == 1 ? fr * 3 : l == 2 ? fr * 5 / 2 : 20000000;
    s.put("a.mp4", m.build()); mkdir(s.in("o").c_str(), 0755);
    int r = cli({ "-k:dash", "-i:" + s.in("a.mp4"), "-o:" + s.in("o"), "-s:0", "-e:0", "-b:750", "-segment:" + u(len) }); MC_CHECK(r == 0, "exit code %d", r);
    Dash d = load(s, "o"); MC_CHECK(d.sets.size() == 1 && d.sets[0].video && d.sets[0].reps.size() == 1 && d.sets[0].reps[0].bitrate == 750000, "%zu sets", d.sets.size());
    holds(d.sets[0].reps[0], d.sets[0], m.t[0], 0, n, 0, 10000000); cuts(d.sets[0].reps[0], m.t[0], 0, n, len, 0); manifest(d, m);
    mc::outcome(mc::H().u(n).u(sc).u(len).u(d.sets[0].times.size()).h);
}
// hours of it
static void dash_long(int n, int sc)
{
    Scratch s; synth::Movie m; int every = 1 + choose(2); synth::Track v = slow(n, sc, every); reorder(v, every == 2 ? 0 : choose(2)); uint64_t fr = hns(LONG[sc][1], LONG[sc][0]), len = choose(2) ? fr * 3 / 2 : 20000000, late = choose(2) ? (n - 1) * fr / 10000 : 0; m.v1 = choose(2); m.t.push_back(v);
    synth::Track a = audio(6, 48000); a.elst_empty = late; if (late) m.t.push_back(a); s.put("a.mp4", m.build()); mkdir(s.in("o").c_str(), 0755);
    int r = cli({ "-k:dash", "-i:" + s.in("a.mp4"), "-o:" + s.in("o"), "-s:0", "-e:0", "-b:750", "-segment:" + u(len) }); MC_CHECK(r == 0, "exit code %d", r);
    Dash d = load(s, "o"); const Set * vs = set_of(d, true), * as = set_of(d, false); MC_CHECK(vs && !as == !late, "%zu sets", d.sets.size());
    holds(vs->reps[0], *vs, v, 0, n, 0, 10000000); cuts(vs->reps[0], v, 0, n, len, 0); if (as) { holds(as->reps[0], *as, a, 0, 6, late * 10000, 10000000); parts(as->reps[0], a, len); } manifest(d, m);
    mc::outcome(mc::H().u(n).u(sc).u(len).u(late).u(d.sets[0].times.size()).h);
}
static void dash_audio(int rate, int n)
{
    Scratch s; synth::Movie m; synth::Track a = audio(n, RATES[rate]); a.elst_empty = choose(2) * 37; m.t.push_back(a); uint64_t fr = hns(1024, RATES[rate]);
    int l = 1 + choose(5); uint64_t len = fr * l + choose(2) * fr / 2; s.put("a.mp4", m.build()); mkdir(s.in("o").c_str(), 0755);
    int r = cli({ "-k:dash", "-i:" + s.in("a.mp4"), "-o:" + s.in("o"), "-s:0", "-e:0", "-b:750", "-segment:" + u(len) }); MC_CHECK(r == 0, "exit code %d", r);
    Dash d = load(s, "o"); MC_CHECK(d.sets.size() == 1 && !d.sets[0].video && d.sets[0].reps.size() == 1, "%zu sets", d.sets.size());
    holds(d.sets[0].reps[0], d.sets[0], m.t[0], 0, n, a.elst_empty * 10000, 10000000); parts(d.sets[0].reps[0], m.t[0], len); manifest(d, m);
    mc::outcome(mc::H().u(n).u(rate).u(len).u(d.sets[0].times.size()).h);
}
static void dash_av(int n, int sc, int rate, int order, uint64_t vscale, uint64_t ascale)
{
    Scratch s; synth::Movie m; synth::Track v = video(n, SCALES[sc][0], SCALES[sc][1]); syncs(v); reorder(v, order);
    uint64_t fr = hns(SCALES[sc][1], SCALES[sc][0]), sp = hns(1024, RATES[rate]); int late = choose(3); uint64_t shift = late == 0 ? 0 : late == 1 ? 20 : 90;
    // the sound ends before, with or after the pictures
    int k = (int)(n * fr / sp) + choose(3) * 2 - 1; if (k < 2) k = 2; synth::Track a = audio(k, RATES[rate]); a.elst_empty = shift; shift *= 10000;
    if (choose(2)) { m.t.push_back(v); m.t.push_back(a); } else { m.t.push_back(a); m.t.push_back(v); }
    uint64_t len = choose(2) ? fr * 5 / 2 : 20000000; s.put("a.mp4", m.build()); mkdir(s.in("o").c_str(), 0755);
    Strs o = { "-k:dash", "-i:" + s.in("a.mp4"), "-o:" + s.in("o"), "-s:0", "-e:0", "-b:750", "-segment:" + u(len) };
    if (vscale) o.push_back("-videotimescale:" + u(vscale)); else vscale = 10000000;
    if (ascale) o.push_back("-audiotimescale:" + u(ascale)); else ascale = 10000000;
    int r = cli(o); MC_CHECK(r == 0, "exit code %d", r);
    Dash d = load(s, "o"); const Set * vs = set_of(d, true), * as = set_of(d, false); MC_CHECK(vs && as && vs->reps.size() == 1 && as->reps.size() == 1, "%zu sets", d.sets.size());
    holds(vs->reps[0], *vs, v, 0, n, 0, vscale); cuts(vs->reps[0], v, 0, n, len, 0);
    size_t from = first_sound(as->reps[0], a, hns(comp(v, 0), v.timescale), shift);
    holds(as->reps[0], *as, a, from, k, shift, ascale); parts(as->reps[0], a, len); manifest(d, m);
    mc::outcome(mc::H().u(n).u(sc).u(rate).u(late).u(k).u(vs->times.size()).u(as->times.size()).h);
}
// more than one track of a kind
static void dash_many(int n, int sc, int kinds)
{
    Scratch s; synth::Movie m; std::vector<synth::Track> t; uint64_t fr = hns(SCALES[sc][1], SCALES[sc][0]); int first = -1; std::vector<uint64_t> shift;
    for (int q = 0; q < 3; q++) {
        int kind = kinds % 3; kinds /= 3; if (kind == 2) continue; uint64_t late = 0;
        if (!kind) { int k = first < 0 ? n : n + choose(2); synth::Track v = video(k, SCALES[sc][0], SCALES[sc][1]); syncs(v); reorder(v, (q + n) % 2); v.mbw = 20 - 3 * q; v.mbh = 15 - 2 * q; for (int i = 0; i < k; i++) v.s[i].data += strf("t%d", q); if (first < 0) first = (int)t.size(); t.push_back(v); }
        else { int r = (q + n) % 3, k = (int)(n * fr / hns(1024, RATES[r])) + choose(2) * 3 - 1; if (k < 2) k = 2; synth::Track a = audio(k, RATES[r]); late = q * 10 * choose(2); a.elst_empty = late; for (int i = 0; i < k; i++) a.s[i].data += strf("t%d", q); t.push_back(a); }
        shift.push_back(late * 10000);
    }
    uint64_t start = first < 0 ? 0 : hns(comp(t[first], 0), t[first].timescale); for (size_t k = 0; k < t.size(); k++) if (!t[k].video && hns(t[k].dts(t[k].s.size() - 1), t[k].timescale) + shift[k] < start + 3) return;      // nothing to be heard with the pictures
    m.t = t; uint64_t len = choose(2) ? fr * 5 / 2 : 20000000; s.put("a.mp4", m.build()); mkdir(s.in("o").c_str(), 0755);
    int r = cli({ "-k:dash", "-i:" + s.in("a.mp4"), "-o:" + s.in("o"), "-s:0", "-e:0", "-b:750", "-segment:" + u(len) }); MC_CHECK(r == 0, "exit code %d", r);
    Dash d = load(s, "o"); MC_CHECK(d.sets.size() == t.size(), "%zu sets, not %zu", d.sets.size(), t.size());
    for (size_t k = 0; k < t.size(); k++) {
        const Set * x = 0; for (size_t i = 0; i < d.sets.size(); i++) { const Set & y = d.sets[i]; MC_CHECK(y.reps.size() == 1 && !y.reps[0].pieces.empty() && !y.reps[0].pieces[0].f.s.empty(), "set %zu is empty", i); for (size_t q = 0; q < t[k].s.size(); q++) if (t[k].s[q].data == y.reps[0].pieces[0].f.s[0].data && y.video == t[k].video) { MC_CHECK(!x || x == &y, "track %zu is in two sets", k); x = &y; } }
        MC_CHECK(x, "track %zu is in no set", k); const Rep & p = x->reps[0];
        if (t[k].video) { holds(p, *x, t[k], 0, t[k].s.size(), 0, 10000000); cuts(p, t[k], 0, t[k].s.size(), len, 0); } else { holds(p, *x, t[k], first_sound(p, t[k], start, shift[k]), t[k].s.size(), shift[k], 10000000); parts(p, t[k], len); }
    }
    manifest(d, m); mc::outcome(mc::H().u(n).u(sc).u(t.size()).u(d.sets[0].times.size()).h);
}
static void reg()
{
    for (int n = 1; n <= D(3, 4); n++) for (int sc = 0; sc < 5; sc++) for (int k = 0; k < 27; k++) { int c[3] = { k % 3, k / 3 % 3, k / 9 }; if (c[0] == 2 || c[1] == 2) continue; mc::unit("C31", strf("tracks %c%c%c n=%d scale %d", "va-"[c[0]], "va-"[c[1]], "va-"[c[2]], n, sc), [=] { dash_many(n, sc, k); }); }
    for (int n : { 3, 6, 50, 70, 300, 1000 }) for (int sc = 0; sc < 3; sc++) mc::unit("C31", strf("long video n=%d scale %d", n, sc), [=] { dash_long(n, sc); });
    for (int n = 1; n <= D(6, 9); n++) for (int sc = 0; sc < 5; sc++) mc::unit("C31", strf("video n=%d scale %d", n, sc), [=] { dash_video(n, sc); });
    for (int n = 1; n <= D(12, 30); n++) for (int r = 0; r < 3; r++) mc::unit("C31", strf("audio n=%d rate %u", n, RATES[r]), [=] { dash_audio(r, n); });
    for (int n = 1; n <= D(4, 6); n++) for (int sc = 0; sc < 5; sc++) for (int r = 0; r < D(2, 3); r++) for (int o = 0; o < 3; o++) mc::unit("C31", strf("video n=%d scale %d order %d, audio rate %u", n, sc, o, RATES[r]), [=] { dash_av(n, sc, r, o, 0, 0); });
    for (int n = 1; n <= D(3, 5); n++) for (int sc = 0; sc < 5; sc++) for (int r = 0; r < D(1, 3); r++) for (int o = 0; o < 3; o++) for (int k = 0; k < 4; k++) mc::unit("C31", strf("timescales %d n=%d scale %d order %d, audio rate %u", k, n, sc, o, RATES[r]), [=] { static const uint64_t V[] = { 90000, 600, 0, 1000 }, A[] = { 0, 48000, 44100, 90000 }; dash_av(n, sc, r, o, V[k], A[k]); });
}
int main(int argc, char ** argv) { return mc::run(argc, argv, reg); }

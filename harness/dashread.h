// Reads what a DASH presentation made by the command line consists of, and what it must hold.
#pragma once
#include "clikit.h"
namespace dash {
// ---------------------------------------------------------------- the packaged result
struct Piece { uint64_t t, d; look::Fragment f; };
struct Rep { uint64_t bitrate; unsigned w, h; Str codecs; look::Movie init; std::vector<Piece> pieces; };
struct Set { bool video; Str name; std::vector<std::pair<uint64_t, uint64_t> > times; std::vector<Rep> reps; Str maxw, maxh; const look::Xml * x; };
static Str expand(Str s, uint64_t bw, const Str & time) { size_t p; if ((p = s.find("$Bandwidth$")) != Str::npos) s.replace(p, 11, u(bw)); if ((p = s.find("$Time$")) != Str::npos) s.replace(p, 6, time); return s; }
struct Dash { look::Xml mpd; std::vector<Set> sets; uint64_t duration; };
// reads the manifest and everything it refers to; every file in the directory must be referred to
static Dash load(Scratch & sc, const Str & out, const char * leave = "")
{
    Dash r; Str s; MC_CHECK(sc.get(out + "/index.mpd", s), "no index.mpd");
    MC_NOTE("%s", s.c_str());
    std::set<Str> used; used.insert("index.mpd"); 
    try {
        r.mpd = look::xml(s); const look::Xml & p = r.mpd.one("Period");
        if (r.mpd.name != "MPD" || r.mpd.at("type") != "static") throw look::fail("no static MPD");
        Str du = r.mpd.at("mediaPresentationDuration"); unsigned long long sec; char frac[16] = ""; int used_ = 0;
        if (sscanf(du.c_str(), "PT%llu.%15[0-9]S%n", &sec, frac, &used_) < 2 || used_ != (int)du.size()) throw look::fail("duration %s", du.c_str());
        uint64_t f = 0; for (int i = 0; i < 7; i++) f = f * 10 + (strlen(frac) > (size_t)i ? frac[i] - '0' : 0); r.duration = sec * 10000000 + f;
        std::vector<const look::Xml *> as = p.all("AdaptationSet"); std::set<Str> ids, rids;
        for (size_t i = 0; i < as.size(); i++) {
            Set st; st.x = as[i]; const look::Xml & a = *as[i]; st.video = a.at("contentType") == "video";
            if (a.at("mimeType") != (st.video ? "video/mp4" : "audio/mp4")) throw look::fail("mimeType %s", a.at("mimeType").c_str());
            if (!ids.insert(a.at("id")).second) throw look::fail("two sets %s", a.at("id").c_str());
            const look::Xml & t = a.one("SegmentTemplate"); if (t.num("timescale") != 10000000) throw look::fail("timescale");
            uint64_t now = 0; std::vector<const look::Xml *> ss = t.one("SegmentTimeline").all("S");
            for (size_t k = 0; k < ss.size(); k++) { if (ss[k]->has("t")) now = ss[k]->num("t"); uint64_t n = ss[k]->has("r") ? ss[k]->num("r") : 0; if (n > 10000) throw look::fail("r=%llu", (unsigned long long)n); for (uint64_t q = 0; q <= n; q++) { st.times.push_back(std::make_pair(now, ss[k]->num("d"))); now += ss[k]->num("d"); } }
            std::vector<const look::Xml *> rs = a.all("Representation"); if (rs.empty()) throw look::fail("no Representation");
            for (size_t k = 0; k < rs.size(); k++) {
                Rep p; p.bitrate = rs[k]->num("bandwidth"); if (!rids.insert(rs[k]->at("id")).second) throw look::fail("two representations %s", rs[k]->at("id").c_str());
                p.w = st.video ? rs[k]->num("width") : 0; p.h = st.video ? rs[k]->num("height") : 0; p.codecs = rs[k]->has("codecs") ? rs[k]->at("codecs") : a.at("codecs");
                Str n = expand(t.at("initialization"), p.bitrate, ""); if (!used.insert(n).second) throw look::fail("%s used twice", n.c_str()); Str b; if (!sc.get(out + "/" + n, b)) throw look::fail("%s is not there", n.c_str());
                try { p.init = look::movie(b); } catch (const Str & e) { throw look::fail("%s: %s", n.c_str(), e.c_str()); }
                for (size_t q = 0; q < st.times.size(); q++) {
                    n = expand(t.at("media"), p.bitrate, u(st.times[q].first)); if (!used.insert(n).second) throw look::fail("%s used twice", n.c_str()); if (!sc.get(out + "/" + n, b)) throw look::fail("%s is not there", n.c_str());
                    Piece pc; pc.t = st.times[q].first; pc.d = st.times[q].second; try { pc.f = look::fragment(b, st.video); } catch (const Str & e) { throw look::fail("%s: %s", n.c_str(), e.c_str()); } p.pieces.push_back(pc);
                }
                st.reps.push_back(p);
            }
            r.sets.push_back(st);
        }
    } catch (const Str & e) { MC_CHECK(false, "%s", e.c_str()); }
    Strs l = sc.list(out); for (size_t i = 0; i < l.size(); i++) { size_t d = l[i].rfind('.'); if (*leave && d != Str::npos && strstr(leave, l[i].c_str() + d)) continue; MC_CHECK(used.count(l[i]), "%s is not in the manifest", l[i].c_str()); }
    return r;
}
// the representation holds exactly these samples
struct Want { const synth::Track * t; size_t from, to; uint64_t offset; };      // offset: edit list, 100 ns
static void holds(const Rep & r, const Set & st, const synth::Track & t, size_t from, size_t to, uint64_t shift, uint64_t scale)
{
    const char * nm = st.video ? "video" : "audio";
    // initialisation
    const look::Movie & m = r.init; MC_CHECK(m.fragmented && m.t.size() == 1 && m.trex.size() == 1 && m.trex[0] == m.t[0].id, "%s: initialisation segment without one track to extend", nm);
    const look::Track & k = m.t[0]; MC_CHECK(k.s.empty() && k.timescale == scale && k.c.video == st.video, "%s: initialisation segment: %zu samples, timescale %u", nm, k.s.size(), k.timescale);
    if (st.video) { MC_CHECK(k.c.sps == t.sps_of() && k.c.pps == t.pps_of(), "parameter sets differ"); MC_CHECK(r.w == t.mbw * 16 && r.h == t.mbh * 16, "manifest says %ux%u", r.w, r.h); }
    else MC_CHECK(k.c.asc == synth::Movie::asc(t), "audio configuration differs");
    size_t i = from; unsigned seq = 0; int64_t k0 = 0;      // decoding times may all be shifted by the same amount (a constant composition offset is dropped)
    for (size_t p = 0; p < r.pieces.size(); p++) {
        const Piece & pc = r.pieces[p]; const look::Fragment & f = pc.f;
        MC_CHECK(f.track == k.id, "%s piece %zu: track %u, not %u", nm, p, f.track, k.id);
        MC_CHECK(f.sequence > seq, "%s piece %zu: sequence number %u after %u", nm, p, f.sequence, seq); seq = f.sequence;
        MC_CHECK(!f.s.empty(), "%s piece %zu at %llu is empty", nm, p, (unsigned long long)pc.t);
        if (st.video) { if (f.sidx) MC_CHECK(f.scale == scale, "sidx timescale %llu", (unsigned long long)f.scale); else MC_CHECK(f.avcn == synth::Movie::avcC(t), "video piece %zu: decoder configuration differs", p); MC_CHECK(f.s[0].sync && i < to && t.s[i].sync, "video piece %zu does not begin with a sync picture", p); }
        for (size_t q = 0; q < f.s.size(); q++, i++) {
            MC_CHECK(i < to, "%s piece %zu: sample %zu beyond the last (%zu)", nm, p, q, to);
            MC_CHECK(f.s[q].data == t.s[i].data, "%s piece %zu sample %zu: %zu bytes that are not those of sample %zu", nm, p, q, f.s[q].data.size(), i);
            // times: exact to the rounding of each duration
            uint64_t dts = hns(t.dts(i), t.timescale) + shift, got = f.s[q].dts * 10000000 / scale, tol = 3 + q + 2 * (10000000 / scale) * (q + 2) * (scale != 10000000);
            if (i == from && t.ctts) k0 = (int64_t)got - (int64_t)dts;
            dts += k0; MC_CHECK((int64_t)dts <= (int64_t)(hns(comp(t, i), t.timescale) + shift + tol), "%s piece %zu sample %zu: decoded after it is shown", nm, p, q);
            MC_CHECK(diff(got, dts) <= tol, "%s piece %zu sample %zu (%zu): decoded at %llu, not %llu", nm, p, q, i, (unsigned long long)got, (unsigned long long)dts);
            if (st.video) { uint64_t c = hns(comp(t, i), t.timescale) + shift; uint64_t gc = (f.s[q].dts + f.s[q].cts) * 10000000 / scale; MC_CHECK(diff(gc, c) <= tol + 2, "video piece %zu sample %zu (%zu): shown at %llu, not %llu", p, q, i, (unsigned long long)gc, (unsigned long long)c); }
            mc::step();
        }
        // the manifest agrees with the piece
        uint64_t c = UINT64_MAX, e = 0; for (size_t q = 0; q < f.s.size(); q++) { uint64_t x = f.s[q].dts + f.s[q].cts; c = std::min(c, x); e = std::max(e, x + f.s[q].dur); } c = c * 10000000 / scale; e = e * 10000000 / scale;
        uint64_t tol = 3 + f.s.size() + (10000000 / scale) * (f.s.size() + 2) * (scale != 10000000);
        MC_CHECK(diff(c, pc.t) <= tol, "%s piece %zu: shown from %llu, the manifest says %llu", nm, p, (unsigned long long)c, (unsigned long long)pc.t);
        MC_CHECK(diff(e, pc.t + pc.d) <= tol, "%s piece %zu: shown until %llu, the manifest says %llu", nm, p, (unsigned long long)e, (unsigned long long)(pc.t + pc.d));
    }
    MC_CHECK(i == to, "%s: only the samples before %zu of %zu are there", nm, i, to);
}
// where the pieces of the video must begin: the first sync picture at least the length after the last beginning
static void cuts(const Rep & r, const synth::Track & t, size_t from, size_t to, uint64_t len, uint64_t shift)
{
    std::vector<uint64_t> w; for (size_t i = from; i < to; i++) if (t.s[i].sync) { uint64_t c = hns(comp(t, i), t.timescale) + shift; if (w.empty() || c + 260000 >= w.back() + len) w.push_back(c); }
    MC_CHECK(w.size() == r.pieces.size(), "%zu pieces of video, not %zu", r.pieces.size(), w.size());
    for (size_t i = 0; i < w.size(); i++) MC_CHECK(diff(w[i], r.pieces[i].t) <= 2, "video piece %zu begins at %llu, not %llu", i, (unsigned long long)r.pieces[i].t, (unsigned long long)w[i]);
}
// what the manifest says as a whole
static void manifest(const Dash & d, const synth::Movie & m)
{
    bool some = false; uint64_t most = 0; for (size_t i = 0; i < d.sets.size(); i++) { uint64_t s = 0; for (size_t k = 0; k < d.sets[i].times.size(); k++) s += d.sets[i].times[k].second; most = std::max(most, s); some |= s == d.duration; }
    MC_CHECK(some, "the manifest lasts %llu, no set does (%llu)", (unsigned long long)d.duration, (unsigned long long)most);
    for (size_t i = 0; i < d.sets.size(); i++) for (size_t k = 0; k < d.sets[i].reps.size(); k++) {
        const look::Config & c = d.sets[i].reps[k].init.t[0].c;
        Str want = c.video ? strf("avc1.%02X%02X%02X", (unsigned char)c.sps[1], (unsigned char)c.sps[2], (unsigned char)c.sps[3]) : strf("mp4a.40.%d", (unsigned char)c.asc[0] >> 3), got = d.sets[i].reps[k].codecs; for (size_t q = 5; c.video && q < got.size(); q++) got[q] = toupper(got[q]);
        MC_CHECK(got == want, "codecs=\"%s\", not %s", d.sets[i].reps[k].codecs.c_str(), want.c_str());
        if (c.video) { unsigned mw = 0, mh = 0; for (size_t q = 0; q < d.sets[i].reps.size(); q++) { mw = std::max(mw, d.sets[i].reps[q].w); mh = std::max(mh, d.sets[i].reps[q].h); } MC_CHECK(d.sets[i].x->num("maxWidth") == mw && d.sets[i].x->num("maxHeight") == mh, "picture at most %ux%u", mw, mh); }
    }
}
// pieces of sound: as many samples as fit in the length, the last one may hold what is left over as well
static void parts(const Rep & r, const synth::Track & t, uint64_t len)
{
    size_t jump = len / hns(1024, t.timescale), n = r.pieces.size();
    for (size_t i = 0; i < n; i++) { size_t k = r.pieces[i].f.s.size(); MC_CHECK(i + 1 < n ? k == jump : k < 2 * jump, "audio piece %zu of %zu holds %zu samples, %zu fit in it", i, n, k, jump); }
}
static const Set * set_of(const Dash & d, bool video) { const Set * r = 0; for (size_t i = 0; i < d.sets.size(); i++) if (d.sets[i].video == video) { MC_CHECK(!r, "two sets of the same kind"); r = &d.sets[i]; } return r; }
// the first sample that is there; the sound begins with the first picture (either side of it when they are closer than the rounding)
static size_t first_sound(const Rep & r, const synth::Track & t, uint64_t start, uint64_t shift)
{
    size_t i = 0; while (i < t.s.size() && hns(t.dts(i), t.timescale) + shift + 3 < start) i++;
    if (i + 1 < t.s.size() && hns(t.dts(i), t.timescale) + shift < start + 3 && !r.pieces.empty() && !r.pieces[0].f.s.empty() && r.pieces[0].f.s[0].data == t.s[i + 1].data) i++;
    return i;
}
}

// Reads what an HLS presentation made by the command line consists of, and what it must hold.
#pragma once
#include "clikit.h"
#include "tscheck.h"
namespace hls {
// pictures as real decoders want them: length prefixed NAL units, several per picture
static void framed(synth::Track & t, int units)
{
    for (size_t i = 0; i < t.s.size(); i++) { std::vector<Str> n; unsigned type = t.s[i].sync ? 0x65 : 0x41; for (int k = 0; k < units; k++) n.push_back(synth::nal(type, i * 7 + k, 3 + (i + k) % 4)); t.s[i].data = synth::avcc(n); }
}
static std::vector<Str> units(const Str & d) { std::vector<Str> v; look::In i(d, 0, d.size()); while (i.left()) v.push_back(i.raw(i.u(4))); return v; }
struct Piece { Str name; uint64_t dur; look::Ts t; };
struct Variant { Str name; uint64_t bandwidth; Str res, codecs; uint64_t target; std::vector<Piece> p; };
static Strs lines(const Str & s) { Strs r; Str l; for (size_t i = 0; i <= s.size(); i++) if (i == s.size() || s[i] == '\n') { if (!l.empty() && l[l.size() - 1] == '\r') l.erase(l.size() - 1); if (!l.empty()) r.push_back(l); l.clear(); } else l += s[i]; return r; }
static bool starts(const Str & s, const char * p) { return s.compare(0, strlen(p), p) == 0; }
static uint64_t decimal(const Str & s, size_t & p)        // 100 ns
{
    uint64_t v = 0; size_t b = p; while (p < s.size() && isdigit(s[p])) v = v * 10 + s[p++] - '0'; if (p == b) throw look::fail("no number in %s", s.c_str());
    uint64_t f = 0; int n = 0; if (p < s.size() && s[p] == '.') { p++; while (p < s.size() && isdigit(s[p])) { if (n < 7) { f = f * 10 + s[p] - '0'; n++; } p++; } } while (n++ < 7) f *= 10;
    return v * 10000000 + f;
}
static Str attr(const Str & l, const char * k)
{
    size_t p = l.find(':') + 1; while (p < l.size()) { size_t e = l.find('=', p); if (e == Str::npos) break; Str n = l.substr(p, e - p), v; p = e + 1; if (p < l.size() && l[p] == '"') { e = l.find('"', p + 1); if (e == Str::npos) throw look::fail("quotes in %s", l.c_str()); v = l.substr(p + 1, e - p - 1); p = e + 1; } else { e = l.find(',', p); if (e == Str::npos) e = l.size(); v = l.substr(p, e - p); p = e; } if (n == k) return v; if (p < l.size() && l[p] == ',') p++; else break; }
    throw look::fail("no %s in %s", k, l.c_str());
}
// reads the playlists and everything they refer to; every file in the directory must be referred to
static std::vector<Variant> load(Scratch & sc, const Str & out, const char * leave = "")
{
    std::vector<Variant> r; Str s; std::set<Str> used; used.insert("main.m3u8");
    try {
        if (!sc.get(out + "/main.m3u8", s)) throw look::fail("no main.m3u8"); MC_NOTE("%s", s.c_str());
        Strs l = lines(s); if (l.empty() || l[0] != "#EXTM3U") throw look::fail("not a playlist");
        for (size_t i = 1; i < l.size(); i++) if (starts(l[i], "#EXT-X-STREAM-INF:")) {
            Variant v; v.bandwidth = strtoull(attr(l[i], "BANDWIDTH").c_str(), 0, 10); v.res = attr(l[i], "RESOLUTION"); v.codecs = attr(l[i], "CODECS"); if (++i >= l.size() || l[i][0] == '#') throw look::fail("variant without name"); v.name = l[i]; r.push_back(v);
        } else if (l[i][0] != '#') throw look::fail("unexpected line %s", l[i].c_str());
        for (size_t k = 0; k < r.size(); k++) {
            Variant & v = r[k]; if (!used.insert(v.name).second) throw look::fail("%s used twice", v.name.c_str()); if (!sc.get(out + "/" + v.name, s)) throw look::fail("%s is not there", v.name.c_str()); MC_NOTE("%s", s.c_str());
            l = lines(s); if (l.empty() || l[0] != "#EXTM3U") throw look::fail("%s is not a playlist", v.name.c_str()); bool end = false, target = false; uint64_t dur = 0; bool have = false;
            for (size_t i = 1; i < l.size(); i++) {
                if (end) throw look::fail("%s goes on after its end", v.name.c_str());
                if (starts(l[i], "#EXT-X-TARGETDURATION:")) { if (target) throw look::fail("two target durations"); target = true; char * e; v.target = strtoull(l[i].c_str() + 22, &e, 10); if (*e) throw look::fail("%s", l[i].c_str()); }
                else if (starts(l[i], "#EXT-X-MEDIA-SEQUENCE:")) { if (l[i] != "#EXT-X-MEDIA-SEQUENCE:0") throw look::fail("%s", l[i].c_str()); }
                else if (starts(l[i], "#EXTINF:")) { size_t p = 8; dur = decimal(l[i], p); if (p >= l[i].size() || l[i][p] != ',') throw look::fail("%s", l[i].c_str()); have = true; }
                else if (l[i] == "#EXT-X-ENDLIST") end = true;
                else if (l[i][0] != '#') { if (!have) throw look::fail("%s has no duration", l[i].c_str()); have = false; Piece p; p.name = l[i]; p.dur = dur; if (!used.insert(l[i]).second) throw look::fail("%s used twice", l[i].c_str()); Str b; if (!sc.get(out + "/" + l[i], b)) throw look::fail("%s is not there", l[i].c_str()); try { p.t = look::ts(b); } catch (const Str & e) { throw look::fail("%s: %s", l[i].c_str(), e.c_str()); } v.p.push_back(p); }
            }
            if (!end) throw look::fail("%s has no end", v.name.c_str()); if (!target) throw look::fail("%s has no target duration", v.name.c_str());
            for (size_t i = 0; i < v.p.size(); i++) if ((v.p[i].dur + 5000000) / 10000000 > v.target) throw look::fail("%s: piece %zu lasts %llu, the target duration is %llu s", v.name.c_str(), i, (unsigned long long)v.p[i].dur, (unsigned long long)v.target);
        }
    } catch (const Str & e) { MC_CHECK(false, "%s", e.c_str()); }
    Strs l = sc.list(out); for (size_t i = 0; i < l.size(); i++) { size_t d = l[i].rfind('.'); if (*leave && d != Str::npos && strstr(leave, l[i].c_str() + d)) continue; MC_CHECK(used.count(l[i]), "%s is in no playlist", l[i].c_str()); }
    return r;
}
static uint64_t ticks(uint64_t h) { return h * 9 / 1000; }
// the programs of every piece (0 pictures, 1 sound); continuity counters carry on from piece to piece
struct Pair { const look::Program * g[2]; };
static std::vector<Pair> programs(const Variant & r, bool a)
{
    std::vector<Pair> w; int cc[2] = { -1, -1 }, tc = -1;
    for (size_t p = 0; p < r.p.size(); p++) {
        const look::Ts & t = r.p[p].t; Pair x = { { 0, 0 } }; for (size_t k = 0; k < t.p.size(); k++) { int s = t.p[k].type == 0x1b ? 0 : t.p[k].type == 0x0f ? 1 : -1; MC_CHECK(s >= 0 && !x.g[s], "piece %zu: a stream of type %02x", p, t.p[k].type); x.g[s] = &t.p[k]; }
        MC_CHECK(x.g[0], "piece %zu: no video", p); if (a) MC_CHECK(x.g[1], "piece %zu: no sound", p); else MC_CHECK(!x.g[1], "piece %zu: sound", p);
        MC_CHECK(tc < 0 || (int)t.pat_cc == (tc + 1) % 16, "piece %zu: tables count %u after %d", p, t.pat_cc, tc); tc = t.pat_cc;
        for (int k = 0; k < 2; k++) if (x.g[k] && x.g[k]->packets) { MC_CHECK(cc[k] < 0 || (int)x.g[k]->first_cc == (cc[k] + 1) % 16, "piece %zu: pid %u counts %u after %d", p, x.g[k]->pid, x.g[k]->first_cc, cc[k]); cc[k] = x.g[k]->last_cc; }
        const look::Program * c = 0; for (int k = 0; k < 2; k++) if (x.g[k] && x.g[k]->pid == t.pcr_pid) c = x.g[k]; MC_CHECK(c && !c->pcr.empty(), "piece %zu: no clock", p); MC_CHECK(!c->pes.empty(), "piece %zu is empty", p);
        for (size_t k = 0; k < c->pcr.size(); k++) { MC_CHECK(!k || c->pcr[k] > c->pcr[k - 1], "piece %zu: the clock does not run", p); } MC_CHECK(c->pcr[0] / 300 <= c->pes[0].dts && c->pcr[0] / 300 + 90 >= c->pes[0].dts, "piece %zu: clock %llu at the picture decoded at %llu", p, (unsigned long long)c->pcr[0] / 300, (unsigned long long)c->pes[0].dts);
        w.push_back(x);
    }
    return w;
}
// the NAL units of a picture, which must be those of sample i behind a delimiter and the parameter sets
static void picture(const look::Pes & e, const synth::Track & v, size_t i, size_t p)
{
    std::vector<Str> got, want; try { got = look::annexb(e.data); } catch (const Str & x) { MC_CHECK(0, "picture %zu: %s", i, x.c_str()); }
    want.push_back(Str("\x09\xf0")); if (v.s[i].sync) { want.push_back(v.sps_of()); want.push_back(v.pps_of()); } std::vector<Str> n = units(v.s[i].data); want.insert(want.end(), n.begin(), n.end());
    MC_CHECK(got.size() == want.size(), "piece %zu picture %zu: %zu NAL units, not %zu", p, i, got.size(), want.size()); for (size_t k = 0; k < got.size(); k++) MC_CHECK(k == 0 ? got[0][0] == 9 : got[k] == want[k], "piece %zu picture %zu: NAL unit %zu of %zu bytes differs", p, i, k, got[k].size());
    MC_CHECK(e.random == v.s[i].sync, "picture %zu: random access %d", i, e.random);
}
struct Frame { look::Adts a; uint64_t pts; };
static std::vector<Frame> frames(const look::Program & g, const synth::Track & a, size_t p)
{
    std::vector<Frame> f; for (size_t q = 0; q < g.pes.size(); q++) { std::vector<look::Adts> x; try { x = look::adts(g.pes[q].data); } catch (const Str & e) { MC_CHECK(0, "piece %zu sound %zu: %s", p, q, e.c_str()); } for (size_t k = 0; k < x.size(); k++) { Frame w = { x[k], g.pes[q].pts + k * 1024 * 90000 / a.rate }; f.push_back(w); } }
    return f;
}
// pieces of one variant hold exactly the pictures of v and the sound of a that begins while they last
static void holds(const Variant & r, const synth::Track & v, const synth::Track * a, uint64_t shift, uint64_t len)
{
    std::vector<size_t> cut; uint64_t last = 0; for (size_t i = 0; i < v.s.size(); i++) if (v.s[i].sync) { uint64_t c = hns(comp(v, i), v.timescale); if (cut.empty() || c + 660000 >= last + len) { cut.push_back(i); last = c; } }
    MC_CHECK(cut.size() == r.p.size(), "%zu pieces, not %zu", r.p.size(), cut.size()); cut.push_back(v.s.size());
    uint64_t until = 0; for (size_t i = 0; i < v.s.size(); i++) until = std::max(until, hns(comp(v, i) + v.s[i].dur, v.timescale));
    size_t snd = 0; std::vector<Pair> pr = programs(r, a); int64_t k0 = 0;      // decoding times may all be shifted by the same amount (a constant composition offset is dropped)
    for (size_t p = 0; p < r.p.size(); p++) {
        const look::Program * const * g = pr[p].g;
        uint64_t from = hns(comp(v, cut[p]), v.timescale), to = p + 1 < r.p.size() ? hns(comp(v, cut[p + 1]), v.timescale) : until;
        MC_CHECK(diff(r.p[p].dur, to - from) <= 10 + 10000, "piece %zu lasts %llu, the playlist says %llu", p, (unsigned long long)(to - from), (unsigned long long)r.p[p].dur);
        MC_CHECK(g[0]->pes.size() == cut[p + 1] - cut[p], "piece %zu: %zu pictures, not %zu", p, g[0]->pes.size(), cut[p + 1] - cut[p]);
        for (size_t q = 0; q < g[0]->pes.size(); q++) {
            size_t i = cut[p] + q; const look::Pes & e = g[0]->pes[q]; picture(e, v, i, p);
            uint64_t pts = ticks(hns(comp(v, i), v.timescale) + 2000000), dts = ticks(hns(v.dts(i), v.timescale)); if (!i && v.ctts) k0 = (int64_t)e.dts - (int64_t)dts; dts += k0; MC_CHECK(e.dts <= e.pts, "picture %zu: decoded after it is shown", i);
            MC_CHECK(diff(e.pts, pts) <= 92, "picture %zu: shown at %llu, not %llu", i, (unsigned long long)e.pts, (unsigned long long)pts); MC_CHECK(diff(e.dts, dts) <= 92, "picture %zu: decoded at %llu, not %llu", i, (unsigned long long)e.dts, (unsigned long long)dts); mc::step();
        }
        if (!a) continue;
        std::vector<Frame> f = frames(*g[1], *a, p);
        // sound is in the piece in which it begins; either side when it begins at a cut
        if (p == 0) { while (snd < a->s.size() && hns(a->dts(snd), a->timescale) + shift + 3 < from) snd++; if (!f.empty() && snd + 1 < a->s.size() && hns(a->dts(snd), a->timescale) + shift < from + 3 && f[0].a.data == a->s[snd + 1].data) snd++; }
        for (size_t q = 0; q < f.size(); q++, snd++) {
            MC_CHECK(snd < a->s.size(), "piece %zu: more sound than there is", p); uint64_t at = hns(a->dts(snd), a->timescale) + shift; MC_CHECK(f[q].a.data == a->s[snd].data, "piece %zu sound %zu: not sample %zu", p, q, snd); MC_CHECK(at + 3 >= from && at < to + 3, "sound %zu begins at %llu, the piece lasts from %llu to %llu", snd, (unsigned long long)at, (unsigned long long)from, (unsigned long long)to);
            MC_CHECK(f[q].a.object == a->objtype && f[q].a.rate == a->rate && f[q].a.channels == a->channels, "sound %zu: kind %u, rate %u, %u channels", snd, f[q].a.object, f[q].a.rate, f[q].a.channels);
            MC_CHECK(diff(f[q].pts, ticks(at + 2000000)) <= 92, "sound %zu: played at %llu, not %llu", snd, (unsigned long long)f[q].pts, (unsigned long long)ticks(at + 2000000)); mc::step();
        }
        if (snd < a->s.size()) { uint64_t at = hns(a->dts(snd), a->timescale) + shift; MC_CHECK(at + 3 >= to, "piece %zu: sound %zu at %llu is missing, the piece lasts until %llu", p, snd, (unsigned long long)at, (unsigned long long)to); }
    }
}
static void master(const Variant & r, const synth::Track & v, uint64_t bw) { MC_CHECK(r.bandwidth == bw + 96000, "BANDWIDTH %llu", (unsigned long long)r.bandwidth); MC_CHECK(r.res == strf("%ux%u", v.mbw * 16, v.mbh * 16), "RESOLUTION %s", r.res.c_str()); Str w = strf("avc1.%02X%02X%02X,mp4a.40.2", (unsigned char)v.sps_of()[1], (unsigned char)v.sps_of()[2], (unsigned char)v.sps_of()[3]), g = r.codecs; for (size_t i = 5; i < g.size() && g[i] != ','; i++) g[i] = toupper(g[i]); MC_CHECK(g == w, "CODECS %s, not %s", r.codecs.c_str(), w.c_str()); }
}

// A transport stream reader written from ISO/IEC 13818-1, -7 and 14496-10 annex B alone: what a player would see.
// Throws std::string on anything malformed.
#pragma once
#include "mp4check.h"
namespace look {
inline uint32_t crc_mpeg(const Str & s) { uint32_t c = 0xffffffff; for (size_t i = 0; i < s.size(); i++) { c ^= (uint32_t)(unsigned char)s[i] << 24; for (int k = 0; k < 8; k++) c = c & 0x80000000 ? c << 1 ^ 0x04c11db7 : c << 1; } return c; }
struct Pes { uint64_t pts, dts; bool has_pts, has_dts, random; Str data; unsigned id; };          // 90 kHz
struct Program { unsigned pid, type; std::vector<Pes> pes; std::vector<uint64_t> pcr; std::vector<size_t> pcr_at; unsigned first_cc, last_cc; size_t packets; Str left; };
struct Ts { std::vector<Program> p; unsigned pcr_pid; size_t tables; unsigned pat_cc; };
inline uint64_t stamp(In & i, unsigned mark, const char * what) { uint64_t v = i.u(5); if (v >> 36 != mark || !(v >> 32 & 1) || !(v >> 16 & 1) || !(v & 1)) throw fail("%s: marker bits %010llx", what, (unsigned long long)v); return (v >> 33 & 7) << 30 | (v >> 17 & 0x7fff) << 15 | (v >> 1 & 0x7fff); }
inline Str section(const Str & pl, unsigned table) {
    In i(pl, 0, pl.size()); i.skip(i.u(1)); size_t at = i.p; if (i.u(1) != table) throw fail("table %u expected", table);
    unsigned n = i.u(2); if (!(n & 0x8000)) throw fail("table %u: section syntax bit", table); n &= 0xfff; Str s = pl.substr(at, 3 + n); if (s.size() != 3 + n || n < 9) throw fail("table %u: length %u", table, n);
    if (crc_mpeg(s)) throw fail("table %u: CRC", table); return s.substr(3, n - 4);
}
inline Ts ts(const Str & b) {
    Ts r; r.tables = 0; r.pcr_pid = 0x1fff; r.pat_cc = 99; int pmt = -1; std::map<unsigned, int> cc; std::map<unsigned, size_t> at;
    if (b.empty() || b.size() % 188) throw fail("%zu bytes are not whole packets", b.size());
    std::map<unsigned, Str> open; std::map<unsigned, bool> rnd; bool map = false;
    auto close = [&](unsigned pid) {
        Program & g = r.p[at[pid]]; Str & d = open[pid]; if (d.empty()) return;
        In i(d, 0, d.size()); Pes p; p.random = rnd[pid]; if (i.u(3) != 1) throw fail("pid %u: no PES start code", pid); p.id = i.u(1); size_t len = i.u(2);
        if (g.type == 0x1b ? (p.id & 0xf0) != 0xe0 : (p.id & 0xe0) != 0xc0) throw fail("stream id %02x for type %02x", p.id, g.type);
        if (len && len != i.left()) throw fail("pid %u: PES of %zu bytes, %zu present", pid, len, i.left()); if (!len && g.type != 0x1b) throw fail("PES without length for sound");
        if ((i.u(1) & 0xf0) != 0x80) throw fail("pid %u: scrambled PES or no marker", pid); unsigned f = i.u(1), h = i.u(1); if (f & 0x3f) throw fail("pid %u: PES flags %02x", pid, f);
        size_t end = i.p + h; p.has_pts = f >> 7; p.has_dts = f >> 6 & 1; if (p.has_dts && !p.has_pts) throw fail("DTS without PTS");
        if (!p.has_pts) throw fail("pid %u: no PTS", pid);
        p.pts = stamp(i, p.has_dts ? 3 : 2, "PTS"); p.dts = p.has_dts ? stamp(i, 1, "DTS") : p.pts; if (i.p > end) throw fail("PES header length"); i.skip(end - i.p); p.data = i.raw(i.left()); g.pes.push_back(p); d.clear();
    };
    for (size_t o = 0; o < b.size(); o += 188) {
        In i(b, o, o + 188); if (i.u(1) != 0x47) throw fail("packet %zu: no sync byte", o / 188); unsigned h = i.u(2), c = i.u(1), pid = h & 0x1fff, afc = c >> 4 & 3; 
        if (h & 0x8000) throw fail("packet %zu: error indicator", o / 188); if (c & 0xc0) throw fail("packet %zu: scrambled", o / 188); if (!afc) throw fail("packet %zu: adaptation control 0", o / 188);
        bool start = h & 0x4000, random = false; size_t al = 0;
        if (cc.count(pid) && (afc & 1) && (cc[pid] + 1) % 16 != (int)(c & 15)) throw fail("packet %zu: pid %u counts %u after %d", o / 188, pid, c & 15, cc[pid]);
        if (afc & 1) { if (!cc.count(pid) && pid == 0) r.pat_cc = c & 15; cc[pid] = c & 15; }
        if (afc & 2) {
            al = i.u(1); if (al > (afc == 3 ? 183u : 183u) || (afc == 2 && al != 183)) throw fail("packet %zu: adaptation field of %zu", o / 188, al); size_t e = i.p + al;
            if (al) { unsigned f = i.u(1); random = f >> 6 & 1; if (f & 0x80) throw fail("packet %zu: discontinuity", o / 188); if (f & 0x0f) throw fail("packet %zu: adaptation flags %02x", o / 188, f);
                if (f & 0x10) { uint64_t v = i.u(6); if (!map || !at.count(pid)) throw fail("packet %zu: PCR before the tables", o / 188); Program & g = r.p[at[pid]]; if (pid != r.pcr_pid) throw fail("PCR on pid %u, not %u", pid, r.pcr_pid); g.pcr.push_back((v >> 15) * 300 + (v & 0x1ff)); g.pcr_at.push_back(o / 188); }
                if (i.p > e) throw fail("packet %zu: adaptation field of %zu is too short for its flags", o / 188, al); i.skip(e - i.p); }
        }
        if (!(afc & 1)) continue; Str pl = i.raw(i.left());
        if (pid == 0) { if (!start) throw fail("PAT continued"); Str s = section(pl, 0); if (s.size() != 9) throw fail("PAT of %zu bytes", s.size()); In q(s, 0, s.size()); q.skip(5); if (q.u(2) == 0) throw fail("network PID"); int x = q.u(2) & 0x1fff; if (pmt >= 0 && x != pmt) throw fail("another PMT"); pmt = x; r.tables++; }
        else if ((int)pid == pmt) {
            if (!start) throw fail("PMT continued"); Str s = section(pl, 2); In q(s, 0, s.size()); q.skip(5); unsigned pcr = q.u(2) & 0x1fff; q.skip(q.u(2) & 0xfff); std::vector<std::pair<unsigned, unsigned> > v;
            while (q.left()) { unsigned t = q.u(1), k = q.u(2) & 0x1fff; q.skip(q.u(2) & 0xfff); v.push_back(std::make_pair(k, t)); }
            if (!map) { map = true; r.pcr_pid = pcr; for (size_t k = 0; k < v.size(); k++) { Program g; g.pid = v[k].first; g.type = v[k].second; g.packets = 0; if (at.count(g.pid)) throw fail("two streams with pid %u", g.pid); at[g.pid] = r.p.size(); r.p.push_back(g); } if (!at.count(pcr)) throw fail("PCR pid %u is no stream", pcr); }
            else { if (v.size() != r.p.size() || pcr != r.pcr_pid) throw fail("another map"); for (size_t k = 0; k < v.size(); k++) if (v[k].first != r.p[k].pid || v[k].second != r.p[k].type) throw fail("another map"); }
        } else {
            if (!at.count(pid)) throw fail("packet %zu: unknown pid %u", o / 188, pid); Program & g = r.p[at[pid]]; if (!g.packets++) g.first_cc = c & 15; g.last_cc = c & 15;
            if (start) { close(pid); rnd[pid] = random; open[pid] = pl; if (pl.empty()) throw fail("packet %zu starts a PES with nothing", o / 188); }
            else if (!pl.empty()) { if (open[pid].empty()) throw fail("packet %zu: bytes of no PES", o / 188); open[pid] += pl; }
        }
    }
    for (size_t k = 0; k < r.p.size(); k++) close(r.p[k].pid);
    if (!map) throw fail("no tables");
    return r;
}
// byte stream -> NAL units
inline std::vector<Str> annexb(const Str & d) {
    std::vector<Str> v; size_t p = 0; bool in = false, first = true; size_t beg = 0;
    while (p + 2 < d.size()) { if (d[p] == 0 && d[p + 1] == 0 && d[p + 2] == 1) { if (in) { size_t e = p; while (e > beg && d[e - 1] == 0) e--; v.push_back(d.substr(beg, e - beg)); } else { for (size_t k = 0; k < p; k++) if (d[k]) throw fail("bytes before the first start code"); } in = true; first = false; p += 3; beg = p; } else p++; }
    if (first) throw fail("no start code"); v.push_back(d.substr(beg)); for (size_t i = 0; i < v.size(); i++) if (v[i].empty()) throw fail("empty NAL unit"); return v;
}
struct Adts { unsigned object, rate, channels; Str data; };
inline std::vector<Adts> adts(const Str & d) {
    static const unsigned R[] = { 96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350, 0, 0, 0 };
    std::vector<Adts> v; In i(d, 0, d.size());
    while (i.left()) { uint64_t h = i.u(7); Adts a; if (h >> 44 != 0xfff) throw fail("no ADTS sync"); if (h >> 41 & 3) throw fail("ADTS layer"); bool nocrc = h >> 40 & 1; a.object = (h >> 38 & 3) + 1; a.rate = R[h >> 34 & 15]; a.channels = h >> 30 & 7; size_t n = h >> 13 & 0x1fff; if (h & 3) throw fail("several blocks"); if (!nocrc) throw fail("CRC"); if (n < 7) throw fail("ADTS length %zu", n); a.data = i.raw(n - 7); v.push_back(a); }
    return v;
}
}

// An MP4 writer written from ISO/IEC 14496-12/-14/-15 alone: it shares no code with the repository, so a file it
// makes is an independent statement of what the samples are.
#pragma once
#include <string>
#include <vector>
#include <cstring>
#include <cstdint>
#include <cstdio>
namespace synth {

typedef std::string Str;

struct Out {
    Str b;
    void u8(unsigned v) { b.push_back((char)v); }
    void u16(unsigned v) { u8(v >> 8); u8(v); }
    void u24(unsigned v) { u8(v >> 16); u16(v); }
    void u32(uint32_t v) { u16(v >> 16); u16(v); }
    void u64(uint64_t v) { u32((uint32_t)(v >> 32)); u32((uint32_t)v); }
    void raw(const Str & s) { b += s; }
    void zero(int n) { b.append(n, '\0'); }
};

inline Str box(const char * type, const Str & body) { Out o; o.u32(8 + body.size()); o.b.append(type, 4); o.raw(body); return o.b; }
inline Str full(const char * type, int version, unsigned flags, const Str & body) { Out o; o.u8(version); o.u24(flags); o.raw(body); return box(type, o.b); }

struct Bits {
    Str b; unsigned cur, n;
    Bits(): cur(0), n(0) {}
    void put(unsigned v, int bits) { for (int i = bits - 1; i >= 0; i--) { cur = (cur << 1) | ((v >> i) & 1); if (++n == 8) { b.push_back((char)cur); cur = 0; n = 0; } } }
    void ue(unsigned v) { v++; int l = 0; while ((v >> l) > 1) l++; put(0, l); put(v, l + 1); }
    void se(int v) { ue(v > 0 ? 2 * v - 1 : -2 * v); }
    void trail() { put(1, 1); while (n) put(0, 1); }
};

// baseline-profile parameter sets (no emulation bytes arise for the sizes used)
inline Str sps(unsigned mbw, unsigned mbh, int profile = 66, int level = 30, int constraint = 0) {
    Bits s; s.put(profile, 8); s.put(constraint, 8); s.put(level, 8);
    s.ue(0);
    if (profile == 100) { s.ue(1); s.ue(0); s.ue(0); s.put(0, 1); s.put(0, 1); }
    s.ue(0); s.ue(2); s.ue(1); s.put(0, 1);
    s.ue(mbw - 1); s.ue(mbh - 1); s.put(1, 1); s.put(1, 1); s.put(0, 1); s.put(0, 1); s.trail();
    return Str(1, (char)0x67) + s.b;
}
inline Str pps() {
    Bits s; s.ue(0); s.ue(0); s.put(0, 1); s.put(0, 1); s.ue(0); s.ue(0); s.ue(0); s.put(0, 1); s.put(0, 2); s.se(0); s.se(0); s.se(0);
    s.put(0, 1); s.put(0, 1); s.put(0, 1); s.trail();
    return Str(1, (char)0x68) + s.b;
}

struct Sample { Str data; uint32_t dur; uint32_t cts; bool sync; uint64_t off; Sample(): dur(1), cts(0), sync(true), off(0) {} };

struct Track {
    bool video; uint32_t timescale; std::vector<Sample> s;
    unsigned mbw, mbh, rate, channels, objtype;
    bool ctts, stss; int profile, level, constraint;
    uint64_t elst_empty;            // movie timescale; 0 = no edit list
    Str sps_, pps_;
    Track(): video(true), timescale(1000), mbw(20), mbh(15), rate(48000), channels(2), objtype(2), ctts(false), stss(true), profile(66), level(30), constraint(0), elst_empty(0) {}
    Str sps_of() const { return sps_.empty() ? sps(mbw, mbh, profile, level, constraint) : sps_; }
    Str pps_of() const { return pps_.empty() ? pps() : pps_; }
    uint64_t dts(size_t i) const { uint64_t t = 0; for (size_t k = 0; k < i; k++) t += s[k].dur; return t; }
    uint64_t total() const { return dts(s.size()); }
};

struct Movie {
    uint32_t timescale; std::vector<Track> t;
    std::vector<std::vector<int> > chunks;   // per track: samples per chunk (last one repeats); empty = 1 per chunk
    bool moov_first, mdat64, fixed_sizes, extras, v1, co64; int interleave; uint64_t gap, gap_at;   // gap: bytes of nothing before the samples, left out of what build() returns (with mdat64 only)
    Movie(): timescale(1000), moov_first(true), mdat64(false), fixed_sizes(false), extras(false), v1(false), co64(false), interleave(0), gap(0), gap_at(0) {}

    static void matrix(Out & o) { o.u32(0x10000); o.u32(0); o.u32(0); o.u32(0); o.u32(0x10000); o.u32(0); o.u32(0); o.u32(0); o.u32(0x40000000); }
    static Str descr(int tag, const Str & b) { Out o; o.u8(tag); o.u8(0x80); o.u8(0x80); o.u8(0x80); o.u8(b.size()); o.raw(b); return o.b; }
    static unsigned aac_index(unsigned rate) { static const unsigned r[] = {96000,88200,64000,48000,44100,32000,24000,22050,16000,12000,11025,8000,7350}; for (unsigned i = 0; i < 13; i++) if (r[i] == rate) return i; return 15; }
    static Str asc(const Track & k) { Bits b; b.put(k.objtype, 5); b.put(aac_index(k.rate), 4); b.put(k.channels, 4); b.put(0, 3); return b.b; }
    static Str avcC(const Track & k) {
        Str sp = k.sps_of(), pp = k.pps_of();
        Out o; o.u8(1); o.u8((unsigned char)sp[1]); o.u8((unsigned char)sp[2]); o.u8((unsigned char)sp[3]); o.u8(0xff); o.u8(0xe1); o.u16(sp.size()); o.raw(sp); o.u8(1); o.u16(pp.size()); o.raw(pp);
        return o.b;
    }
    Str stsd(const Track & k) const {
        Out e; e.zero(6); e.u16(1);
        if (k.video) {
            e.zero(16); e.u16(k.mbw * 16); e.u16(k.mbh * 16); e.u32(0x480000); e.u32(0x480000); e.u32(0); e.u16(1); e.zero(32); e.u16(0x18); e.u16(0xffff);
            e.raw(box("avcC", avcC(k)));
            if (extras) { Out p; p.u32(1); p.u32(1); e.raw(box("pasp", p.b)); Out q; q.u32(1); q.u32(2); q.u32(3); e.raw(box("btrt", q.b)); }
        } else {
            e.zero(8); e.u16(k.channels); e.u16(16); e.u32(0); e.u32(k.rate << 16);
            Out dc; dc.u8(0x40); dc.u8(0x15); dc.u24(0); dc.u32(96000); dc.u32(96000); dc.raw(descr(5, asc(k)));
            Out es; es.u16(1); es.u8(0); es.raw(descr(4, dc.b)); es.raw(descr(6, Str(1, (char)2)));
            e.raw(full("esds", 0, 0, descr(3, es.b)));
        }
        Out o; o.u32(1); o.raw(box(k.video ? "avc1" : "mp4a", e.b));
        return full("stsd", 0, 0, o.b);
    }
    Str stbl(const Track & k, const std::vector<uint64_t> & coff, const std::vector<int> & cn) const {
        Str r = stsd(k);
        { Out o; std::vector<std::pair<uint32_t, uint32_t> > v;
          for (size_t i = 0; i < k.s.size(); i++) { if (v.empty() || v.back().second != k.s[i].dur) v.push_back(std::make_pair(0u, k.s[i].dur)); v.back().first++; }
          o.u32(v.size()); for (size_t i = 0; i < v.size(); i++) { o.u32(v[i].first); o.u32(v[i].second); } r += full("stts", 0, 0, o.b); }
        if (k.ctts) { Out o; std::vector<std::pair<uint32_t, uint32_t> > v;
          for (size_t i = 0; i < k.s.size(); i++) { if (v.empty() || v.back().second != k.s[i].cts) v.push_back(std::make_pair(0u, k.s[i].cts)); v.back().first++; }
          o.u32(v.size()); for (size_t i = 0; i < v.size(); i++) { o.u32(v[i].first); o.u32(v[i].second); } r += full("ctts", 0, 0, o.b); }
        if (k.stss) { Out o, l; unsigned n = 0; for (size_t i = 0; i < k.s.size(); i++) if (k.s[i].sync) { l.u32(i + 1); n++; } o.u32(n); o.raw(l.b); r += full("stss", 0, 0, o.b); }
        { Out o; std::vector<std::pair<uint32_t, uint32_t> > v;
          for (size_t i = 0; i < cn.size(); i++) if (v.empty() || (int)v.back().second != cn[i]) v.push_back(std::make_pair((uint32_t)i + 1, (uint32_t)cn[i]));
          o.u32(v.size()); for (size_t i = 0; i < v.size(); i++) { o.u32(v[i].first); o.u32(v[i].second); o.u32(1); } r += full("stsc", 0, 0, o.b); }
        { Out o; bool same = fixed_sizes; for (size_t i = 1; i < k.s.size(); i++) if (k.s[i].data.size() != k.s[0].data.size()) same = false;
          if (same && !k.s.empty()) { o.u32(k.s[0].data.size()); o.u32(k.s.size()); } else { o.u32(0); o.u32(k.s.size()); for (size_t i = 0; i < k.s.size(); i++) o.u32(k.s[i].data.size()); }
          r += full("stsz", 0, 0, o.b); }
        { Out o; o.u32(coff.size()); for (size_t i = 0; i < coff.size(); i++) { if (co64) o.u64(coff[i]); else o.u32(coff[i]); } r += full(co64 ? "co64" : "stco", 0, 0, o.b); }
        return box("stbl", r);
    }
    Str trak(size_t ti, const std::vector<uint64_t> & coff, const std::vector<int> & cn) const {
        const Track & k = t[ti]; uint64_t dur = k.total(); uint64_t mdur = dur * timescale / k.timescale + k.elst_empty;
        Str r;
        { Out o; if (v1) { o.u64(0); o.u64(0); o.u32(ti + 1); o.u32(0); o.u64(mdur); } else { o.u32(0); o.u32(0); o.u32(ti + 1); o.u32(0); o.u32(mdur); }
          o.zero(8); o.u16(0); o.u16(0); o.u16(k.video ? 0 : 0x100); o.u16(0); matrix(o); o.u32(k.video ? k.mbw * 16 << 16 : 0); o.u32(k.video ? k.mbh * 16 << 16 : 0);
          r += full("tkhd", v1, 7, o.b); }
        if (k.elst_empty) { Out o; o.u32(2); if (v1) { o.u64(k.elst_empty); o.u64((uint64_t)-1); o.u32(0x10000); o.u64(mdur - k.elst_empty); o.u64(0); o.u32(0x10000); }
                                             else { o.u32(k.elst_empty); o.u32(0xffffffff); o.u32(0x10000); o.u32(mdur - k.elst_empty); o.u32(0); o.u32(0x10000); }
          r += box("edts", full("elst", v1, 0, o.b)); }
        Str m;
        { Out o; if (v1) { o.u64(0); o.u64(0); o.u32(k.timescale); o.u64(dur); } else { o.u32(0); o.u32(0); o.u32(k.timescale); o.u32(dur); } o.u16(0x55c4); o.u16(0); m += full("mdhd", v1, 0, o.b); }
        { Out o; o.u32(0); o.b.append(k.video ? "vide" : "soun", 4); o.zero(12); o.b.append(k.video ? "Video\0" : "Sound\0", 6); m += full("hdlr", 0, 0, o.b); }
        Str i;
        if (k.video) { Out o; o.zero(8); i += full("vmhd", 0, 1, o.b); } else { Out o; o.zero(4); i += full("smhd", 0, 0, o.b); }
        { Out o; o.u32(1); o.raw(full("url ", 0, 1, "")); i += box("dinf", full("dref", 0, 0, o.b)); }
        i += stbl(k, coff, cn);
        m += box("minf", i);
        r += box("mdia", m);
        if (extras) r += box("udta", box("name", "x"));
        return box("trak", r);
    }
    // sets the offsets of the samples and returns the file
    Str build() {
        Str ftyp; { Out o; o.b = "isom"; o.u32(512); o.b += "isomiso2avc1mp41"; ftyp = box("ftyp", o.b); }
        std::vector<std::vector<int> > cn(t.size()); std::vector<std::vector<uint64_t> > co(t.size());
        for (size_t i = 0; i < t.size(); i++) {
            std::vector<int> p; if (i < chunks.size()) p = chunks[i]; if (p.empty()) p.push_back(1);
            size_t done = 0, c = 0; while (done < t[i].s.size()) { size_t n = p[c < p.size() ? c : p.size() - 1]; c++; if (n > t[i].s.size() - done) n = t[i].s.size() - done; cn[i].push_back(n); done += n; }
            co[i].assign(cn[i].size(), 0);
        }
        Str free_ = extras ? box("free", Str("1234567")) : Str();
        Str moov, payload;
        for (int pass = 0; pass < 2; pass++) {
            uint64_t base = ftyp.size() + free_.size() + (moov_first ? moov.size() : 0) + (mdat64 ? 16 : 8) + gap;
            payload.clear();
            std::vector<size_t> ci(t.size(), 0), si(t.size(), 0);
            for (;;) {   // interleave: by time (0), round robin (1), one track after the other (2), reversed track order (3)
                int best = -1; double bt = 0;
                for (size_t k = 0; k < t.size(); k++) { size_t i = interleave == 3 ? t.size() - 1 - k : k; if (ci[i] >= cn[i].size()) continue;
                    double key = interleave == 0 ? (double)t[i].dts(si[i]) / t[i].timescale : interleave == 1 ? (double)ci[i] : (double)k;
                    if (best < 0 || key < bt) { best = i; bt = key; } }
                if (best < 0) break;
                co[best][ci[best]] = base + payload.size();
                for (int n = 0; n < cn[best][ci[best]]; n++) { Sample & s = t[best].s[si[best]++]; s.off = base + payload.size(); payload += s.data; }
                ci[best]++;
            }
            Str b; uint64_t dur = 0; for (size_t i = 0; i < t.size(); i++) { uint64_t d = t[i].total() * timescale / t[i].timescale + t[i].elst_empty; if (d > dur) dur = d; }
            { Out o; if (v1) { o.u64(0); o.u64(0); o.u32(timescale); o.u64(dur); } else { o.u32(0); o.u32(0); o.u32(timescale); o.u32(dur); }
              o.u32(0x10000); o.u16(0x100); o.zero(10); matrix(o); o.zero(24); o.u32(t.size() + 1); b += full("mvhd", v1, 0, o.b); }
            for (size_t i = 0; i < t.size(); i++) b += trak(i, co[i], cn[i]);
            moov = box("moov", b);
        }
        Out md; if (mdat64) { md.u32(1); md.b += "mdat"; md.u64(16 + gap + payload.size()); md.raw(payload); } else md.b = box("mdat", payload);
        gap_at = ftyp.size() + free_.size() + (moov_first ? moov.size() : 0) + 16;
        return moov_first ? ftyp + free_ + moov + md.b : ftyp + free_ + md.b + moov;
    }
};

// payloads: every byte string is different from every other one and says where it comes from
inline Str nal(int type, unsigned id, unsigned n) { Str r(1, (char)type); for (unsigned i = 0; i < n; i++) r.push_back((char)(0x11 + (id * 37 + i * 11 + type * 5) % 200)); r.push_back((char)(0x10 + id % 200)); return r; }
inline Str avcc(const std::vector<Str> & nals) { Out o; for (size_t i = 0; i < nals.size(); i++) { o.u32(nals[i].size()); o.raw(nals[i]); } return o.b; }
inline bool save(const Str & path, const Str & d) { FILE * f = fopen(path.c_str(), "wb"); if (!f) return false; bool k = fwrite(d.data(), 1, d.size(), f) == d.size(); fclose(f); return k; }
}

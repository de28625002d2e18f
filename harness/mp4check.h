// Parsers written from the specifications alone (ISO/IEC 14496-12, -15, 23001-7): what a player would see.
// Each throws std::string on anything malformed.
#pragma once
#include "mp4synth.h"
#include <map>
#include <set>
#include <cstdarg>
#include <algorithm>
namespace look {
typedef std::string Str;
inline Str fail(const char * f, ...) { char b[500]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
struct In {
    const Str & b; size_t p, e;
    In(const Str & b, size_t p, size_t e): b(b), p(p), e(e) { if (p > e || e > b.size()) throw fail("range %zu..%zu of %zu bytes", p, e, b.size()); }
    size_t left() const { return e - p; }
    uint64_t u(int n) { if (left() < (size_t)n) throw fail("%d more bytes wanted at %zu, the box ends at %zu", n, p, e); uint64_t v = 0; while (n--) v = v << 8 | (unsigned char)b[p++]; return v; }
    Str raw(size_t n) { if (left() < n) throw fail("%zu more bytes wanted at %zu, the box ends at %zu", n, p, e); Str s = b.substr(p, n); p += n; return s; }
    void skip(size_t n) { raw(n); }
};
struct Box { Str type; size_t at, body, end; };
inline std::vector<Box> boxes(const Str & b, size_t p, size_t e) {
    std::vector<Box> r; In i(b, p, e);
    while (i.left()) {
        Box x; x.at = i.p; uint64_t n = i.u(4); x.type = i.raw(4);
        if (n == 1) n = i.u(8); else if (n == 0) n = e - x.at;
        x.body = i.p; if (n < x.body - x.at || x.at + n > e) throw fail("box %s at %zu: size %llu beyond the end at %zu", x.type.c_str(), x.at, (unsigned long long)n, e);
        x.end = x.at + n; i.p = x.end; r.push_back(x);
    }
    return r;
}
inline std::vector<Box> boxes(const Str & b) { return boxes(b, 0, b.size()); }
inline std::vector<Box> inside(const Str & b, const Box & x, size_t skip = 0) { return boxes(b, x.body + skip, x.end); }
inline const Box * find(const std::vector<Box> & v, const char * t) { for (size_t i = 0; i < v.size(); i++) if (v[i].type == t) return &v[i]; return 0; }
inline Box need(const std::vector<Box> & v, const char * t) { const Box * b = find(v, t); if (!b) throw fail("no %s box", t); int n = 0; for (size_t i = 0; i < v.size(); i++) n += v[i].type == t; if (n > 1) throw fail("%d %s boxes", n, t); return *b; }

struct Sample { Str data; uint64_t dts; int64_t cts; uint64_t dur; bool sync; Str iv; std::vector<std::pair<unsigned, unsigned> > sub; Sample(): dts(0), cts(0), dur(0), sync(false) {} };

struct Config { bool video, enc; Str avcc, asc, sps, pps, kid; unsigned w, h, channels; Config(): video(false), enc(false), w(0), h(0), channels(0) {} };
// descriptor of MPEG-4 systems: tag, expanded length, body
inline Str descr(In & i, unsigned tag) { unsigned t = i.u(1); if (t != tag) throw fail("descriptor %u, not %u", t, tag); size_t n = 0; for (int k = 0;; k++) { if (k == 4) throw fail("descriptor length"); unsigned c = i.u(1); n = n << 7 | (c & 127); if (!(c & 128)) break; } return i.raw(n); }
inline Config entry(const Str & b, const Box & stsd) {
    Config c; In i(b, stsd.body, stsd.end); i.u(4); if (i.u(4) != 1) throw fail("more than one sample entry");
    std::vector<Box> v = boxes(b, i.p, stsd.end); if (v.size() != 1) throw fail("%zu sample entries", v.size());
    Box e = v[0]; In f(b, e.body, e.end); f.skip(6); if (f.u(2) != 1) throw fail("data reference"); 
    c.enc = e.type == "encv" || e.type == "enca";
    if (e.type == "avc1" || e.type == "encv") { c.video = true; f.skip(16); c.w = f.u(2); c.h = f.u(2); f.skip(12); if (f.u(2) != 1) throw fail("frame count"); f.skip(32); f.u(2); f.u(2); }
    else if (e.type == "mp4a" || e.type == "enca") { f.skip(8); c.channels = f.u(2); f.u(2); f.u(4); f.u(4); }
    else throw fail("sample entry %s", e.type.c_str());
    std::vector<Box> k = boxes(b, f.p, e.end);
    if (c.video) {
        Box a = need(k, "avcC"); c.avcc = b.substr(a.body, a.end - a.body); In x(b, a.body, a.end);
        if (x.u(1) != 1) throw fail("avcC version"); x.u(3); unsigned l = x.u(1); if ((l & 3) != 3) throw fail("length size %u", (l & 3) + 1); unsigned n = x.u(1) & 31; if (n != 1) throw fail("%u sequence parameter sets", n);
        c.sps = x.raw(x.u(2)); n = x.u(1); if (n != 1) throw fail("%u picture parameter sets", n); c.pps = x.raw(x.u(2));
    } else {
        Box a = need(k, "esds"); In x(b, a.body, a.end); x.u(4); Str es = descr(x, 3); In y(es, 0, es.size()); y.u(2); if (y.u(1) & 0xe0) throw fail("elementary stream flags"); Str dc = descr(y, 4); In z(dc, 0, dc.size()); if (z.u(1) != 0x40) throw fail("object type"); z.u(1); z.u(3); z.u(4); z.u(4); c.asc = descr(z, 5);
    }
    if (c.enc) {
        Box s = need(k, "sinf"); std::vector<Box> q = inside(b, s); Box fr = need(q, "frma"); if (b.substr(fr.body, 4) != (c.video ? "avc1" : "mp4a")) throw fail("frma");
        Box sm = need(q, "schm"); In x(b, sm.body, sm.end); x.u(4); if (x.raw(4) != "cenc") throw fail("scheme"); if (x.u(4) != 0x10000) throw fail("scheme version");
        std::vector<Box> sc = inside(b, need(q, "schi")); Box te = need(sc, "tenc"); In t(b, te.body, te.end); t.u(4); if (t.u(3) != 1) throw fail("not encrypted by default"); if (t.u(1) != 8) throw fail("initialisation vector size"); c.kid = t.raw(16); if (t.left()) throw fail("tenc too long");
    }
    return c;
}
struct Track { unsigned id; uint32_t timescale; uint64_t duration, tkhd_duration; Config c; std::vector<Sample> s; bool stss; Str lang; uint64_t first; std::vector<std::pair<uint64_t, int64_t> > edits; Track(): id(0), timescale(0), duration(0), stss(false), first(0) {} };
struct Movie { uint32_t timescale; uint64_t duration; std::vector<Track> t; bool fragmented; uint64_t fragment_duration; std::vector<unsigned> trex; std::vector<Str> pssh; Movie(): timescale(0), duration(0), fragmented(false), fragment_duration(0) {} };
inline Track trak(const Str & b, const Box & x) {
    Track t; std::vector<Box> v = inside(b, x);
    { Box h = need(v, "tkhd"); In i(b, h.body, h.end); int w = i.u(1) ? 8 : 4; unsigned fl = i.u(3); if (!(fl & 1)) throw fail("track not enabled"); i.u(w); i.u(w); t.id = i.u(4); i.u(4); t.tkhd_duration = i.u(w); i.skip(8 + 4 + 2 + 2 + 36 + 8); if (i.left()) throw fail("tkhd too long"); }
    if (find(v, "edts")) { std::vector<Box> e = inside(b, need(v, "edts")); Box l = need(e, "elst"); In i(b, l.body, l.end); int w = i.u(1) ? 8 : 4; i.u(3); unsigned n = i.u(4); while (n--) { uint64_t d = i.u(w); int64_t m = w == 8 ? (int64_t)i.u(8) : (int64_t)(int32_t)i.u(4); i.u(4); t.edits.push_back(std::make_pair(d, m)); } }
    std::vector<Box> m = inside(b, need(v, "mdia"));
    { Box h = need(m, "mdhd"); In i(b, h.body, h.end); int w = i.u(1) ? 8 : 4; i.u(3); i.u(w); i.u(w); t.timescale = i.u(4); t.duration = i.u(w); unsigned l = i.u(2); for (int k = 10; k >= 0; k -= 5) t.lang += (char)(0x60 + (l >> k & 31)); i.u(2); if (i.left()) throw fail("mdhd too long"); }
    Str kind; { Box h = need(m, "hdlr"); In i(b, h.body, h.end); i.u(4); i.u(4); kind = i.raw(4); }
    std::vector<Box> n = inside(b, need(m, "minf"));
    { std::vector<Box> d = inside(b, need(n, "dinf")); Box r = need(d, "dref"); In i(b, r.body, r.end); i.u(4); if (i.u(4) != 1) throw fail("data references"); std::vector<Box> u = boxes(b, i.p, r.end); if (u.size() != 1) throw fail("data references"); In j(b, u[0].body, u[0].end); if (!(j.u(4) & 1)) throw fail("data elsewhere"); }
    std::vector<Box> s = inside(b, need(n, "stbl"));
    t.c = entry(b, need(s, "stsd"));
    if (kind != (t.c.video ? "vide" : "soun")) throw fail("handler %s", kind.c_str());
    need(n, t.c.video ? "vmhd" : "smhd");
    std::vector<uint64_t> dur, cts, size, off; 
    { Box h = need(s, "stts"); In i(b, h.body, h.end); i.u(4); unsigned c = i.u(4); while (c--) { unsigned k = i.u(4), d = i.u(4); if (k > 100000) throw fail("stts run of %u", k); dur.insert(dur.end(), k, d); } if (i.left()) throw fail("stts too long"); }
    bool ct = find(s, "ctts"); int ctv = 0;
    if (ct) { Box h = need(s, "ctts"); In i(b, h.body, h.end); ctv = i.u(1); i.u(3); unsigned c = i.u(4); while (c--) { unsigned k = i.u(4); uint32_t d = i.u(4); if (k > 100000) throw fail("ctts run of %u", k); cts.insert(cts.end(), k, ctv ? (uint64_t)(int64_t)(int32_t)d : d); } if (i.left()) throw fail("ctts too long"); }
    { Box h = need(s, "stsz"); In i(b, h.body, h.end); i.u(4); unsigned f = i.u(4), c = i.u(4); if (c > 100000) throw fail("%u samples", c); while (c--) size.push_back(f ? f : i.u(4)); if (i.left()) throw fail("stsz too long"); }
    std::vector<uint64_t> chunk; { const Box * h = find(s, "co64"); int w = h ? 8 : 4; Box y = h ? *h : need(s, "stco"); In i(b, y.body, y.end); i.u(4); unsigned c = i.u(4); while (c--) chunk.push_back(i.u(w)); if (i.left()) throw fail("stco too long"); }
    { Box h = need(s, "stsc"); In i(b, h.body, h.end); i.u(4); unsigned c = i.u(4), last = 0; std::vector<std::pair<unsigned, unsigned> > r; while (c--) { unsigned f = i.u(4), k = i.u(4); if (f <= last) throw fail("stsc chunk %u after %u", f, last); last = f; if (i.u(4) != 1) throw fail("sample description"); r.push_back(std::make_pair(f, k)); } if (i.left()) throw fail("stsc too long");
      if (r.size() && r[0].first != 1) throw fail("stsc starts at chunk %u", r[0].first); if (last > chunk.size()) throw fail("stsc chunk %u of %zu", last, chunk.size());
      size_t g = 0, y = 0; for (size_t k = 0; k < chunk.size(); k++) { while (g + 1 < r.size() && r[g + 1].first <= k + 1) g++; if (r.empty()) throw fail("no stsc"); uint64_t o = chunk[k]; for (unsigned q = 0; q < r[g].second; q++, y++) { if (y >= size.size()) throw fail("chunks hold more than %zu samples", size.size()); off.push_back(o); o += size[y]; } }
      if (y != size.size()) throw fail("chunks hold %zu of %zu samples", y, size.size()); }
    if (dur.size() != size.size()) throw fail("stts has %zu of %zu samples", dur.size(), size.size());
    if (ct && cts.size() != size.size()) throw fail("ctts has %zu of %zu samples", cts.size(), size.size());
    std::set<unsigned> sy; t.stss = find(s, "stss"); if (t.stss) { Box h = need(s, "stss"); In i(b, h.body, h.end); i.u(4); unsigned c = i.u(4), last = 0; while (c--) { unsigned k = i.u(4); if (k <= last || k > size.size()) throw fail("stss %u after %u of %zu", k, last, size.size()); last = k; sy.insert(k); } if (i.left()) throw fail("stss too long"); }
    uint64_t d = 0; for (size_t k = 0; k < size.size(); k++) { Sample x; x.dts = d; x.dur = dur[k]; x.cts = ct ? (int64_t)cts[k] : 0; d += dur[k]; x.sync = t.stss ? sy.count(k + 1) : true; if (off[k] + size[k] > b.size()) throw fail("sample %zu ends at %llu of %zu", k, (unsigned long long)(off[k] + size[k]), b.size()); x.data = b.substr(off[k], size[k]); t.s.push_back(x); }
    if (size.size()) t.first = off[0];
    return t;
}
inline Movie movie(const Str & b, bool end = true) {
    Movie m; std::vector<Box> v = boxes(b); if (v.empty() || v[0].type != "ftyp") throw fail("does not begin with ftyp");
    std::vector<Box> o = inside(b, need(v, "moov"));
    { Box h = need(o, "mvhd"); In i(b, h.body, h.end); int w = i.u(1) ? 8 : 4; i.u(3); i.u(w); i.u(w); m.timescale = i.u(4); m.duration = i.u(w); i.skip(4 + 2 + 10 + 36 + 24); unsigned next = i.u(4); if (i.left()) throw fail("mvhd too long"); for (size_t k = 0; k < o.size(); k++) if (o[k].type == "trak") { m.t.push_back(trak(b, o[k])); if (m.t.back().id == 0 || m.t.back().id >= next) throw fail("track %u, next %u", m.t.back().id, next); } }
    if (const Box * x = find(o, "mvex")) { m.fragmented = true; std::vector<Box> e = inside(b, *x); for (size_t k = 0; k < e.size(); k++) { In i(b, e[k].body, e[k].end); int ver = i.u(1); i.u(3); if (e[k].type == "mehd") m.fragment_duration = i.u(ver ? 8 : 4); if (e[k].type == "trex") { m.trex.push_back(i.u(4)); if (i.u(4) != 1) throw fail("trex description"); i.skip(12); } if ((e[k].type == "mehd" || e[k].type == "trex") && i.left()) throw fail("%s too long", e[k].type.c_str()); } }
    for (size_t k = 0; k < o.size(); k++) if (o[k].type == "pssh") m.pssh.push_back(b.substr(o[k].body, o[k].end - o[k].body));
    return m;
}
struct Fragment { unsigned track, sequence; uint64_t tfdt; std::vector<Sample> s; Str avcn; bool enc, sidx; uint64_t scale, earliest, length; Fragment(): track(0), sequence(0), tfdt(0), enc(false), sidx(false), scale(0), earliest(0), length(0) {} };
inline Fragment fragment(const Str & b, bool video) {
    Fragment f; std::vector<Box> v = boxes(b); Box moof = need(v, "moof"), mdat = need(v, "mdat");
    size_t k0 = 0; if (v[0].type == "styp") k0 = 1; const Box * sx = v.size() > k0 && v[k0].type == "sidx" ? &v[k0] : 0; if (sx) k0++;
    if (v.size() != k0 + 2 || v[k0].type != "moof" || v[k0 + 1].type != "mdat") throw fail("%zu boxes, moof not followed by mdat", v.size());
    if (sx) {
        f.sidx = true; In i(b, sx->body, sx->end); int ver = i.u(1); i.u(3); f.track = i.u(4); f.scale = i.u(4); f.earliest = i.u(ver ? 8 : 4); uint64_t first = i.u(ver ? 8 : 4); i.u(2); if (i.u(2) != 1) throw fail("sidx references");
        uint32_t r = i.u(4); f.length = i.u(4); uint32_t sap = i.u(4); if (i.left()) throw fail("sidx too long"); if (r >> 31) throw fail("sidx refers to a sidx"); if (sx->end + first != moof.at) throw fail("sidx offset"); if ((r & 0x7fffffff) != mdat.end - moof.at) throw fail("sidx says %u bytes, there are %zu", r & 0x7fffffff, mdat.end - moof.at);
        if (!(sap >> 31)) throw fail("sidx: does not start with an access point");
    }
    unsigned sxtrack = f.track;
    std::vector<Box> o = inside(b, moof); { Box h = need(o, "mfhd"); In i(b, h.body, h.end); i.u(4); f.sequence = i.u(4); if (i.left()) throw fail("mfhd too long"); }
    std::vector<Box> t = inside(b, need(o, "traf"));
    uint64_t base = moof.at;
    { Box h = need(t, "tfhd"); In i(b, h.body, h.end); i.u(1); unsigned fl = i.u(3); f.track = i.u(4); if (fl & 1) base = i.u(8); if (fl & 0x3a) throw fail("tfhd flags %x", fl); if (i.left()) throw fail("tfhd too long"); }
    { Box h = need(t, "tfdt"); In i(b, h.body, h.end); int ver = i.u(1); i.u(3); f.tfdt = i.u(ver ? 8 : 4); if (i.left()) throw fail("tfdt too long"); }
    Box h = need(t, "trun"); In i(b, h.body, h.end); int ver = i.u(1); unsigned fl = i.u(3), n = i.u(4); if (n > 100000) throw fail("%u samples", n);
    uint64_t data = base; if (fl & 1) data += (int32_t)i.u(4); unsigned ff = 0; if (fl & 4) ff = i.u(4); if (!(fl & 0x100) || !(fl & 0x200)) throw fail("trun flags %x", fl);
    uint64_t d = f.tfdt, p = data;
    if (data != mdat.body) throw fail("data at %llu, not %zu", (unsigned long long)data, mdat.body);
    for (unsigned k = 0; k < n; k++) {
        Sample x; x.dts = d; x.dur = i.u(4); uint64_t sz = i.u(4); unsigned sf = k == 0 ? ff : 0; if (fl & 0x400) sf = i.u(4); if (fl & 0x800) { uint32_t c = i.u(4); x.cts = ver ? (int64_t)(int32_t)c : (int64_t)c; }
        x.sync = !(sf & 0x10000); d += x.dur; if (p + sz > mdat.end) throw fail("sample %u ends at %llu, the data at %zu", k, (unsigned long long)(p + sz), mdat.end); x.data = b.substr(p, sz); p += sz; f.s.push_back(x);
    }
    if (i.left()) throw fail("trun too long"); if (p != mdat.end) throw fail("%llu bytes of data left over", (unsigned long long)(mdat.end - p));
    if (f.sidx) { uint64_t sum = 0, e = UINT64_MAX; for (size_t k = 0; k < f.s.size(); k++) { sum += f.s[k].dur; e = std::min<uint64_t>(e, f.s[k].dts + f.s[k].cts); } if (sxtrack != f.track) throw fail("sidx of track %u", sxtrack); if (f.length != sum) throw fail("sidx duration %llu, not %llu", (unsigned long long)f.length, (unsigned long long)sum); if (f.earliest != e) throw fail("sidx earliest time %llu, not %llu", (unsigned long long)f.earliest, (unsigned long long)e); }
    if (const Box * a = find(t, "avcn")) f.avcn = b.substr(a->body, a->end - a->body);
    if (const Box * a = find(t, "senc")) {
        f.enc = true; In j(b, a->body, a->end); j.u(1); unsigned efl = j.u(3), c = j.u(4); if (c != n) throw fail("senc has %u of %u samples", c, n);
        size_t first = j.p; std::vector<size_t> info;
        for (unsigned k = 0; k < n; k++) { size_t q = j.p; f.s[k].iv = j.raw(8); if (efl & 2) { unsigned m = j.u(2); while (m--) { unsigned cl = j.u(2), pr = j.u(4); f.s[k].sub.push_back(std::make_pair(cl, pr)); } } info.push_back(j.p - q); }
        if (j.left()) throw fail("senc too long");
        Box z = need(t, "saiz"); In y(b, z.body, z.end); y.u(1); if (y.u(3) & 1) y.skip(8); unsigned def = y.u(1), cnt = y.u(4); if (cnt != n) throw fail("saiz has %u of %u samples", cnt, n); for (unsigned k = 0; k < n; k++) { unsigned w = def ? def : y.u(1); if (w != info[k]) throw fail("auxiliary information of sample %u: %zu bytes, saiz says %u", k, info[k], w); } if (y.left()) throw fail("saiz too long");
        z = need(t, "saio"); In w(b, z.body, z.end); int wv = w.u(1); if (w.u(3) & 1) w.skip(8); if (w.u(4) != 1) throw fail("saio entries"); uint64_t so = w.u(wv ? 8 : 4); if (w.left()) throw fail("saio too long"); if (base + so != first) throw fail("saio says %llu, the information is at %zu", (unsigned long long)so, first);
    }
    return f;
}
// the smallest XML reader that serves: elements, attributes, nesting
struct Xml { Str name; std::map<Str, Str> a; std::vector<Xml> c; Str text;
    const Xml & one(const char * n) const { const Xml * r = 0; for (size_t i = 0; i < c.size(); i++) if (c[i].name == n) { if (r) throw fail("second %s in %s", n, name.c_str()); r = &c[i]; } if (!r) throw fail("no %s in %s", n, name.c_str()); return *r; }
    std::vector<const Xml *> all(const char * n) const { std::vector<const Xml *> v; for (size_t i = 0; i < c.size(); i++) if (c[i].name == n) v.push_back(&c[i]); return v; }
    bool has(const char * k) const { return a.count(k); }
    const Str & at(const char * k) const { std::map<Str, Str>::const_iterator i = a.find(k); if (i == a.end()) throw fail("no %s on %s", k, name.c_str()); return i->second; }
    uint64_t num(const char * k) const { const Str & s = at(k); if (s.empty() || s.find_first_not_of("0123456789") != Str::npos) throw fail("%s=\"%s\" is no number", k, s.c_str()); return strtoull(s.c_str(), 0, 10); } };
inline void blank(const Str & s, size_t & p) { while (p < s.size() && isspace((unsigned char)s[p])) p++; }
inline Str word(const Str & s, size_t & p) { size_t q = p; while (p < s.size() && (isalnum((unsigned char)s[p]) || strchr("_:-.", s[p]))) p++; if (p == q) throw fail("name expected at %zu: %.20s", p, s.c_str() + p); return s.substr(q, p - q); }
inline Xml xml(const Str & s, size_t & p) {
    Xml x; blank(s, p); if (s[p] != '<') throw fail("element expected at %zu", p); p++; x.name = word(s, p);
    for (;;) { blank(s, p); if (p >= s.size()) throw fail("unfinished element"); if (s.compare(p, 2, "/>") == 0) { p += 2; return x; } if (s[p] == '>') { p++; break; } Str k = word(s, p); if (s.compare(p, 2, "=\"")) throw fail("=\" expected after %s", k.c_str()); p += 2; size_t q = s.find('"', p); if (q == Str::npos) throw fail("unfinished value"); if (x.a.count(k)) throw fail("second %s", k.c_str()); Str v = s.substr(p, q - p); if (v.find('<') != Str::npos) throw fail("< in value"); x.a[k] = v; p = q + 1; }
    for (;;) { size_t q = s.find('<', p); if (q == Str::npos) throw fail("%s not closed", x.name.c_str()); x.text += s.substr(p, q - p); p = q; if (s.compare(p, 2, "</") == 0) { p += 2; Str e = word(s, p); blank(s, p); if (e != x.name || s[p] != '>') throw fail("%s closed by %s", x.name.c_str(), e.c_str()); p++; return x; } x.c.push_back(xml(s, p)); }
}
inline Xml xml(const Str & s) { size_t p = 0; if (s.compare(0, 5, "<?xml") == 0) p = s.find("?>") + 2; Xml x = xml(s, p); blank(s, p); if (p != s.size()) throw fail("%zu bytes after the document", s.size() - p); return x; }
}

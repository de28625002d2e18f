// C30 reading MP4 files
#undef main
typedef unsigned char BYTE;
#include "mc.h"
#include "mp4synth.h"
#include <mgcore.h>
#include <mp4edit.h>
#include <unistd.h>
using namespace mg::core;
using mc::strf; using mc::choose;
typedef std::string Str;
static int D(int quick, int deep) { return mc::thorough() ? deep : quick; }
static void quiet() { static bool done; if (done || mc::tracing()) return; done = true; freopen("/dev/null", "w", stdout); }

// ---------------------------------------------------------------- C30
static uint64_t hns(uint64_t t, uint32_t ts) { return t * 10000000ULL / ts; }
struct Opened {
    CMP4Memory mem; SYNCMP4File file; CMP4 * mp4; MP4Reader reader; Str path;
    Opened(const Str & bytes, bool use_file) : mp4(&mem) {
        if (use_file) { path = strf("in%d.mp4", (int)getpid()); synth::save(path, bytes); file.open(Cstring(path.c_str())); mp4 = &file; }
        else mem.Open((const BYTE *)bytes.data(), bytes.size());
        reader.parse(*mp4);
    }
    ~Opened() { if (path.size()) { file.close(); unlink(path.c_str()); } }
};
static void check_samples(synth::Movie & m, Opened & o, const Str & bytes)
{
    MP4Reader & r = o.reader;
    MC_CHECK(r.stream_count() == m.t.size(), "%zu streams, the file has %zu", r.stream_count(), m.t.size());
    size_t total = 0; uint64_t mdur = 0;
    for (size_t k = 0; k < m.t.size(); k++) {
        synth::Track & t = m.t[k]; uint64_t d = t.total() * m.timescale / t.timescale + t.elst_empty; if (d > mdur) mdur = d;
        total += t.s.size();
        MC_CHECK(r.IsVisual(k) == t.video && r.IsSound(k) == !t.video, "stream %zu: wrong kind", k);
        MC_CHECK(r.get_sample_count(k) == t.s.size(), "stream %zu: %llu samples, the file has %zu", k, (unsigned long long)r.get_sample_count(k), t.s.size());
        MC_CHECK(r.get_media_time_scale(k) == t.timescale, "stream %zu: timescale %llu, not %u", k, (unsigned long long)r.get_media_time_scale(k), t.timescale);
        MC_CHECK(r.get_duration(k) == hns(t.total(), t.timescale), "stream %zu: duration %llu, not %llu", k, (unsigned long long)r.get_duration(k), (unsigned long long)hns(t.total(), t.timescale));
        MC_CHECK(r.get_stream_offset(k) == hns(t.elst_empty, m.timescale), "stream %zu: offset %llu, not %llu", k, (unsigned long long)r.get_stream_offset(k), (unsigned long long)hns(t.elst_empty, m.timescale));
        MC_CHECK(Str(r.get_language(k)) == "und", "stream %zu: language %s", k, r.get_language(k));
        MC_CHECK(r.has_composition_time(k) == t.ctts && r.has_random_access_point(k) == t.stss, "stream %zu: wrong ctts/stss", k);
        uint64_t bytes_ = 0, start = UINT64_MAX, end = 0, endd = 0, dts = 0;
        for (size_t i = 0; i < t.s.size(); i++) {
            synth::Sample & s = t.s[i]; bytes_ += s.data.size(); uint64_t c = dts + (t.ctts ? s.cts : 0);
            if (c < start) start = c; if (c >= end) { end = c; endd = s.dur; }
            MC_CHECK(r.get_sample_offset(i, k) == s.off, "stream %zu sample %zu: at %llu, not %llu", k, i, (unsigned long long)r.get_sample_offset(i, k), (unsigned long long)s.off);
            MC_CHECK(r.get_sample_size(i, k) == s.data.size(), "stream %zu sample %zu: %llu bytes, not %zu", k, i, (unsigned long long)r.get_sample_size(i, k), s.data.size());
            MC_CHECK(r.get_raw_decoding_time(i, k) == dts && r.get_decoding_time(i, k) == hns(dts, t.timescale), "stream %zu sample %zu: decoding time %llu, not %llu", k, i, (unsigned long long)r.get_raw_decoding_time(i, k), (unsigned long long)dts);
            MC_CHECK(r.get_raw_composition_time(i, k) == c && r.get_composition_time(i, k) == hns(c, t.timescale), "stream %zu sample %zu: composition time %llu, not %llu", k, i, (unsigned long long)r.get_raw_composition_time(i, k), (unsigned long long)c);
            dts += s.dur; mc::step();
        }
        MC_CHECK(r.get_total_stream_size(k) == bytes_, "stream %zu: %llu bytes altogether, not %llu", k, (unsigned long long)r.get_total_stream_size(k), (unsigned long long)bytes_);
        MC_CHECK(r.get_start_time(k) == hns(start, t.timescale) && r.get_end_time(k) == hns(end, t.timescale), "stream %zu: from %llu to %llu, not %llu to %llu", k, (unsigned long long)r.get_start_time(k), (unsigned long long)r.get_end_time(k), (unsigned long long)hns(start, t.timescale), (unsigned long long)hns(end, t.timescale));
        MC_CHECK(r.get_end_time_plus_duration(k) == hns(end + endd, t.timescale), "stream %zu: ends %llu, not %llu", k, (unsigned long long)r.get_end_time_plus_duration(k), (unsigned long long)hns(end + endd, t.timescale));
        if (t.video) {
            const CMP4VisualEntry & e = r.get_visual_entry(0, k); Str want = synth::Movie::avcC(t);
            MC_CHECK(e.get_entry().width == t.mbw * 16 && e.get_entry().height == t.mbh * 16, "stream %zu: picture is %ux%u", k, (unsigned)e.get_entry().width, (unsigned)e.get_entry().height);
            MC_CHECK(e.get_body_size() == want.size() && !memcmp(e.get_body(), want.data(), want.size()), "stream %zu: decoder configuration differs", k);
            const CAVCCHeader & h = e.get_avcc_header(); Str sp = t.sps_of(), pp = t.pps_of();
            MC_CHECK(Str((const char *)h.get_nal_sequence(0), h.get_sequence_size(0)) == sp && Str((const char *)h.get_nal_picture(0), h.get_picture_size(0)) == pp, "stream %zu: parameter sets differ", k);
        } else {
            const CMP4AudioEntry & e = r.get_audio_entry(0, k);
            MC_CHECK((int)e.get_entry().get_channelcount() == (int)t.channels, "stream %zu: %d channels", k, (int)e.get_entry().get_channelcount());
            MC_CHECK(e.get_aac_info().object_type == t.objtype && e.get_aac_info().sample_rate == t.rate && e.get_aac_info().channels == t.channels, "stream %zu: aac %u %u %u", k, (unsigned)e.get_aac_info().object_type, (unsigned)e.get_aac_info().sample_rate, (unsigned)e.get_aac_info().channels);
        }
    }
    MC_CHECK(r.get_duration() == hns(mdur, m.timescale), "movie duration %llu, not %llu", (unsigned long long)r.get_duration(), (unsigned long long)hns(mdur, m.timescale));
    // a walk over the file meets every sample once, in file order, with the right bytes
    std::vector<std::pair<uint64_t, std::pair<size_t, size_t> > > order;
    for (size_t k = 0; k < m.t.size(); k++) for (size_t i = 0; i < m.t[k].s.size(); i++) order.push_back(std::make_pair(m.t[k].s[i].off, std::make_pair(k, i)));
    std::sort(order.begin(), order.end());
    std::vector<size_t> seen(m.t.size(), 0);
    sample_stream_info ms; size_t n = 0;
    while (r.next_file_chunks(ms)) {
        MC_CHECK(n < order.size(), "more than %zu samples", order.size());
        size_t k = order[n].second.first, i = order[n].second.second; synth::Sample & s = m.t[k].s[i];
        MC_CHECK(ms.stream == k && ms.sample_number == i, "walk step %zu: stream %u sample %llu, expected %zu %zu", n, ms.stream, (unsigned long long)ms.sample_number, k, i);
        MC_CHECK(ms.offset == s.off && ms.size == s.data.size() && !bytes.compare(ms.offset, ms.size, s.data), "walk step %zu: wrong bytes", n);
        uint64_t dts = m.t[k].dts(i), c = dts + (m.t[k].ctts ? s.cts : 0);
        MC_CHECK((uint64_t)ms.decoding_time == hns(dts, m.t[k].timescale) && (uint64_t)ms.composition_time == hns(c, m.t[k].timescale) && (uint64_t)ms.duration == hns(s.dur, m.t[k].timescale), "walk step %zu: times %llu %llu %llu", n, (unsigned long long)ms.decoding_time, (unsigned long long)ms.composition_time, (unsigned long long)ms.duration);
        MC_CHECK(!!ms.bIsSyncPoint == (m.t[k].stss ? s.sync : true), "walk step %zu: sync flag", n);
        std::vector<BYTE> b(ms.size + 1); o.mp4->set_position(ms.offset); o.mp4->read_bytes(&b[0], ms.size);
        MC_CHECK(!memcmp(&b[0], s.data.data(), ms.size), "walk step %zu: bytes read differ", n);
        n++; mc::step();
    }
    MC_CHECK(n == order.size(), "the walk ends after %zu of %zu samples", n, order.size());
    mc::outcome(mc::H().s(bytes).h);
}
static synth::Track track(bool video, int n, uint32_t ts)
{
    synth::Track t; t.video = video; t.timescale = ts; t.stss = video; t.rate = 48000;
    for (int i = 0; i < n; i++) { synth::Sample s; s.dur = 1; s.sync = i == 0; s.data = video ? synth::nal(0x41, i, 2 + i % 3) : synth::nal(0x21, i, 3 + i % 2); t.s.push_back(s); }
    return t;
}
// one track: all chunkings, all sync patterns, duration and composition patterns
static void tables(int n, bool video, int part)
{
    quiet();
    synth::Movie m; synth::Track t = track(video, n, 90000);
    std::vector<int> cp; { int c = choose(1 << (n - 1)), run = 1; for (int i = 0; i < n - 1; i++) if (c >> i & 1) { cp.push_back(run); run = 1; } else run++; cp.push_back(run); }
    m.chunks.push_back(cp);
    if (part == 0) { int p = choose(1 << n); for (int i = 0; i < n; i++) t.s[i].dur = p >> i & 1 ? 3000 : 1024; }
    if (part == 1) { t.ctts = true; int all = 1; for (int i = 0; i < n; i++) all *= 3; int p = choose(all); for (int i = 0; i < n; i++) { t.s[i].dur = 10; t.s[i].cts = (p % 3) * 15; p /= 3; } }
    if (part == 2) { int p = choose(1 << n); t.s[0].sync = choose(2); for (int i = 1; i < n; i++) t.s[i].sync = p >> i & 1; bool any = false; for (int i = 0; i < n; i++) any |= t.s[i].sync; if (!any) t.s[n - 1].sync = true; }
    m.fixed_sizes = choose(2); if (m.fixed_sizes) for (int i = 0; i < n; i++) t.s[i].data = synth::nal(0x41, i, 4);
    m.t.push_back(t);
    Str f = m.build(); MC_NOTE("file of %zu bytes", f.size());
    Opened o(f, false); check_samples(m, o, f);
}
static void layout(int kind, bool file)
{
    quiet();
    synth::Movie m; int nv = 1 + choose(4), na = 1 + choose(5);
    if (kind & 1) m.t.push_back(track(true, nv, 25)); if (kind & 2) m.t.push_back(track(false, na, 48000)); if (kind & 4) m.t.push_back(track(true, nv, 90000)); if (kind & 8) m.t.push_back(track(false, na, 44100));
    for (size_t k = 0; k < m.t.size(); k++) for (size_t i = 0; i < m.t[k].s.size(); i++) m.t[k].s[i].dur = m.t[k].timescale == 25 ? 1 : m.t[k].timescale == 90000 ? 3003 : 1024;
    m.interleave = choose(4); m.moov_first = choose(2);
    int flags = choose(8); m.v1 = flags & 1; m.mdat64 = flags & 2; m.extras = flags & 4;
    if (choose(2)) m.t.back().elst_empty = 85;
    m.co64 = choose(2);
    int c = choose(3); for (size_t k = 0; k < m.t.size(); k++) { std::vector<int> p; p.push_back(c + 1 - (int)(k && c)); m.chunks.push_back(p); }
    Str f = m.build(); MC_NOTE("file of %zu bytes", f.size());
    Opened o(f, file); check_samples(m, o, f);
}
// looking up times: sync samples, samples by time, and moving all streams there
static void seeking(int n, uint32_t ts, uint32_t cts)
{
    quiet();
    synth::Movie m; m.timescale = 1000;
    synth::Track v = track(true, n, ts), a = track(false, n + 2, 48000);
    int p = choose(1 << n); v.s[0].sync = p & 1; for (int i = 1; i < n; i++) v.s[i].sync = p >> i & 1; bool any = false; for (int i = 0; i < n; i++) any |= v.s[i].sync; if (!any) v.s[0].sync = true;
    int q = ts == 30000 ? 0 : choose(3); for (int i = 0; i < n; i++) { v.s[i].dur = ts == 30000 ? 1001 : q == 0 ? ts / 25 : q == 1 ? ts / 50 : (i & 1 ? ts / 25 : ts / 50); v.s[i].cts = cts; } v.ctts = cts > 0;
    for (size_t i = 0; i < a.s.size(); i++) a.s[i].dur = 1024;
    uint64_t off = choose(2) ? 85 : 0; a.elst_empty = off; off *= 10000;
    m.t.push_back(v); m.t.push_back(a);
    Str f = m.build(); Opened o(f, false); MP4Reader & r = o.reader;
    uint64_t end = hns(v.total(), ts);
    std::vector<uint64_t> times; for (int i = 0; i <= n + 1; i++) for (int d = -1; d <= 2; d++) { int64_t t = i * (int64_t)end / n + (d == 2 ? 100000 : d); if (t >= 0) times.push_back(t); }
    for (size_t x = 0; x < times.size(); x++) {
        uint64_t t = times[x]; mc::step();
        int want = -1, next = -1; for (int i = 0; i < n; i++) if (v.s[i].sync) { if (want < 0 || hns(v.dts(i), ts) <= t) want = i; }
        for (int i = 0; i < n; i++) if (v.s[i].sync && i > want && next < 0) next = i; if (next < 0) next = want;
        uint64_t got = r.get_IFrame_number(t, 0);
        MC_CHECK(got == (uint64_t)want, "sync sample for %llu: %llu, not %d", (unsigned long long)t, (unsigned long long)got, want);
        uint64_t nt = r.get_next_IFrame_time(0);
        MC_CHECK(nt == hns(v.dts(next) + cts, ts), "sync sample after the one for %llu: at %llu, not %d", (unsigned long long)t, (unsigned long long)nt, next);
        // audio: the first sample that does not begin before t
        size_t s = 0; while (s < a.s.size() - 1 && hns(a.dts(s), 48000) < t) s++;
        MC_CHECK(r.get_composition_sample_number(t, 1) == s, "audio sample for %llu: %llu, not %zu", (unsigned long long)t, (unsigned long long)r.get_composition_sample_number(t, 1), s);
        // moving: the video goes on from the sync sample, the audio from the first sample not before it
        r.move(t);
        uint64_t c = hns(v.dts(want) + cts, ts); size_t fa = 0; if (c > off) while (fa < a.s.size() - 1 && hns(a.dts(fa), 48000) < c - off) fa++;
        sample_stream_info ms; size_t iv = want, ia = fa, count = 0;
        while (r.next_file_chunks(ms)) { size_t & i = ms.stream == 0 ? iv : ia; MC_CHECK(ms.sample_number == i, "after moving to %llu: stream %u goes on with sample %llu, not %zu", (unsigned long long)t, ms.stream, (unsigned long long)ms.sample_number, i); i++; count++; mc::step(); }
        MC_CHECK(iv == (size_t)n && ia == a.s.size(), "after moving to %llu the walk ends at %zu of %d and %zu of %zu", (unsigned long long)t, iv, n, ia, a.s.size());
    }
    mc::outcome(mc::H().s(f).h);
}
static void reg()
{
    for (int n = 1; n <= D(5, 7); n++) for (int v = 0; v < 2; v++) for (int p = 0; p < (v ? 3 : 1); p++) mc::unit("C30", strf("tables n=%d %s part=%d", n, v ? "video" : "audio", p), [=] { tables(n, v, p); });
    for (int n = 1; n <= D(6, 8); n++) for (int ts = 0; ts < 4; ts++) for (int c = 0; c < 2; c++) mc::unit("C30", strf("seek n=%d ts=%d cts=%d", n, ts, c), [=] { static const uint32_t sc[] = { 25, 1000, 90000, 30000 }; seeking(n, sc[ts] == 25 ? 50 : sc[ts], c ? sc[ts] / 12 : 0); });
    static const int kinds[] = { 1, 2, 3, 6, 7, 11, 15 };
    for (int i = 0; i < 7; i++) for (int f = 0; f < 2; f++) if (!f || i == 2 || mc::thorough()) mc::unit("C30", strf("layout kind=%d file=%d", kinds[i], f), [=] { layout(kinds[i], f); });
}
int main(int argc, char ** argv) { return mc::run(argc, argv, reg); }

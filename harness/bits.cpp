// C01 bit writer, C02 bit reader, C03 end of data, C04 repositioning: every sequence of stream operations up to a
// depth, over every buffer size / content length / storage of a small grid, against a bit string kept in memory.
#include "mc.h"
#include <mgcore.h>
#include <mg/media/TBitstream.h>
#include <unistd.h>
#include <memory>
using mc::strf;
typedef std::vector<unsigned char> Bytes;

static Bytes content(size_t n) { Bytes b(n); uint32_t x = 0x9e3779b9; for (size_t i = 0; i < n; i++) { x = x * 1664525 + 1013904223; b[i] = (unsigned char)(x >> 24); } return b; }

// storage whose reads complete later: the completion is delivered by a choice or, at the latest, when the stream idles
class LateStorage : public Ibitstream_storage
{
public:
	Bytes data; uint64_t pos; bool pending; uint64_t ppos; uint32_t plen; Ibitstream_cb * pcb; int reads;
	LateStorage(const Bytes & d) : data(d), pos(0), pending(false), ppos(0), plen(0), pcb(NULL), reads(0) {}
	void deliver() { if (!pending) return; pending = false; Bytes tmp(data.begin() + ppos, data.begin() + ppos + plen); tmp.push_back(0); pcb->read_cb(&tmp[0], plen); }
	virtual void read(uint32_t n, Ibitstream_cb * cb)
	{
		MC_CHECK(!pending, "two reads in flight at once");
		uint64_t left = pos < data.size() ? data.size() - pos : 0;
		plen = (uint32_t)std::min<uint64_t>(n, left); ppos = pos; pos += plen; pcb = cb; pending = true;
		if (mc::choose_dev(2) == 0) deliver();
	}
	virtual void write(const unsigned char *, uint32_t, Ibitstream_cb *) { mc::fail("write on a read stream"); }
	virtual bool eof() { return pos >= data.size(); }
	virtual void flush() {}
	virtual uint64_t get_position() const { return pos; }
	virtual void set_position(uint64_t p) { MC_CHECK(!pending, "storage repositioned while a read is in flight"); pos = p; }
	virtual void idle() { deliver(); }
};
class VecStorage : public Ibitstream_storage
{
public:
	Bytes data; uint64_t pos;
	VecStorage() : pos(0) {}
	virtual void read(uint32_t n, Ibitstream_cb * cb) { mc::fail("read on a write stream"); }
	virtual void write(const unsigned char * p, uint32_t n, Ibitstream_cb * cb)
	{ if (data.size() < pos + n) data.resize(pos + n); if (n) memcpy(&data[pos], p, n); pos += n; cb->write_cb(n); }
	virtual bool eof() { return pos >= data.size(); }
	virtual void flush() {}
	virtual uint64_t get_position() const { return pos; }
	virtual void set_position(uint64_t p) { pos = p; }
};

enum { S_FIXED, S_MEM, S_FILE, S_LATE, S_NREAD };
static const char * rname[] = { "fixedmem", "mem", "syncfile", "late" };
static std::string scratch(const char * n) { return strf("bits_%d_%s.tmp", getpid(), n); }
static void put_file(const std::string & p, const Bytes & b) { FILE * f = fopen(p.c_str(), "wb"); if (b.size()) fwrite(&b[0], 1, b.size(), f); fclose(f); }

struct Reader {
	std::shared_ptr<IBitstream> bs; LateStorage * late; std::string tmp;
	CResource<LateStorage> ls; CResource<fixed_memory_read> fm;
	Bytes d;
	Reader(int kind, const Bytes & data, uint32_t B) : late(NULL), d(data)
	{
		unsigned char * p = d.size() ? &d[0] : (unsigned char *)"";
		if (kind == S_FIXED) bs = std::shared_ptr<fixed_memory_bitstream>(new fixed_memory_bitstream(p, d.size()));
		else if (kind == S_MEM) { fm = CResource<fixed_memory_read>(new fixed_memory_read(p, d.size())); bs.reset(new bitstream<fixed_memory_read>(fm, B)); }
		else if (kind == S_FILE) {
			static std::map<std::string, int> done; static int pid = 0; if (pid != getpid()) { done.clear(); pid = getpid(); }
			tmp = scratch(strf("%zu", data.size()).c_str());
			if (!done[tmp]++) put_file(tmp, data);
			_sync_file_bitstream * s = new _sync_file_bitstream(B); bs.reset(s); s->open(tmp.c_str(), true);
		}
		else { late = new LateStorage(d); ls = CResource<LateStorage>(late); bs.reset(new bitstream<LateStorage>(ls, B)); }
	}
	~Reader() { bs.reset(); }
};

struct Ref {
	Bytes d; uint64_t pos, T;
	Ref(const Bytes & b) : d(b), pos(0), T(b.size() * 8) {}
	uint32_t peek(uint64_t p, int n) const { uint32_t v = 0; for (int i = 0; i < n; i++) v = (v << 1) | ((d[(p + i) >> 3] >> (7 - ((p + i) & 7))) & 1); return v; }
};

enum Kind { GET, PEEK, SGET, SKIP, ALIGN, READ, LITTLE, SEEK, SEEKREL, CODE, SPEEK, BAD };
struct Op { Kind k; int a; };

static std::string opname(const Op & o) { static const char * n[] = { "getbits", "nextbits", "sgetbits", "skipbits", "align", "read", "little_getbits", "set_position", "seek_rel", "nextcode", "next_signed", "getbits_bad" }; return strf("%s(%d)", n[o.k], o.a); }
static uint32_t sx(uint32_t v, int n) { if (n > 1 && n < 32 && (v >> (n - 1)) & 1) v |= ~((1u << n) - 1); return v; }

// returns false when the sequence has to stop (a failed multi part operation leaves the position unspecified)
static bool apply(IBitstream & bs, Ref & r, const Op & o, bool allow_skip)
{
	mc::step();
	uint64_t before = r.pos; bool threw = false; uint32_t got = 0; bool fits; uint32_t want = 0;
	try {
		switch (o.k) {
		case GET: case PEEK: case SGET: case SPEEK:
			fits = r.pos + o.a <= r.T;
			if (fits) { want = r.peek(r.pos, o.a); if (o.k == SGET || o.k == SPEEK) want = sx(want, o.a); }
			try { got = o.k == GET ? bs.getbits(o.a) : o.k == PEEK ? bs.nextbits(o.a) : o.k == SGET ? bs.sgetbits(o.a) : bs.next(o.a, 1, 1, 0); } catch (const EndOfData &) { threw = true; }
			if (!fits) { MC_CHECK(threw, "%s at bit %llu of %llu returned 0x%x instead of end of data", opname(o).c_str(), (unsigned long long)before, (unsigned long long)r.T, got); }
			else {
				MC_CHECK(!threw, "%s at bit %llu of %llu reported end of data", opname(o).c_str(), (unsigned long long)before, (unsigned long long)r.T);
				MC_CHECK(got == want, "%s at bit %llu returned 0x%x, content is 0x%x", opname(o).c_str(), (unsigned long long)before, got, want);
				if (o.k == GET || o.k == SGET) r.pos += o.a;
			}
			break;
		case BAD: {
			bool bad = false; try { bs.getbits(o.a); } catch (const InvalidInput &) { bad = true; }
			MC_CHECK(bad, "getbits(%d) was not refused", o.a);
			break; }
		case SKIP: bs.skipbits(o.a); r.pos = std::min(r.T, r.pos + o.a); break;
		case ALIGN: {
			uint64_t np = (r.pos + o.a - 1) / o.a * o.a; uint32_t s = 0;
			try { s = bs.align(o.a); } catch (const EndOfData &) { threw = true; }
			if (np > r.T) { MC_CHECK(threw, "align(%d) past the end of data was accepted", o.a); return false; }
			MC_CHECK(!threw, "align(%d) at bit %llu of %llu reported end of data", o.a, (unsigned long long)before, (unsigned long long)r.T);
			MC_CHECK(s == np - r.pos, "align(%d) at bit %llu skipped %u bits", o.a, (unsigned long long)before, s);
			r.pos = np; break; }
		case READ: {
			if (r.pos & 7) return true;
			Bytes b(o.a + 1, 0xEE); uint32_t n = 0xdead;
			bs.read(&b[0], o.a, &n);
			uint32_t w = (uint32_t)std::min<uint64_t>(o.a, (r.T - r.pos) / 8);
			MC_CHECK(n == w, "read(%d) at byte %llu of %llu delivered %u bytes", o.a, (unsigned long long)(before / 8), (unsigned long long)(r.T / 8), n);
			MC_CHECK(w == 0 || !memcmp(&b[0], &r.d[r.pos / 8], w), "read(%d) at byte %llu delivered %s, content is %s", o.a, (unsigned long long)(before / 8), mc::hex(&b[0], w).c_str(), mc::hex(&r.d[r.pos / 8], w).c_str());
			MC_CHECK(b[o.a] == 0xEE, "read(%d) wrote past the caller's buffer", o.a);
			r.pos += w * 8; break; }
		case LITTLE: {
			fits = r.pos + o.a <= r.T;
			if (fits) for (int i = 0; i * 8 < o.a; i++) { int nb = std::min(8, o.a - i * 8); want |= r.peek(r.pos + i * 8, nb) << (8 * i); }
			try { got = bs.little_getbits(o.a); } catch (const EndOfData &) { threw = true; }
			if (!fits) { MC_CHECK(threw, "little_getbits(%d) past the end returned 0x%x", o.a, got); return false; }
			MC_CHECK(!threw, "little_getbits(%d) at bit %llu reported end of data", o.a, (unsigned long long)before);
			MC_CHECK(got == want, "little_getbits(%d) at bit %llu returned 0x%x, content is 0x%x", o.a, (unsigned long long)before, got, want);
			r.pos += o.a; break; }
		case SEEK: case SEEKREL: {
			int64_t t = o.a; if (o.k == SEEKREL) t = (int64_t)(r.pos / 8) + o.a;
			if (t < 0) t = 0; if ((uint64_t)t > r.T / 8) t = r.T / 8;
			bs.set_position(t); r.pos = t * 8; break; }
		case CODE: {  // the code is one that exists at some byte of the content, or nowhere
			int n = 16; uint32_t code = o.a >= 0 && r.T / 8 > (uint64_t)o.a + 1 ? r.peek(o.a * 8, n) : 0x1FFFF; int alen = o.a >= 0 && (o.a & 1) ? 8 : 0;
			uint64_t p = r.pos; if (alen) p = (p + 7) / 8 * 8; bool found = false;
			for (; p + n <= r.T; p += alen ? 8 : 1) if (r.peek(p, n) == code) { found = true; break; }
			uint32_t s = 0; try { s = bs.nextcode(code, n, alen); } catch (const EndOfData &) { threw = true; }
			if (!found) { MC_CHECK(threw, "nextcode(0x%x) found a code that is not there", code); return false; }
			MC_CHECK(!threw, "nextcode(0x%x) missed the code at bit %llu", code, (unsigned long long)p);
			MC_CHECK(s == p - r.pos, "nextcode(0x%x) at bit %llu skipped %u bits, the code is %llu bits away", code, (unsigned long long)before, s, (unsigned long long)(p - r.pos));
			r.pos = p; break; }
		}
	} catch (const Timeout &) { mc::fail("%s at bit %llu timed out", opname(o).c_str(), (unsigned long long)before); }
	catch (const mgexceptionbase & e) { mc::fail("%s at bit %llu of %llu threw %s", opname(o).c_str(), (unsigned long long)before, (unsigned long long)r.T, e.what()); }
	MC_CHECK(bs.getpos() == r.pos, "after %s at bit %llu the position is %llu, expected %llu", opname(o).c_str(), (unsigned long long)before, (unsigned long long)bs.getpos(), (unsigned long long)r.pos);
	MC_CHECK(bs.get_position() == r.pos / 8, "after %s at bit %llu the byte position is %llu, expected %llu", opname(o).c_str(), (unsigned long long)before, (unsigned long long)bs.get_position(), (unsigned long long)(r.pos / 8));
	return true;
}

static void drain(Reader & R, Ref & r, bool deep)
{
	IBitstream & bs = *R.bs;
	MC_CHECK(bs.eof() == (r.pos >= r.T), "end of stream is %d at bit %llu of %llu", bs.eof(), (unsigned long long)r.pos, (unsigned long long)r.T);
	int guard = 0;
	while (r.pos < r.T && guard++ < 4000) {
		int n = (int)std::min<uint64_t>(r.T - r.pos, 8);
		Op o = { GET, n }; apply(bs, r, o, true);
	}
	MC_CHECK(bs.eof(), "not at the end after everything was read");
	Op o = { GET, 1 }; apply(bs, r, o, true);
	MC_CHECK(bs.eof(), "no longer at the end after a refused read");
}

static void rd_body(int kind, uint32_t L, uint32_t B, const std::vector<Op> & ops, int depth)
{
	Bytes c = content(L); Reader R(kind, c, B); Ref r(c);
	MC_NOTE("storage=%s length=%u buffer=%u", rname[kind], L, B);
	bool go = true;
	for (int i = 0; i < depth && go; i++) {
		if (R.late && R.late->pending && mc::choose(2)) { MC_NOTE("completion delivered"); R.late->deliver(); }
		int k = mc::choose((int)ops.size());
		MC_NOTE("%s at bit %llu", opname(ops[k]).c_str(), (unsigned long long)r.pos);
		go = apply(*R.bs, r, ops[k], true);
		mc::state(mc::H().u(r.pos).u(i).u(R.late ? R.late->pos * 2 + R.late->pending : 0).h);
	}
	mc::outcome(mc::H().u(r.pos).u(go).h);
	if (go) drain(R, r, true);
}

static std::vector<Op> mk(std::initializer_list<std::pair<int, int>> l) { std::vector<Op> v; for (auto & p : l) { Op o = { (Kind)p.first, p.second }; v.push_back(o); } return v; }

// ---------------------------------------------------------------------------------------------------- writer
struct Wref { Bytes d; uint64_t pos; uint64_t hi; // bit position; d holds bytes; hi = highest bit position reached
	Wref() : pos(0), hi(0) {}
	void bit(int b) { size_t i = pos >> 3; if (d.size() <= i) d.resize(i + 1, 0); unsigned char m = 0x80 >> (pos & 7); if (b) d[i] |= m; else d[i] &= ~m; pos++; if (pos > hi) hi = pos; }
	void put(uint32_t v, int n) { for (int i = n - 1; i >= 0; i--) bit((v >> i) & 1); } };
enum { W_VEC, W_MEM, W_FILE, W_N };
static const char * wname[] = { "vec", "memory", "syncfile" };
enum WK { PUT, LPUT, WRITE, FLUSH, WALIGN, WSEEK, WSEEKEND };
struct Wop { WK k; uint32_t v; int n; };
static std::string wopname(const Wop & o) { static const char * n[] = { "putbits", "little_putbits", "write", "flush", "align", "set_position", "seek_end" }; return strf("%s(0x%x,%d)", n[o.k], o.v, o.n); }

static void wr_body(int kind, uint32_t B, uint32_t init, const std::vector<Wop> & ops, int depth, bool seeks)
{
	Wref r; std::shared_ptr<IBitstream> bs; CResource<VecStorage> vs; write_memory_bitstream * wm = NULL; _sync_file_bitstream * sf = NULL;
	std::string tmp = scratch("w");
	MC_NOTE("storage=%s buffer=%u initial=%u", wname[kind], B, init);
	if (kind == W_VEC) { vs = CResource<VecStorage>(new VecStorage); bs.reset(new bitstream<VecStorage>(vs, false, B)); }
	else if (kind == W_MEM) { wm = new write_memory_bitstream(init, B); bs.reset(wm); }
	else { sf = new _sync_file_bitstream(B); bs.reset(sf); sf->open(tmp.c_str(), false); }
	try {
		for (int i = 0; i < depth; i++) {
			const Wop & o = ops[mc::choose((int)ops.size())]; mc::step();
			MC_NOTE("%s at bit %llu", wopname(o).c_str(), (unsigned long long)r.pos);
			switch (o.k) {
			case PUT: bs->putbits(o.v, o.n); r.put(o.v, o.n); break;
			case LPUT: bs->little_putbits(o.v, o.n); for (int j = 0; j * 8 < o.n; j++) r.put(o.v >> (8 * j), std::min(8, o.n - 8 * j)); break;
			case WRITE: { if (r.pos & 7) continue; Bytes c = content(o.n); bs->write(&c[0], o.n); for (int j = 0; j < o.n; j++) r.put(c[j], 8); break; }
			case FLUSH: bs->flush(); break;
			case WALIGN: { uint64_t np = (r.pos + o.n - 1) / o.n * o.n; uint32_t s = bs->align(o.n); MC_CHECK(s == np - r.pos, "align(%d) at bit %llu reported %u bits", o.n, (unsigned long long)r.pos, s); while (r.pos < np) r.bit(0); break; }
			case WSEEK: case WSEEKEND: {
				if (r.pos & 7) continue;
				uint64_t t = o.k == WSEEKEND ? r.hi / 8 : std::min<uint64_t>(o.n, r.hi / 8);
				bs->set_position(t); r.pos = t * 8; break; }
			}
			MC_CHECK(bs->getpos() == r.pos, "after %s the position is %llu bits, expected %llu", wopname(o).c_str(), (unsigned long long)bs->getpos(), (unsigned long long)r.pos);
			MC_CHECK(bs->get_position() == r.pos / 8, "after %s the byte position is %llu, expected %llu", wopname(o).c_str(), (unsigned long long)bs->get_position(), (unsigned long long)(r.pos / 8));
			mc::state(mc::H().u(r.pos).u(r.hi).u(i).h);
		}
		while (r.pos & 7) { bs->putbits(1, 1); r.bit(1); }
		bs->flush();
	} catch (const mgexceptionbase & e) { mc::fail("writer threw %s", e.what()); }
	Bytes got; size_t n = r.hi / 8; r.d.resize(n);
	if (vs) got = vs->data;
	else if (wm) { MC_CHECK(wm->get_size() == n, "memory stream holds %llu bytes, %zu were written", (unsigned long long)wm->get_size(), n); got.assign(wm->get_buffer(), wm->get_buffer() + wm->get_size()); }
	else { sf->close(); FILE * f = fopen(tmp.c_str(), "rb"); unsigned char b[4096]; size_t k; while ((k = fread(b, 1, sizeof(b), f)) > 0) got.insert(got.end(), b, b + k); fclose(f); }
	bs.reset();
	if (sf) unlink(tmp.c_str());
	MC_CHECK(got.size() == n, "%zu bytes were stored, %zu were written", got.size(), n);
	MC_CHECK(got == r.d, "stored %s, written %s", mc::hex(got.data(), n).c_str(), mc::hex(r.d.data(), n).c_str());
	mc::outcome(mc::H().add(got.data(), got.size()).h);
}

static void reg()
{
	bool th = mc::thorough();
	// ---- C01 writer
	{
		std::vector<Wop> a;
		Wop t[] = { { PUT, 0x1, 1 }, { PUT, 0xffffffffu, 7 }, { PUT, 0xA5, 8 }, { PUT, 0xfffff2f3u, 13 }, { PUT, 0xC3A5F197u, 32 }, { PUT, 0x6C3A5F1, 27 }, { PUT, 0x5, 0 },
			{ LPUT, 0x11223344, 32 }, { LPUT, 0xffA1B2, 16 }, { LPUT, 0x1f5, 9 }, { WRITE, 0, 3 }, { WRITE, 0, 70 }, { FLUSH, 0, 0 }, { WALIGN, 0, 8 }, { WALIGN, 0, 32 } };
		a.assign(t, t + sizeof(t) / sizeof(t[0]));
		uint32_t Bs[] = { 5, 6, 8, 13, 64 };
		for (int k = 0; k < W_N; k++) for (uint32_t B : Bs) {
			int d = k == W_FILE ? 3 : th ? 5 : 4;
			std::vector<uint32_t> inits; inits.push_back(1); if (k == W_MEM) { inits.push_back(6); inits.push_back(100); }
			for (uint32_t in : inits) {
				mc::unit("C01", strf("write/%s/B%u/init%u/d%d", wname[k], B, in, d), [=] { wr_body(k, B, in, a, d, false); });
			}
		}
		// long runs: every pair of widths repeated until the buffer has turned over several times
		for (int k = 0; k < W_N; k++) mc::unit("C01", strf("write/%s/pairs", wname[k]), [=] {
			static const uint32_t BB[] = { 5, 7, 8, 16 };
			uint32_t B = BB[mc::choose(4)]; int w1 = mc::choose(k == W_FILE ? 8 : 32) + 1, w2 = mc::choose(k == W_FILE ? 8 : 32) + 1;
			if (k == W_FILE) { w1 *= 4; w2 = w2 * 4 - 3; }
			std::vector<Wop> one; std::shared_ptr<IBitstream> bs; Wref r; CResource<VecStorage> vs; write_memory_bitstream * wm = NULL; _sync_file_bitstream * sf = NULL; std::string tmp = scratch("p");
			if (k == W_VEC) { vs = CResource<VecStorage>(new VecStorage); bs.reset(new bitstream<VecStorage>(vs, false, B)); }
			else if (k == W_MEM) { wm = new write_memory_bitstream(1, B); bs.reset(wm); } else { sf = new _sync_file_bitstream(B); bs.reset(sf); sf->open(tmp.c_str(), false); }
			uint32_t x = 0x12345;
			for (int i = 0; i < 24; i++) { x = x * 1664525 + 1013904223; int n = i & 1 ? w2 : w1; bs->putbits(x, n); r.put(x, n); mc::step(); }
			MC_CHECK(bs->getpos() == r.pos, "position");
			while (r.pos & 7) { bs->putbits(0, 1); r.bit(0); }
			bs->flush(); Bytes got;
			if (vs) got = vs->data; else if (wm) got.assign(wm->get_buffer(), wm->get_buffer() + wm->get_size());
			else { sf->close(); FILE * f = fopen(tmp.c_str(), "rb"); unsigned char b[4096]; size_t q = fread(b, 1, sizeof(b), f); got.assign(b, b + q); fclose(f); unlink(tmp.c_str()); }
			bs.reset();
			MC_NOTE("B=%u widths %d,%d -> %zu bytes", B, w1, w2, got.size());
			MC_CHECK(got == r.d, "widths %d,%d buffer %u: stored %s, written %s", w1, w2, B, mc::hex(got.data(), got.size()).c_str(), mc::hex(r.d.data(), r.d.size()).c_str());
			mc::outcome(mc::H().add(got.data(), got.size()).h); mc::state(mc::H().u(w1).u(w2).u(B).h);
		});
		// round trip: what the writer stored is what the reader returns, value by value
		mc::unit("C01", "roundtrip", [=] {
			static const int W[] = { 1, 3, 8, 12, 17, 31, 32 }; static const uint32_t V[] = { 0, 0xffffffffu, 0x80000001u, 0x5A3C96F1u };
			uint32_t B = mc::choose(2) ? 9 : 5; int n = th ? 5 : 4; std::vector<std::pair<int, uint32_t>> seq; write_memory_bitstream wm(4, B); uint64_t tot = 0; bool little = mc::choose(2);
			for (int i = 0; i < n; i++) { int w = W[mc::choose(7)]; uint32_t v = V[(i + mc::choose(2) * 2) & 3] & tmask[w]; seq.push_back(std::make_pair(w, v)); if (little) wm.little_putbits(v, w); else wm.putbits(v, w); tot += w; mc::step(); }
			while (tot & 7) { wm.putbits(0, 1); tot++; }
			wm.flush(); MC_CHECK(wm.get_size() * 8 == tot, "size %llu", (unsigned long long)wm.get_size());
			fixed_memory_bitstream rd(wm.get_buffer(), wm.get_size());
			for (size_t i = 0; i < seq.size(); i++) { uint32_t g = little ? rd.little_getbits(seq[i].first) : rd.getbits(seq[i].first); mc::step(); MC_CHECK(g == seq[i].second, "value %zu: wrote 0x%x (%d bits), read 0x%x", i, seq[i].second, seq[i].first, g); }
			mc::outcome(mc::H().add(wm.get_buffer(), wm.get_size()).h); mc::state(tot);
		});
	}
	// ---- C04 (writer part): patching
	{
		std::vector<Wop> a;
		Wop t[] = { { PUT, 0xA5, 8 }, { PUT, 0xC3A5F197u, 32 }, { WRITE, 0, 3 }, { WRITE, 0, 11 }, { FLUSH, 0, 0 }, { WSEEK, 0, 0 }, { WSEEK, 0, 1 }, { WSEEK, 0, 5 }, { WSEEKEND, 0, 0 }, { PUT, 0x3, 4 } };
		a.assign(t, t + sizeof(t) / sizeof(t[0]));
		uint32_t Bs[] = { 5, 8, 16 };
		for (int k = 0; k < W_N; k++) for (uint32_t B : Bs) {
			int d = k == W_FILE ? 4 : th ? 6 : 5;
			uint32_t in[] = { 1, 8, 40 };
			for (int q = 0; q < (k == W_MEM ? 3 : 1); q++) mc::unit("C04", strf("patch/%s/B%u/init%u/d%d", wname[k], B, in[q], d), [=] { wr_body(k, B, in[q], a, d, true); });
		}
	}
	// ---- C02 reader, C03 end of data, C04 reader part
	std::vector<Op> rd = mk({ { GET, 1 }, { GET, 8 }, { GET, 13 }, { GET, 32 }, { GET, 0 }, { PEEK, 7 }, { PEEK, 32 }, { SGET, 5 }, { SGET, 32 }, { SPEEK, 9 }, { SKIP, 3 }, { SKIP, 8 }, { SKIP, 41 }, { ALIGN, 8 }, { ALIGN, 16 }, { READ, 1 }, { READ, 4 }, { READ, 9 }, { READ, 23 }, { LITTLE, 16 }, { LITTLE, 27 }, { BAD, 33 }, { CODE, 6 }, { CODE, 9 } });
	std::vector<Op> eod = mk({ { GET, 1 }, { GET, 8 }, { GET, 24 }, { GET, 32 }, { PEEK, 1 }, { PEEK, 16 }, { PEEK, 32 }, { SGET, 31 }, { SKIP, 7 }, { SKIP, 80 }, { ALIGN, 8 }, { ALIGN, 32 }, { READ, 2 }, { READ, 100 }, { LITTLE, 32 }, { CODE, -1 } });
	std::vector<Op> sk = mk({ { GET, 8 }, { GET, 32 }, { GET, 3 }, { READ, 5 }, { SKIP, 24 }, { SEEK, 0 }, { SEEK, 1 }, { SEEK, 7 }, { SEEK, 13 }, { SEEK, 21 }, { SEEK, 1000 }, { SEEKREL, 1 }, { SEEKREL, -1 }, { SEEKREL, -6 }, { SEEKREL, 9 }, { PEEK, 32 } });
	uint32_t Bs[] = { 5, 6, 8, 16 };
	for (int k = 0; k < S_NREAD; k++) {
		std::vector<uint32_t> bs(Bs, Bs + 4); if (k == S_FIXED) bs.resize(1);
		if (k == S_FILE && !th) { bs.clear(); bs.push_back(5); bs.push_back(16); }
		for (uint32_t B : bs) {
			std::vector<uint32_t> L2 = { 12, 23, 31, 40 }; if (th) { L2 = { 7, 10, 12, 16, 17, 23, 25, 31, 40 }; }
			int dv = k == S_LATE ? 2 : 0;
			int d = k == S_FILE ? 2 : k == S_LATE ? 3 : 3; if (th) d = k == S_FILE ? 3 : 4; if (th && k == S_LATE) d = 3;
			for (uint32_t L : L2) mc::unit("C02", strf("read/%s/B%u/L%u/d%d", rname[k], B, L, d), [=] { rd_body(k, L, B, rd, d); }, mc::Opt(dv));
			std::vector<uint32_t> L3; for (uint32_t L = 0; L <= (th ? 24u : 18u); L++) L3.push_back(L);
			for (uint32_t L : L3) { if (k == S_FILE && L % 3 && !th) continue; int d3 = k == S_FILE ? 2 : th ? 4 : 3; if (k == S_LATE) d3 = 3; mc::unit("C03", strf("end/%s/B%u/L%u/d%d", rname[k], B, L, d3), [=] { rd_body(k, L, B, eod, d3); }, mc::Opt(dv)); }
			std::vector<uint32_t> L4 = { 9, 16, 22, 35 }; if (th) L4 = { 5, 9, 10, 15, 16, 22, 27, 35, 48 };
			for (uint32_t L : L4) { int d4 = k == S_FILE ? 3 : th ? 4 : 4; if (k == S_LATE) d4 = 3; mc::unit("C04", strf("seek/%s/B%u/L%u/d%d", rname[k], B, L, d4), [=] { rd_body(k, L, B, sk, d4); }, mc::Opt(dv)); }
		}
	}
	// every single width at every bit offset, across buffer switches
	for (int k = 0; k < S_NREAD; k++) mc::unit("C02", strf("widths/%s", rname[k]), [=] {
		static const uint32_t BB[] = { 5, 6, 7, 8, 9, 16 }; uint32_t B = BB[mc::choose(k == S_FIXED ? 1 : 6)]; int first = mc::choose(9), w = 1 + mc::choose(32);
		Bytes c = content(26); Reader R(k, c, B); Ref r(c); MC_NOTE("buffer %u first %d width %d", B, first, w);
		Op f = { GET, first }; apply(*R.bs, r, f, true); Op o = { GET, w }, p = { PEEK, w };
		while (r.pos + w <= r.T) { if (R.late && R.late->pending && mc::choose_dev(2)) R.late->deliver(); apply(*R.bs, r, p, true); apply(*R.bs, r, o, true); }
		mc::outcome(r.pos); mc::state(mc::H().u(B).u(first).u(w).h); drain(R, r, true);
	}, mc::Opt(1));
	mc::unit("C02", "bytes/roundsizes", [=] { // read(n) repeated for every n, any buffer, any content length
		static const uint32_t BB[] = { 5, 8, 11, 32 }; int kind = mc::choose(2) ? S_MEM : S_LATE; uint32_t B = BB[mc::choose(4)]; uint32_t L = mc::choose(42); int n = 1 + mc::choose(24);
		Bytes c = content(L); Reader R(kind, c, B); Ref r(c); Op o = { READ, n }; MC_NOTE("%s buffer %u length %u chunk %d", rname[kind], B, L, n);
		for (int i = 0; i < 60 && r.pos < r.T; i++) apply(*R.bs, r, o, true);
		apply(*R.bs, r, o, true); drain(R, r, true); mc::outcome(mc::H().u(L).u(n).h); mc::state(mc::H().u(B).u(L).u(n).h);
	}, mc::Opt(1));
}
int main(int argc, char ** argv) { return mc::run(argc, argv, reg); }

// C05 stream copy, C06 asynchronous reads, C07 asynchronous writes, C08 file errors and close
#include "vs.h"
#include <mgcore.h>
#include <mg/media/TBitstream.h>
#include <memory>
using namespace mg::core;
using namespace mg::uv;
using mc::strf;
typedef vs::Bytes Bytes;
static int D(int quick, int deep) { return mc::thorough() ? deep : quick; }
static Bytes content(size_t n, int salt = 0) { Bytes b(n); for (size_t i = 0; i < n; i++) b[i] = (unsigned char)(1 + salt + i * 7); return b; }
static loopthread mkloop(bool start = true) { loopthread l; l.Create(); l->set_wait_time(10); if (start) l->start(); return l; }
static std::string hx(const Bytes & b) { return b.size() ? mc::hex(&b[0], b.size() < 40 ? b.size() : 40) : std::string("-"); }
static void same(const char * what, const Bytes & got, const Bytes & want) { MC_CHECK(got == want, "%s: %zu bytes %s, expected %zu bytes %s", what, got.size(), hx(got).c_str(), want.size(), hx(want).c_str()); }
static Bytes file(const char * n) { Bytes b; MC_CHECK(vs::file_get(n, b), "file %s missing", n); return b; }
static int eno(std::exception_ptr e) { try { std::rethrow_exception(e); } catch (mgexceptionbase & x) { return x.get_error_number(); } catch (int x) { return x; } catch (...) { return 1; } return 0; }

// what every handler saw
struct Seen { vs::Log order; vs::Log bad; vs::Int done[16]; vs::Int err[16]; };

static void reads()
{
	// N reads asked back to back, handlers attached right away or after everything was asked
	for (int n = 2; n <= 4; n++) for (int late = 0; late < 2; late++) for (int pre = 0; pre < 2; pre++) {
		if (n == 4 && pre) continue;
		mc::unit("C06", strf("%d reads, handlers %s, loop %s", n, late ? "late" : "at once", pre ? "started later" : "running"), [n, late, pre]() {
			Bytes d = content(10); vs::file_put("f", d); Seen s;
			{
				loopthread l = mkloop(!pre);
				cfile f(l); f.open_sync("f");
				MC_CHECK(f.size() == 10 && f.get_position() == 0 && !f.eof(), "fresh file");
				std::vector<CResource<CPromise<CBuffer<unsigned char> > > > p;
				std::function<void(int)> attach = [&](int i) {
					p[i]->set_er().set_cb([&s, d, i](CResource<CBuffer<unsigned char> > & b) {
						s.order.put(i); s.done[i].add();
						size_t off = i * 3, want = off < 10 ? std::min<size_t>(3, 10 - off) : 0;
						MC_CHECK(b->size() == want, "read %d delivered %zu bytes, expected %zu", i, b->size(), want);
						MC_CHECK(want == 0 || memcmp(b->get(), &d[off], want) == 0, "read %d delivered the wrong bytes", i);
					});
				};
				for (int i = 0; i < n; i++) {
					p.push_back(f.read(3)); if (!late) attach(i);
					MC_CHECK(f.get_position() == (uint64_t)std::min(10, 3 * (i + 1)), "position %d after read %d", (int)f.get_position(), i);
				}
				MC_CHECK(f.eof() == (n >= 4), "eof");
				if (pre) l->start();
				if (late) for (int i = 0; i < n; i++) attach(i);
				l->loop_now();
				f.close(false);
				l->end();
				MC_CHECK(f.outstanding() == 0, "operations outstanding after close");
			}
			std::string want; for (int i = 0; i < n; i++) { want += strf("%s%d", i ? " " : "", i); MC_CHECK(s.done[i].get() == 1, "handler %d called %d times", i, s.done[i].get()); }
			if (!late) MC_CHECK(s.order.str() == want, "delivered in order %s", s.order.str().c_str());
			vs::assert_done(); mc::outcome(s.order.hash());
			MC_CHECK(vs::open_fds() == 0, "file left open");
		}, mc::Opt(n == 2 ? D(3, 4) : D(2, 3)));
	}
	mc::unit("C06", "five reads completing in any order", []() {
		vs::free_order();
		Bytes d = content(10); vs::file_put("f", d); Seen s;
		{
			loopthread l = mkloop(false); cfile f(l); f.open_sync("f");
			for (int i = 0; i < 5; i++) f.read(2)->set_er().set_cb([&s, d, i](CResource<CBuffer<unsigned char> > & b) { s.order.put(i); MC_CHECK(b->size() == 2 && memcmp(b->get(), &d[i * 2], 2) == 0, "read %d delivered the wrong bytes", i); });
			l->start(); l->loop_now(); f.close(false); l->end();
		}
		MC_CHECK(s.order.str() == "0 1 2 3 4", "delivered in order %s", s.order.str().c_str());
		mc::outcome(1);
	}, mc::Opt(D(1, 3)));
	mc::unit("C06", "reads and writes on one file completing in any order", []() {
		vs::free_order();
		Bytes d = content(10); vs::file_put("f", d); Seen s; std::string ops;
		{
			loopthread l = mkloop(false); cfile f(l); f.open_sync("f", O_RDWR); int nr = 0; std::vector<int> rd;
			for (int i = 0; i < 4; i++) {
				bool w = mc::choose(2) == 1;
				if (w) { unsigned char x[2] = { 0xF0, (unsigned char)i }; f.set_position(20 + 2 * i); f.write(x, 2)->set_er().set_cb([&s, i](CResource<uv_fs_t> & r) { MC_CHECK(r->result == 2, "write result"); s.done[i].add(); }); }
				else { f.set_position(2 * i); rd.push_back(i); f.read(2)->set_er().set_cb([&s, d, i](CResource<CBuffer<unsigned char> > & b) { s.order.put(i); s.done[i].add(); MC_CHECK(b->size() == 2 && memcmp(b->get(), &d[i * 2], 2) == 0, "read %d delivered the wrong bytes", i); }); }
			}
			l->start(); l->loop_now(); f.close(false); l->end();
			std::string want; for (size_t i = 0; i < rd.size(); i++) want += strf("%s%d", i ? " " : "", rd[i]);
			MC_CHECK(s.order.str() == want, "reads delivered in order %s, asked in order %s", s.order.str().c_str(), want.c_str());
			for (int i = 0; i < 4; i++) MC_CHECK(s.done[i].get() == 1, "handler %d called %d times", i, s.done[i].get());
		}
		mc::outcome(s.order.hash());
	}, mc::Opt(D(1, 2)));
	// one file object used for everything, one operation after the other: position, size, end and data against a plain model
	for (int ex = 0; ex < 3; ex++)
	mc::unit("C06", strf("reads, writes and moves one after the other, %s", ex == 0 ? "new file" : ex == 1 ? "existing file" : "existing file truncated"), [ex]() {
		Bytes m; if (ex) { vs::file_put("f", content(7)); if (ex == 1) m = content(7); } Bytes other = content(4, 60); vs::file_put("g", other); uint64_t pos = 0, h = 0; const char * name = "f";
		{
			loopthread l = mkloop(); cfile f(l); f.open_sync(name, O_RDWR | O_CREAT | (ex == 2 ? O_TRUNC : 0));
			for (int i = 0; i <= D(4, 5); i++) {
				MC_CHECK(f.get_position() == pos, "position %llu, not %llu, after %d steps", (unsigned long long)f.get_position(), (unsigned long long)pos, i);
				MC_CHECK(f.size() == m.size(), "size %llu, not %zu, after %d steps", (unsigned long long)f.size(), m.size(), i);
				MC_CHECK(f.eof() == (pos >= m.size()), "eof %d at %llu of %zu after %d steps", f.eof(), (unsigned long long)pos, m.size(), i);
				if (i == D(4, 5)) break;
				int k = mc::choose(8); h = h * 8 + k; signal_event ev;
				if (k < 2) { Bytes b = content(k ? 5 : 1, 17 * i + 3); f.write(&b[0], (uint32_t)b.size())->set_er().set_cb([&](CResource<uv_fs_t> & r) { MC_CHECK(r->result == (ssize_t)b.size(), "write reported %d", (int)r->result); ev.signal(); }); if (m.size() < pos + b.size()) m.resize(pos + b.size()); std::copy(b.begin(), b.end(), m.begin() + pos); pos += b.size(); l->loop_now(); ev.wait(); }
				else if (k < 4) { size_t n = k == 2 ? 2 : 20, w = pos < m.size() ? std::min(n, (size_t)(m.size() - pos)) : 0; Bytes got; f.read((uint32_t)n)->set_er().set_cb([&](CResource<CBuffer<unsigned char> > & b) { if (b->size()) got.assign(b->get(), b->get() + b->size()); ev.signal(); }); l->loop_now(); ev.wait(); Bytes want; if (w) want.assign(m.begin() + pos, m.begin() + pos + w); same("read", got, want); pos += w; }
				else if (k < 7) { pos = k == 4 ? 0 : k == 5 ? 3 : m.size(); f.set_position(pos); }
				else { f.close(false); MC_CHECK(vs::open_fds() == 0, "file left open"); same("file after close", file(name), m); if (name[0] == 'f') { name = "g"; m = other; } else { name = "h"; m.clear(); Bytes x; if (vs::file_get("h", x)) m = x; } f.open_sync(name, O_RDWR | O_CREAT); pos = 0; }
			}
			f.close(false); same("file after close", file(name), m); l->end();
		}
		mc::outcome(h);
	}, mc::Opt(0));
	mc::unit("C06", "reads asked from read handlers", []() {
		Bytes d = content(10); vs::file_put("f", d); Seen s; signal_event end;
		{
			loopthread l = mkloop(); cfile f(l); f.open_sync("f");
			std::function<void()> next = [&]() {
				uint64_t off = f.get_position();
				f.read(4)->set_er().set_cb([&, off](CResource<CBuffer<unsigned char> > & b) {
					s.order.put((int)off); MC_CHECK(b->size() == std::min<size_t>(4, 10 - off) && memcmp(b->get(), &d[off], b->size()) == 0, "read at %d delivered the wrong bytes", (int)off);
					if (!f.eof()) next(); else end.signal();
				});
			};
			next(); l->loop_now();
			end.wait(); f.close(false); l->end();
		}
		MC_CHECK(s.order.str() == "0 4 8", "delivered %s", s.order.str().c_str());
		mc::outcome(1);
	}, mc::Opt(D(3, 4)));
	mc::unit("C06", "repositioned reads", []() {
		Bytes d = content(10); vs::file_put("f", d); Seen s; int off[3];
		{
			loopthread l = mkloop(false); cfile f(l); f.open_sync("f");
			for (int i = 0; i < 3; i++) {
				off[i] = mc::choose(3) * 4; f.set_position(off[i]); MC_CHECK(f.get_position() == (uint64_t)off[i], "position");
				int o = off[i]; f.read(4)->set_er().set_cb([&s, d, o, i](CResource<CBuffer<unsigned char> > & b) { s.order.put(i); MC_CHECK(b->size() == std::min<size_t>(4, 10 - o) && memcmp(b->get(), &d[o], b->size()) == 0, "read at %d delivered the wrong bytes", o); });
				MC_CHECK(f.get_position() == (uint64_t)std::min(10, o + 4), "position after read");
			}
			l->start(); l->loop_now(); f.close(false); l->end();
		}
		MC_CHECK(s.order.str() == "0 1 2", "delivered %s", s.order.str().c_str());
	}, mc::Opt(D(2, 4)));
	for (int mode = 0; mode < 2; mode++)
	mc::unit("C06", strf("asynchronous open then read %d", mode), [mode]() {
		Bytes d = content(10); vs::file_put("f", d); Seen s; signal_event end;
		{
			loopthread l = mkloop(mode == 0); cfile f(l);
			CResource<CPromise<uv_fs_t> > p = f.open("f");
			if (mode) l->start();
			p->set_er().set_cb([&](CResource<uv_fs_t> & r) {
				s.order.put(1); MC_CHECK(f.size() == 10, "size after open");
				f.read(6)->set_er().set_cb([&](CResource<CBuffer<unsigned char> > & b) { s.order.put(2); MC_CHECK(b->size() == 6 && memcmp(b->get(), &d[0], 6) == 0, "wrong bytes"); end.signal(); });
			});
			l->loop_now();
			end.wait(); CResource<CPromise<uv_fs_t> > c = f.close(true); signal_event closed;
			c->set_er().set_cb([&](CResource<uv_fs_t> & r) { s.order.put(3); closed.signal(); });
			l->loop_now(); closed.wait(); l->end();
		}
		MC_CHECK(s.order.str() == "1 2 3", "delivered %s", s.order.str().c_str()); MC_CHECK(vs::open_fds() == 0, "file left open");
		vs::assert_done();
	}, mc::Opt(D(2, 3)));
}

static void writes()
{
	for (int n = 1; n <= 4; n++) for (int h = 0; h < 2; h++)
	mc::unit("C07", strf("%d writes %s", n, h ? "with handlers" : "fire and forget"), [n, h]() {
		Seen s; Bytes want; vs::file_put("f", content(50, 9));
		{
			bool pre = mc::choose(2) == 1; loopthread l = mkloop(pre); cfile f(l);
			if (mc::choose(2)) f.open_write_sync("f"); else f.open_sync("f", O_CREAT | O_WRONLY | O_TRUNC);
			MC_CHECK(f.size() == 0 && f.get_position() == 0, "truncated file not empty");
			for (int i = 0; i < n; i++) {
				Bytes * b = new Bytes(content(1 + i * 2, 30 * i));
				CResource<CPromise<uv_fs_t> > p = f.write(&(*b)[0], (uint32_t)b->size());
				want.insert(want.end(), b->begin(), b->end()); size_t sz = b->size();
				for (size_t k = 0; k < b->size(); k++) (*b)[k] = 0xEE;   // the caller's memory is his again
				delete b;
				if (h) p->set_er().set_cb([&s, i, sz](CResource<uv_fs_t> & r) { MC_CHECK(r->result == (ssize_t)sz, "write %d reported %d bytes of %zu", i, (int)r->result, sz); s.done[i].add(); });
				MC_CHECK(f.get_position() == want.size() && f.size() == want.size(), "position after write");
			}
			if (!pre) l->start();
			l->loop_now();
			f.close(false);
			same("file after close", file("f"), want);
			if (h) for (int i = 0; i < n; i++) MC_CHECK(s.done[i].get() == 1, "handler %d called %d times", i, s.done[i].get());
			l->end();
		}
		mc::outcome(want.size());
	}, mc::Opt(n <= 2 ? D(2, 3) : D(2, 2)));
	mc::unit("C07", "positioned writes and gaps", []() {
		Bytes want; std::string h;
		{
			loopthread l = mkloop(); cfile f(l); f.open_write_sync("f");
			int used = 0;
			for (int i = 0; i < 3; i++) {
				int slot; do { slot = mc::choose(4); } while (0); if (used & (1 << slot)) continue; used |= 1 << slot;
				f.set_position(slot * 3); Bytes b = content(3, 40 * i + 3); f.write(&b[0], 3);
				MC_CHECK(f.get_position() == (uint64_t)slot * 3 + 3, "position");
				if (want.size() < (size_t)slot * 3 + 3) want.resize(slot * 3 + 3); std::copy(b.begin(), b.end(), want.begin() + slot * 3);
			}
			l->loop_now(); f.close(false); same("file after close", file("f"), want); l->end();
		}
		mc::outcome(want.size());
	}, mc::Opt(D(1, 2)));
	mc::unit("C07", "write, close, read back", []() {
		Bytes d = content(7);
		{
			loopthread l = mkloop(); 
			{ cfile f(l); f.open_write_sync("f"); f.write(&d[0], 4); f.write(&d[4], 3); l->loop_now(); }   // destructor closes
			same("file after destruction", file("f"), d);
			signal_event ev; cfile g(l); g.open_sync("f"); MC_CHECK(g.size() == 7, "size %d", (int)g.size());
			g.read(20)->set_er().set_cb([&](CResource<CBuffer<unsigned char> > & b) { MC_CHECK(b->size() == 7 && memcmp(b->get(), &d[0], 7) == 0, "read back differs"); ev.signal(); });
			l->loop_now(); ev.wait(); g.close(false); l->end();
		}
		MC_CHECK(vs::open_fds() == 0, "file left open");
	}, mc::Opt(D(2, 3)));
	mc::unit("C07", "two files on one loop", []() {
		Bytes a = content(5), b = content(6, 100);
		{
			loopthread l = mkloop(false); cfile f(l), g(l); f.open_write_sync("f"); g.open_write_sync("g");
			f.write(&a[0], 2); g.write(&b[0], 3); f.write(&a[2], 3); g.write(&b[3], 3);
			l->start(); l->loop_now(); f.close(false); g.close(false); l->end();
		}
		same("first file", file("f"), a); same("second file", file("g"), b);
	}, mc::Opt(D(3, 5)));
	// bit stream over an asynchronous file
	for (int chunk = 2; chunk <= 8; chunk += 3)
	mc::unit("C07", strf("bit stream written and read through the loop, buffer %d", chunk), [chunk]() {
		int n = 11;
		{
			loopthread l = mkloop();
			{
				CResource<file_bitstream> fs(new file_bitstream(l)); fs->open_write_sync("f");
				bitstream<file_bitstream> w(fs, false, (uint32_t)chunk);
				for (int i = 0; i < n; i++) w.putbits(i * 11 + 1, 8);
				w.flush();
				fs->close(false);
			}
			Bytes want; for (int i = 0; i < n; i++) want.push_back(i * 11 + 1);
			same("file", file("f"), want);
			{
				CResource<file_bitstream> fs(new file_bitstream(l)); fs->open_sync("f");
				bitstream<file_bitstream> r(fs, (uint32_t)chunk);
				for (int i = 0; i < n; i++) { uint32_t v = r.getbits(8); MC_CHECK(v == (uint32_t)i * 11 + 1, "byte %d reads %u", i, v); }
				MC_CHECK(r.eof(), "not at the end");
				fs->close(false);
			}
			l->end();
		}
		mc::outcome(1);
	}, mc::Opt(D(1, 2)));
}

// destination that completes its writes whenever it likes
static void copies()
{
	struct Cfg { int n, chunk; uint64_t a, b; };
	std::vector<Cfg> cf;
	int ns[] = { 0, 1, 5, 6 }; for (int n : ns) for (int c = 1; c <= 7; c += (n > 1 ? 2 : 6)) { Cfg k = { n, c, 0, 0 }; cf.push_back(k); }
	for (int a = 0; a <= 5; a += 2) for (int b = a + 1; b <= 6; b += 2) for (int c = 2; c <= 4; c += 2) { Cfg k = { 6, c, (uint64_t)a, (uint64_t)b }; cf.push_back(k); }
	{ Cfg k = { 13, 1, 0, 0 }; cf.push_back(k); Cfg k2 = { 14, 1, 1, 0 }; cf.push_back(k2); Cfg k3 = { 6, 4, 2, 9 }; cf.push_back(k3); Cfg k4 = { 9, 3, 3, 9 }; cf.push_back(k4); }
	for (const Cfg & k : cf) for (int one = 0; one < 2; one++)
	mc::unit("C05", strf("file to file, %d bytes, chunk %d, range %d..%d, %s", k.n, k.chunk, (int)k.a, (int)k.b, one ? "one loop" : "two loops"), [k, one]() {
		Bytes d = content(k.n); vs::file_put("src", d); Bytes want;
		uint64_t e = k.b ? std::min<uint64_t>(k.b, k.n) : k.n; if (k.a < e) want.assign(d.begin() + k.a, d.begin() + e);
		{
			loopthread l = mkloop(), m = one ? l : mkloop();
			{
				file_bitstream src(l), dst(m); src.open_sync("src"); dst.open_write_sync("dst");
				copy_stream(src, dst, k.chunk, k.a, k.b);
				MC_CHECK(dst.get_position() == want.size(), "destination at %d after copying %zu bytes", (int)dst.get_position(), want.size());
				same("destination when the copy returned", file("dst"), want);
				dst.close(false); src.close(false);
			}
			if (!one) m->end();
			l->end();
		}
		same("destination", file("dst"), want);
		vs::assert_done(); mc::outcome(want.size());
	}, mc::Opt(k.n > 7 ? D(one, 1) : D(k.n == 1 && k.chunk == 1 && one ? 2 : 1, 2)));
	for (const Cfg & k : cf) if (k.n <= 6)
	mc::unit("C05", strf("memory to file, %d bytes, chunk %d, range %d..%d", k.n, k.chunk, (int)k.a, (int)k.b), [k]() {
		Bytes d = content(k.n); Bytes want;
		uint64_t e = k.b ? std::min<uint64_t>(k.b, k.n) : k.n; if (k.a < e) want.assign(d.begin() + k.a, d.begin() + e);
		{
			loopthread l = mkloop();
			{
				unsigned char none; fixed_memory_read src(k.n ? &d[0] : &none, k.n); file_bitstream dst(l); dst.open_write_sync("dst");
				copy_stream(src, dst, k.chunk, k.a, k.b);
				same("destination when the copy returned", file("dst"), want);
				dst.close(false);
			}
			l->end();
		}
		same("destination", file("dst"), want); vs::assert_done(); mc::outcome(want.size());
	}, mc::Opt(D(2, 3)));
	// one source, several copies: each starts where it was asked to, wherever the source stands
	for (int mem = 0; mem < 2; mem++)
	mc::unit("C05", strf("copies of one %s source, one after the other", mem ? "memory" : "file"), [mem]() {
		Bytes d = content(7); vs::file_put("src", d); static const int ra[][2] = { {0, 0}, {0, 3}, {2, 0}, {3, 5}, {6, 7} };
		{
			loopthread l = mkloop();
			{
				file_bitstream fs(l); if (!mem) fs.open_sync("src"); fixed_memory_read ms(&d[0], d.size());
				for (int i = 0; i < 3; i++) {
					int k = mc::choose(5); Bytes want(d.begin() + ra[k][0], ra[k][1] ? d.begin() + ra[k][1] : d.end());
					file_bitstream dst(l); dst.open_write_sync("dst"); copy_stream(mem ? (Ibitstream_storage &)ms : fs, dst, 4, ra[k][0], ra[k][1]);
					same(strf("destination of copy %d, range %d..%d,", i, ra[k][0], ra[k][1]).c_str(), file("dst"), want);
					dst.close(false);
				}
			}
			l->end();
		}
		vs::assert_done(); mc::outcome(mem);
	}, mc::Opt(D(0, 1)));
	mc::unit("C05", "two copies into one destination", []() {
		Bytes d = content(5), b = content(4, 90); vs::file_put("a", d); vs::file_put("b", b); Bytes want = d; want.insert(want.end(), b.begin(), b.end());
		{
			loopthread l = mkloop();
			{ file_bitstream s1(l), s2(l), dst(l); s1.open_sync("a"); s2.open_sync("b"); dst.open_write_sync("dst"); copy_stream(s1, dst, 2); copy_stream(s2, dst, 3); same("destination", file("dst"), want); }
			l->end();
		}
		same("destination", file("dst"), want);
	}, mc::Opt(D(1, 2)));
}

static int g_bad;
static void errors()
{
	// one of n operations fails: exactly its handler learns, the others get their data, close returns
	static const char * on[] = { "own error handlers", "error handler rethrows", "default error handlers", "handler of the data throws" };
	for (int own = 0; own < 4; own++) for (int n = 1; n <= 3; n++) for (int wr = 0; wr < 2; wr++) for (int late = 0; late < 2; late++) {
	if (late && (own == 3 || n == 3)) continue;
	mc::unit("C08", strf("one of %d %s fails, %s%s", n, wr ? "writes" : "reads", on[own], late ? " attached while it may be running" : ""), [own, n, wr, late]() {
		Bytes d = content(9); vs::file_put("f", d); Seen s; int bad = g_bad = mc::choose(n); int caught = 0; bool ended_before_close = mc::choose(2) == 1;
		if (own < 3) vs::fault = [](const char * op, bool async, int64_t off) -> int { return async && (op[0] == 'r' || op[0] == 'w') && off == g_bad * 3 ? UV_EIO : 0; };
		{
			loopthread l = mkloop();
			{
			cfile f(l); f.open_sync("f", O_RDWR);
			if (!late) l->loop_lock().lock();
			for (int i = 0; i < n; i++) {
				std::function<bool(std::exception_ptr)> er = [&s, own, i](std::exception_ptr e) -> bool { s.err[i].add(); int k = eno(e); MC_CHECK(k == (own == 3 ? 77 : UV_EIO), "error %d", k); if (own == 1 || own == 3) std::rethrow_exception(e); return false; };
				if (!wr) {
					CResource<CPromise<CBuffer<unsigned char> > > p = f.read(3);
					if (own == 2) p->set_er(); else p->set_er(er);
					p->set_cb([&s, d, i, own](CResource<CBuffer<unsigned char> > & b) { s.done[i].add(); s.order.put(i); MC_CHECK(b->size() == 3 && memcmp(b->get(), &d[i * 3], 3) == 0, "read %d delivered the wrong bytes", i); if (own == 3 && i == g_bad) throw 77; });
				} else {
					unsigned char x[3] = { (unsigned char)(i + 1), 2, 3 };
					CResource<CPromise<uv_fs_t> > p = f.write(x, 3);
					if (own == 2) p->set_er(); else p->set_er(er);
					p->set_cb([&s, i, own](CResource<uv_fs_t> & r) { s.done[i].add(); s.order.put(i); MC_CHECK(r->result == 3, "write %d reported %d", i, (int)r->result); if (own == 3 && i == g_bad) throw 77; });
				}
			}
			if (!late) l->loop_lock().unLock();
			l->loop_now();
			if (ended_before_close) try { l->end(); } catch (mgexceptionbase & e) { caught = e.get_error_number(); } catch (int e) { caught = e; }
			f.close(false);
			}
			try { l->end(); } catch (mgexceptionbase & e) { MC_CHECK(!caught, "reported twice"); caught = e.get_error_number(); } catch (int e) { MC_CHECK(!caught, "reported twice"); caught = e; }
		}
		vs::assert_done(); MC_CHECK(vs::open_fds() == 0, "file left open");
		bool dflt = late && own < 2 && s.err[bad].get() == 0;   // it failed before its own handler was attached
		for (int i = 0; i < n; i++) {
			int dn = s.done[i].get(), er = s.err[i].get();
			MC_CHECK(dn <= 1 && er <= 1, "operation %d: handler called %d times, error handler %d times", i, dn, er);
			if (own == 0 && !dflt) MC_CHECK(i == bad ? (dn == 0 && er == 1) : (dn == 1 && er == 0), "operation %d: handler called %d times, error handler %d times, operation %d failed", i, dn, er, bad);
			else if (!dflt) { MC_CHECK(i == bad ? (dn == (own == 3) && (own == 2 || er == 1)) : er == 0, "operation %d: handler called %d times, error handler %d times, operation %d failed", i, dn, er, bad); if (i < bad) MC_CHECK(dn == 1, "operation %d was not delivered", i); }
			else MC_CHECK(er == 0 && dn == (i == bad ? 0 : i < bad ? 1 : dn), "operation %d: handler called %d times, error handler %d times, operation %d failed", i, dn, er, bad);
		}
		MC_CHECK(caught == (own == 0 && !dflt ? 0 : own == 3 ? 77 : UV_EIO), "end() reported %d", caught);
		mc::outcome(s.order.hash());
	}, mc::Opt(n == 3 ? D(1, 2) : D(2, 3))); }
	mc::unit("C08", "opening a file that does not exist", []() {
		vs::Int er, cb; bool sync = mc::choose(2) == 1; int flags = mc::choose(2) ? O_RDONLY : O_RDONLY | O_EXCL; int thrown = 0;
		{
			loopthread l = mkloop();
			{
				cfile f(l);
				try {
					if (sync) f.open_sync("missing", flags);
					else f.open("missing", flags)->set_er([&](std::exception_ptr e) -> bool { er.add(); MC_CHECK(eno(e) == UV_ENOENT, "error %d", eno(e)); return false; }).set_cb([&](CResource<uv_fs_t> &) { cb.add(); });
				} catch (mgexceptionbase & e) { thrown++; MC_CHECK(e.get_error_number() == UV_ENOENT, "error %d", e.get_error_number()); }
				l->loop_now(); f.close(false);
			}
			try { l->end(); } catch (...) { thrown++; }
		}
		MC_CHECK(cb.get() == 0, "open reported success"); MC_CHECK(er.get() + thrown == 1, "error reported %d times", er.get() + thrown);
		vs::assert_done(); mc::outcome(thrown);
	}, mc::Opt(D(3, 4)));
	mc::unit("C08", "close delivers everything first", []() {
		Bytes d = content(9); vs::file_put("f", d); 
		{
			loopthread l = mkloop(); vs::Int * done = new vs::Int; bool as = mc::choose(2) == 1; signal_event ev;
			cfile f(l); f.open_sync("f");
			for (int i = 0; i < 2; i++) f.read(3)->set_er().set_cb([done](CResource<CBuffer<unsigned char> > & b) { vs::yield("handler"); MC_CHECK(done->get() >= 0, "handler runs after close returned"); done->add(); });
			l->loop_now();
			CResource<CPromise<uv_fs_t> > c = f.close(as);
			MC_CHECK(done->get() == 2, "close returned after %d of 2 deliveries", done->get()); done->set(-10);
			if (as) { c->set_er().set_cb([&](CResource<uv_fs_t> &) { ev.signal(); }); l->loop_now(); ev.wait(); }
			l->end();
			delete done;
		}
		MC_CHECK(vs::open_fds() == 0, "file left open"); vs::assert_done();
	}, mc::Opt(D(2, 3)));
	mc::unit("C08", "closing an unopened or closed file", []() {
		vs::file_put("f", content(3));
		{ loopthread l = mkloop(); { cfile f(l); f.close(mc::choose(2) == 1); f.open_sync("f"); f.close(false); f.close(false); f.open_sync("f"); } l->end(); }
		MC_CHECK(vs::open_fds() == 0, "file left open"); vs::assert_done();
	}, mc::Opt(D(2, 3)));
}
static void reg() { vs::init(false); reads(); writes(); copies(); errors(); }
int main(int c, char ** v) { return mc::run(c, v, reg); }

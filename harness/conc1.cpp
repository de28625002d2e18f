// C09 promises, C11 shared resources across threads, C12 signal events, C13 locks and threads, C14 loop thread
#include "vs.h"
#include <mgcore.h>
#include <memory>
using namespace mg::core;
using mc::strf;
static int D(int quick, int deep) { return mc::thorough() ? deep + 1 : quick + 1; }

// ---------------------------------------------------------------- C12
static void signals()
{
	for (int timed = 0; timed < 2; timed++)
	mc::unit("C12", strf("wait %s + signal + destroy", timed ? "timed" : "plain"), [timed]() {
		signal_event * ev = new signal_event;
		vs::Int signaled;
		int t = vs::spawn([ev, &signaled]() { signaled.set(1); ev->signal(); });
		if (timed) { while (!ev->wait(50)) ; } else ev->wait();
		MC_CHECK(signaled.get(), "wait returned before the signal");
		MC_CHECK(ev->is_signaled(), "event not signaled after wait returned");
		delete ev;
		vs::join(t);
		mc::outcome(1);
	}, mc::Opt(D(4, 6)));
	for (int n = 2; n <= 3; n++) for (int timed = 0; timed < 2; timed++)
	mc::unit("C12", strf("%d waiters%s one signal", n, timed ? " timed" : ""), [n, timed]() {
		signal_event ev; vs::Int passed, signaled; std::vector<int> t;
		for (int i = 0; i < n; i++) t.push_back(vs::spawn([&, i]() { if (timed && i == 0) { while (!ev.wait(10)) ; } else ev.wait(); MC_CHECK(signaled.get(), "wait returned before the signal"); passed.add(); }));
		signaled.set(1); ev.signal();
		for (size_t i = 0; i < t.size(); i++) vs::join(t[i]);
		MC_CHECK(passed.get() == n, "%d of %d passed", passed.get(), n);
		mc::outcome(passed.get());
	}, mc::Opt(n == 2 ? D(3, 4) : D(2, 3)));
	mc::unit("C12", "two signalers two waiters", []() {
		signal_event ev; vs::Int signaled; std::vector<int> t;
		for (int i = 0; i < 2; i++) t.push_back(vs::spawn([&]() { signaled.set(1); ev.signal(); }));
		for (int i = 0; i < 1; i++) t.push_back(vs::spawn([&]() { ev.wait(); MC_CHECK(signaled.get(), "wait returned before the signal"); }));
		ev.wait(); MC_CHECK(signaled.get(), "wait returned before the signal");
		for (size_t i = 0; i < t.size(); i++) vs::join(t[i]);
	}, mc::Opt(D(2, 3)));
	mc::unit("C12", "timed wait outcome", []() {
		signal_event ev; vs::Int signaled;
		int t = vs::spawn([&]() { signaled.set(1); ev.signal(); signaled.set(2); });
		uint64_t t0 = vs::vtime_ms(); bool before = signaled.get() == 2;
		bool r = ev.wait(20);
		if (r) MC_CHECK(signaled.get() >= 1, "timed wait reported a signal nobody sent");
		else { MC_CHECK(!before, "timed wait missed a signal sent before it began"); MC_CHECK(vs::vtime_ms() - t0 >= 20, "timed wait gave up after %d ms", (int)(vs::vtime_ms() - t0)); }
		vs::join(t);
		MC_CHECK(ev.is_signaled(), "signal lost"); MC_CHECK(ev.wait(0) && ev.wait(5), "signal lost");
		ev.wait(); ev.wait();
		ev.reset(); MC_CHECK(!ev.is_signaled(), "signaled after reset"); MC_CHECK(!ev.wait(3), "signaled after reset");
		ev.signal(); MC_CHECK(ev.is_signaled(), "not signaled after a second signal");
		mc::outcome(r);
	}, mc::Opt(D(4, 6)));
	mc::unit("C12", "polling under contention", []() {
		signal_event ev; ev.signal(); vs::Int seen;
		std::vector<int> t; for (int i = 0; i < 2; i++) t.push_back(vs::spawn([&]() { MC_CHECK(ev.is_signaled(), "signaled event reported as not signaled"); MC_CHECK(ev.wait(10), "signaled event timed out"); seen.add(); }));
		MC_CHECK(ev.is_signaled(), "signaled event reported as not signaled");
		for (size_t i = 0; i < t.size(); i++) vs::join(t[i]);
		mc::outcome(seen.get());
	}, mc::Opt(D(3, 4)));
	mc::unit("C12", "contended waiters without a signal", []() {
		signal_event ev; std::vector<int> t; uint64_t t0 = vs::vtime_ms();
		for (int i = 0; i < 2; i++) t.push_back(vs::spawn([&]() { bool r = ev.wait(15); MC_CHECK(!r, "wait reported a signal nobody sent"); MC_CHECK(vs::vtime_ms() - t0 >= 15, "timed wait gave up early"); }));
		MC_CHECK(!ev.is_signaled(), "signaled");
		for (size_t i = 0; i < t.size(); i++) vs::join(t[i]);
	}, mc::Opt(D(3, 4)));
	// how long a wait may last: whatever fits in the parameter
	for (uint32_t ms : std::vector<uint32_t>{ 1, 999, 1000, 4294, 4295, 10000, 65536, 2147484, 86400000, 2147483648u, 4294967295u })
	mc::unit("C12", strf("waiting %u ms", ms), [ms]() {
		signal_event ev; uint64_t t0 = vs::vtime_ms(); vs::Int signaled;
		if (mc::choose(2)) { bool r = ev.wait(ms); MC_CHECK(!r, "wait reported a signal nobody sent"); MC_CHECK(vs::vtime_ms() - t0 >= ms, "timed wait of %u ms gave up after %llu ms", ms, (unsigned long long)(vs::vtime_ms() - t0)); MC_CHECK(vs::vtime_ms() - t0 <= 2ull * ms + 100, "timed wait of %u ms gave up after %llu ms", ms, (unsigned long long)(vs::vtime_ms() - t0)); return; }
		int t = vs::spawn([&]() { signal_event pause; if (ms > 1) pause.wait(ms - 1); signaled.set(1); ev.signal(); });
		bool r = ev.wait(ms); if (!r) MC_CHECK(vs::vtime_ms() - t0 >= ms, "timed wait of %u ms gave up after %llu ms", ms, (unsigned long long)(vs::vtime_ms() - t0)); else MC_CHECK(signaled.get(), "wait reported a signal nobody sent");
		vs::join(t); mc::outcome(r * 4294967296ull + ms);
	}, mc::Opt(D(2, 3)));
	mc::unit("C12", "hand over and back with reset", []() {
		signal_event a, b; vs::Log log;
		int t = vs::spawn([&]() { for (int i = 0; i < 2; i++) { a.wait(); a.reset(); log.put(10 + i); b.signal(); } });
		for (int i = 0; i < 2; i++) { log.put(i); a.signal(); b.wait(); b.reset(); }
		vs::join(t);
		MC_CHECK(log.str() == "0 10 1 11", "order %s", log.str().c_str());
		mc::outcome(log.hash());
	}, mc::Opt(D(3, 4)));
}

// ---------------------------------------------------------------- C13
struct MyThread : public cthread {
	vs::Int runs, ended, saw_stop; int mode; signal_event * gate;
	MyThread(int m) : mode(m), gate(NULL) {}
	virtual void run() { runs.add(); if (mode == 1) { while (!should_stop(5)) ; saw_stop.set(1); } if (mode == 2) while (!should_stop()) vs::yield("poll"); vs::yield("in thread"); ended.set(1); }
};
static void locks()
{
	for (int n = 2; n <= 3; n++)
	mc::unit("C13", strf("mutual exclusion of %d threads", n), [n]() {
		critical_section cs; vs::Int in, total; std::vector<int> t;
		std::function<void()> body = [&]() { for (int i = 0; i < 2; i++) { auto_lock l(cs); MC_CHECK(in.add() == 1, "two threads inside the lock"); vs::yield("inside"); total.add(); in.add(-1); } };
		for (int i = 1; i < n; i++) t.push_back(vs::spawn(body));
		body();
		for (size_t i = 0; i < t.size(); i++) vs::join(t[i]);
		MC_CHECK(total.get() == 2 * n, "entered %d times", total.get());
	}, mc::Opt(n == 2 ? D(4, 5) : D(3, 3)));
	mc::unit("C13", "recursive locking", []() {
		critical_section cs; vs::Int in;
		int t = vs::spawn([&]() { auto_lock l(cs); MC_CHECK(in.get() == 0, "lock given out while it is held"); vs::yield("inside"); MC_CHECK(in.get() == 0, "lock given out while it is held"); });
		{ auto_lock a(cs); in.set(1); { auto_lock b(cs); MC_CHECK(cs.try_lock(), "owner cannot take its own lock"); vs::yield("inside 3"); cs.unLock(); vs::yield("inside 2"); } vs::yield("inside 1"); in.set(0); }
		vs::join(t);
	}, mc::Opt(D(5, 8)));
	mc::unit("C13", "try_lock", []() {
		critical_section cs; vs::Int held, got, refused;
		int t = vs::spawn([&]() { int before = held.get(); bool r = cs.try_lock(); if (r) { MC_CHECK(held.get() != 1, "try_lock took a held lock"); got.set(1); cs.unLock(); } else { refused.set(1); MC_CHECK(before != -1, "try_lock refused a free lock"); } });
		{ cs.lock(); held.set(1); vs::yield("inside"); vs::yield("inside"); held.set(0); cs.unLock(); held.set(-1); }
		vs::join(t);
		mc::outcome(got.get() * 2 + refused.get());
	}, mc::Opt(D(4, 6)));
	mc::unit("C13", "lock released by an exception", []() {
		critical_section cs; vs::Int done;
		try { auto_lock l(cs); throw 1; } catch (int) {}
		int t = vs::spawn([&]() { auto_lock l(cs); done.set(1); try { auto_lock k(cs); throw 2; } catch (int) {} });
		vs::join(t); MC_CHECK(cs.try_lock(), "lock still held"); cs.unLock(); MC_CHECK(done.get() == 1, "not entered");
	}, mc::Opt(D(3, 4)));
	for (int mode = 0; mode < 3; mode++)
	mc::unit("C13", strf("thread life cycle %d", mode), [mode]() {
		vs::exit_points();
		MyThread * m = new MyThread(mode);
		m->start();
		bool d = m->is_done(mc::choose(2) ? 30 : 0);
		if (d) MC_CHECK(m->ended.get() == 1, "is_done before run() ended");
		if (mode) { MC_CHECK(!d, "ended without being asked to"); m->stop(); }
		int how = mc::choose(3);
		if (how == 0) { while (!m->is_done(20)) ; MC_CHECK(m->ended.get() == 1, "is_done before run() ended"); m->join(); }
		else { m->join(); MC_CHECK(m->ended.get() == 1, "join returned before run() ended"); MC_CHECK(m->is_done(), "not done after join"); if (how == 2) m->join(); }
		vs::assert_done();   // join means the thread is gone
		MC_CHECK(m->runs.get() == 1, "run() ran %d times", m->runs.get());
		if (mode == 1) MC_CHECK(m->saw_stop.get() == 1, "stop not seen");
		delete m;
	}, mc::Opt(mode == 2 ? D(2, 3) : D(3, 4)));
	mc::unit("C13", "stop before start and from a third thread", []() {
		vs::exit_points();
		MyThread m(1); bool pre = mc::choose(2) == 1;
		if (pre) m.stop();
		m.start();
		int t = vs::spawn([&]() { m.stop(); });
		m.join(); MC_CHECK(m.runs.get() == 1 && m.ended.get() == 1, "run() did not run once");
		vs::join(t);
	}, mc::Opt(D(3, 4)));
}

// ---------------------------------------------------------------- C11
static vs::Int * g_live, * g_dtor;
struct Obj { int v; Obj(int x = 7) : v(x) { g_live->add(); } ~Obj() { v = 0; g_live->add(-1); g_dtor->add(); } };
static void shared()
{
	for (int n = 2; n <= 3; n++) for (int mode = 0; mode < 4; mode++)
	mc::unit("C11", strf("%d threads %s", n, mode == 0 ? "copy and drop" : mode == 1 ? "hand over, owner drops first" : mode == 2 ? "assign" : "with cleanup function"), [n, mode]() {
		vs::Int live, dtor, cleaned; g_live = &live; g_dtor = &dtor;
		{
			CResource<Obj> r; if (mode == 1) r = CResource<Obj>(new Obj(7)); else r.Create();
			if (mode == 3) r.add_cleanup_function([&cleaned](Obj * o) { MC_CHECK(o->v == 7, "cleanup on a dead object"); cleaned.add(); });
			std::vector<int> t;
			for (int i = 1; i < n; i++) {
				std::shared_ptr<CResource<Obj> > h(new CResource<Obj>(r));
				t.push_back(vs::spawn([h, mode]() {
					MC_CHECK((*h)->v == 7, "object dead while a handle exists");
					if (mode == 2) { CResource<Obj> k; k = *h; k = CResource<Obj>(); k = *h; MC_CHECK(k->v == 7, "object dead while a handle exists"); }
					else { CResource<Obj> k(*h); MC_CHECK(k->v == 7, "object dead while a handle exists"); }
					MC_CHECK((*h)->v == 7, "object dead while a handle exists");
					*h = CResource<Obj>();
				}));
			}
			if (mode == 1) r = CResource<Obj>();
			else { CResource<Obj> k(r); MC_CHECK(k->v == 7 && r->v == 7, "object dead while a handle exists"); }
			if (mode != 1) { MC_CHECK(live.get() == 1, "object destroyed while its owner holds a handle"); r = CResource<Obj>(); }
			for (size_t i = 0; i < t.size(); i++) vs::join(t[i]);
		}
		MC_CHECK(live.get() == 0, "object never destroyed"); MC_CHECK(dtor.get() == 1, "object destroyed %d times", dtor.get());
		if (mode == 3) MC_CHECK(cleaned.get() == 1, "cleanup ran %d times", cleaned.get());
		mc::outcome(1);
	}, mc::Opt(n == 2 ? D(3, 4) : D(2, 3)));
	mc::unit("C11", "value handed to another thread through a promise", []() {
		vs::Int live, dtor; g_live = &live; g_dtor = &dtor;
		{
			CResource<Obj> got; signal_event ev;
			CResource<CPromise<Obj> > p; p.Create();
			CResource<CPromise<Obj> > pc(p);
			std::shared_ptr<CResource<CPromise<Obj> > > h(new CResource<CPromise<Obj> >(p));
			int t = vs::spawn([h]() { { CResource<Obj> o; o.Create(); (*h)->call_cb(o); } *h = CResource<CPromise<Obj> >(); });
			p->set_er().set_cb([&](CResource<Obj> & o) { got = o; ev.signal(); });
			ev.wait();
			CResource<Obj> mine(got); got = CResource<Obj>(); MC_CHECK(mine->v == 7, "value dead");
			mine = CResource<Obj>();
			vs::join(t);
		}
		MC_CHECK(live.get() == 0 && dtor.get() == 1, "value destroyed %d times, %d alive", dtor.get(), live.get());
	}, mc::Opt(D(2, 3)));
}

// ---------------------------------------------------------------- C09
typedef CPromise<int> P; typedef CResource<P> RP;
static CResource<int> val(int v) { CResource<int> r(new int(v)); return r; }
static int eno(std::exception_ptr e) { try { std::rethrow_exception(e); } catch (int x) { return x; } catch (...) { return -1; } return 0; }
static void promises()
{
	// every order of the consumer's and producer's calls on one thread, against the contract
	for (int err = 0; err < 3; err++) for (int fw = 0; fw < 2; fw++)       // 0 value, 1 error, 2 value and the handler throws
	mc::unit("C09", strf("one thread, every order: %s%s", err == 0 ? "value" : err == 1 ? "error" : "handler throws", fw ? ", forwarded" : ""), [err, fw]() {
		RP p; p.Create(); RP f; vs::Log log; int er_ret = mc::choose(2);
		if (fw) f = p->forward();
		bool done[6] = { false, false, false, false, false, false }; int left = fw ? 5 : 3;
		std::string want_cb, got;
		while (left) {
			int av[5], n = 0; for (int i = 0; i < (fw ? 5 : 3); i++) if (!done[i]) av[n++] = i;
			int k = av[mc::choose(n)]; done[k] = true; left--;
			MC_NOTE("op %d", k);
			if (k == 0) p->set_cb([&](CResource<int> & v) { log.put(100 + *v.operator->()); if (err == 2) throw 5; });
			if (k == 1) p->set_er([&](std::exception_ptr e) -> bool { log.put(200 + eno(e)); return er_ret == 1; });
			if (k == 2) { if (err == 1) p->call_er(std::make_exception_ptr(6)); else { CResource<int> v = val(3); p->call_cb(v); } }
			if (k == 3) f->set_cb([&](CResource<int> & v) { log.put(300 + *v.operator->()); });
			if (k == 4) f->set_er([&](std::exception_ptr e) -> bool { log.put(400 + eno(e)); return false; });
			mc::step();
			// nothing may be delivered before it can be
			std::string w;
			bool cb = err != 1 && done[0] && done[2], er = (err == 1 && done[1] && done[2]) || (err == 2 && cb && done[1]);
			if (cb) w += "103 "; if (er) w += err == 1 ? "206 " : "205 ";
			if (fw && cb && err == 0 && done[3]) w += "303 "; if (fw && er && er_ret && done[4]) w += err == 1 ? "406 " : "405 ";
			std::string g; for (int i = 0; i < log.size(); i++) g += strf("%d ", log.at(i));
			MC_CHECK(g == w, "delivered [%s] expected [%s]", g.c_str(), w.c_str());
		}
		mc::outcome(log.hash());
	});
	for (int err = 0; err < 3; err++) for (int fw = 0; fw < 2; fw++)
	mc::unit("C09", strf("producer and consumer threads: %s%s", err == 0 ? "value" : err == 1 ? "error" : "handler throws", fw ? ", forwarded" : ""), [err, fw]() {
		vs::Log log;
		{
		RP p; p.Create(); RP f; if (fw) f = p->forward();
		std::shared_ptr<RP> hp(new RP(p)), hf(new RP(f));
		int t = vs::spawn([hp, err]() { if (err == 1) (*hp)->call_er(std::make_exception_ptr(6)); else { CResource<int> v = val(3); (*hp)->call_cb(v); } });
		int u = -1;
		if (fw) u = vs::spawn([hf, &log]() { (*hf)->set_er([&](std::exception_ptr e) -> bool { log.put(400 + eno(e)); return false; }).set_cb([&](CResource<int> & v) { log.put(300 + *v.operator->()); }); });
		p->set_er([&](std::exception_ptr e) -> bool { log.put(200 + eno(e)); return true; }).set_cb([&](CResource<int> & v) { log.put(100 + *v.operator->()); if (err == 2) throw 5; });
		vs::join(t); if (fw) vs::join(u);
		}
		std::string want = err == 0 ? (fw ? "103 303" : "103") : err == 1 ? (fw ? "206 406" : "206") : (fw ? "103 205 405" : "103 205");
		MC_CHECK(log.str() == want, "delivered [%s] expected [%s]", log.str().c_str(), want.c_str());
		mc::outcome(log.hash());
	}, mc::Opt(fw ? D(4, 5) : D(5, 7)));
	mc::unit("C09", "waiting for the value", []() {
		RP p; p.Create(); std::shared_ptr<RP> hp(new RP(p)); signal_event ev; vs::Int got;
		int t = vs::spawn([hp]() { CResource<int> v = val(9); (*hp)->call_cb(v); });
		p->set_er().set_cb([&](CResource<int> & v) { got.add(*v.operator->()); ev.signal(); });
		ev.wait(); MC_CHECK(got.get() == 9, "got %d", got.get());
		vs::join(t);
		MC_CHECK(got.get() == 9, "delivered twice");
	}, mc::Opt(D(3, 4)));
}

// ---------------------------------------------------------------- C14
using namespace mg::uv;
static void * g_ctx;
struct Work { uv_fs_t req; vs::Log * log; int id; std::function<void(Work *)> then; };
static void work_cb(uv_fs_t * r) { Work * w = (Work *)r->data; w->log->put(w->id); if (w->then) w->then(w); }
static void post(uvloopthread & l, Work & w, vs::Log & log, int id) { w.log = &log; w.id = id; w.req.data = &w; auto_lock k(l.loop_lock()); int r = uv_fs_stat(l.get_loop(), &w.req, "f", work_cb); MC_CHECK(r == 0, "submit failed"); }
static void loops_()
{
	mc::unit("C14", "work posted before and after start completes before end returns", []() {
		vs::file_put("f", vs::Bytes(3)); vs::Log log; Work w[3]; vs::Int on_main;
		{
			uvloopthread l; l.set_wait_time(10);
			int pre = mc::choose(2); bool explicit_end = mc::choose(2) == 1;
			for (int i = 0; i < 3; i++) w[i].then = [&](Work *) { if (vs::self_is(0)) on_main.set(1); };
			if (pre) post(l, w[0], log, 0);
			l.start();
			if (!pre) post(l, w[0], log, 0);
			post(l, w[1], log, 1);
			if (mc::choose(2)) l.loop_now();
			if (explicit_end) { l.end(); MC_CHECK(log.size() == 2, "end returned with %d of 2 operations done", log.size()); MC_CHECK(l.is_done(), "not done after end"); }
		}
		vs::assert_done();
		std::string s = log.str(); MC_CHECK(s == "0 1" || s == "1 0", "completions [%s]", s.c_str());
		MC_CHECK(!on_main.get(), "completion ran outside the loop thread");
		mc::outcome(log.hash());
	}, mc::Opt(D(2, 3)));
	mc::unit("C14", "work posted by a completion completes", []() {
		vs::file_put("f", vs::Bytes(3)); vs::Log log; Work w[3];
		{
			uvloopthread l; uvloopthread * pl = &l; l.set_wait_time(10);
			w[0].then = [&, pl](Work *) { post(*pl, w[1], log, 1); };
			w[1].then = [&, pl](Work *) { post(*pl, w[2], log, 2); pl->loop_now(); };
			l.start(); post(l, w[0], log, 0);
			l.end();
		}
		vs::assert_done(); MC_CHECK(log.str() == "0 1 2", "completions [%s]", log.str().c_str());
	}, mc::Opt(D(3, 4)));
	mc::unit("C14", "stop from a completion ends the thread", []() {
		vs::file_put("f", vs::Bytes(3)); vs::Log log; Work w[2];
		{
			uvloopthread l; uvloopthread * pl = &l; l.set_wait_time(10);
			w[0].then = [&, pl](Work *) { pl->stop(); };
			l.start(); post(l, w[0], log, 0);
			while (!l.is_done(20)) ;
			l.join(); l.end();
		}
		vs::assert_done(); MC_CHECK(log.str() == "0", "completions [%s]", log.str().c_str());
	}, mc::Opt(D(3, 4)));
	mc::unit("C14", "stop, is_done, join, end in any order", []() {
		uvloopthread l; l.set_wait_time(10); l.start();
		if (mc::choose(2)) l.stop();
		else MC_CHECK(!l.is_done(15), "loop ended by itself");
		if (mc::choose(2)) { l.stop(); while (!l.is_done(1000)) ; }
		if (mc::choose(2)) { l.end(); l.end(); }
	}, mc::Opt(D(3, 4)));
	for (int mode = 0; mode < 3; mode++)
	mc::unit("C14", strf("exception in a completion reaches the owner %d", mode), [mode]() {
		vs::file_put("f", vs::Bytes(3)); vs::Log log; Work w[2]; int caught = 0;
		{
			uvloopthread l; l.set_wait_time(10);
			w[0].then = [&](Work *) { throw 42; };
			l.start(); post(l, w[0], log, 0);
			try {
				if (mode == 0) l.end();
				if (mode == 1) { while (!l.is_done(50)) ; l.check_exception(); }
				if (mode == 2) { l.join(); l.end(); }
			} catch (int e) { caught = e; }
			MC_CHECK(caught == 42, "exception lost");
			caught = 0; try { l.check_exception(); l.end(); } catch (int e) { caught = e; }
			MC_CHECK(caught == 0, "exception delivered twice");
		}
		vs::assert_done(); MC_CHECK(log.str() == "0", "completions [%s]", log.str().c_str());
	}, mc::Opt(D(3, 4)));
	mc::unit("C14", "the loop is dropped because of another exception while one waits", []() {
		vs::file_put("f", vs::Bytes(3)); vs::Log log; Work w[2]; int caught = 0, k = mc::choose(3);
		try {
			uvloopthread l; l.set_wait_time(10);
			w[0].then = [&](Work *) { if (k) throw 42; };
			l.start(); post(l, w[0], log, 0); if (k == 2) { l.loop_now(); while (!l.is_done(50)) ; }
			throw 7;
		} catch (int e) { caught = e; }
		MC_CHECK(caught == 7, "%d thrown, not 7", caught);
		vs::assert_done(); MC_CHECK(log.str() == "0", "completions [%s]", log.str().c_str());
	}, mc::Opt(D(3, 4)));
	mc::unit("C14", "a loop thread that never started can be destroyed", []() {
		{ uvloopthread l; int k = mc::choose(2); if (k == 1) l.stop(); }
		vs::assert_done();
	});
	mc::unit("C14", "two loop threads", []() {
		vs::file_put("f", vs::Bytes(3)); vs::Log log; Work w[2];
		{ uvloopthread a, b; a.set_wait_time(10); b.set_wait_time(10); a.start(); b.start(); post(a, w[0], log, 0); post(b, w[1], log, 1); a.end(); MC_CHECK(log.size() >= 1, "a"); }
		vs::assert_done(); MC_CHECK(log.size() == 2, "completions [%s]", log.str().c_str());
	}, mc::Opt(D(2, 2)));
}
static void reg()
{
	vs::init(true, true);
	signals(); locks(); shared(); promises(); loops_();
}
int main(int c, char ** v) { return mc::run(c, v, reg); }

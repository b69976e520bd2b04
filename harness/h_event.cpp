// C09, C10, C11: event_t against a sequential model (counter + FIFO queue), with timeouts and wait_all.
#include "evmodel.h"
#include <list>
using namespace H;

namespace {
enum { E_INV = 1, E_RESP, E_MARK, E_DEADLINE, E_LOST };
enum { O_SIGNAL, O_SIGNAL_ALL, O_RESET, O_WAIT, O_WAIT_FOR, O_WAIT_UNTIL, O_WAIT_ALL, O_WAIT_ALL_FOR, O_LOST_FOR };
enum { ACT_CORO = 0, ACT_THREAD = 10 };		// actor: scheduler index, or 10 + thread index
enum { MAXOPS = 40, R_WAITING = R_USER, R_MASK = R_USER + 100, R_BEGUN = R_USER + 200, R_POSTED };

struct X
{
	Scheds S;
	std::vector<event_t> ev;
	const Workload* w = nullptr;
};
// o.a: mask of events | spelling << 8 | duration type << 12
int64_t mask_of(const Op& o) { return o.a & 15; }
template<class F> auto in_unit(const Op& o, F f)
{
	switch (o.a >> 12 & 3)
	{
	case 1: return f(std::chrono::microseconds(o.b / 1000));
	case 2: return f(std::chrono::milliseconds(o.b / 1000000));
	case 3: return f(std::chrono::duration<double>(o.b * 1e-9));
	default: return f(std::chrono::nanoseconds(o.b));
	}
}
int first_of(int64_t m) { for (int i = 0; i < 4; ++i) if (m >> i & 1) return i; return 0; }
bool is_wait(int k) { return k >= O_WAIT; }
bool is_timed(int k) { return k == O_WAIT_FOR || k == O_WAIT_UNTIL || k == O_WAIT_ALL_FOR || k == O_LOST_FOR; }

void poke(X* x, int i, int kind, int e)
{
	sim::ev(E_INV, i, kind, 1ll << e);
	switch (kind)
	{
	case O_SIGNAL: x->ev[e].signal(); break;
	case O_SIGNAL_ALL: x->ev[e].signal_all(); break;
	case O_RESET: x->ev[e].reset(); break;
	}
	sim::ev(E_RESP, i, 1);
}
std::vector<event_t> subset(X* x, int64_t m)
{
	std::vector<event_t> v;
	for (size_t i = 0; i < x->ev.size(); ++i) if (m >> i & 1) v.push_back(x->ev[i]);
	return v;
}
future_t<> actor(X* x, int a)
{
	for (size_t i = 0; i < x->w->ops.size(); ++i)
	{
		const Op& o = x->w->ops[i];
		if (o.actor != a) continue;
		// c: 0 go on at once, else give others a turn first
		if (o.c == 1) co_await yield();
		else if (o.c > 1) co_await sleep_for(std::chrono::nanoseconds(o.c));
		if (!is_wait(o.kind)) { poke(x, (int)i, o.kind, first_of(o.a)); continue; }
		int home = x->S.here();
		if (o.kind == O_LOST_FOR)
		{
			// the handle disappears while the coroutine waits: the wait just times out
			auto p = std::make_unique<event_t>();
			auto* pp = &p;
			go [pp]()->future_t<> { co_await yield(); pp->reset(); };
			sim::ev_wall(E_DEADLINE, i, o.b, 1);
			bool lr = co_await p->wait_for(std::chrono::nanoseconds(o.b));
			sim::ev(E_LOST, i, lr, sim::wall());
			while (p) co_await yield();
			continue;
		}
		bool r = false;
		int e = first_of(o.a), how = (int)(o.a >> 8 & 3);
		sim::reg(R_WAITING + i) = 1;
		sim::reg(R_BEGUN)++;
		// deadline and beginning of the operation, read where the call is made
		auto begin = [&](auto d) { sim::ev_wall(E_DEADLINE, i, std::chrono::duration_cast<std::chrono::nanoseconds>(d).count(), 1); sim::ev(E_INV, i, o.kind, mask_of(o)); };
		switch (o.kind)
		{
		case O_WAIT:
			begin(std::chrono::nanoseconds(0));
			if (how == 0) r = co_await x->ev[e].wait();
			else if (how == 1) r = co_await x->ev[e];
			else { event_t c = x->ev[e]; event_t d(false); d = std::move(c); r = co_await d; }
			break;
		case O_WAIT_FOR: r = co_await in_unit(o, [&](auto d) { begin(d); return x->ev[e].wait_for(d); }); break;
		case O_WAIT_UNTIL:
		{
			int64_t tp = sim::ev_wall(E_DEADLINE, i, o.b);
			sim::ev(E_INV, i, o.kind, mask_of(o));
			using C = std::chrono::system_clock;
			if (how < 2) r = co_await x->ev[e].wait_until(C::time_point(std::chrono::nanoseconds(tp)));
			else r = co_await x->ev[e].wait_until(std::chrono::time_point<C, std::chrono::duration<long double, std::micro>>(std::chrono::nanoseconds(tp)));
			break;
		}
		case O_WAIT_ALL:
		{
			auto v = subset(x, o.a);
			begin(std::chrono::nanoseconds(0));
			if (how == 0) r = co_await event_t::wait_all(v);
			else if (how == 1) r = co_await event_t::wait_all(v.begin(), v.end());
			else if (how == 2) { std::list<event_t> l(v.begin(), v.end()); v.clear(); r = co_await event_t::wait_all(l); }
			else r = co_await event_t::wait_all(v.data(), v.data() + v.size());
			break;
		}
		case O_WAIT_ALL_FOR:
		{
			auto v = subset(x, o.a);
			if (how == 0) r = co_await in_unit(o, [&](auto d) { begin(d); return event_t::wait_all_for(d, v); });
			else if (how == 1) r = co_await in_unit(o, [&](auto d) { begin(d); return event_t::wait_all_for(d, v.begin(), v.end()); });
			else { std::list<event_t> l(v.begin(), v.end()); v.clear(); r = co_await in_unit(o, [&](auto d) { begin(d); return event_t::wait_all_for(d, l); }); }
			break;
		}
		}
		sim::ev(E_RESP, i, r, sim::wall());
		sim::reg(R_WAITING + i) = 0;
		if (x->S.here() != home) sim::fail("wrong_scheduler", "wait %zu resumed on scheduler %d instead of %d", i, x->S.here(), home);
	}
	sim::reg(R_DONE)++;
}

void gen_common(Rng& r, Workload& w, int flavour)
{
	int ns = (int)r.in(1, 3), nt = (int)r.in(0, 2), ne = flavour == 2 ? (int)r.in(1, 3) : (int)r.in(1, 2);
	if (ns == 1 && nt == 0) nt = 1;
	w.set("scheds", ns); w.set("threads", nt); w.set("events", ne);
	w.set("coros", r.in(1, 4));
	int init = (int)r.in(0, (1 << ne) - 1) & (r.p(1, 2) ? 7 : 0);
	w.set("init", init);
	int n = (int)r.in(2, flavour == 2 ? 12 : 16);
	int hi = (int)r.in(4, 9);
	int64_t g = flavour ? coarse_clock(r, w) : 1;
	if (flavour) clock_steps(r, w);
	int nc = (int)w.get("coros");
	int pw = (int)r.in(20, 70), preset = r.p(1, 3) ? 12 : 0, pall = r.p(1, 2) ? 15 : 2;
	for (int i = 0; i < n; ++i)
	{
		Op o;
		int k = (int)r.in(0, 99);
		o.a = 1ll << r.in(0, ne - 1);
		if (k < pw)
		{
			o.actor = (int)r.in(0, nc - 1);
			if (flavour == 2 && r.p(2, 3))
			{
				o.kind = r.p(1, 2) ? O_WAIT_ALL : O_WAIT_ALL_FOR;
				o.a = r.in(1, (1 << ne) - 1);
				if (r.p(1, 24)) o.a = 0;
			}
			else o.kind = flavour == 0 ? O_WAIT : r.p(1, 12) ? O_LOST_FOR : r.p(1, 4) ? O_WAIT : r.p(1, 2) ? O_WAIT_FOR : O_WAIT_UNTIL;
			if (r.p(1, 2)) o.a |= r.in(0, 3) << 8 | r.in(0, 3) << 12;
			if (is_timed(o.kind)) o.b = r.p(1, 8) ? 0 : r.p(1, 12) ? -1000 : on_grain(r, g, log_uniform(r, 2, hi));
		}
		else
		{
			o.actor = nt && r.p(2, 3) ? ACT_THREAD + (int)r.in(0, nt - 1) : (int)r.in(0, nc - 1);
			int q = (int)r.in(0, 99);
			o.kind = q < preset ? O_RESET : q < preset + pall ? O_SIGNAL_ALL : O_SIGNAL;
		}
		o.c = r.p(1, 2) ? 0 : r.p(1, 2) ? 1 : log_uniform(r, 2, hi);
		w.ops.push_back(o);
	}
}
// few signals, many resets from several sides, all of them while a wait takes or leaves the count
void gen_storm(Rng& r, Workload& w)
{
	int nt = (int)r.in(1, 3), nc = (int)r.in(1, 2), most = (int)r.in(2, 9);
	w.set("scheds", r.in(1, 2)); w.set("threads", nt); w.set("events", 1);
	w.set("coros", nc); w.set("init", r.in(0, 1));
	for (int t = 0; t < nt; ++t)
		for (int n = (int)r.in(1, most), i = 0; i < n; ++i)
		{
			Op o; o.actor = ACT_THREAD + t; o.a = 1;
			o.kind = r.p(1, 3) ? O_SIGNAL : O_RESET;
			o.c = i == 0 ? -1 - (r.p(1, 4) ? 1 : 0) : r.p(1, 6) ? -r.in(1, 4) : r.p(1, 10) ? log_uniform(r, 2, 5) : 0;
			w.ops.push_back(o);
		}
	for (int a = 0; a < nc; ++a)
		for (int n = (int)r.in(1, 4), i = 0; i < n; ++i)
		{
			Op o; o.actor = a; o.a = 1; o.kind = O_WAIT; o.c = r.p(1, 4) ? 1 : 0;
			w.ops.push_back(o);
		}
}
// several waits reach the same deadline on different schedulers while signals arrive, others wait behind them
void gen_expiry(Rng& r, Workload& w)
{
	int ns = (int)r.in(2, 4), nt = (int)r.in(1, 2), timed = (int)r.in(2, 5), untimed = (int)r.in(1, 2);
	w.set("scheds", ns); w.set("threads", nt); w.set("events", 1);
	w.set("coros", timed + untimed); w.set("init", 0);
	int64_t d = coarse_clock(r, w, 2) * (int64_t)(r.in(1, 3));
	if (d < 1000) d = log_uniform(r, 4, 7);
	for (int a = 0; a < timed + untimed; ++a)
	{
		Op o; o.actor = a; o.a = 1;
		o.kind = a >= timed ? O_WAIT : r.p(1, 2) ? O_WAIT_FOR : O_WAIT_UNTIL;
		o.b = a >= timed ? 0 : d;
		o.c = a >= timed ? r.in(0, 1) : 0;
		w.ops.push_back(o);
	}
	for (int t = 0; t < nt; ++t)
		for (int n = (int)r.in(1, 3), i = 0; i < n; ++i)
		{
			Op o; o.actor = ACT_THREAD + t; o.a = 1; o.kind = r.p(1, 10) ? O_SIGNAL_ALL : O_SIGNAL;
			o.c = i == 0 ? std::max<int64_t>(2, d + (r.p(1, 2) ? log_uniform(r, 2, 4) : r.p(1, 2) ? 0 : -log_uniform(r, 2, 4))) : r.p(1, 2) ? 0 : log_uniform(r, 2, 3);
			w.ops.push_back(o);
		}
}
void gen0(Rng& r, Workload& w) { if (r.p(1, 10)) gen_storm(r, w); else gen_common(r, w, 0); }
void gen1(Rng& r, Workload& w) { if (r.p(1, 8)) gen_expiry(r, w); else gen_common(r, w, 1); }
void gen2(Rng& r, Workload& w) { gen_common(r, w, 2); }

void run(const Workload& w)
{
	int ns = (int)w.get("scheds"), nt = (int)w.get("threads"), ne = (int)w.get("events"), nc = (int)w.get("coros");
	X x; x.w = &w;
	sim::clock_grain(w.get("grain"));
	for (int e = 0; e < ne; ++e) x.ev.emplace_back((w.get("init") >> e & 1) != 0);
	x.S.start(ns);
	X* xp = &x;
	std::vector<int> tids;
	for (int t = 0; t < nt; ++t)
		tids.push_back(sim::spawn([xp, t] {
			for (size_t i = 0; i < xp->w->ops.size(); ++i)
			{
				const Op& o = xp->w->ops[i];
				if (o.actor != ACT_THREAD + t) continue;
				if (o.c > 1) sim::sleep_ns(o.c);
				// c < 0: not before the (-c)-th wait begins
				if (o.c < 0) { int64_t k = -o.c; sim::park([k] { return sim::reg(R_BEGUN) >= k; }, 1000); }
				poke(xp, (int)i, o.kind, first_of(o.a));
			}
		}));
	start_clock_steps(w, tids);
	for (int a = 0; a < nc; ++a) *x.S.sch[a % ns] + actor(&x, a);
	for (int t : tids) sim::join(t);
	// rounds: let everything settle, then hand out exactly as many signals as there are waiters left
	int round = 0;
	for (;; ++round)
	{
		// settle: every coroutine is done or suspended in a wait without a timeout, and no scheduler has work left.
		// The first is evaluated in one step; nothing happening until the schedulers were idle keeps it true.
		int n = (int)w.ops.size();
		bool timed[MAXOPS] = {};
		for (int i = 0; i < n; ++i) timed[i] = is_timed(w.ops[i].kind);
		const bool* tp = timed;
		uint64_t p0 = 0; uint64_t* pp = &p0;
		if (!sim::park([tp, n, nc, pp] {
				int k = (int)sim::reg(R_DONE);
				for (int i = 0; i < n; ++i) if (sim::reg(R_WAITING + i)) { if (tp[i]) return false; ++k; }
				*pp = sim::progress();
				return k >= nc; }, QUIET))
			sim::fail("stuck_coroutine", "a timed wait never ended, or a coroutine is neither waiting nor finished");
		if (!x.S.quiesce(QUIET)) sim::fail("no_quiescence", "schedulers never become idle");
		if (sim::progress() != p0) { if (round > 400) sim::fail("harness", "no settling"); continue; }
		int waiting = 0;
		for (int i = 0; i < n; ++i) if (sim::reg(R_WAITING + i)) ++waiting;
		if (sim::reg(R_DONE) >= nc) break;
		sim::ev(E_MARK, round);
		int need[4] = {};
		std::vector<int> was;
		for (int i = 0; i < n; ++i) if (sim::reg(R_WAITING + i)) was.push_back(i);
		for (int i = 0; i < n; ++i) if (sim::reg(R_WAITING + i)) for (int e = 0; e < ne; ++e) if (w.ops[i].a >> e & 1) need[e]++;
		// one operation id per drained signal: 100 + running number
		for (int e = 0; e < ne; ++e)
			for (int k = 0; k < need[e]; ++k) poke(&x, 100 + (int)sim::reg(R_POSTED)++, O_SIGNAL, e);
		// every one of them comes back (it may already be waiting in a later operation)
		if (!sim::park([&was] { for (int i : was) if (sim::reg(R_WAITING + i)) return false; return true; }, QUIET))
			sim::fail("lost_wakeup", "%d waiters stay suspended although their events were signalled", waiting);
	}
	x.S.quiesce();
	x.S.stop();
}

// deadlines: whether a timeout must not come early (that is C10's matter, not C09's)
void check_(const Workload& w, const std::vector<Ev>& ev, bool deadlines)
{
	EM::Checker c;
	c.nev = (int)w.get("events");
	std::map<int64_t, size_t> idx;
	Deadlines dl;
	for (auto& e : ev)
	{
		if (e.kind == E_LOST && e.b) sim::fail("false_result", "wait_for on an event nobody can signal returned true");
		if (deadlines && e.kind == E_LOST) { if (int64_t n = dl.early(e.a, e.c)) sim::fail("early_timeout", "wait on a dropped event timed out %lld ns early", (long long)n); }
		if (e.kind == E_DEADLINE) dl.begin(e.a, e.b, e.c);
		if (e.kind == EV_CLOCK) dl.step(e.a, e.b);
		if (e.kind == E_INV)
		{
			EM::OpRec o; o.inv = e.seq; o.mask = (uint32_t)e.c; o.id = e.a;
			o.kind = e.b == O_SIGNAL ? EM::SIGNAL : e.b == O_SIGNAL_ALL ? EM::SIGNAL_ALL : e.b == O_RESET ? EM::RESET : EM::WAIT;
			idx[e.a] = c.ops.size();
			c.ops.push_back(o);
		}
		if (e.kind == E_MARK) { EM::OpRec o; o.kind = EM::MARK; o.inv = o.resp = e.seq; o.id = -1; c.ops.push_back(o); }
		if (e.kind == E_RESP)
		{
			auto& o = c.ops[idx[e.a]]; o.resp = e.seq; o.result = e.b != 0;
			if (o.kind == EM::WAIT && !o.result)
			{
				if (!is_timed(w.ops[e.a].kind)) sim::fail("false_result", "wait %lld without a timeout returned false", (long long)e.a);
				int64_t n = dl.early(e.a, e.c);
				if (deadlines && n) sim::fail("early_timeout", "wait %lld timed out %lld ns early", (long long)e.a, (long long)n);
			}
		}
	}
	if (c.ops.size() > 62) { sim::probe("history too long for the model"); return; }
	int init[4]; for (int e = 0; e < 4; ++e) init[e] = (int)(w.get("init") >> e & 1);
	bool ok = c.run(init);
	if (c.exhausted) { sim::probe("model search budget exhausted"); return; }
	if (!ok) sim::fail("not_linearizable", "no order of the %zu operations explains the results (counting event, FIFO waiters)", c.ops.size());
}
void check(const Workload& w, const std::vector<Ev>& ev) { check_(w, ev, true); }
void check_mix(const Workload& w, const std::vector<Ev>& ev) { check_(w, ev, false); }
sim::Register r0({ "event_basic", "C09", gen0, run, check, 1 });
sim::Register r3({ "event_mix", "C09", gen1, run, check_mix, 1 });
sim::Register r1({ "event_timed", "C10", gen1, run, check, 1 });
sim::Register r2({ "event_all", "C11", gen2, run, check, 1 });
}

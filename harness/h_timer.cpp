// C15: the timer manager.  Every timer's callback runs exactly once: not early, in deadline order, or as a
// cancellation (stop / clear / destruction), whatever threads add and stop it and whatever the clock does.
#include "common.h"
using namespace H;

namespace {
enum { E_ADD = 1, E_ADDED, E_CB, E_CBEND, E_STOP, E_STOPPED, E_CLEAR, E_CLEARED, E_BATCH, E_BATCHEND, E_JUMP, E_DESTROY };
enum { O_ADD_DUR, O_ADD_TP, O_STOP, O_STOP_PTR, O_CLEAR, O_JUMP, O_COUNT };
enum { CB_NONE, CB_ADD, CB_STOP_OTHER, CB_STOP_SELF, CB_CLEAR, CB_COUNT };
enum { MAXT = 64, R_PUB = R_USER, R_OPSDONE = R_USER + 200, R_SCHED_READY, R_GO_DOWN, R_DRAINED, R_BATCH, R_TP = R_USER + 300, R_CALLED = R_USER + 450 };

struct T { timer_handler h; detail::timer_target_ptr p; };
struct W
{
	const Workload* w;
	scheduler_t* sch = nullptr;
	T t[MAXT * 2];
	bool jumps = false;
	void publish(int id) { sim::hb_release(HB_USER + id); sim::reg(R_PUB + id) = 1; }
	bool have(int id) { if (!sim::reg(R_PUB + id)) return false; sim::hb_acquire(HB_USER + id); return true; }
};

// how: the ways a handle to the timer is come by
void do_stop(W* s, int id, bool ptr, int by, int how = 0, int other = 0)
{
	if (!s->have(id)) return;
	if (how >= 7)
	{
		// a handle that was reset, or moved to another one that was reset, stops nothing
		timer_handler h = s->t[id].h, g = h;
		if (how == 8) { timer_handler k; k = std::move(h); h = timer_handler(); k.reset(); g = k; }
		else { h.reset(); g.reset(); }
		if (!h.expired() || !g.expired()) sim::fail("not_expired", "an empty handle is not expired");
		if (h.stop() || g.stop()) sim::fail("stop_empty", "stop() of an empty handle reported success");
		return;
	}
	sim::ev(E_STOP, id, by);
	bool r;
	if (ptr && s->t[id].p) r = s->sch->timer()->stop(s->t[id].p);
	else
	{
		timer_handler h;
		if (how & 1 && other < MAXT && s->have(other)) h = s->t[other].h;		// assigned over a handle of another timer
		timer_handler c = s->t[id].h;
		if (how & 2) h = std::move(c);
		else if (how & 4) { timer_handler m(std::move(c)); timer_handler* mp = &m; m = *mp; h = m; }
		else h = c;
		r = h.stop();
		if (h.stop()) sim::fail("stop_twice", "stop() of timer %d reported success twice", id);
		if (!h.expired()) sim::fail("not_expired", "the handle that stopped timer %d is not expired", id);
	}
	sim::ev(E_STOPPED, id, r, by);
}
void do_clear(W* s)
{
	sim::ev(E_CLEAR);
	s->sch->timer()->clear();
	sim::ev(E_CLEARED);
}
void add_timer(W* s, int id, int64_t d, bool tp, int action, int64_t arg, bool keep_ptr)
{
	auto cb = [s, id, action, arg](bool canceled)
	{
		sim::reg(R_CALLED + id) = 1;
		sim::ev_wall(E_CB, id, 0, canceled + 2 * sim::reg(R_BATCH));
		if (!canceled || action == CB_STOP_OTHER || action == CB_STOP_SELF || action == CB_CLEAR)
			switch (action)
			{
			case CB_ADD: if (id < MAXT && !sim::reg(R_GO_DOWN)) add_timer(s, id + MAXT, arg, false, CB_NONE, 0, false); break;
			case CB_STOP_OTHER: if (!sim::reg(R_GO_DOWN)) do_stop(s, (int)arg, false, 2); break;
			case CB_STOP_SELF: if (!sim::reg(R_GO_DOWN)) do_stop(s, id, false, 2); break;
			case CB_CLEAR: if (!sim::reg(R_GO_DOWN)) { sim::probe("clear inside a timer callback"); do_clear(s); } break;
			}
		sim::ev(E_CBEND, id);
	};
	// the deadline is at least this; for durations the manager reads the clock itself, a little later
	int64_t dl = sim::ev_wall(E_ADD, id, d, tp);
	std::chrono::system_clock::time_point at{ std::chrono::nanoseconds(dl) };
	T& t = s->t[id];
	if (keep_ptr) { t.p = tp ? s->sch->timer()->add(at, cb) : s->sch->timer()->add(std::chrono::nanoseconds(d), cb); t.h = timer_handler(s->sch->timer(), t.p); }
	else t.h = tp ? s->sch->timer()->add_handler(at, cb) : s->sch->timer()->add_handler(std::chrono::nanoseconds(d), cb);
	sim::ev_wall(E_ADDED, id, d);
	sim::reg(R_TP + id) = std::max<int64_t>(1, sim::wall() + d);
	s->publish(id);
}
void do_op(W* s, int i)
{
	const Op& o = s->w->ops[i];
	switch (o.kind)
	{
	case O_ADD_DUR: case O_ADD_TP: add_timer(s, i, o.a, o.kind == O_ADD_TP, (int)(o.b % 10), o.c, o.b >= 10); break;
	case O_STOP: case O_STOP_PTR: do_stop(s, (int)o.a, o.kind == O_STOP_PTR, o.actor == 0 ? 1 : 0, (int)o.b, (int)o.c); break;
	case O_CLEAR: do_clear(s); break;
	case O_JUMP: sim::jump_wall(o.a, E_JUMP); break;
	}
}

// coroutines that never leave the scheduler idle; some steps take long
future_t<> busy(int64_t n, uint64_t z, int hi)
{
	for (; n > 0; --n)
	{
		z = z * 6364136223846793005ull + 1442695040888963407ull;
		if ((z >> 60) < 5) { int64_t d = 300; for (int64_t k = (int64_t)(z >> 40) % (hi * 2); k > 0; --k) d *= 3; sim::sleep_ns(d); }
		co_await yield();
	}
}

void gen(Rng& r, Workload& w)
{
	int nt = (int)r.in(1, 3), n = (int)r.in(1, 20);
	w.set("threads", nt);
	w.set("destroy", r.p(1, 4));
	bool jumps = r.p(1, 4), clears = r.p(1, 4), cbs = r.p(1, 2);
	int hi = (int)r.in(5, 11);
	int64_t g = coarse_clock(r, w);
	w.set("busy", r.p(1, 4) ? r.in(1, 60) : 0);
	w.set("pace", (int64_t)(r.next() >> 2));
	w.set("hi", hi);
	int64_t tick = r.p(1, 3) ? (int64_t)1'000'000 : 0;	// coarse deadlines: many timers due together
	for (int i = 0; i < n; ++i)
	{
		Op o; o.actor = (int)r.in(0, nt - 1);
		int k = (int)r.in(0, 99);
		if (k < 60 || i == 0)
		{
			o.kind = r.p(1, 3) ? O_ADD_TP : O_ADD_DUR;
			o.a = tick ? tick * r.in(0, 6) : r.p(1, 12) ? -log_uniform(r, 3, 9) : log_uniform(r, 3, hi);
			o.a = on_grain(r, g, o.a);
			int act = cbs && r.p(1, 3) ? (int)r.in(0, CB_COUNT - 1) : CB_NONE;
			if (act == CB_CLEAR && !clears) act = CB_NONE;
			o.b = act + 10 * r.p(1, 3);
			if (act == CB_ADD) o.c = r.p(1, 3) ? 0 : log_uniform(r, 3, 7);
			else if (act == CB_STOP_OTHER) o.c = r.in(0, n - 1);
		}
		else if (k < 88) { o.kind = r.p(1, 2) ? O_STOP : O_STOP_PTR; o.a = r.in(0, i ? i - 1 : 0); o.b = r.p(1, 2) ? 0 : r.in(1, 8); o.c = r.in(0, i ? i - 1 : 0); }
		else if (k < 94 && clears) { o.kind = O_CLEAR; o.actor = 0; }
		else if (jumps) { o.kind = O_JUMP; o.a = (r.p(1, 2) ? 1 : -1) * log_uniform(r, 5, 12); }
		else { o.kind = O_ADD_DUR; o.a = log_uniform(r, 3, hi); }
		w.ops.push_back(o);
	}
}

void run(const Workload& w)
{
	W s; s.w = &w;
	sim::clock_grain(w.get("grain"));
	for (auto& o : w.ops) if (o.kind == O_JUMP) s.jumps = true;
	int nt = (int)w.get("threads");
	bool destroy = w.get("destroy") != 0;
	W* sp = &s;
	std::vector<int> tids;
	tids.push_back(sim::spawn([sp, destroy, nt] {
		{
			local_scheduler_t ls;
			sp->sch = this_scheduler();
			sim::hb_release(HB_SCHED);
			sim::reg(R_SCHED_READY) = 1;
			if (sp->w->get("busy") && !destroy) *sp->sch + busy(sp->w->get("busy"), (uint64_t)sp->w->get("pace"), (int)sp->w->get("hi"));
			size_t next = 0;
			bool mine = false;
			for (;;)
			{
				while (next < sp->w->ops.size() && sp->w->ops[next].actor != 0) ++next;
				if (next < sp->w->ops.size() && (sim::choose(3, 2, 3, "scheduler thread starts its next operation before running a batch") == 0)) { do_op(sp, (int)next); ++next; }
				else if (next >= sp->w->ops.size() && !mine) { mine = true; sim::reg(R_OPSDONE)++; }
				sim::reg(R_BATCH)++;
				int64_t w0 = sim::wall();
				bool soon = false, due[MAXT * 2];
				for (int i = 0; i < MAXT * 2; ++i)
				{
					int64_t tp = sim::reg(R_CALLED + i) ? 0 : sim::reg(R_TP + i);
					due[i] = tp && tp <= w0;
					if (tp && tp <= w0 + 20'000'000) soon = true;
				}
				if (soon) sim::ev_quiet(E_BATCH, w0, sim::reg(R_BATCH));
				bool worked = sp->sch->run_one_batch();
				// everything that was added before this batch began and was due when it began has been called
				if (!sp->jumps)
					for (int i = 0; i < MAXT * 2; ++i)
						if (due[i] && !sim::reg(R_CALLED + i)) sim::fail("late", "timer %d was due before the batch began and was not called", i);
				if (sim::reg(R_OPSDONE) >= nt)
				{
					if (destroy) break;
					if (sp->sch->empty())
					{
						sim::reg(R_DRAINED) = 1;
						break;
					}
				}
				if (!worked) sim::idle();
			}
			sim::hb_acquire(HB_LEFT);
			sim::ev(E_DESTROY);
			sim::reg(R_GO_DOWN) = 1;
		}
		// after the manager is gone, stopping is a harmless no-op
		for (int i = 0; i < MAXT; ++i)
			if (sp->have(i))
			{
				sp->t[i].p.reset();
				if (sp->t[i].h.stop()) sim::fail("stop_after_destruction", "stop() of timer %d reported success after its manager was destroyed", i);
				if (!sp->t[i].h.expired()) sim::fail("not_expired", "timer %d not expired after its manager was destroyed", i);
			}
	}));
	sim::park([] { return sim::reg(R_SCHED_READY) != 0; });
	for (int t = 1; t < nt; ++t)
		tids.push_back(sim::spawn([t, sp] {
			sim::hb_acquire(HB_SCHED);
			for (size_t i = 0; i < sp->w->ops.size(); ++i)
				if (sp->w->ops[i].actor == t) do_op(sp, (int)i);
			sim::hb_release(HB_LEFT);
			sim::reg(R_OPSDONE)++;
		}));
	for (int t : tids) sim::join(t);
}

void check(const Workload& w, const std::vector<Ev>& ev)
{
	struct S { bool add = false; uint64_t add_seq = 0, added_seq = 0; int64_t tp = 0, tp_hi = 0; bool exact = false; int cb = 0; uint64_t cb_seq = 0; bool canceled = false; bool fired_ok = false; int stop_true = 0; uint64_t first_stop = ~0ull; uint64_t first_stop_start = ~0ull; };
	std::map<int64_t, S> t;
	uint64_t batch = 0; int64_t batch_no = -1, fired_no = -1;
	int clearing = 0; bool destroyed = false;
	int64_t wall_max = INT64_MIN;
	std::vector<int64_t> fired;
	uint64_t last_clear_start = 0;
	for (auto& e : ev)
	{
		switch (e.kind)
		{
		case E_BATCH: batch = e.seq; batch_no = e.b; wall_max = e.a; break;	// the clock is to be read in each batch
		case E_ADD: { auto& x = t[e.a]; x.add = true; x.add_seq = e.seq; x.tp = e.b; x.exact = e.c; x.tp_hi = INT64_MAX; break; }
		case E_ADDED: { auto& x = t[e.a]; x.added_seq = e.seq; x.tp_hi = x.exact ? x.tp : e.b; break; }
		case E_JUMP:
			wall_max = std::max(wall_max, e.b);
			// a timer being added right now may see the clock after the step
			for (auto& kv : t) if (!kv.second.added_seq && !kv.second.exact && e.a < 0) kv.second.tp += e.a;
			break;
		case E_STOP: { auto& x = t[e.a]; x.first_stop_start = std::min(x.first_stop_start, e.seq); break; }
		case E_STOPPED:
		{
			auto& x = t[e.a];
			if (e.b)
			{
				if (++x.stop_true > 1) sim::fail("stop_twice", "stop() of timer %lld reported success %d times", (long long)e.a, x.stop_true);
				if (x.cb && !x.canceled) sim::fail("stop_after_fire", "stop() of timer %lld reported success although it had fired", (long long)e.a);
			}
			break;
		}
		case E_CLEAR: if (!clearing++) last_clear_start = e.seq; break;
		case E_CLEARED:
			--clearing;
			for (auto& kv : t)
				if (!clearing && kv.second.added_seq && kv.second.added_seq < last_clear_start && !kv.second.cb && kv.second.first_stop_start > last_clear_start)
					sim::fail("clear_missed", "timer %lld still pending after clear()", (long long)kv.first);
			break;
		case E_DESTROY: destroyed = true; break;
		case E_CB:
		{
			auto& x = t[e.a];
			wall_max = std::max(wall_max, e.b);
			if (!x.add) sim::fail("ghost", "callback of timer %lld which was never added", (long long)e.a);
			if (++x.cb > 1) sim::fail("twice", "callback of timer %lld ran %d times", (long long)e.a, x.cb);
			x.cb_seq = e.seq; x.canceled = e.c & 1;
			if (!x.canceled)
			{
				if (wall_max < x.tp) sim::fail("early", "timer %lld fired %lld ns early", (long long)e.a, (long long)(x.tp - wall_max));
				if (destroyed) sim::fail("fired_at_destruction", "timer %lld reported an expiry while its manager was destroyed", (long long)e.a);
				if (clearing) sim::fail("fired_at_clear", "timer %lld reported an expiry during clear()", (long long)e.a);
				if (e.c / 2 != fired_no) { fired.clear(); fired_no = e.c / 2; }
				// deadline order among timers that were all pending when the batch began
				if (batch_no == fired_no) for (int64_t f : fired)
				{
					auto& y = t[f];
					if (x.added_seq && x.added_seq < batch && y.added_seq && y.added_seq < batch)
					{
						if (x.exact && y.exact && x.tp < y.tp) sim::fail("order", "timer %lld (deadline %lld) called after timer %lld (deadline %lld)", (long long)e.a, (long long)x.tp, (long long)f, (long long)y.tp);
						if (x.exact && y.exact && x.tp == y.tp && x.added_seq < y.add_seq) sim::fail("order_equal", "timers %lld and %lld have the same deadline and were called out of order", (long long)e.a, (long long)f);
					}
				}
				fired.push_back(e.a);
			}
			else if (!destroyed && !clearing)
			{
				if (x.first_stop_start > e.seq) sim::fail("ghost_cancel", "timer %lld was cancelled although nobody stopped or cleared it", (long long)e.a);
			}
			break;
		}
		}
	}
	for (auto& kv : t)
	{
		auto& x = kv.second;
		if (x.add && x.cb != 1) sim::fail("lost", "callback of timer %lld never ran", (long long)kv.first);
		if (x.stop_true && !x.canceled) sim::fail("stopped_but_fired", "stop() of timer %lld reported success but its callback saw an expiry", (long long)kv.first);
	}
	// a stop() on the scheduler's own thread of a pending, never stopped timer succeeds
	std::map<int64_t, bool> stopped;
	for (auto& e : ev)
	{
		if (e.kind == E_STOP) { auto& x = t[e.a]; if (e.b == 1 && x.cb_seq > e.seq && x.added_seq < e.seq && !stopped.count(e.a)) x.first_stop = e.seq; stopped[e.a] = true; }
		if (e.kind == E_STOPPED && e.c == 1 && !e.b && t[e.a].first_stop != ~0ull && t[e.a].cb_seq > e.seq)
		{
			// nobody else tried
			int n = 0; for (auto& q : ev) if (q.kind == E_STOP && q.a == e.a && q.seq < e.seq) ++n;
			if (n == 1) sim::fail("stop_failed", "stop() of the pending timer %lld reported failure", (long long)e.a);
		}
		// nor does one from any thread fail, when the timer expires in a later batch only
		if (e.kind == E_STOPPED && !e.b && t[e.a].cb_seq > e.seq && !t[e.a].canceled)
		{
			int n = 0; bool before = false, later = false;
			for (auto& q : ev)
			{
				if (q.kind == E_STOP && q.a == e.a && q.seq < e.seq) { ++n; before = t[e.a].added_seq && t[e.a].added_seq < q.seq; }
				if (q.kind == E_BATCH && q.seq > e.seq && q.seq < t[e.a].cb_seq) later = true;
			}
			if (n == 1 && before && later) sim::fail("stop_failed", "stop() of timer %lld, which expired in a later batch, reported failure", (long long)e.a);
		}
	}
}
sim::Register reg_({ "timer_manager", "C15", gen, run, check, 1 });
}

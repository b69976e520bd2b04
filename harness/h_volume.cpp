// The same guarantees at sizes beyond what the other families use: hundreds of waiters, signals, timers, callbacks or
// parallel tasks, thousands of ready tasks, deep nesting and recursion, long delays. Counters that overflow, lists that are
// cut off, buffers that are only right while they need not grow, ... show here. The programs are simple enough for exact oracles.
#include "common.h"
using namespace H;

namespace {
using Trk = Tracked<R_USER>;
enum { R_TRK = R_USER, R_A, R_B, R_HELD, R_DEPTH, R_ARR = R_USER + 16 };		// R_ARR: one register per item, at most 900
enum { E_BEGIN = 1, E_END, E_CB };

int volume(Rng& r, int most)
{
	return r.p(1, 40) ? (int)r.in(most / 4, most) : r.p(1, 6) ? (int)r.in(1, most / 8 > 60 ? 60 : most / 8 + 1) : (int)r.in(1, 12);
}
// now and then a delay of hours
int64_t delay(Rng& r, int hi) { return r.p(1, 40) ? log_uniform(r, 11, 13) : log_uniform(r, 2, hi); }
struct X { Scheds S; const Workload* w = nullptr; int n = 0; };
void settle(X& x, int64_t done, const char* what)
{
	if (!sim::park([done] { return sim::reg(R_DONE) >= done; }, QUIET)) sim::fail("incomplete", "%s: %lld of %lld ended", what, (long long)sim::reg(R_DONE), (long long)done);
	if (!x.S.quiesce()) sim::fail("no_quiescence", "schedulers never become idle");
}
// (a cancelled time-out keeps its scheduler from being empty until its deadline)
void finish(X& x, bool timeouts = false)
{
	if (!x.S.quiesce()) sim::fail("no_quiescence", "schedulers never become idle");
	if (sim::reg(R_TRK)) sim::fail("values_kept", "%lld objects of ended coroutines still exist", (long long)sim::reg(R_TRK));
	if (!timeouts) for (int i = 0; i < x.S.n; ++i) if (!x.S.sch[i]->empty()) sim::fail("not_empty", "a scheduler is not empty although everything ended");
	x.S.stop();
}

// ------------------------------------------------------------------ C01: many tasks
future_t<int> part(int i) { Trk t(i); co_await yield(); co_return i; }
future_t<> task_f(X* x, int i)
{
	Trk t(i);
	const Op& o = x->w->ops[i];
	sim::ev(E_BEGIN, i);
	for (int k = 0; k < o.a; ++k) co_await yield();
	if (o.kind == 2) { if (co_await part(i) != i) sim::fail("wrong_value", "task %d", i); }
	else if (o.kind == 3) co_await sleep_for(std::chrono::nanoseconds(o.b));
	sim::ev(E_END, i);
	sim::reg(R_DONE)++;
}
generator_t<int> task_g(X* x, int i)
{
	Trk t(i);
	const Op& o = x->w->ops[i];
	sim::ev(E_BEGIN, i);
	for (int k = 0; k < o.a; ++k) co_yield k;
	sim::ev(E_END, i);
	sim::reg(R_DONE)++;
	co_return 0;
}
void launch(X* x, int s, int i) { if (x->w->ops[i].kind == 1) *x->S.sch[s] + task_g(x, i); else *x->S.sch[s] + task_f(x, i); }
future_t<> starter(X* x, int s, int ns)
{
	for (size_t i = 0; i < x->w->ops.size(); ++i) if (x->w->ops[i].actor % ns == s) launch(x, s, (int)i);
	sim::reg(R_DONE)++;
	co_return;
}
void gen_tasks(Rng& r, Workload& w)
{
	int n = volume(r, 2500);
	w.set("scheds", r.in(1, 3)); w.set("inside", r.in(0, 1));
	int most = n > 500 ? 2 : 4;
	for (int i = 0; i < n; ++i) { Op o; o.actor = (int)r.in(0, 2); o.kind = (int)r.in(0, 3); o.a = r.in(0, most); o.b = delay(r, 7); w.ops.push_back(o); }
}
void run_tasks(const Workload& w)
{
	X x; x.w = &w;
	int ns = (int)w.get("scheds"), n = (int)w.ops.size();
	x.S.start(ns);
	if (w.get("inside")) for (int s = 0; s < ns; ++s) *x.S.sch[s] + starter(&x, s, ns);
	else for (int i = 0; i < n; ++i) launch(&x, w.ops[i].actor % ns, i);
	settle(x, n + (w.get("inside") ? ns : 0), "tasks");
	finish(x);
}
void check_tasks(const Workload& w, const std::vector<Ev>& ev)
{
	std::vector<int> b(w.ops.size()), e(w.ops.size());
	for (auto& q : ev)
		if (q.kind == E_BEGIN) { if (b[q.a]++) sim::fail("ran_twice", "task %lld began twice", (long long)q.a); }
		else if (q.kind == E_END) { if (e[q.a]++) sim::fail("ran_twice", "task %lld ended twice", (long long)q.a); }
	for (size_t i = 0; i < b.size(); ++i) if (!b[i] || !e[i]) sim::fail("lost_task", "task %zu of %zu never ran to its end", i, b.size());
}
sim::Register r1({ "volume_tasks", "C01", gen_tasks, run_tasks, check_tasks, 1 });

// ------------------------------------------------------------------ C03: the order of many ready tasks
future_t<> ord_f(X* x, int i)
{
	for (int k = 0;; ++k) { sim::ev(E_BEGIN, i, k); if (k >= x->w->ops[i].a) break; co_await yield(); }
	sim::reg(R_DONE)++;
}
generator_t<int> ord_g(X* x, int i)
{
	for (int k = 0;; ++k) { sim::ev(E_BEGIN, i, k); if (k >= x->w->ops[i].a) break; co_yield k; }
	sim::reg(R_DONE)++;
	co_return 0;
}
future_t<> ord_all(X* x)
{
	for (size_t i = 0; i < x->w->ops.size(); ++i) { if (x->w->ops[i].kind) *this_scheduler() + ord_g(x, (int)i); else *this_scheduler() + ord_f(x, (int)i); }
	sim::reg(R_DONE)++;
	co_return;
}
void gen_order(Rng& r, Workload& w)
{
	int n = volume(r, 2500), most = n > 500 ? 2 : 5, gens = r.p(1, 2);
	for (int i = 0; i < n; ++i) { Op o; o.kind = gens && r.p(1, 3); o.a = r.in(0, most); w.ops.push_back(o); }
}
void run_order(const Workload& w)
{
	X x; x.w = &w;
	x.S.start(1);
	*x.S.sch[0] + ord_all(&x);
	settle(x, (int)w.ops.size() + 1, "tasks");
	finish(x);
}
void check_order(const Workload& w, const std::vector<Ev>& ev)
{
	// round k: everyone who still goes on, in the order of their starts
	std::vector<std::pair<int64_t, int64_t>> want, got;
	for (int k = 0; k < 8; ++k) for (size_t i = 0; i < w.ops.size(); ++i) if (w.ops[i].a >= k) want.push_back({ (int64_t)i, k });
	for (auto& e : ev) if (e.kind == E_BEGIN) got.push_back({ e.a, e.b });
	if (got.size() != want.size()) sim::fail("count", "%zu tasks ran %zu times instead of %zu", w.ops.size(), got.size(), want.size());
	for (size_t i = 0; i < got.size(); ++i)
		if (got[i] != want[i]) sim::fail("order", "turn %zu belonged to task %lld (its turn %lld), task %lld ran (its turn %lld)", i, (long long)want[i].first, (long long)want[i].second, (long long)got[i].first, (long long)got[i].second);
}
sim::Register r3({ "volume_order", "C03", gen_order, run_order, check_order, 1 });

// ------------------------------------------------------------------ C02: many moves
// moves made far down a nest of coroutines take everything above along
future_t<> deep_mover(X* x, int i, int d, int to, state_base_t* root, task_t* tk)
{
	if (d > 0) co_await deep_mover(x, i, d - 1, to, root, tk);
	else { co_await via(x->S.sch[to]); sim::ev(EV_NOTE); }
	sim::ev(EV_NOTE);
	if (x->S.here() != to) sim::fail("wrong_scheduler", "task %d went on on scheduler %d instead of %d, %d levels up", i, x->S.here(), to, d);
	if (librf_root_state() != root || librf_current_scheduler() != x->S.sch[to]) sim::fail("root_state", "task %d has another root or scheduler %d levels up", i, d);
	if (d % 50 == 3) { co_await yield(); if (x->S.here() != to) sim::fail("wrong_scheduler", "task %d went on on scheduler %d instead of %d, %d levels up", i, x->S.here(), to, d); }
}
future_t<> mover(X* x, int i)
{
	const Op& o = x->w->ops[i];
	uint64_t z = (uint64_t)o.a;
	int ns = x->S.n;
	for (int k = 0; k < o.b; ++k, z = z * 6364136223846793005ull + 1442695040888963407ull)
	{
		int to = (int)((z >> 40) % ns), how = (int)((z >> 50) & 3);
		co_await via(x->S.sch[to]);
		sim::ev(EV_NOTE);
		if (x->S.here() != to) sim::fail("wrong_scheduler", "task %d is on scheduler %d after its move to %d", i, x->S.here(), to);
		if (how == 1) co_await yield();
		else if (how == 3 && k % 8 == 0 && o.c) { to = (int)((z >> 30) % ns); co_await deep_mover(x, i, (int)o.c, to, librf_root_state(), librf_current_task()); }
		else if (how == 2) { if (co_await part(i) != i) sim::fail("wrong_value", "task %d", i); }
		if (how && x->S.here() != to) sim::fail("wrong_scheduler", "task %d went on on scheduler %d instead of %d", i, x->S.here(), to);
	}
	sim::reg(R_DONE)++;
}
void gen_moves(Rng& r, Workload& w)
{
	int n = volume(r, 400);
	w.set("scheds", r.in(2, 5));
	for (int i = 0; i < n; ++i) { Op o; o.actor = (int)r.in(0, 4); o.a = (int64_t)(r.next() >> 1); o.b = n > 50 ? r.in(1, 3) : volume(r, 60); o.c = n > 50 ? 0 : volume(r, 250); w.ops.push_back(o); }
}
void run_moves(const Workload& w)
{
	X x; x.w = &w;
	int ns = (int)w.get("scheds"), n = (int)w.ops.size();
	x.S.start(ns);
	for (int i = 0; i < n; ++i) *x.S.sch[w.ops[i].actor % ns] + mover(&x, i);
	settle(x, n, "tasks");
	finish(x);
}
sim::Register r2({ "volume_moves", "C02", gen_moves, run_moves, nullptr, 1 });

// ------------------------------------------------------------------ C05: deep nesting
future_t<std::string> nest_s(X* x, int i, int d);
future_t<int64_t> nest(X* x, int i, int d)
{
	Trk t(d);
	const Op& o = x->w->ops[i];
	if (o.c >> (d % 60) & 1) co_await yield();
	if (d == 0)
	{
		if (o.kind) throw Err{ i };
		co_return 1;
	}
	int64_t v = 0;
	bool caught = false;
	try { if (d & 1) v = co_await nest(x, i, d - 1); else v = std::stoll((co_await nest_s(x, i, d - 1)).substr(7)); }
	catch (const Err& e)
	{
		if (!o.kind || e.id != i) sim::fail("wrong_exception", "chain %d level %d", i, d);
		if (d < o.b) throw;
		caught = true;
	}
	if (caught) { if (o.b > d || d - 1 >= (o.b > 1 ? o.b : 1)) sim::fail("exception_lost", "chain %d: the exception came to level %d instead of %lld", i, d, (long long)o.b); v = 1000; }
	co_return v + d;
}
future_t<std::string> nest_s(X* x, int i, int d)
{
	if (x->w->ops[i].c >> ((d + 7) % 60) & 1) co_await yield();
	int64_t v = co_await nest(x, i, d);
	co_return "result " + std::to_string(v);
}
future_t<> chain(X* x, int i)
{
	const Op& o = x->w->ops[i];
	int64_t d = o.a, v = -1, want = 0;
	bool thrown = false;
	try { v = co_await nest(x, i, (int)d); } catch (const Err& e) { thrown = true; if (e.id != i) sim::fail("wrong_exception", "chain %d", i); }
	int64_t at = o.b > 1 ? o.b : 1;		// the level that catches
	if (o.kind && at > d) { if (!thrown) sim::fail("exception_lost", "chain %d of depth %lld", i, (long long)d); }
	else
	{
		if (thrown) sim::fail("wrong_exception", "chain %d of depth %lld threw", i, (long long)d);
		if (o.kind) { want = 1000; for (int64_t k = at; k <= d; ++k) want += k; }
		else want = 1 + d * (d + 1) / 2;
		if (v != want) sim::fail("wrong_value", "chain %d of depth %lld returned %lld instead of %lld", i, (long long)d, (long long)v, (long long)want);
	}
	sim::reg(R_DONE)++;
}
void gen_nest(Rng& r, Workload& w)
{
	int n = (int)r.in(1, 4);
	w.set("scheds", r.in(1, 2));
	for (int i = 0; i < n; ++i) { Op o; o.actor = (int)r.in(0, 1); o.kind = r.p(1, 2); o.a = volume(r, 300); o.b = r.in(0, o.a + 2); o.c = (int64_t)((r.next() & (r.p(1, 2) ? r.next() : ~0ull)) >> 1); if (r.p(1, 4)) o.c = 0; w.ops.push_back(o); }
}
void run_nest(const Workload& w)
{
	X x; x.w = &w;
	int ns = (int)w.get("scheds"), n = (int)w.ops.size();
	x.S.start(ns);
	for (int i = 0; i < n; ++i) *x.S.sch[w.ops[i].actor % ns] + chain(&x, i);
	settle(x, n, "chains");
	finish(x);
}
sim::Register r5({ "volume_nest", "C05", gen_nest, run_nest, nullptr, 1 });

// ------------------------------------------------------------------ C04: many pending operations, completed in any order
struct XA : X { std::vector<std::unique_ptr<awaitable_t<int64_t>>> slot; std::vector<std::unique_ptr<awaitable_t<>>> vslot; };
future_t<> awaiter(XA* x, int i)
{
	const Op& o = x->w->ops[i];
	bool bad = false; int64_t v = -1;
	try
	{
		if (o.kind)
		{
			awaitable_t<> a;
			auto f = a.get_future();
			x->vslot[i] = std::make_unique<awaitable_t<>>(a);
			sim::hb_release(HB_USER + i % 200); sim::reg(R_ARR + i) = 1;
			for (int k = 0; k < o.b; ++k) co_await yield();
			co_await f;
			v = i;
		}
		else
		{
			awaitable_t<int64_t> a;
			auto f = a.get_future();
			x->slot[i] = std::make_unique<awaitable_t<int64_t>>(a);
			sim::hb_release(HB_USER + i % 200); sim::reg(R_ARR + i) = 1;
			for (int k = 0; k < o.b; ++k) co_await yield();
			v = co_await f;
		}
	}
	catch (const Err& e) { bad = true; v = e.id; }
	if (v != i || bad != (o.c & 1)) sim::fail("wrong_value", "operation %d received %lld (error: %d)", i, (long long)v, bad);
	if (x->S.here() != o.actor % x->S.n) sim::fail("wrong_scheduler", "operation %d", i);
	sim::ev(E_END, i);
	sim::reg(R_DONE)++;
}
void gen_await(Rng& r, Workload& w)
{
	int n = volume(r, 500);
	w.set("scheds", r.in(1, 3)); w.set("threads", r.in(1, 2)); w.set("mult", r.pick<int>({ 1, 7, 11, 13, 17, 1009 })); w.set("from", r.in(0, n));
	for (int i = 0; i < n; ++i) { Op o; o.actor = (int)r.in(0, 2); o.kind = r.p(1, 4); o.b = r.p(1, 3) ? r.in(1, 3) : 0; o.c = r.p(1, 4); w.ops.push_back(o); }
}
void run_await(const Workload& w)
{
	XA x; x.w = &w;
	int ns = (int)w.get("scheds"), nt = (int)w.get("threads"), n = (int)w.ops.size();
	x.slot.resize(n); x.vslot.resize(n);
	int64_t mult = w.get("mult"), from = w.get("from");
	x.S.start(ns);
	XA* xp = &x;
	std::vector<int> tids;
	for (int i = 0; i < n; ++i) *x.S.sch[w.ops[i].actor % ns] + awaiter(&x, i);
	for (int t = 0; t < nt; ++t)
		tids.push_back(sim::spawn([xp, n, nt, t, mult, from] {
			std::vector<bool> did(n);
			for (int k = 0; k < n; ++k)
			{
				int i = (int)((from + k * mult) % n);
				while (did[i]) i = (i + 1) % n;
				did[i] = true;
				if (i % nt != t) continue;
				sim::park([i] { return sim::reg(R_ARR + i) != 0; });
				sim::hb_acquire(HB_USER + i % 200);
				auto& o = xp->w->ops[i];
				if (o.kind) { auto p = std::move(xp->vslot[i]); if (o.c & 1) p->throw_exception(Err{ i }); else p->set_value(); }
				else { auto p = std::move(xp->slot[i]); if (o.c & 1) p->throw_exception(Err{ i }); else p->set_value(i); }
			}
		}));
	for (int t : tids) sim::join(t);
	settle(x, n, "operations");
	finish(x);
}
sim::Register r4({ "volume_await", "C04", gen_await, run_await, [](const Workload& w, const std::vector<Ev>& ev) {
	std::vector<int> e(w.ops.size());
	for (auto& q : ev) if (q.kind == E_END && e[q.a]++) sim::fail("twice", "operation %lld came back twice", (long long)q.a);
}, 1 });

// ------------------------------------------------------------------ C09: many signals, many waiters
struct XE : X { event_t e{ false }; };
future_t<> waits(XE* x, int i)
{
	for (int k = 0; k < x->w->ops[i].a; ++k)
	{
		if (!co_await x->e.wait()) sim::fail("false_result", "a wait without a timeout returned false");
		sim::ev(E_END, i, k);
	}
	sim::reg(R_DONE)++;
}
future_t<> drain(XE* x)
{
	while (co_await x->e.wait_for(std::chrono::nanoseconds(100))) if (++sim::reg(R_A) % 100 == 0) sim::ev(EV_NOTE);
	sim::reg(R_DONE)++;
}
void signal_one(XE* x, int k) { x->e.signal(); if (k % 100 == 99) sim::ev(EV_NOTE); }
void gen_event(Rng& r, Workload& w)
{
	int n = volume(r, 400), mode = (int)r.in(0, 2);
	w.set("mode", mode); w.set("scheds", mode == 0 ? r.in(1, 3) : 1); w.set("threads", r.in(1, 2));
	w.set("late", r.in(0, 1));				// the waits begin when all signals have been given
	w.set("extra", r.p(1, 2) ? 0 : r.p(1, 20) ? r.in(100, 900) : r.in(1, 9));
	if (n < 50 && r.p(1, 60)) w.set("extra", r.p(1, 2) ? r.in(32'760, 33'000) : r.in(65'530, 65'800));
	for (int i = 0; i < n; ++i) { Op o; o.actor = (int)r.in(0, 2); o.a = mode == 0 && n < 50 ? r.in(1, 5) : 1; w.ops.push_back(o); }
}
void run_event(const Workload& w)
{
	XE x; x.w = &w;
	int ns = (int)w.get("scheds"), nt = (int)w.get("threads"), n = (int)w.ops.size(), mode = (int)w.get("mode"), extra = (int)w.get("extra");
	int total = extra;
	for (auto& o : w.ops) total += (int)o.a;
	if (extra > 10'000) sim::allow_steps(4'000'000);
	x.S.start(ns);
	XE* xp = &x;
	auto start = [&] { for (int i = 0; i < n; ++i) *x.S.sch[w.ops[i].actor % ns] + waits(xp, i); };
	bool late = mode == 0 && w.get("late");
	if (!late) start();
	if (mode != 0) x.S.quiesce();
	if (mode == 2)
	{
		// everybody who waits now, nobody else
		x.e.signal_all();
		settle(x, n, "waiters after signal_all()");
		for (int k = 0; k < extra; ++k) signal_one(xp, k);
	}
	else if (mode == 1)
	{
		for (int k = 0; k < total; ++k) signal_one(xp, k);
		settle(x, n, "waiters");
	}
	else
	{
		std::vector<int> tids;
		for (int t = 0; t < nt; ++t)
			tids.push_back(sim::spawn([xp, t, nt, total] { for (int k = t; k < total; k += nt) signal_one(xp, k); }));
		for (int t : tids) sim::join(t);
		if (late) start();
		settle(x, n, "waiters");
	}
	*x.S.sch[0] + drain(xp);
	settle(x, n + 1, "drain");
	if (sim::reg(R_A) != extra) sim::fail("count", "%d signals, %d waits, then %lld signals were left instead of %d", total, total - extra, (long long)sim::reg(R_A), extra);
	x.e = event_t(std::adopt_lock);
	finish(x, true);
}
void check_event(const Workload& w, const std::vector<Ev>& ev)
{
	if (w.get("mode") == 0) return;
	int64_t next = 0;
	for (auto& e : ev) if (e.kind == E_END) { if (e.a != next) sim::fail("order", "waiter %lld was woken before waiter %lld, which arrived earlier", (long long)e.a, (long long)next); ++next; }
}
sim::Register r9({ "volume_event", "C09", gen_event, run_event, check_event, 1 });

// ------------------------------------------------------------------ C10: many timed waits
future_t<> timed(XE* x, int i)
{
	const Op& o = x->w->ops[i];
	int64_t t0 = sim::wall();
	bool r = co_await x->e.wait_for(std::chrono::nanoseconds(o.a));
	if (!r && sim::wall() < t0 + o.a) sim::fail("early_timeout", "wait %d timed out %lld ns early", i, (long long)(t0 + o.a - sim::wall()));
	if (x->S.here() != o.actor % x->S.n) sim::fail("wrong_scheduler", "wait %d", i);
	sim::ev(E_END, i, r);
	if (r) sim::reg(R_B)++;
	sim::reg(R_DONE)++;
}
void gen_timed(Rng& r, Workload& w)
{
	int n = volume(r, 300), hi = (int)r.in(4, 10);
	w.set("scheds", r.in(1, 3)); w.set("sig", r.p(1, 4) ? 0 : r.in(0, n)); w.set("pause", log_uniform(r, 2, 6));
	int64_t same = r.p(1, 3) ? delay(r, hi) : 0;
	for (int i = 0; i < n; ++i) { Op o; o.actor = (int)r.in(0, 2); o.a = same ? same : delay(r, hi); w.ops.push_back(o); }
}
void run_timed(const Workload& w)
{
	XE x; x.w = &w;
	int ns = (int)w.get("scheds"), n = (int)w.ops.size(), sig = (int)w.get("sig");
	x.S.start(ns);
	for (int i = 0; i < n; ++i) *x.S.sch[w.ops[i].actor % ns] + timed(&x, i);
	for (int k = 0; k < sig; ++k) { if (k % 8 == 0) sim::sleep_ns(w.get("pause")); x.e.signal(); }
	settle(x, n, "timed waits");
	*x.S.sch[0] + drain(&x);
	settle(x, n + 1, "drain");
	if (sim::reg(R_A) + sim::reg(R_B) != sig) sim::fail("count", "%d signals: %lld waits got one, %lld were left", sig, (long long)sim::reg(R_B), (long long)sim::reg(R_A));
	x.e = event_t(std::adopt_lock);
	finish(x, true);
}
sim::Register r10({ "volume_timed", "C10", gen_timed, run_timed, nullptr, 1 });

// ------------------------------------------------------------------ C11: all of many events
struct XL : X { std::vector<event_t> e; };
future_t<> wait_all_of(XL* x, int)
{
	std::vector<event_t> v = x->e;
	bool timed = x->w->get("timed");
	bool r = timed ? co_await event_t::wait_all_for(std::chrono::hours(20), v) : co_await event_t::wait_all(v);
	if (!r) sim::fail("false_result", "a wait for %zu events, all of them signalled, returned false", v.size());
	sim::reg(R_DONE)++;
}
future_t<> left_over(XL* x)
{
	for (auto& e : x->e) if (co_await e.wait_for(std::chrono::nanoseconds(100))) sim::reg(R_A)++;
	sim::reg(R_DONE)++;
}
future_t<> all_but_one(XL* x, int miss)
{
	std::vector<event_t> v = x->e;
	int64_t t0 = sim::wall();
	bool r = co_await event_t::wait_all_for(std::chrono::nanoseconds(50'000), v);
	if (r) sim::fail("false_result", "a wait for %zu events succeeded although event %d was never signalled", v.size(), miss);
	if (sim::wall() < t0 + 50'000) sim::fail("early_timeout", "wait_all_for ended early");
	sim::reg(R_DONE)++;
}
void gen_all(Rng& r, Workload& w)
{
	int n = volume(r, 120), m = (int)r.in(1, 4);
	w.set("scheds", r.in(1, 3)); w.set("events", n); w.set("threads", r.in(1, 2)); w.set("timed", r.in(0, 1)); w.set("miss", r.p(1, 3) ? r.in(0, n - 1) : -1);
	for (int i = 0; i < m; ++i) { Op o; o.actor = (int)r.in(0, 2); w.ops.push_back(o); }
	w.set("mult", r.pick<int>({ 1, 7, 11, 13, 17, 1009 }));
}
void run_all(const Workload& w)
{
	XL x; x.w = &w;
	int ns = (int)w.get("scheds"), nt = (int)w.get("threads"), ne = (int)w.get("events"), m = (int)w.ops.size(), miss = (int)w.get("miss");
	int64_t mult = w.get("mult");
	for (int i = 0; i < ne; ++i) x.e.emplace_back(false);
	x.S.start(ns);
	XL* xp = &x;
	if (miss >= 0)
	{
		for (int i = 0; i < ne; ++i) if (i != miss) x.e[i].signal();
		*x.S.sch[0] + all_but_one(xp, miss);
		settle(x, 1, "wait_all_for");
		for (int i = 0; i < ne; ++i) x.e[i].reset();
	}
	else
	{
		for (int i = 0; i < m; ++i) *x.S.sch[w.ops[i].actor % ns] + wait_all_of(xp, i);
		std::vector<int> tids;
		for (int t = 0; t < nt; ++t)
			tids.push_back(sim::spawn([xp, t, nt, m, ne, mult] {
				std::vector<bool> did(ne);
				for (int k = 0; k < ne; ++k)
				{
					int i = (int)(k * mult % ne);
					while (did[i]) i = (i + 1) % ne;
					did[i] = true;
					if (i % nt == t) for (int j = 0; j < m; ++j) xp->e[i].signal();
				}
			}));
		for (int t : tids) sim::join(t);
		settle(x, m, "wait_all");
	}
	int64_t d = sim::reg(R_DONE);
	*x.S.sch[0] + left_over(xp);
	settle(x, d + 1, "drain");
	if (sim::reg(R_A)) sim::fail("count", "%lld signals were left although every one had been taken", (long long)sim::reg(R_A));
	x.e.clear();
	finish(x, true);
}
sim::Register r11({ "volume_all", "C11", gen_all, run_all, nullptr, 1 });

// ------------------------------------------------------------------ C06, C07: large channels, many values, many users
struct XC : X { channel_t<int64_t> c; channel_t<std::string> s; explicit XC(size_t cap) : c(cap), s(cap) {} };
std::string text(int64_t v) { return "channel value " + std::to_string(v); }
future_t<> writer(XC* x, int i)
{
	const Op& o = x->w->ops[i];
	bool str = x->w->get("str");
	for (int k = 0; k < o.a; ++k)
	{
		int64_t v = i * 100000 + k;
		if (str) co_await (x->s << text(v)); else co_await (x->c << v);
		sim::ev(E_BEGIN, i, v);
		sim::reg(R_A)++;
	}
	sim::reg(R_DONE)++;
}
future_t<> reader(XC* x, int i)
{
	const Op& o = x->w->ops[i];
	bool str = x->w->get("str");
	for (int k = 0; k < o.a; ++k)
	{
		int64_t v;
		if (str) { std::string s = co_await x->s; v = s.size() > 14 ? std::stoll(s.substr(14)) : -1; }
		else v = co_await x->c;
		sim::ev(E_END, i, v);
		sim::reg(R_B)++;
	}
	sim::reg(R_DONE)++;
}
void gen_chan(Rng& r, Workload& w)
{
	int cap = r.p(1, 5) ? 0 : volume(r, 300), nw = (int)r.in(1, 3), nr = (int)r.in(1, 3), n = volume(r, 700);
	if (r.p(1, 30)) { nw = volume(r, 200); nr = volume(r, 200); n = nw + nr + (int)r.in(0, 50); }
	if (r.p(1, 60)) cap = (int)((r.p(2, 3) ? 1 << 16 : 1 << 17) + r.in(-3, 40));	// far more room than is ever used
	if (n < nw) n = nw; if (n < nr) n = nr;
	w.set("scheds", r.in(1, 3)); w.set("cap", cap); w.set("str", r.in(0, 1)); w.set("first", r.in(0, 2));
	for (int side = 0; side < 2; ++side)
	{
		int m = side ? nr : nw;
		for (int i = 0; i < m; ++i) { Op o; o.actor = (int)r.in(0, 2); o.kind = side; o.a = n / m + (i < n % m); w.ops.push_back(o); }
	}
}
void run_chan(const Workload& w)
{
	int ns = (int)w.get("scheds"), n = (int)w.ops.size(), first = (int)w.get("first"), cap = (int)w.get("cap");
	int64_t tw = 0, tr = 0; int kw = 0, kr = 0;
	for (auto& o : w.ops) { (o.kind ? tr : tw) += o.a; ++(o.kind ? kr : kw); }
	{
		XC x((size_t)cap); x.w = &w;
		x.S.start(ns);
		auto start = [&](int side) { for (int i = 0; i < n; ++i) if (w.ops[i].kind == side) { if (side) *x.S.sch[w.ops[i].actor % ns] + reader(&x, i); else *x.S.sch[w.ops[i].actor % ns] + writer(&x, i); } };
		if (first < 2)
		{
			start(first);
			x.S.quiesce();
			if (first == 0 && sim::reg(R_A) != std::min<int64_t>(tw, cap)) sim::fail("capacity", "%lld of %lld writes completed before any read (capacity %d)", (long long)sim::reg(R_A), (long long)tw, cap);
			if (first == 1 && sim::reg(R_B)) sim::fail("invented", "reads completed before any write");
			start(1 - first);
		}
		else { start(0); start(1); }
		if (tw == tr)
		{
			settle(x, n, "users of the channel");
			if (sim::reg(R_A) != tw || sim::reg(R_B) != tr) sim::fail("count", "%lld written, %lld read", (long long)sim::reg(R_A), (long long)sim::reg(R_B));
		}
		else { sim::probe("unbalanced after minimisation"); sim::expect_no_leak(false); sim::reg(R_TRK) = 0; x.S.quiesce(); sim::fail("harness", "unbalanced"); }
		finish(x);
	}
}
void check_chan(const Workload& w, const std::vector<Ev>& ev)
{
	std::map<int64_t, int> seen;
	std::map<std::pair<int64_t, int64_t>, int64_t> last;	// (reader, writer)
	for (auto& e : ev)
		if (e.kind == E_END)
		{
			int64_t wr = e.b / 100000, k = e.b % 100000;
			if (e.b < 0 || wr >= (int64_t)w.ops.size() || w.ops[wr].kind || k >= w.ops[wr].a) sim::fail("wrong_value", "reader %lld received %lld, which nobody wrote", (long long)e.a, (long long)e.b);
			if (seen[e.b]++) sim::fail("read_twice", "value %lld was read twice", (long long)e.b);
			auto it = last.find({ e.a, wr });
			if (it != last.end() && it->second > k) sim::fail("order", "reader %lld received value %lld of writer %lld after value %lld", (long long)e.a, (long long)k, (long long)wr, (long long)it->second);
			last[{ e.a, wr }] = k;
		}
}
sim::Register r6({ "volume_channel", "C06", gen_chan, run_chan, check_chan, 1 });
sim::Register r7({ "volume_channel", "C07", gen_chan, run_chan, check_chan, 1 });

// ------------------------------------------------------------------ C12: deep recursion
struct XM : X { std::vector<mutex_t> m; int64_t* data; };
void in(XM* x, int who, int64_t reg = R_HELD)
{
	if (sim::reg((int)reg)) sim::fail("not_exclusive", "%d entered while %lld is inside", who, (long long)sim::reg((int)reg) - 1);
	sim::reg((int)reg) = who + 1;
	sim::ev(EV_NOTE);
	++*x->data;
}
void out(XM* x, int who, int64_t reg = R_HELD)
{
	++*x->data;
	if (sim::reg((int)reg) != who + 1) sim::fail("not_exclusive", "%d lost its lock to %lld", who, (long long)sim::reg((int)reg) - 1);
	sim::reg((int)reg) = 0;
}
future_t<bool> again(XM* x, int how)
{
	// taken once more by a coroutine of the same task
	bool r = true;
	if (how == 0) co_await x->m[0].lock(adopt_manual_unlock);
	else if (how == 1) r = co_await x->m[0].try_lock();
	else r = co_await x->m[0].try_lock_for(std::chrono::microseconds(1));
	co_return r;
}
// taken again at (some) levels of a deep nest of coroutines; guards and manual unlocks mixed
future_t<> deeper(XM* x, int i, int d)
{
	const Op& o = x->w->ops[i];
	sim::ev(EV_NOTE);
	if (d <= 0) { if (o.b & 1) co_await yield(); co_return; }
	if (!x->m[0].is_locked()) sim::fail("unlocked_early", "the mutex is free although a coroutine %lld levels up has locked it", (long long)(o.a - d));
	switch (o.b >> d % 37 & 3)
	{
	case 0: co_await deeper(x, i, d - 1); break;
	case 1: { auto g = co_await x->m[0].lock(); co_await deeper(x, i, d - 1); break; }
	case 2: co_await x->m[0].lock(adopt_manual_unlock); co_await deeper(x, i, d - 1); co_await x->m[0].unlock(); break;
	case 3: if (!co_await x->m[0].try_lock()) sim::fail("owner_refused", "the owner could not lock its mutex again (%lld coroutines deep)", (long long)(o.a - d)); co_await deeper(x, i, d - 1); co_await x->m[0].unlock(); break;
	}
	if (d % 16 == 5) co_await yield();
}
future_t<> recursive(XM* x, int i)
{
	const Op& o = x->w->ops[i];
	co_await x->m[0].lock(adopt_manual_unlock);
	in(x, i);
	if (o.kind) co_await deeper(x, i, (int)o.a);
	else
	for (int d = 0; d < o.a; ++d)
	{
		if (!co_await again(x, (int)(o.b >> d % 40 & 1) + (int)(o.b >> (d + 5) % 40 & 1))) sim::fail("owner_refused", "the owner could not lock its mutex again (depth %d)", d + 1);
		if (d % 16 == 5) co_await yield();
	}
	if (!o.kind) for (int d = 0; d < o.a; ++d)
	{
		co_await x->m[0].unlock();
		if (d % 16 == 5) co_await yield();
		if (d % 64 == 1 && !x->m[0].is_locked()) sim::fail("unlocked_early", "the mutex is free although its owner has locked it %lld times more than unlocked", (long long)(o.a - d));
	}
	out(x, i);
	co_await x->m[0].unlock();
	sim::reg(R_DONE)++;
}
void gen_rec(Rng& r, Workload& w)
{
	int n = (int)r.in(1, 4);
	w.set("scheds", r.in(1, 3)); w.set("threads", r.in(0, 2));
	w.set("wide", r.p(1, 50) ? r.p(1, 2) ? r.in(32'760, 33'000) : r.in(65'530, 65'800) : 0);
	int deep = (int)r.in(0, n - 1);
	for (int i = 0; i < n; ++i) { Op o; o.actor = (int)r.in(0, 2); o.a = i == deep ? volume(r, 700) : r.in(0, 3); o.kind = r.p(1, 2); if (o.kind && o.a > 300) o.a = 300; o.b = (int64_t)(r.next() >> 8); w.ops.push_back(o); }
}
void run_rec(const Workload& w)
{
	XM x; x.w = &w;
	int ns = (int)w.get("scheds"), n = (int)w.ops.size(), nt = (int)w.get("threads");
	x.m.emplace_back();
	x.data = new int64_t(0);
	if (w.get("wide")) sim::allow_steps(4'000'000);
	x.S.start(ns);
	XM* xp = &x;
	for (int i = 0; i < n; ++i) *x.S.sch[w.ops[i].actor % ns] + recursive(&x, i);
	std::vector<int> tids;
	for (int t = 0; t < nt; ++t)
		tids.push_back(sim::spawn([xp, t, n, wide = (int)w.get("wide")] {
			int me = 0;
			// also recursively, by address
			for (int k = 0; k < 12; ++k)
			{
				if (!xp->m[0].try_lock(&me)) { sim::sleep_ns(200 + 300 * k); continue; }
				in(xp, 1000 + t);
				int deep = 0, to = k == 1 && t == 0 && wide ? wide : k * 3;
				for (; deep < to; ++deep)
				{
					if (!xp->m[0].try_lock(&me)) sim::fail("owner_refused", "a thread could not lock its mutex again (depth %d)", deep + 1);
					if (deep % 100 == 99) sim::ev(EV_NOTE);
				}
				for (; deep; --deep)
				{
					xp->m[0].unlock(&me);
					if (deep % 100 == 99) sim::ev(EV_NOTE);
				}
				out(xp, 1000 + t);
				xp->m[0].unlock(&me);
			}
		}));
	for (int t : tids) sim::join(t);
	settle(x, n, "lockers");
	if (x.m[0].is_locked()) sim::fail("still_locked", "the mutex is locked although everybody has unlocked it");
	x.m.clear();
	finish(x, true);
	delete x.data;
}
sim::Register r12({ "volume_recursion", "C12", gen_rec, run_rec, nullptr, 1 });

// ------------------------------------------------------------------ C13: many waiters for one mutex
future_t<> queued(XM* x, int i)
{
	const Op& o = x->w->ops[i];
	bool ok = true;
	int64_t w0 = sim::wall(), d = o.kind == 1 ? 36'000'000'000'000ll : o.b;
	sim::ev(E_BEGIN, i);
	if (o.kind == 0) co_await x->m[0].lock(adopt_manual_unlock);
	else if (o.kind == 1) ok = co_await x->m[0].try_lock_for(std::chrono::hours(10));
	else ok = co_await x->m[0].try_lock_for(std::chrono::nanoseconds(o.b));
	if (ok)
	{
		in(x, i);
		sim::ev(E_END, i);
		if (o.a == 1) co_await yield();
		else if (o.a > 1) co_await sleep_for(std::chrono::nanoseconds(o.a));
		out(x, i);
		co_await x->m[0].unlock();
	}
	else if (o.kind == 0 || sim::wall() < w0 + d) sim::fail("gave_up", "waiter %d was refused %lld ns too early", i, (long long)(w0 + d - sim::wall()));
	else sim::ev(E_CB, i);
	sim::reg(R_DONE)++;
}
void gen_queue(Rng& r, Workload& w)
{
	int n = volume(r, 350);
	bool timed = r.p(1, 3);
	w.set("scheds", r.p(1, 2) ? 1 : r.in(2, 3)); w.set("hold", r.p(1, 30) ? log_uniform(r, 11, 13) : log_uniform(r, 2, 6));
	for (int i = 0; i < n; ++i) { Op o; o.actor = (int)r.in(0, 2); o.kind = timed ? (int)r.in(0, 2) : 0; o.a = r.p(1, 2) ? 0 : r.p(1, 2) ? 1 : log_uniform(r, 2, 5); o.b = delay(r, 8); w.ops.push_back(o); }
}
void run_queue(const Workload& w)
{
	XM x; x.w = &w;
	int ns = (int)w.get("scheds"), n = (int)w.ops.size();
	x.m.emplace_back();
	x.data = new int64_t(0);
	int me = 0;
	x.S.start(ns);
	x.m[0].lock(&me);
	in(&x, 2000);
	for (int i = 0; i < n; ++i) *x.S.sch[w.ops[i].actor % ns] + queued(&x, i);
	sim::sleep_ns(w.get("hold"));
	if (!sim::park([n] { return (int)sim::ev_count(E_BEGIN) >= n; })) sim::fail("incomplete", "not every waiter began");
	out(&x, 2000);
	x.m[0].unlock(&me);
	settle(x, n, "waiters");
	if (x.m[0].is_locked()) sim::fail("still_locked", "the mutex is locked although everybody has unlocked it");
	x.m.clear();
	finish(x, true);
	delete x.data;
}
void check_queue(const Workload& w, const std::vector<Ev>& ev)
{
	// on one scheduler the lock goes round in the order of arrival
	std::vector<int64_t> begun, got;
	std::set<int64_t> refused;
	for (auto& e : ev) { if (e.kind == E_BEGIN) begun.push_back(e.a); if (e.kind == E_END) got.push_back(e.a); if (e.kind == E_CB) refused.insert(e.a); }
	if (w.get("scheds") != 1) return;
	size_t k = 0;
	for (int64_t g : got)
	{
		while (k < begun.size() && begun[k] != g)
		{
			if (!refused.count(begun[k])) sim::fail("order", "waiter %lld got the lock before waiter %lld, which arrived earlier", (long long)g, (long long)begun[k]);
			++k;
		}
		if (k == begun.size()) sim::fail("order", "waiter %lld got the lock out of turn", (long long)g);
		++k;
	}
}
sim::Register r13({ "volume_queue", "C13", gen_queue, run_queue, check_queue, 1 });

// ------------------------------------------------------------------ C14: six mutexes at once
int pickm(const Op& o, int k) { static const int step[4] = { 1, 5, 7, 11 }; return (int)((o.a + k * step[o.b & 3]) % 6); }		// all coprime to 6
future_t<> batcher(XM* x, int i)
{
	const Op& o = x->w->ops[i];
	auto& M = x->m;
#define P(k) M[pickm(o, k)]
	int n = o.kind == 0 ? 6 : 5;
	for (int64_t k = 0; k < o.c; ++k)
	{
		auto enter = [&] { for (int j = 0; j < n; ++j) in(x, i, R_HELD + 2 + pickm(o, j)); };
		auto leave = [&] { for (int j = 0; j < n; ++j) out(x, i, R_HELD + 2 + pickm(o, j)); };
		if (n == 6) { auto g = co_await mutex_t::lock(P(0), P(1), P(2), P(3), P(4), P(5)); enter(); if (k & 1) co_await yield(); leave(); }
		else { auto g = co_await mutex_t::lock(P(0), P(1), P(2), P(3), P(4)); enter(); if (k & 1) co_await yield(); leave(); }
	}
	sim::reg(R_DONE)++;
}
// Different orders back off and retry, and how long that takes grows exponentially with the number of contenders (a
// limitation of the algorithm, see DESIGN.md): many lockers therefore name the mutexes in one order, few in any order.
void gen_batch(Rng& r, Workload& w)
{
	bool many = r.p(1, 2);
	int n = many ? volume(r, 80) : (int)r.in(2, 6);
	int64_t a = r.in(0, 5), b = r.in(0, 3);
	w.set("scheds", r.in(1, 4)); w.set("threads", many ? 0 : r.in(0, 2));
	for (int i = 0; i < n; ++i)
	{
		Op o; o.actor = (int)r.in(0, 3); o.kind = (int)r.in(0, 1); o.a = many ? a : r.in(0, 5); o.b = many ? b : r.in(0, 3);
		o.c = many ? r.in(1, n > 20 ? 2 : 8) : r.in(1, 12);
		w.ops.push_back(o);
	}
}
void run_batch(const Workload& w)
{
	XM x; x.w = &w;
	int ns = (int)w.get("scheds"), n = (int)w.ops.size(), nt = (int)w.get("threads");
	for (int i = 0; i < 6; ++i) x.m.emplace_back();
	x.data = new int64_t(0);		// any two selections of five of six mutexes exclude each other
	x.S.start(ns);
	XM* xp = &x;
	for (int i = 0; i < n; ++i) *x.S.sch[w.ops[i].actor % ns] + batcher(&x, i);
	std::vector<int> tids;
	for (int t = 0; t < nt; ++t)
		tids.push_back(sim::spawn([xp, t] {
			Op o; o.a = t; o.b = t + 1;
			auto& M = xp->m;
			int me = 0;
			for (int k = 0; k < 4; ++k)
			{
				auto g = mutex_t::lock((void*)&me, P(0), P(1), P(2), P(3), P(4), P(5));
				for (int j = 0; j < 6; ++j) in(xp, 500 + t, R_HELD + 2 + j);
				for (int j = 0; j < 6; ++j) out(xp, 500 + t, R_HELD + 2 + j);
			}
		}));
	for (int t : tids) sim::join(t);
	settle(x, n, "lockers");
	x.m.clear();
	finish(x);
	delete x.data;
}
sim::Register r14({ "volume_batch", "C14", gen_batch, run_batch, nullptr, 1 });

// ------------------------------------------------------------------ C15: many timers
future_t<> add_timers(X* x)
{
	auto base = std::chrono::system_clock::now();
	auto tm = this_scheduler()->timer();
	size_t n = x->w->ops.size();
	std::vector<timer_handler> h(n);
	for (size_t i = 0; i < n; ++i)
	{
		auto tp = base + std::chrono::nanoseconds(x->w->ops[i].a);
		int64_t at = tp.time_since_epoch().count();
		h[i] = tm->add_handler(tp, [i, at](bool c) { if (!c && sim::wall() < at) sim::fail("early", "timer %zu fired %lld ns early", i, (long long)(at - sim::wall())); sim::ev(E_CB, i, c); sim::reg(R_A)++; });
		if (tm->empty() && sim::reg(R_A) < (int64_t)i + 1) sim::fail("not_pending", "the timer manager is empty although only %lld of %zu timers were called", (long long)sim::reg(R_A), i + 1);
		if (x->w->get("spread") && i % x->w->get("spread") == 0) co_await yield();
		// stopping an earlier one
		if (x->w->ops[i].kind) { size_t j = (size_t)x->w->ops[i].b; if (j <= i) { bool r = h[j].stop(); sim::ev(E_END, j, r); } }
	}
	sim::ev(E_BEGIN);
	sim::reg(R_DONE)++;
}
void gen_timers(Rng& r, Workload& w)
{
	int n = volume(r, 1500), hi = (int)r.in(4, 9), stops = r.p(1, 2) ? (int)r.in(1, 50) : 0;
	int64_t grid = r.p(1, 2) ? log_uniform(r, 3, 7) : 0;
	w.set("spread", r.p(1, 2) ? 0 : r.in(1, 200));
	w.set("first", 0);
	for (int i = 0; i < n; ++i)
	{
		Op o; o.a = grid ? grid * r.in(0, 9) : delay(r, hi);
		o.a += 1'000'000'000;			// nothing is due before all have been added
		o.kind = r.p(stops, 100); o.b = r.in(0, i);
		w.ops.push_back(o);
	}
}
void run_timers(const Workload& w)
{
	X x; x.w = &w;
	int n = (int)w.ops.size();
	x.S.start(1);
	*x.S.sch[0] + add_timers(&x);
	settle(x, 1, "adding timers");
	if (!sim::park([n] { return sim::reg(R_A) >= n; }, QUIET)) sim::fail("lost", "%lld of %d timers were called", (long long)sim::reg(R_A), n);
	finish(x);
}
void check_timers(const Workload& w, const std::vector<Ev>& ev)
{
	std::vector<int> cb(w.ops.size()), stop(w.ops.size());
	int64_t last = -1; bool all = false, ordered = true;
	for (auto& e : ev) if (e.kind == E_END && e.b) stop[e.a]++;
	for (auto& e : ev)
	{
		if (e.kind == E_BEGIN) all = true;
		if (e.kind != E_CB) continue;
		if (!all && !e.b) ordered = false;		// (slow: the first were due before the last had been added)
		if (cb[e.a]++) sim::fail("twice", "timer %lld was called twice", (long long)e.a);
		if ((e.b != 0) != (stop[e.a] != 0)) sim::fail("wrong_kind", "timer %lld: stopped %d times, its callback saw %s", (long long)e.a, stop[e.a], e.b ? "a cancellation" : "an expiry");
		if (stop[e.a] > 1) sim::fail("stop_twice", "stop() of timer %lld reported success twice", (long long)e.a);
		if (e.b) continue;
		if (ordered && last >= 0 && (w.ops[last].a > w.ops[e.a].a || (w.ops[last].a == w.ops[e.a].a && last > e.a)))
			sim::fail("order", "timer %lld (+%lld ns) was called after timer %lld (+%lld ns)", (long long)e.a, (long long)w.ops[e.a].a, (long long)last, (long long)w.ops[last].a);
		last = e.a;
	}
	for (size_t i = 0; i < cb.size(); ++i) if (!cb[i]) sim::fail("lost", "timer %zu was never called", i);
	// a pending timer can be stopped
	std::set<int64_t> tried;
	for (auto& e : ev)
		if (e.kind == E_CB) tried.insert(e.a);
		else if (e.kind == E_END && tried.insert(e.a).second && !e.b) sim::fail("stop_failed", "stop() of the pending timer %lld reported failure", (long long)e.a);
}
sim::Register r15({ "volume_timers", "C15", gen_timers, run_timers, check_timers, 1 });

// ------------------------------------------------------------------ C16: many sleepers
future_t<> sleeper(X* x, int i)
{
	const Op& o = x->w->ops[i];
	for (int k = 0; k < o.b; ++k)
	{
		int64_t tp = sim::wall() + o.a;
		if (o.kind == 0) co_await sleep_for(std::chrono::nanoseconds(o.a));
		else if (o.kind == 1) co_await sleep_until(std::chrono::system_clock::time_point(std::chrono::nanoseconds(tp)));
		else if (o.kind == 2) co_await std::chrono::nanoseconds(o.a);
		else { co_await sleep_for(std::chrono::milliseconds(o.a / 1'000'000)); tp = 0; }
		if (sim::wall() < tp) sim::fail("early", "sleeper %d woke %lld ns early", i, (long long)(tp - sim::wall()));
		if (x->S.here() != o.actor % x->S.n) sim::fail("wrong_scheduler", "sleeper %d woke on scheduler %d", i, x->S.here());
	}
	sim::ev(E_END, i);
	sim::reg(R_DONE)++;
}
void gen_sleep(Rng& r, Workload& w)
{
	int n = volume(r, 500), hi = (int)r.in(4, 11);
	w.set("scheds", r.in(1, 3));
	int64_t same = r.p(1, 3) ? delay(r, hi) : 0;
	for (int i = 0; i < n; ++i) { Op o; o.actor = (int)r.in(0, 2); o.kind = (int)r.in(0, 3); o.a = same ? same : delay(r, hi); o.b = n > 60 ? 1 : r.in(1, 3); w.ops.push_back(o); }
}
void run_sleep(const Workload& w)
{
	X x; x.w = &w;
	int ns = (int)w.get("scheds"), n = (int)w.ops.size();
	x.S.start(ns);
	for (int i = 0; i < n; ++i) *x.S.sch[w.ops[i].actor % ns] + sleeper(&x, i);
	settle(x, n, "sleepers");
	finish(x);
}
sim::Register r16({ "volume_sleep", "C16", gen_sleep, run_sleep, nullptr, 1 });

// ------------------------------------------------------------------ C17, C18: many parallel tasks
future_t<int64_t> member(X* x, int i)
{
	Trk t(i);
	const Op& o = x->w->ops[i];
	sim::ev(E_BEGIN, i);
	if (o.kind == 1) co_await yield();
	else if (o.kind == 2) co_await sleep_for(std::chrono::nanoseconds(o.a));
	else if (o.kind == 3) { for (int k = 0; k < o.b; ++k) co_await yield(); }
	else if (o.kind == 4) { co_await via(x->S.sch[o.b % x->S.n]); }
	sim::ev(E_END, i);
	sim::reg(R_A)++;
	co_return i * 3 + 1;
}
future_t<> member_v(X* x, int i) { co_await member(x, i); }
future_t<> all_of(X* x)
{
	int n = (int)x->w->ops.size();
	int home = x->S.here();
	if (x->w->get("void"))
	{
		std::vector<future_t<>> v;
		for (int i = 0; i < n; ++i) v.push_back(member_v(x, i));
		auto r = co_await when_all(v.begin(), v.end());
		if ((int)r.size() != n) sim::fail("wrong_size", "%zu results of %d tasks", r.size(), n);
	}
	else
	{
		std::vector<future_t<int64_t>> v;
		for (int i = 0; i < n; ++i) v.push_back(member(x, i));
		auto r = co_await when_all(v.begin(), v.end());
		if ((int)r.size() != n) sim::fail("wrong_size", "%zu results of %d tasks", r.size(), n);
		for (int i = 0; i < n; ++i) if (r[i] != i * 3 + 1) sim::fail("wrong_value", "result %d of %d is %lld", i, n, (long long)r[i]);
	}
	if (sim::reg(R_A) != n) sim::fail("too_soon", "when_all resumed with %lld of %d tasks ended", (long long)sim::reg(R_A), n);
	if (x->S.here() != home) sim::fail("wrong_scheduler", "when_all resumed on scheduler %d", x->S.here());
	sim::reg(R_DONE)++;
}
future_t<> any_of(X* x)
{
	int n = (int)x->w->ops.size();
	int home = x->S.here();
	if (x->w->get("void"))
	{
		std::vector<future_t<>> v;
		for (int i = 0; i < n; ++i) v.push_back(member_v(x, i));
		auto r = co_await when_any(v.begin(), v.end());
		if (r.first < 0 || r.first >= n || r.second.has_value()) sim::fail("wrong_index", "when_any of %d tasks reported %lld", n, (long long)r.first);
		sim::ev(E_CB, r.first);
	}
	else
	{
		std::vector<future_t<int64_t>> v;
		for (int i = 0; i < n; ++i) v.push_back(member(x, i));
		auto r = co_await when_any(v.begin(), v.end());
		if (r.first < 0 || r.first >= n) sim::fail("wrong_index", "when_any of %d tasks reported %lld", n, (long long)r.first);
		if (any_cast<int64_t>(r.second) != r.first * 3 + 1) sim::fail("wrong_value", "when_any: result of task %lld is %lld", (long long)r.first, (long long)any_cast<int64_t>(r.second));
		sim::ev(E_CB, r.first);
	}
	if (x->S.here() != home) sim::fail("wrong_scheduler", "when_any resumed on scheduler %d", x->S.here());
	sim::reg(R_DONE)++;
}
void gen_when(Rng& r, Workload& w)
{
	int n = volume(r, 400);
	w.set("scheds", r.in(1, 3)); w.set("void", r.p(1, 3));
	int easy = r.p(1, 2) ? (int)r.in(0, 4) : -1;		// mostly this kind
	for (int i = 0; i < n; ++i) { Op o; o.kind = easy >= 0 && r.p(9, 10) ? easy : (int)r.in(0, 4); o.a = delay(r, 7); o.b = r.in(0, 5); w.ops.push_back(o); }
}
template<bool ANY> void run_when(const Workload& w)
{
	X x; x.w = &w;
	int ns = (int)w.get("scheds"), n = (int)w.ops.size();
	x.S.start(ns);
	if (ANY) *x.S.sch[0] + any_of(&x); else *x.S.sch[0] + all_of(&x);
	settle(x, 1, "combinator");
	if (!sim::park([n] { return sim::reg(R_A) >= n; }, QUIET)) sim::fail("incomplete", "%lld of %d tasks ended", (long long)sim::reg(R_A), n);
	finish(x);
}
void check_when(const Workload& w, const std::vector<Ev>& ev)
{
	std::vector<int> b(w.ops.size()), e(w.ops.size());
	for (auto& q : ev)
		if (q.kind == E_BEGIN) { if (b[q.a]++) sim::fail("ran_twice", "task %lld began twice", (long long)q.a); }
		else if (q.kind == E_END) e[q.a]++;
		else if (q.kind == E_CB && !e[q.a]) sim::fail("not_finished", "when_any reported task %lld, which has not ended", (long long)q.a);
}
sim::Register r17({ "volume_when_all", "C17", gen_when, run_when<false>, check_when, 1 });
sim::Register r18({ "volume_when_any", "C18", gen_when, run_when<true>, check_when, 1 });

// ------------------------------------------------------------------ C19: many callbacks of one stop source
struct Note { int i; void operator()() { sim::ev(E_CB, i); } };
void gen_stop(Rng& r, Workload& w)
{
	int n = volume(r, 400);
	w.set("threads", r.in(1, 3));
	w.set("orphan", r.p(1, 3) ? r.p(1, 4) ? r.in(2, 1500) : r.in(1, 300) : 0);
	for (int i = 0; i < n; ++i) { Op o; o.actor = (int)r.in(0, 2); o.kind = r.p(1, 3); o.a = r.in(0, n - 1); w.ops.push_back(o); }
}
void run_stop(const Workload& w)
{
	int nt = (int)w.get("threads"), n = (int)w.ops.size();
	stop_source src;
	std::vector<std::unique_ptr<stop_callback<Note>>> cb(n);
	std::vector<stop_token> tok;
	const Workload* wp = &w;
	for (int i = 0; i < n; ++i) tok.push_back(src.get_token());
	auto* cbp = &cb; auto* tp = &tok; auto* sp = &src;
	std::vector<int> tids;
	// every thread registers its callbacks, and takes some of them back
	for (int t = 0; t < nt; ++t)
		tids.push_back(sim::spawn([=] {
			for (int i = 0; i < n; ++i)
				if (wp->ops[i].actor % nt == t)
				{
					(*cbp)[i] = std::make_unique<stop_callback<Note>>((*tp)[i], Note{ i });
					if (wp->ops[i].kind) { int j = (int)wp->ops[i].a; if (j <= i && wp->ops[j].actor % nt == t) { sim::ev(E_END, j); (*cbp)[j].reset(); } }
				}
		}));
	for (int t : tids) sim::join(t);
	tids.clear();
	if (w.get("orphan"))
	{
		// sources come and go in great number; with the last of them the possibility of a stop goes, whoever still looks
		std::vector<stop_source> more((size_t)w.get("orphan"), src);
		for (int i = 0; i < n; i += 1 + n / 8) if (!tok[i].stop_possible()) sim::fail("not_possible", "a stop is not possible although %zu sources exist", more.size() + 1);
		for (int t = 0; t < nt; ++t)
		{
			auto* mp = &more;
			tids.push_back(sim::spawn([=] { for (size_t i = t; i < mp->size(); i += nt) { stop_token x = (*mp)[i].get_token(); stop_source y = (*mp)[i]; (*mp)[i] = stop_source{ nostopstate }; } }));
		}
		for (int t : tids) sim::join(t);
		if (!tok[0].stop_possible() || tok[0].stop_requested()) sim::fail("not_possible", "a stop is not possible although one source exists");
		src = stop_source{ nostopstate };
		for (int i = 0; i < n; ++i) if (tok[i].stop_possible() || tok[i].stop_requested()) sim::fail("still_possible", "token %d of %d: a stop is possible although no source exists", i, n);
		return;
	}
	for (int t = 0; t < nt; ++t) tids.push_back(sim::spawn([=] { stop_source s = *sp; if (s.request_stop()) sim::reg(R_A)++; }));
	for (int t : tids) sim::join(t);
	if (sim::reg(R_A) != 1) sim::fail("winners", "%lld of %d requests reported that they made the stop", (long long)sim::reg(R_A), nt);
	for (int i = 0; i < n; ++i) if (!tok[i].stop_requested()) sim::fail("not_seen", "token %d does not see the stop", i);
}
void check_stop(const Workload& w, const std::vector<Ev>& ev)
{
	std::vector<int> cb(w.ops.size()), gone(w.ops.size());
	for (auto& e : ev)
		if (e.kind == E_CB) { if (cb[e.a]++) sim::fail("ran_twice", "callback %lld ran twice", (long long)e.a); }
		else if (e.kind == E_END) gone[e.a] = 1;
	for (size_t i = 0; i < cb.size(); ++i) if (w.get("orphan") ? cb[i] : cb[i] == gone[i]) sim::fail(cb[i] ? "ran_after_deregistration" : "never_ran", "callback %zu of %zu", i, cb.size());
}
sim::Register r19({ "volume_stop", "C19", gen_stop, run_stop, check_stop, 1 });

// ------------------------------------------------------------------ C20: many stop-aware tasks and timers
future_t<> stoppable(X* x, int i)
{
	const Op& o = x->w->ops[i];
	if (o.kind == 2)
	{
		(void)this_scheduler()->timer()->add(std::chrono::hours(5 + o.a % 3), [i](bool c) { sim::ev(E_CB, i, c); sim::reg(R_DONE)++; });
		sim::reg(R_A)++;
		co_return;
	}
	if (o.kind == 3)
	{
		bool c = false;
		sim::reg(R_A)++;
		try { co_await sleep_for(std::chrono::hours(5 + o.a % 3)); } catch (const canceled_exception&) { c = true; }
		sim::ev(E_CB, i, c);
		sim::reg(R_DONE)++;
		co_return;
	}
	task_t* t = co_await get_current_task();
	stop_token tk = t->get_stop_token();
	if (o.kind == 0)
	{
		awaitable_t<> a;
		auto f = a.get_future();
		stop_callback<std::function<void()>> cb(tk, [a] { a.set_value(); });
		sim::reg(R_A)++;
		co_await f;
	}
	else { sim::reg(R_A)++; while (!tk.stop_requested()) { try { co_await sleep_for(std::chrono::microseconds(100)); } catch (const canceled_exception&) {} } }
	sim::ev(E_CB, i, tk.stop_requested());
	sim::reg(R_DONE)++;
}
future_t<> stops_all() { this_scheduler()->request_stop_all_if_possible(); sim::reg(R_B)++; co_return; }
void gen_stopall(Rng& r, Workload& w)
{
	int n = volume(r, 400);
	w.set("scheds", r.in(1, 2));
	bool poll = n < 40;
	for (int i = 0; i < n; ++i) { Op o; o.actor = (int)r.in(0, 1); o.kind = r.pick<int>({ 0, poll ? 1 : 0, 2, 3 }); o.a = r.in(0, 9); w.ops.push_back(o); }
}
void run_stopall(const Workload& w)
{
	X x; x.w = &w;
	int ns = (int)w.get("scheds"), n = (int)w.ops.size();
	x.S.start(ns);
	for (int i = 0; i < n; ++i) *x.S.sch[w.ops[i].actor % ns] + stoppable(&x, i);
	if (!sim::park([n] { return sim::reg(R_A) >= n; })) sim::fail("incomplete", "not every task began");
	sim::sleep_ns(10'000);
	// (a sleep without a scheduler argument adds its timer one batch later; polling tasks are woken by the cancellation, and look)
	for (int k = 0; k < 3; ++k)
	{
		int64_t b = sim::reg(R_B);
		for (int s = 0; s < ns; ++s) *x.S.sch[s] + stops_all();
		sim::park([b, ns] { return sim::reg(R_B) >= b + ns; });
	}
	settle(x, n, "stopped tasks and timers");
	finish(x);
}
void check_stopall(const Workload&, const std::vector<Ev>& ev)
{
	for (auto& e : ev) if (e.kind == E_CB && !e.b) sim::fail("not_cancelled", "task or timer %lld went on to its deadline", (long long)e.a);
}
sim::Register r20({ "volume_stop_all", "C20", gen_stopall, run_stopall, check_stopall, 1 });
}

// C20: request_stop_all_if_possible(): reaches every stop-aware task and every timer of the scheduler, nothing else.
#include "common.h"
using namespace H;

namespace {
enum { E_AWARE = 1, E_WAIT, E_ENDED, E_CB, E_ALL, E_ALLR, E_SLEEP, E_WOKE, E_REQ, E_REQD, E_TMADD, E_TM, E_EXTRA, E_EXTRAEND };
enum { V_CB, V_POLL, V_THREAD, V_SLEEP, V_PLAIN, V_TIMER, V_COUNT };
enum { A_NONE, A_START, A_REQ_OTHER, A_NESTED, A_TIMER, A_SELF, A_COUNT };
enum { O_VICTIM, O_STOPALL, O_REQ };
enum { MAXV = 32, R_WAITING = R_USER, R_ENDED, R_STOPPERS, R_EXTRA, R_EXTRAD, R_QUIT, R_SRC = R_USER + 50, R_TOK = R_USER + 100 };

struct W
{
	const Workload* w;
	Scheds S;
	stop_source src[MAXV] = {};
	stop_token tok[MAXV];
	awaitable_t<int> done[MAXV];		// V_PLAIN and V_THREAD wait for this
	std::optional<future_t<int>> fut[MAXV];
	std::unique_ptr<stop_callback<std::function<void()>>> cb[MAXV * 2];
	W() { for (int i = 0; i < MAXV; ++i) fut[i] = done[i].get_future(); }
};
void stop_all(W* x, int s, int who)
{
	int64_t q = (int64_t)sim::ev_count(E_ALL);
	sim::ev_wall(E_ALL, s, 0, q);
	x->S.sch[s]->request_stop_all_if_possible();
	sim::ev(E_ALLR, s, who, q);
}
future_t<> extra(W* x, int i) { sim::ev(E_EXTRA, i); co_await yield(); sim::ev(E_EXTRAEND, i); sim::reg(R_EXTRAD)++; }
void request(W* x, int i, int j)
{
	if (j >= MAXV || !sim::reg(R_SRC + j)) return;
	sim::hb_acquire(HB_USER + j);
	stop_source s = x->src[j];
	sim::ev(E_REQ, j, i);
	bool r = s.request_stop();
	sim::ev(E_REQD, j, r, i);
	if (!s.stop_requested()) sim::fail("not_stopped", "task %d is not stopped after request_stop()", j);
}
void on_stop(W* x, int i, int act, int arg, awaitable_t<int> a)
{
	sim::ev(E_CB, i);
	int s = x->S.here();
	switch (act)
	{
	case A_START: sim::reg(R_EXTRA)++; *x->S.sch[arg % x->S.n] + extra(x, i); break;
	case A_REQ_OTHER: request(x, i, arg); break;
	case A_NESTED: if (s >= 0) stop_all(x, s, 1); break;
	case A_TIMER: if (s >= 0) { sim::ev(E_TMADD, MAXV + i); (void)x->S.sch[s]->timer()->add(std::chrono::microseconds(5), [i](bool c) { sim::ev(E_TM, MAXV + i, c); }); } break;
	case A_SELF: { auto c = std::move(x->cb[i]); c.reset(); break; }
	}
	a.set_value(i + 1);
}
// a victim's op.c: bits 0-1 yields first, 4 starts on scheduler 1, 5 moves to the other scheduler, 6 moves (again) once it has
// its stop source, 7 does these things from a nested coroutine
enum { C_MOVE = 32, C_MOVE_AWARE = 64, C_NESTED = 128 };
int start_of(const Op& o) { return (int)(o.c >> 4 & 1); }
int moved_of(const Op& o) { return start_of(o) ^ (o.c & C_MOVE ? 1 : 0); }
int home_of(const Op& o) { return moved_of(o) ^ (o.c & C_MOVE_AWARE ? 1 : 0); }
future_t<> nested_via(W* x, int s) { co_await via(*x->S.sch[s]); }
future_t<> move_on(W* x, const Op& o)
{
	if (x->S.n < 2) co_return;
	int s = 1 - x->S.here();
	if (o.c & C_NESTED) co_await nested_via(x, s); else co_await via(x->S.sch[s]);
	if (x->S.here() != s) sim::fail("wrong_scheduler", "a task that moved to scheduler %d is on %d", s, x->S.here());
}
future_t<task_t*> nested_task() { co_return co_await get_current_task(); }
future_t<> victim(W* x, int i)
{
	const Op& o = x->w->ops[i];
	int kind = (int)o.a, act = (int)(o.b & 15), arg = (int)(o.b >> 4);
	for (int k = 0; k < (o.c & 3); ++k) co_await yield();
	if (o.c & C_MOVE) co_await move_on(x, o);
	if ((o.c & C_MOVE_AWARE) && kind > V_THREAD) co_await move_on(x, o);
	switch (kind)
	{
	case V_CB: case V_POLL: case V_THREAD:
	{
		task_t* t;
		if (o.c & C_NESTED) t = co_await nested_task(); else t = co_await get_current_task();
		stop_token tk = t->get_stop_token();
		sim::ev(E_AWARE, i);
		x->src[i] = t->get_stop_source();
		if (o.c & C_MOVE_AWARE)
		{
			co_await move_on(x, o);
			task_t* u;
			if (o.c & C_NESTED) u = co_await nested_task(); else u = co_await get_current_task();
			if (!(x->src[i] == u->get_stop_source())) sim::fail("other_source", "task %d has another stop source after moving to another scheduler", i);
		}
		if (kind == V_CB)
		{
			awaitable_t<int> a;
			auto f = a.get_future();
			W* y = x;
			x->cb[i] = std::make_unique<stop_callback<std::function<void()>>>(tk, std::function<void()>([y, i, act, arg, a] { auto b = a; W* z = y; int j = i, p = act, q = arg; on_stop(z, j, p, q, b); }));
			sim::ev(E_WAIT, i);
			sim::hb_release(HB_USER + i); sim::reg(R_SRC + i) = 1;
			sim::reg(R_WAITING)++;
			int v = co_await f;
			if (v != i + 1) sim::fail("wrong_value", "task %d got %d", i, v);
			x->cb[i].reset();
		}
		else if (kind == V_POLL)
		{
			sim::hb_release(HB_USER + i); sim::reg(R_SRC + i) = 1;
			sim::reg(R_WAITING)++;
			while (!tk.stop_requested()) co_await yield();
		}
		else
		{
			x->tok[i] = tk;
			sim::hb_release(HB_USER + i); sim::reg(R_SRC + i) = 1;
			sim::reg(R_TOK + i) = 1;
			sim::reg(R_WAITING)++;
			try { co_await *x->fut[i]; sim::fail("wrong_value", "task %d was completed without a stop", i); }
			catch (const canceled_exception& e) { if (e._error != error_code::stop_requested) sim::fail("wrong_value", "task %d", i); }
		}
		sim::ev(E_ENDED, i, tk.stop_requested());
		if (!tk.stop_requested()) sim::fail("not_stopped", "task %d went on although no stop was requested", i);
		break;
	}
	case V_SLEEP:
	{
		auto d = std::chrono::nanoseconds((int64_t)1000 << (o.b & 31));
		bool c = false;
		auto tp = std::chrono::system_clock::now() + d;
		auto f = sleep_until(tp, *x->S.sch[x->S.here()]);
		sim::ev(E_SLEEP, i, tp.time_since_epoch().count());
		sim::reg(R_WAITING)++;
		try { co_await f; } catch (const canceled_exception& e) { c = true; if (e._error != error_code::timer_canceled) sim::fail("wrong_value", "task %d", i); }
		sim::ev(E_WOKE, i, c);
		break;
	}
	case V_PLAIN:
	{
		sim::reg(R_WAITING)++;
		int v = co_await *x->fut[i];
		if (v != i + 100) sim::fail("wrong_value", "task %d got %d", i, v);
		task_t* t = co_await get_current_task();
		if (t->request_stop_if_possible()) sim::fail("stop_of_nothing", "task %d never asked for a stop source, but has one", i);
		if (t->get_stop_token().stop_requested()) sim::fail("not_aware", "task %d never asked for a stop source, but was stopped", i);
		sim::ev(E_ENDED, i);
		break;
	}
	case V_TIMER:
	{
		int s = x->S.here();
		sim::ev(E_TMADD, i);
		// a timer's callback stops everything too
		(void)x->S.sch[s]->timer()->add(std::chrono::nanoseconds((int64_t)1000 << (o.b & 31)), [x, i, s, act](bool c) { sim::ev(E_TM, i, c); if (!c && s == 0 && (act & 1)) stop_all(x, s, 2); });
		sim::reg(R_WAITING)++;
		break;
	}
	}
	sim::reg(R_ENDED)++;
}
future_t<> stopper(W* x, int i)
{
	const Op& o = x->w->ops[i];
	for (int k = 0; k < (o.c & 7); ++k) co_await yield();
	if (o.c & 8) { try { co_await sleep_for(std::chrono::microseconds(o.b)); } catch (...) {} }
	stop_all(x, (int)o.a, 0);
	sim::reg(R_STOPPERS)++;
}
future_t<> final_stop(W* x, int s) { stop_all(x, s, 3); co_return; }

void gen(Rng& r, Workload& w)
{
	int ns = (int)r.in(1, 2), nt = (int)r.in(1, 2), n = (int)r.in(1, 12);
	w.set("scheds", ns); w.set("threads", nt);
	for (int i = 0; i < n; ++i)
	{
		Op o; o.actor = (int)r.in(0, nt - 1);
		int k = (int)r.in(0, 9);
		if (k < 6)
		{
			o.kind = O_VICTIM; o.a = r.in(0, V_COUNT - 1);
			int act = r.p(1, 2) ? A_NONE : (int)r.in(0, A_COUNT - 1);
			o.b = o.a == V_SLEEP || o.a == V_TIMER ? (o.a == V_TIMER ? r.in(0, 7) << 1 | r.in(0, 1) : r.in(0, 20)) : act | r.in(0, n - 1) << 4;
			o.c = r.in(0, 3) | (ns > 1 && r.p(1, 4)) << 4 | (r.p(1, 4) ? C_NESTED : 0);
			if (ns > 1) o.c |= (r.p(1, 5) ? C_MOVE : 0) | (r.p(1, 4) ? C_MOVE_AWARE : 0);
		}
		else if (k < 8) { o.kind = O_STOPALL; o.a = ns > 1 && r.p(1, 4); o.b = r.in(1, 50); o.c = r.in(0, 15); }
		else { o.kind = O_REQ; o.a = r.in(0, n - 1); o.b = r.p(1, 2) ? log_uniform(r, 2, 6) : 0; }
		w.ops.push_back(o);
	}
}
void run(const Workload& w)
{
	int ns = (int)w.get("scheds"), nt = (int)w.get("threads"), nv = 0, nst = 0;
	W x; x.w = &w;
	for (auto& o : w.ops) { if (o.kind == O_VICTIM) ++nv; if (o.kind == O_STOPALL) ++nst; }
	x.S.start(ns);
	W* xp = &x;
	std::vector<int> tids;
	for (int t = 0; t < nt; ++t)
		tids.push_back(sim::spawn([xp, t] {
			for (size_t i = 0; i < xp->w->ops.size(); ++i)
			{
				const Op& o = xp->w->ops[i];
				if (o.actor != t) continue;
				if (o.kind == O_VICTIM) *xp->S.sch[o.c >> 4 & 1] + victim(xp, (int)i);
				else if (o.kind == O_STOPALL) *xp->S.sch[o.a] + stopper(xp, (int)i);
				else { maybe_delay(o.b); request(xp, -1, (int)o.a); }
			}
		}));
	// completes the tasks whose tokens it was given, once it sees the stop
	tids.push_back(sim::spawn([xp] {
		bool did[MAXV] = {};
		for (;;)
		{
			bool all = sim::reg(R_QUIT) != 0;
			for (size_t i = 0; i < xp->w->ops.size(); ++i)
			{
				if (did[i] || !sim::reg(R_TOK + (int)i)) continue;
				sim::hb_acquire(HB_USER + (int)i);
				if (!xp->tok[i].stop_requested()) { all = false; continue; }
				did[i] = true;
				xp->tok[i] = stop_token();
				xp->done[i].throw_exception(canceled_exception(error_code::stop_requested));
			}
			if (all) return;
			sim::idle();
		}
	}));
	for (int t = 0; t < nt; ++t) sim::join(tids[t]);
	if (!sim::park([nv, nst] { return sim::reg(R_WAITING) >= nv && sim::reg(R_STOPPERS) >= nst; }))
		sim::fail("stuck", "a task never got as far as waiting, or request_stop_all_if_possible() never returned");
	for (size_t i = 0; i < w.ops.size(); ++i) if (w.ops[i].kind == O_VICTIM && w.ops[i].a == V_PLAIN) x.done[i].set_value((int)i + 100);
	for (int s = 0; s < ns; ++s) *x.S.sch[s] + final_stop(&x, s);
	if (!sim::park([nv, nst] { return sim::reg(R_ENDED) >= nv && sim::reg(R_EXTRAD) >= sim::reg(R_EXTRA); }))
		sim::fail("never_ended", "a stop-aware task never ended although its scheduler was asked to stop");
	sim::reg(R_QUIT) = 1;
	sim::join(tids[nt]);
	for (;;)
	{
		if (!x.S.quiesce()) sim::fail("no_quiescence", "schedulers never become idle");
		bool e = true;
		for (int i = 0; i < ns; ++i) if (!x.S.sch[i]->empty()) e = false;
		if (e) break;
		sim::sleep_ns(100'000);
	}
	x.S.stop();
}
void check(const Workload& w, const std::vector<Ev>& ev)
{
	const uint64_t INF = ~0ull;
	struct V { uint64_t aware = INF, wait = INF, end = INF, cb = INF, sleep = INF, woke = INF; int64_t tp = 0; bool canceled = false, stopped = false; };
	struct T { uint64_t add = INF, cb = INF; bool canceled = false; };
	std::map<int64_t, V> v; std::map<int64_t, T> tm;
	struct All { int64_t s; uint64_t inv, resp; int64_t wall; int fib; };
	std::map<int64_t, All> all;
	bool two = w.get("scheds") > 1;
	auto sched_of = [&](int64_t i) { return two ? home_of(w.ops[i % MAXV]) : 0; };
	// where it was when it had its stop source
	auto also_of = [&](int64_t i) { return two ? moved_of(w.ops[i % MAXV]) : 0; };
	for (auto& e : ev)
		switch (e.kind)
		{
		case E_AWARE: v[e.a].aware = e.seq; break;
		case E_WAIT: v[e.a].wait = e.seq; break;
		case E_ENDED: v[e.a].end = e.seq; break;
		case E_CB: if (v[e.a].cb != INF) sim::fail("ran_twice", "the stop callback of task %lld ran twice", (long long)e.a); v[e.a].cb = e.seq; break;
		case E_SLEEP: v[e.a].sleep = e.seq; v[e.a].tp = e.b; break;
		case E_WOKE: v[e.a].woke = e.seq; v[e.a].canceled = e.b; break;
		case E_TMADD: tm[e.a].add = e.seq; break;
		case E_TM: if (tm[e.a].cb != INF) sim::fail("timer_twice", "timer %lld was called twice", (long long)e.a); tm[e.a].cb = e.seq; tm[e.a].canceled = e.b; break;
		case E_ALL: all[e.c] = { e.a, e.seq, INF, e.b, e.fiber }; break;
		case E_ALLR: all[e.c].resp = e.seq; break;
		}
	for (auto& ka : all)
	{
		auto& a = ka.second;
		if (a.resp == INF) sim::fail("stuck", "request_stop_all_if_possible() never returned");
		for (auto& kv : v)
		{
			auto& q = kv.second;
			if (sched_of(kv.first) != a.s) continue;
			// everything that waits with a callback is told before the call returns
			if (q.wait < a.inv && q.end > a.inv)
			{
				if (q.cb == INF) sim::fail("never_told", "task %lld used its stop token and was never told to stop", (long long)kv.first);
				bool byother = false;
				for (auto& e : ev) if (e.kind == E_REQ && e.a == kv.first && e.seq < a.resp) byother = true;
				for (auto& kb : all) if (kb.first != ka.first && kb.second.s == a.s && kb.second.inv < a.inv && kb.second.resp > a.resp) byother = true;
				if (q.cb > a.resp && !byother) sim::fail("told_late", "the stop callback of task %lld had not run when request_stop_all_if_possible() returned", (long long)kv.first);
			}
			// a sleeper is woken by the cancellation
			if (q.sleep < a.inv && q.woke > a.inv && q.tp > a.wall + 0)
				if (!q.canceled) sim::fail("sleeper_missed", "task %lld slept on although the timers were cancelled", (long long)kv.first);
		}
		for (auto& kt : tm)
			if (sched_of(kt.first) == a.s && kt.first < MAXV && kt.second.add < a.inv && kt.second.cb > a.resp) 
			{
				bool nested = false;
				for (auto& kb : all) if (kb.first != ka.first && kb.second.s == a.s && kb.second.inv < a.inv && kb.second.resp > a.resp) nested = true;
				if (!nested) sim::fail("timer_missed", "timer %lld was still pending after request_stop_all_if_possible()", (long long)kt.first);
			}
	}
	for (auto& kv : v)
	{
		auto& q = kv.second;
		// nobody is stopped out of thin air
		if (q.cb != INF)
		{
			bool why = false;
			for (auto& ka : all) if ((ka.second.s == sched_of(kv.first) || ka.second.s == also_of(kv.first)) && ka.second.inv < q.cb) why = true;
			for (auto& e : ev) if (e.kind == E_REQ && e.a == kv.first && e.seq < q.cb) why = true;
			if (!why) sim::fail("ghost_stop", "task %lld was stopped although nobody asked for it", (long long)kv.first);
		}
		if (q.woke != INF && q.canceled)
		{
			bool why = false;
			for (auto& ka : all) if (ka.second.s == sched_of(kv.first) && ka.second.inv < q.woke && ka.second.resp > q.sleep) why = true;
			if (!why) sim::fail("ghost_cancel", "the sleep of task %lld was cancelled although nobody asked for it", (long long)kv.first);
		}
	}
	for (auto& kt : tm) if (kt.second.cb == INF) sim::fail("timer_lost", "timer %lld was never called", (long long)kt.first);
}
sim::Register r0({ "stop_all", "C20", gen, run, check, 1 });
}

// C01, C02: programs that mix every way of waiting the library has, across schedulers. Whatever a coroutine waited for,
// it goes on on its own scheduler, exactly once, and every program comes to its end.
#include "common.h"
using namespace H;

namespace {
enum { E_BEGIN = 1, E_STEP, E_END, E_SUB, E_SUBEND };
enum { M_YIELD, M_SLEEP, M_VIA, M_EVENT, M_TIMED, M_ALL, M_ALL_FOR, M_LOCK, M_TRY_FOR, M_LOCK2, M_WRITE, M_READ, M_WHEN_ALL, M_WHEN_ANY, M_WHEN_RANGE, M_AWAIT, M_NEST, M_SPAWN, M_COUNT };
enum { T_HDR = 100 };
enum { R_POST = R_USER, R_ENDED = R_USER + 100, R_SUBS, R_SUBSDONE, R_QUIT, R_INSIDE0, R_INSIDE1, R_SERVED };
using Ch = channel_t<int64_t>;

struct X
{
	Scheds S;
	const Workload* w = nullptr;
	event_t shared{ false };
	std::vector<event_t> own;							// per operation, two each
	std::vector<std::optional<awaitable_t<int64_t>>> slot;
	mutex_t mx[2];
	Ch chw{ std::adopt_lock }, chr{ std::adopt_lock };		// the tasks write to the one and read from the other
	int nt = 0;
};
void here_is(X* x, int t, int64_t i, int home, const char* after)
{
	if (x->S.here() != home) sim::fail("wrong_scheduler", "task %d step %lld goes on on scheduler %d instead of %d after %s", t, (long long)i, x->S.here(), home, after);
	if (this_scheduler() != x->S.sch[home]) sim::fail("this_scheduler", "task %d step %lld: this_scheduler() is not the one of this thread", t, (long long)i);
}
void post(X*, int i) { sim::hb_release(HB_USER + i); sim::reg(R_POST + i) = 1; }

// how long others hold, or sub tasks take: 0 at once, 1 yield, 2 two yields, 3 sleep, 4 sleep with another scheduler's timer, 5+ go over and come back
future_t<> little(X* x, int how)
{
	switch (how)
	{
	case 1: co_await yield(); break;
	case 2: co_await yield(); co_await yield(); break;
	case 3: co_await sleep_for(std::chrono::microseconds(3)); break;
	case 4: co_await sleep_for(std::chrono::microseconds(3), *x->S.sch[(x->S.here() + 1) % x->S.n]); break;
	case 5: { int h = x->S.here(); co_await via(x->S.sch[(h + 1) % x->S.n]); co_await via(x->S.sch[h]); break; }
	}
}
future_t<int64_t> sub_(X* x, int i, int j, int s, int how)
{
	sim::ev(E_SUB, i, j, x->S.here());
	here_is(x, -1 - i, j, s, "being started by when_all or when_any");
	co_await little(x, how);
	here_is(x, -1 - i, j, s, "its own wait inside when_all or when_any");
	sim::ev(E_SUBEND, i, j);
	sim::reg(R_SUBSDONE)++;
	co_return i * 100 + j;
}
future_t<int64_t> sub(X* x, int i, int j, int s, int how) { sim::reg(R_SUBS)++; return sub_(x, i, j, s, how); }
future_t<> one(X* x, int t, int i, int& home);
future_t<> nested(X* x, int t, int i, int& home, int depth)
{
	if (depth > 0) co_await nested(x, t, i, home, depth - 1);
	else co_await one(x, t, i, home);
	here_is(x, t, i, home, "a nested coroutine");
}
future_t<> owner(X* x, int t, int i, int m, int how, bool thrower)
{
	int home = x->S.here();
	batch_unlock_t g = co_await x->mx[m].lock();
	here_is(x, t, i, home, "locking a mutex");
	if (sim::reg(R_INSIDE0 + m)++) sim::fail("not_exclusive", "two coroutines are inside mutex %d", m);
	co_await little(x, how);
	here_is(x, t, i, home, "a wait with a mutex locked");
	sim::reg(R_INSIDE0 + m)--;
	if (thrower) throw Err{ i };
}
future_t<> one(X* x, int t, int i, int& home)
{
	const Op& o = x->w->ops[i];
	int ns = x->S.n, oth = (int)(o.a % ns), how = (int)(o.b % 6);
	switch (o.kind)
	{
	case M_YIELD: co_await yield(); break;
	case M_SLEEP: if (o.b & 1) co_await sleep_for(std::chrono::nanoseconds(o.c), *x->S.sch[oth]); else co_await sleep_for(std::chrono::nanoseconds(o.c)); break;
	case M_VIA: co_await via(*x->S.sch[oth]); home = oth; break;
	case M_EVENT: post(x, i); if (!co_await x->shared.wait()) sim::fail("false_result", "task %d step %d: wait() returned false", t, i); break;
	case M_TIMED: post(x, i); (void)co_await x->own[2 * i].wait_for(std::chrono::nanoseconds(o.c)); break;
	case M_ALL: { post(x, i); bool r = co_await event_t::wait_all(x->own.begin() + 2 * i, x->own.begin() + 2 * i + 2); if (!r) sim::fail("false_result", "task %d step %d: wait_all() returned false", t, i); break; }
	case M_ALL_FOR: { post(x, i); (void)co_await event_t::wait_all_for(std::chrono::nanoseconds(o.c), x->own.begin() + 2 * i, x->own.begin() + 2 * i + 2); break; }
	case M_LOCK:
		try { co_await owner(x, t, i, oth % 2, how, (o.b & 64) != 0); if (o.b & 64) sim::fail("exception_lost", "task %d step %d: the exception of a mutex owner got lost", t, i); }
		catch (const Err& e) { if (!(o.b & 64) || e.id != i) sim::fail("wrong_exception", "task %d step %d: unexpected exception", t, i); }
		break;
	case M_TRY_FOR:
		if (co_await x->mx[oth % 2].try_lock_for(std::chrono::nanoseconds(o.c)))
		{
			here_is(x, t, i, home, "try_lock_for");
			if (sim::reg(R_INSIDE0 + oth % 2)++) sim::fail("not_exclusive", "two coroutines are inside mutex %d", oth % 2);
			co_await little(x, how);
			sim::reg(R_INSIDE0 + oth % 2)--;
			co_await x->mx[oth % 2].unlock();
		}
		break;
	case M_LOCK2:
	{
		batch_unlock_t g = o.b & 64 ? co_await mutex_t::lock(x->mx[0], x->mx[1]) : co_await mutex_t::lock(x->mx[1], x->mx[0]);
		here_is(x, t, i, home, "locking two mutexes");
		if (sim::reg(R_INSIDE0)++ || sim::reg(R_INSIDE1)++) sim::fail("not_exclusive", "two coroutines are inside a mutex");
		co_await little(x, how);
		sim::reg(R_INSIDE0)--; sim::reg(R_INSIDE1)--;
		break;
	}
	case M_WRITE: co_await x->chw.write((int64_t)i); break;
	case M_READ: (void)co_await x->chr.read(); break;
	case M_WHEN_ALL:
	{
		int s = o.b & 64 ? oth : home;
		auto chk = [&](const std::tuple<int64_t, int64_t>& r) { if (std::get<0>(r) != i * 100 || std::get<1>(r) != i * 100 + 1) sim::fail("wrong_value", "task %d step %d: when_all delivered other results", t, i); };
		if (o.b & 64) chk(co_await when_all(*x->S.sch[oth], sub(x, i, 0, s, how), sub(x, i, 1, s, (int)(o.b / 6 % 6))));
		else chk(co_await when_all(sub(x, i, 0, s, how), sub(x, i, 1, s, (int)(o.b / 6 % 6))));
		break;
	}
	case M_WHEN_ANY:
	{
		int s = o.b & 64 ? oth : home;
		auto chk = [&](when_any_pair r) { if (r.first < 0 || r.first > 1 || librf::any_cast<int64_t>(r.second) != i * 100 + r.first) sim::fail("wrong_value", "task %d step %d: when_any delivered another result", t, i); };
		if (o.b & 64) chk(co_await when_any(*x->S.sch[oth], sub(x, i, 0, s, how), sub(x, i, 1, s, (int)(o.b / 6 % 6))));
		else chk(co_await when_any(sub(x, i, 0, s, how), sub(x, i, 1, s, (int)(o.b / 6 % 6))));
		break;
	}
	case M_WHEN_RANGE:
	{
		int s = o.b & 64 ? oth : home, n = (int)(o.b / 6 % 5);
		std::vector<future_t<int64_t>> v;
		for (int j = 0; j < n; ++j) v.push_back(sub(x, i, j, s, (how + j) % 6));
		std::vector<int64_t> r = o.b & 64 ? co_await when_all(*x->S.sch[oth], v) : co_await when_all(v);
		if ((int)r.size() != n) sim::fail("wrong_value", "task %d step %d: when_all delivered %zu results for %d", t, i, r.size(), n);
		for (int j = 0; j < n; ++j) if (r[j] != i * 100 + j) sim::fail("wrong_value", "task %d step %d: when_all delivered another result %d", t, i, j);
		break;
	}
	case M_AWAIT:
	{
		awaitable_t<int64_t> a;
		x->slot[i] = a;
		auto f = a.get_future();
		post(x, i);
		int64_t v = -1;
		try { v = co_await f; } catch (const Err& e) { v = -e.id; }
		if (v != (o.b & 64 ? -i : i)) sim::fail("wrong_value", "task %d step %d: awaited %lld", t, i, (long long)v);
		break;
	}
	case M_SPAWN: go sub(x, i, 0, home, how); break;
	}
	here_is(x, t, i, home, "its wait");
}
future_t<> body(X* x, int t, int home)
{
	sim::ev(E_BEGIN, t, home);
	here_is(x, t, -1, home, "being started");
	for (size_t i = 0; i < x->w->ops.size(); ++i)
	{
		const Op& o = x->w->ops[i];
		if (o.actor != t || o.kind == T_HDR) continue;
		int depth = (int)(o.b / 128 % 4);
		if (depth) co_await nested(x, t, (int)i, home, depth - 1);
		else co_await one(x, t, (int)i, home);
		here_is(x, t, i, home, "a step");
		sim::ev(E_STEP, t, i, home);
	}
	sim::ev(E_END, t);
	sim::reg(R_ENDED)++;
}
future_t<> server(X* x, bool wr, int n)
{
	int home = x->S.here();
	for (int k = 0; k < n; ++k)
	{
		if (wr) co_await x->chr.write((int64_t)-1 - k); else (void)co_await x->chw.read();
		here_is(x, 1000, k, home, "a channel operation");
	}
	sim::reg(R_SERVED)++;
}
void helper(X* x, int me)
{
	size_t n = x->w->ops.size();
	std::vector<char> done(n);
	char* d = done.data();
	int nt = x->nt;
	for (;;)
	{
		bool ok = sim::park([d, n, nt, me] { for (size_t i = me; i < n; i += nt) if (!d[i] && sim::reg(R_POST + i)) return true; return sim::reg(R_QUIT) != 0; });
		if (!ok || sim::reg(R_QUIT)) return;
		for (size_t i = me; i < n; i += nt)
			if (!done[i] && sim::reg(R_POST + i))
			{
				done[i] = 1;
				sim::hb_acquire(HB_USER + (int)i);
				const Op& o = x->w->ops[i];
				if (o.kind != M_TIMED && o.kind != M_ALL_FOR && o.c) pause(o.c);
				switch (o.kind)
				{
				case M_EVENT: x->shared.signal(); break;
				case M_TIMED: case M_ALL_FOR:
					// around the deadline
					if (o.b & 64) break;
					pause(o.c + o.a - o.a / 2);
					x->own[2 * i].signal();
					if (o.kind == M_ALL_FOR) x->own[2 * i + 1].signal();
					break;
				case M_ALL: x->own[2 * i + (o.b & 1)].signal(); x->own[2 * i + 1 - (o.b & 1)].signal(); break;
				case M_AWAIT: if (o.b & 64) x->slot[i]->throw_exception(Err{ (int64_t)i }); else x->slot[i]->set_value((int64_t)i); break;
				}
			}
	}
}

void gen(Rng& r, Workload& w)
{
	int ns = (int)r.in(1, 3), n = (int)r.in(1, 5), hi = (int)r.in(4, 7);
	w.set("scheds", ns); w.set("threads", r.in(1, 2)); w.set("cap", r.in(0, 3));
	w.set("ws", r.in(0, ns - 1)); w.set("rs", r.in(0, ns - 1)); w.set("until", r.p(1, 4));
	// what this run is about: everything, or a few kinds only
	uint64_t kinds = r.p(1, 2) ? ~0ull : 0;
	while (!kinds) { kinds = (uint64_t)r.in(1, (1 << M_COUNT) - 1) & (uint64_t)r.in(1, (1 << M_COUNT) - 1); if (ns > 1) kinds |= 1u << M_VIA; }
	for (int t = 0; t < n; ++t)
	{
		Op h; h.actor = t; h.kind = T_HDR; h.a = r.in(0, ns - 1); h.b = r.in(0, 3); w.ops.push_back(h);
		for (int k = (int)r.in(1, 8); k > 0; --k)
		{
			Op o; o.actor = t;
			do o.kind = (int)r.in(0, M_COUNT - 1); while (!(kinds >> o.kind & 1));
			if (o.kind == M_NEST) o.kind = M_VIA;
			o.a = r.in(0, 5); o.b = r.in(0, 511);
			if (r.p(1, 2)) o.b &= 127;
			o.c = o.kind == M_TIMED || o.kind == M_ALL_FOR || o.kind == M_TRY_FOR || o.kind == M_SLEEP ? log_uniform(r, 2, hi) : r.p(2, 3) ? 0 : log_uniform(r, 2, hi);
			if (o.kind == M_TIMED || o.kind == M_ALL_FOR) o.a = r.p(1, 2) ? 0 : log_uniform(r, 2, 5);
			w.ops.push_back(o);
		}
	}
}
void run(const Workload& w)
{
	int ns = (int)w.get("scheds"), nt = (int)w.get("threads"), n = 0, wr = 0, rd = 0;
	X x; x.w = &w; x.nt = nt;
	std::set<int> tasks;
	for (auto& o : w.ops) if (o.kind == T_HDR) tasks.insert(o.actor);
	n = (int)tasks.size();
	for (size_t i = 0; i < w.ops.size(); ++i)
	{
		if (w.ops[i].kind == M_WRITE) wr += tasks.count(w.ops[i].actor);
		if (w.ops[i].kind == M_READ) rd += tasks.count(w.ops[i].actor);
		x.own.emplace_back(false); x.own.emplace_back(false);
	}
	x.slot.resize(w.ops.size());
	if (wr) x.chw = Ch((size_t)w.get("cap"));
	if (rd) x.chr = Ch((size_t)w.get("cap"));
	x.S.until = w.get("until") != 0;
	x.S.start(ns);
	X* xp = &x;
	std::vector<int> tids;
	for (int t = 0; t < nt; ++t) tids.push_back(sim::spawn([xp, t] { helper(xp, t); }));
	// every value has its place: as many reads as writes
	if (rd) *x.S.sch[w.get("ws") % ns] + server(xp, true, rd);
	if (wr) *x.S.sch[w.get("rs") % ns] + server(xp, false, wr);
	for (auto& o : w.ops)
		if (o.kind == T_HDR)
		{
			int s = (int)o.a % ns, t = o.actor;
			if (o.b & 1) *x.S.sch[s] + body(xp, t, s);
			else *x.S.sch[s] + [xp, t, s]() { return body(xp, t, s); };
		}
	int all = n, serv = (rd != 0) + (wr != 0);
	if (!sim::park([all, serv] { return sim::reg(R_ENDED) >= all && sim::reg(R_SERVED) >= serv && sim::reg(R_SUBS) == sim::reg(R_SUBSDONE); }, QUIET))
		sim::fail("never_ended", "%lld of %lld sub-tasks, %lld of %d tasks and %lld of %d channel partners ended", (long long)sim::reg(R_SUBSDONE), (long long)sim::reg(R_SUBS), (long long)sim::reg(R_ENDED), all, (long long)sim::reg(R_SERVED), serv);
	if (!x.S.quiesce()) sim::fail("no_quiescence", "a scheduler does not come to rest although every task has ended");
	// (a timer that is no longer needed is kept until its time has come)
	for (int k = 0; k < 50; ++k)
	{
		bool empty = true;
		for (int i = 0; i < ns; ++i) if (!x.S.sch[i]->empty()) empty = false;
		if (empty) break;
		sim::sleep_ns(1'000'000);
		if (!x.S.quiesce()) sim::fail("no_quiescence", "a scheduler does not come to rest although every task has ended");
	}
	for (int i = 0; i < ns; ++i)
		if (!x.S.sch[i]->empty()) sim::fail("not_empty", "scheduler %d is not empty although every task has ended", i);
	sim::reg(R_QUIT) = 1;
	for (int t : tids) sim::join(t);
	x.S.stop();
}
void check(const Workload& w, const std::vector<Ev>& ev)
{
	std::map<int64_t, std::vector<int64_t>> steps;
	std::map<int64_t, int> begun, ended;
	for (auto& e : ev)
	{
		if (e.kind == E_BEGIN && begun[e.a]++) sim::fail("ran_twice", "task %lld began twice", (long long)e.a);
		if (e.kind == E_END && ended[e.a]++) sim::fail("ran_twice", "task %lld ended twice", (long long)e.a);
		if (e.kind == E_STEP) steps[e.a].push_back(e.b);
	}
	for (auto& h : w.ops)
	{
		if (h.kind != T_HDR) continue;
		std::vector<int64_t> expect;
		for (size_t i = 0; i < w.ops.size(); ++i) if (w.ops[i].actor == h.actor && w.ops[i].kind != T_HDR) expect.push_back(i);
		if (steps[h.actor] != expect) sim::fail("wrong_steps", "task %d performed %zu steps instead of %zu", h.actor, steps[h.actor].size(), expect.size());
	}
}
sim::Register r0({ "mix_lifecycle", "C01", gen, run, check, 1 });
sim::Register r1({ "mix_affinity", "C02", gen, run, check, 1 });
}

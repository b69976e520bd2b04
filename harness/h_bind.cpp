// C08: which scheduler a thread is bound to, and schedulers driven by one thread after another.
#include "common.h"
using namespace H;

namespace {
enum { E_STEP = 1, E_DRIVE, E_DROVE, E_PRIVATE };
enum { C_YIELD, C_SLEEP, C_VIA, C_CHILD };
enum { R_TURN = R_USER, R_STEPS = R_USER + 10, R_CORO = R_USER + 40, R_PRIV = R_USER + 41, R_LOST = R_USER + 42 };
enum { HB_TURN = HB_USER, HB_ALL = HB_USER + 10 };
enum { DRIVER = 100, PRIVATE = 200, MAXS = 3 };

struct X
{
	scheduler_t* s[MAXS] = {};		// each created by an owner thread that then only waits
	int ns = 0;
	const Workload* w = nullptr;
	int turns[MAXS] = {};
};
void expect(scheduler_t* want, const char* where)
{
	if (this_scheduler() != want) sim::fail("wrong_scheduler", "this_scheduler() is not the one bound to the thread %s", where);
}
future_t<int64_t> child(int64_t v, scheduler_t* s)
{
	expect(s, "in a child coroutine");
	co_await yield();
	expect(s, "in a child coroutine that was suspended");
	co_return v;
}
future_t<> coro(X* x, int a, int home)
{
	scheduler_t* h = x->s[home];
	expect(h, "when a coroutine begins");
	for (auto& o : x->w->ops)
	{
		if (o.actor != a) continue;
		switch (o.kind)
		{
		case C_YIELD: co_await yield(); break;
		case C_SLEEP: co_await sleep_for(std::chrono::nanoseconds(o.b)); break;
		case C_VIA: h = x->s[o.a % x->ns]; co_await via(*h); break;
		case C_CHILD: if (co_await child(o.b, h) != o.b) sim::fail("wrong_value", "a child coroutine returned something else"); break;
		}
		expect(h, "after a coroutine was resumed");
		if (librf_current_scheduler() != h) sim::fail("wrong_scheduler", "the coroutine's own scheduler is not the one it moved to");
		sim::ev(E_STEP, a);
		sim::reg(R_STEPS + a)++;
	}
	sim::reg(R_CORO)++;
}
// everything a thread bound to s may do without losing the binding
void nested(scheduler_t* s, int64_t what)
{
	if (what & 1) { local_scheduler_t in; expect(s, "inside a nested local_scheduler_t"); }
	expect(s, "after a nested local_scheduler_t");
	if (what & 2) { local_scheduler_t in(*s); expect(s, "inside a nested local_scheduler_t for the same scheduler"); }
	expect(s, "after that");
	if (what & 4) { local_scheduler_t in(scheduler_t::g_scheduler); expect(s, "inside a nested local_scheduler_t for another scheduler"); { local_scheduler_t in2; expect(s, "two levels deep"); } }
	expect(s, "after that");
}
void driver(X* x, int i, int k, const Op& o)
{
	expect(&scheduler_t::g_scheduler, "in a thread that bound none");
	sim::park([i, k] { return sim::reg(R_TURN + i) == k; });
	sim::hb_acquire(HB_TURN + i);
	scheduler_t* s = x->s[i];
	{
		local_scheduler_t ls(*s);
		expect(s, "after binding it");
		if (o.a & 7) nested(s, o.a);
		bool last = k == x->turns[i] - 1;
		sim::ev(E_DRIVE, i, k);
		for (int64_t b = 0; last ? !sim::reg(R_STOP) : b < o.b; ++b)
		{
			if (!s->run_one_batch()) { sim::reg(R_IDLE0 + i)++; sim::idle(); }
			else sim::reg(R_WORK0 + i)++;
			expect(s, "while driving it");
		}
		sim::ev(E_DROVE, i, k);
	}
	sim::hb_release(HB_TURN + i);
	sim::reg(R_TURN + i) = k + 1;
}
void private_thread(X* x, const Op& o)
{
	scheduler_t* g = &scheduler_t::g_scheduler;
	for (int round = 0; round < 2; ++round)
	{
		expect(g, "in a thread that bound none");
		int left = 2;
		{
			local_scheduler_t ls;
			scheduler_t* mine = this_scheduler();
			if (mine == g) sim::fail("wrong_scheduler", "local_scheduler_t did not bind a scheduler of its own");
			for (int i = 0; i < MAXS; ++i) if (mine == x->s[i]) sim::fail("wrong_scheduler", "local_scheduler_t bound another thread's scheduler");
			nested(mine, o.b);
			int* lp = &left;
			if (o.a >> round & 1)
			{
				go [lp, mine]() -> future_t<> { expect(mine, "in a coroutine"); co_await yield(); --*lp; };
				go [lp, mine]() -> generator_t<std::nullptr_t> { expect(mine, "in a generator"); co_yield nullptr; --*lp; };
			}
			else for (int i = 0; i < 2; ++i)
				*mine + [](int* l, scheduler_t* m) -> future_t<> { expect(m, "in a coroutine"); co_await yield(); expect(m, "in a coroutine"); --*l; }(lp, mine);
			mine->run_until_notask();
			expect(mine, "after running it");
		}
		if (left) sim::fail("not_finished", "run_until_notask() returned although %d coroutines had not finished", left);
		expect(g, "after its scheduler was destroyed");
	}
	sim::reg(R_PRIV)++;
}
void gen(Rng& r, Workload& w)
{
	int ns = (int)r.in(1, MAXS), nc = (int)r.in(1, 4), np = (int)r.in(0, 2);
	w.set("scheds", ns); w.set("coros", nc);
	for (int i = 0; i < ns; ++i)
		for (int k = (int)r.in(1, 3); k > 0; --k)
		{
			Op o; o.actor = DRIVER + i; o.a = r.p(1, 2) ? r.in(0, 7) : 0; o.b = r.in(0, 6);
			w.ops.push_back(o);
		}
	for (int i = 0; i < np; ++i) { Op o; o.actor = PRIVATE; o.a = r.in(0, 3); o.b = r.p(1, 2) ? r.in(0, 7) : 0; w.ops.push_back(o); }
	for (int n = (int)r.in(1, 12); n > 0; --n)
	{
		Op o; o.actor = (int)r.in(0, nc - 1);
		int k = (int)r.in(0, 99);
		o.kind = k < 35 ? C_YIELD : k < 60 ? C_SLEEP : k < 85 ? C_VIA : C_CHILD;
		o.a = r.in(0, ns - 1); o.b = log_uniform(r, 2, 7);
		w.ops.push_back(o);
	}
}
void run(const Workload& w)
{
	int ns = (int)w.get("scheds"), nc = (int)w.get("coros");
	X x; x.w = &w; x.ns = ns;
	X* xp = &x;
	scheduler_t* g = &scheduler_t::g_scheduler;
	expect(g, "at the start");
	std::vector<int> owners;
	for (int i = 0; i < ns; ++i)
		owners.push_back(sim::spawn([xp, i] {
			local_scheduler_t ls;
			scheduler_t* mine = this_scheduler();
			xp->s[i] = mine;
			sim::hb_release(HB_ALL + i);
			sim::reg(R_READY0 + i) = 1;
			sim::park([] { return sim::reg(R_STOP) == 2; });
			sim::hb_acquire(HB_ALL + 9);
			expect(mine, "that owns it, whoever drove it");
			if (!mine->empty()) sim::fail("not_empty", "scheduler %d is not empty although everything ended", i);
		}));
	sim::park([ns] { for (int i = 0; i < ns; ++i) if (!sim::reg(R_READY0 + i)) return false; return true; });
	for (int i = 0; i < ns; ++i) sim::hb_acquire(HB_ALL + i);
	expect(g, "although others bound theirs");
	for (int a = 0; a < nc; ++a) *x.s[a % ns] + coro(xp, a, a % ns);
	std::vector<int> tids;
	std::vector<int> cnt(MAXS);
	for (auto& o : w.ops) if (o.actor >= DRIVER && o.actor < DRIVER + ns) x.turns[o.actor - DRIVER]++;
	for (int i = 0; i < ns; ++i)
	{
		sim::hb_release(HB_TURN + i);
		int k = 0;
		if (!x.turns[i])
		{
			x.turns[i] = 1;
			tids.push_back(sim::spawn([xp, i] { driver(xp, i, 0, Op{}); }));
		}
		else for (auto& o : w.ops) if (o.actor == DRIVER + i)
		{
			const Op* op = &o;
			tids.push_back(sim::spawn([xp, i, k, op] { driver(xp, i, k, *op); }));
			++k;
		}
	}
	int np = 0;
	for (auto& o : w.ops) if (o.actor == PRIVATE)
	{
		const Op* op = &o; ++np;
		tids.push_back(sim::spawn([xp, op] { private_thread(xp, *op); }));
	}
	if (!sim::park([nc, np] { return sim::reg(R_CORO) >= nc && sim::reg(R_PRIV) >= np; }, QUIET))
		sim::fail("stuck", "%d of %d coroutines and %d of %d threads finished", (int)sim::reg(R_CORO), nc, (int)sim::reg(R_PRIV), np);
	// the last drivers have taken over and have nothing left to run
	for (;;)
	{
		int64_t wk[MAXS], id[MAXS];
		for (int i = 0; i < ns; ++i) { wk[i] = sim::reg(R_WORK0 + i); id[i] = sim::reg(R_IDLE0 + i); }
		int64_t* dp = id; int* tp = x.turns;
		if (!sim::park([dp, ns, tp] { for (int i = 0; i < ns; ++i) if (sim::reg(R_TURN + i) != tp[i] - 1 || sim::reg(R_IDLE0 + i) < dp[i] + 2) return false; return true; }, QUIET))
			sim::fail("no_quiescence", "schedulers never become idle");
		bool same = true;
		for (int i = 0; i < ns; ++i) if (wk[i] != sim::reg(R_WORK0 + i)) same = false;
		if (same) break;
	}
	sim::reg(R_STOP) = 1;
	for (int t : tids) sim::join(t);
	expect(g, "that has driven nothing");
	sim::hb_release(HB_ALL + 9);
	sim::reg(R_STOP) = 2;
	for (int t : owners) sim::join(t);
}
void check(const Workload& w, const std::vector<Ev>& ev)
{
	int64_t n[64] = {};
	for (auto& e : ev) if (e.kind == E_STEP) n[e.a]++;
	int nc = (int)w.get("coros");
	for (int a = 0; a < nc; ++a)
	{
		int64_t want = 0;
		for (auto& o : w.ops) if (o.actor == a) ++want;
		if (n[a] != want) sim::fail("steps", "coroutine %d made %lld of its %lld steps", a, (long long)n[a], (long long)want);
	}
}
sim::Register r0({ "sched_binding", "C08", gen, run, check, 1 });
}

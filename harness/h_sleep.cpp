// C16: a sleeping coroutine resumes exactly once, not before its deadline (on the clock it names), on its own
// scheduler, and gets an exception only when its timer was cancelled.
#include "common.h"
using namespace H;

namespace {
enum { E_SLEEP = 1, E_WOKE, E_JUMP, E_CLEAR };
enum { S_FOR, S_UNTIL, S_DUR, S_FOR_SCH, S_NESTED, S_UNTIL_SCH, S_FOR_RAW, S_UNTIL_RAW, S_FOR_US, S_UNTIL_MS, S_DUR_DBL, S_COUNT };
enum { R_LAUNCHED = R_USER };

bool absolute(int k) { return k == S_UNTIL || k == S_UNTIL_SCH || k == S_UNTIL_RAW || k == S_UNTIL_MS; }
future_t<> nap(int64_t d) { co_await sleep_for(std::chrono::nanoseconds(d)); }

future_t<> sleeper(Scheds* S, int id, int kind, int64_t d, int reps, int other)
{
	for (int k = 0; k < reps; ++k)
	{
		int code = 0;
		// the units below cannot express every deadline: what counts is the one they do
		int64_t add = kind == S_FOR_US ? d / 1000 * 1000 : kind == S_UNTIL_MS ? d - 1000000 : kind == S_DUR_DBL ? d - 2 : d;
		int64_t tp = sim::ev_wall(E_SLEEP, id * 8 + k, add, S->here());
		if (kind == S_UNTIL_MS) tp += 1000000;
		try
		{
			switch (kind)
			{
			case S_FOR: co_await sleep_for(std::chrono::nanoseconds(d)); break;
			case S_UNTIL: co_await sleep_until(std::chrono::system_clock::time_point(std::chrono::nanoseconds(tp))); break;
			case S_DUR: co_await std::chrono::nanoseconds(d); break;
			case S_FOR_SCH: co_await sleep_for(std::chrono::nanoseconds(d), *S->sch[other]); break;
			case S_NESTED: co_await nap(d); break;
			case S_UNTIL_SCH: co_await sleep_until(std::chrono::system_clock::time_point(std::chrono::nanoseconds(tp)), *S->sch[other]); break;
			case S_FOR_RAW: co_await sleep_for_(std::chrono::nanoseconds(d), *S->sch[other]); break;
			case S_UNTIL_RAW: co_await sleep_until_(std::chrono::system_clock::time_point(std::chrono::nanoseconds(tp)), *S->sch[other]); break;
			case S_FOR_US: co_await sleep_for(std::chrono::microseconds(d / 1000)); break;
			case S_UNTIL_MS: co_await sleep_until(std::chrono::time_point<std::chrono::system_clock, std::chrono::milliseconds>(std::chrono::milliseconds(tp / 1000000)), *S->sch[other]); break;
			case S_DUR_DBL: co_await std::chrono::duration<double, std::micro>((double)d / 1000.0); break;
			}
		}
		catch (const canceled_exception&) { code = 1; }
		catch (...) { code = 2; }
		sim::ev_wall(E_WOKE, id * 8 + k, 0, code * 16 + S->here());
		if (code) break;
	}
	sim::reg(R_DONE)++;
}
// keeps a scheduler from ever being idle until the sleepers are back
future_t<> busy(int64_t until, int64_t d)
{
	while (sim::reg(R_DONE) < until) { sim::sleep_ns(d); if (d < 1'000'000'000'000) d += d / 2; co_await yield(); }
}
void gen(Rng& r, Workload& w)
{
	int ns = (int)r.in(1, 3), n = (int)r.in(1, 8);
	w.set("scheds", ns);
	bool same = r.p(1, 3);
	int hi = (int)r.in(4, 11);
	int64_t g = coarse_clock(r, w);
	int64_t base = on_grain(r, g, log_uniform(r, 3, hi));
	for (int i = 0; i < n; ++i)
	{
		Op o; o.actor = (int)r.in(0, ns - 1); o.kind = (int)r.in(0, S_COUNT - 1);
		o.a = same ? base : r.p(1, 10) ? -1000 : r.p(1, 10) ? 0 : on_grain(r, g, log_uniform(r, 3, hi));
		o.b = r.in(1, 3);
		o.c = r.in(0, ns - 1);
		w.ops.push_back(o);
	}
	w.set("jump", r.p(1, 3) ? (r.p(1, 2) ? 1 : -1) * log_uniform(r, 5, 11) : 0);
	w.set("clear", r.p(1, 4));
	w.set("busy", r.p(1, 5) ? log_uniform(r, 2, 6) : 0);
	w.set("fault_delay", log_uniform(r, 3, 9));
}
struct Clearer
{
	// clear() belongs to the scheduler's thread: it is issued by a coroutine running there
	static future_t<> run(Scheds* S, int i, int64_t d)
	{
		if (d) co_await sleep_for(std::chrono::nanoseconds(d));
		sim::ev(E_CLEAR, i);
		S->sch[i]->timer()->clear();
		sim::reg(R_DONE)++;
	}
};
void run(const Workload& w)
{
	int ns = (int)w.get("scheds"), n = (int)w.ops.size();
	sim::clock_grain(w.get("grain"));
	Scheds S; S.start(ns);
	int expect = n;
	for (int i = 0; i < n; ++i)
	{
		auto& o = w.ops[i];
		*S.sch[o.actor] + sleeper(&S, i, o.kind, o.a, (int)o.b, (int)o.c);
	}
	if (w.get("clear"))
	{
		// two steps: wait on this thread, then hand the clear() to the scheduler
		sim::sleep_ns(w.get("fault_delay"));
		++expect;
		*S.sch[0] + Clearer::run(&S, 0, 0);
	}
	if (int64_t j = w.get("jump"))
	{
		sim::sleep_ns(w.get("fault_delay") / 2);
		sim::jump_wall(j, E_JUMP);
	}
	if (w.get("busy")) for (int i = 0; i < ns; ++i) *S.sch[i] + busy(expect, w.get("busy"));
	int64_t quiet = QUIET;
	if (!sim::park([expect] { return sim::reg(R_DONE) >= expect; }, quiet)) sim::fail("never_woke", "%lld of %d sleepers came back", (long long)sim::reg(R_DONE), expect);
	if (!S.quiesce(quiet)) sim::fail("no_quiescence", "schedulers never become idle");
	S.stop();
}
void check(const Workload& w, const std::vector<Ev>& ev)
{
	struct X { int64_t tp = 0, peak = INT64_MIN; int home = 0; int woke = 0; uint64_t seq = 0; };
	std::map<int64_t, X> m;
	uint64_t clear_seq = ~0ull;
	for (auto& e : ev)
		switch (e.kind)
		{
		case E_JUMP:
			for (auto& kv : m)
				if (!kv.second.woke)
				{
					kv.second.peak = std::max(kv.second.peak, e.b);
					if (!absolute(w.ops[kv.first / 8].kind) && e.a < 0) kv.second.tp += e.a;
				}
			break;
		case E_CLEAR: clear_seq = std::min(clear_seq, e.seq); break;
		case E_SLEEP: { X x; x.tp = e.b; x.home = (int)e.c; x.seq = e.seq; m[e.a] = x; break; }
		case E_WOKE:
		{
			X& x = m[e.a];
			int64_t peak = std::max(x.peak, e.b);
			if (++x.woke > 1) sim::fail("twice", "sleep %lld woke twice", (long long)e.a);
			if (e.c % 16 != x.home) sim::fail("wrong_scheduler", "sleep %lld woke on scheduler %lld instead of %d", (long long)e.a, (long long)(e.c % 16), x.home);
			if (e.c / 16 == 2) sim::fail("exception", "sleep %lld threw something other than canceled_exception", (long long)e.a);
			if (e.c / 16 == 1 && clear_seq > e.seq) sim::fail("ghost_cancel", "sleep %lld was cancelled by nobody", (long long)e.a);
			if (e.c / 16 == 0 && peak < x.tp) sim::fail("early", "sleep %lld woke %lld ns early", (long long)e.a, (long long)(x.tp - peak));
			break;
		}
		}
	for (auto& kv : m) if (!kv.second.woke) sim::fail("lost", "sleep %lld never woke", (long long)kv.first);
}
sim::Register reg_({ "sleep", "C16", gen, run, check, 1 });
}

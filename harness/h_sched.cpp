// C01 task lifecycle, C02 scheduler affinity, C03 order and batches, C05 nested coroutines: one interpreter of
// small task programs, several workload generators and oracles.
#include "common.h"
using namespace H;

namespace {
enum { E_START = 1, E_STARTED, E_BEGIN, E_INV, E_STEP, E_END, E_CAPDEL, E_SET, E_EMPTY, E_EMPTYR, E_NB, E_NE, E_TASKPTR };
enum { T_HDR, ST_YIELD, ST_SLEEP, ST_VIA, ST_CALL, ST_AWAIT, ST_SPAWN, ST_CUR, ST_THROW, ST_SLEEPOTHER, OBS_EMPTY };
enum { F_FUTURE, F_LAMBDA, F_GEN, F_AWAITABLE, F_COYIELD, F_KEPT, F_LAMBDA_GEN, F_COYIELD_REF, F_GEN_VOID, F_COUNT };
enum { THREAD = 10, CHILD = 20 };		// starters
enum { V_INT, V_VOID, V_REF, V_UPTR, V_STR, V_TRACK, V_BRIT, V_COUNT };
enum { R_POST = R_USER, R_SETDONE = R_USER + 80, R_CAP = R_USER + 160, R_MAINDONE = R_USER + 240, R_QUIT, R_TRACK, R_STARTED = R_USER + 250, R_ENDED, R_TDONE };

struct X
{
	Scheds S;
	const Workload* w = nullptr;
	int nt = 0;
	std::vector<std::optional<awaitable_t<int64_t>>> slot;		// per operation
	struct Bare { std::optional<awaitable_t<>> v; std::optional<awaitable_t<std::string>> s; std::optional<awaitable_t<int64_t&>> r; };
	std::vector<Bare> tslot;			// tasks made of a bare future
	std::vector<std::optional<future_t<>>> kept;
	std::vector<int64_t> refs;
	int hdr[64];
};
void start_task(X* x, int t);

// counts the copies of a task's captures; the last one may use the library while it is destroyed
struct Cap
{
	X* x; int t;
	Cap(X* x_, int t_) : x(x_), t(t_) { sim::reg(R_CAP + t)++; }
	Cap(const Cap& o) : x(o.x), t(o.t) { sim::reg(R_CAP + t)++; }
	~Cap();
};

int64_t nid(int si, int depth) { return si * 10 + depth; }
template<class T> struct Mk;
template<> struct Mk<int64_t> { static int64_t mk(X*, int64_t id) { return id; } static int64_t un(X*, int64_t v, int64_t) { return v; } };
template<> struct Mk<int64_t&> { static int64_t& mk(X* x, int64_t id) { return x->refs[id]; } static int64_t un(X* x, int64_t& v, int64_t) { return &v - &x->refs[0]; } };
template<> struct Mk<std::unique_ptr<int64_t>> { static auto mk(X*, int64_t id) { return std::make_unique<int64_t>(id); } static int64_t un(X*, std::unique_ptr<int64_t> v, int64_t) { return v ? *v : -3; } };
template<> struct Mk<std::string> { static auto mk(X*, int64_t id) { return "nested result number " + std::to_string(id); } static int64_t un(X*, const std::string& v, int64_t id) { return v == "nested result number " + std::to_string(id) ? id : -4; } };
using Trk = Tracked<R_TRACK>;
template<> struct Mk<Trk> { static auto mk(X*, int64_t id) { return Trk(id); } static int64_t un(X*, Trk v, int64_t) { return v.v; } };

using Brit = Brittle<R_TRACK>;
template<> struct Mk<Brit> { static auto mk(X*, int64_t id) { return Brit(id, -1); } static int64_t un(X*, Brit v, int64_t) { return v.t.v; } };

// call parameters, packed in c: action 0..3 (bits 0-3), via target (4-7), throw level (8-11, 15 none), catch level (12-15, 15 none)
int outcome(int64_t c, int d)
{
	int tl = c >> 8 & 15, cl = c >> 12 & 15;
	if (d == tl) return tl;
	if (d == 0) return -1;
	int o = outcome(c, d - 1);
	return o >= 0 && cl != d ? o : -1;
}
int outcome_below(int64_t c, int d) { return d == 0 ? -1 : outcome(c, d - 1); }

future_t<> action(X* x, int64_t c)
{
	switch (c & 15)
	{
	case 1: co_await yield(); break;
	case 2: co_await sleep_for(std::chrono::microseconds(5)); break;
	case 3: co_await via(x->S.sch[(c >> 4 & 15) % x->S.n]); break;
	}
}
template<class T> future_t<T> nest(X* x, int t, int si, int depth, int64_t c);
template<class T> future_t<> call(X* x, int t, int si, int depth, int64_t c)
{
	int expect = outcome(c, depth);
	try
	{
		int64_t v;
		if constexpr (std::is_void_v<T>) { co_await nest<T>(x, t, si, depth, c); v = nid(si, depth); }
		else { decltype(auto) r = co_await nest<T>(x, t, si, depth, c); v = Mk<T>::un(x, static_cast<T&&>(r), nid(si, depth)); }
		if (expect >= 0) sim::fail("exception_lost", "call %d level %d: the exception of level %d was not delivered", si, depth, expect);
		if (v != nid(si, depth)) sim::fail("wrong_value", "call %d level %d: received %lld", si, depth, (long long)v);
	}
	catch (const Err& e)
	{
		if (expect < 0) sim::fail("ghost_exception", "call %d level %d: unexpected exception %lld", si, depth, (long long)e.id);
		if (e.id != nid(si, expect)) sim::fail("wrong_exception", "call %d level %d: exception %lld instead of %lld", si, depth, (long long)e.id, (long long)nid(si, expect));
	}
	catch (const std::exception& e) { sim::fail("wrong_exception", "call %d: unexpected std::exception: %s", si, e.what()); }
}
template<class T> future_t<T> nest(X* x, int t, int si, int depth, int64_t c)
{
	sim::ev(E_NB, t, nid(si, depth), x->S.here());
	if (depth > 0)
	{
		int below = outcome_below(c, depth);
		try
		{
			int64_t v;
			if constexpr (std::is_void_v<T>) { co_await nest<T>(x, t, si, depth - 1, c); v = nid(si, depth - 1); }
			else { decltype(auto) r = co_await nest<T>(x, t, si, depth - 1, c); v = Mk<T>::un(x, static_cast<T&&>(r), nid(si, depth - 1)); }
			if (below >= 0) sim::fail("exception_lost", "call %d level %d: the exception of level %d was not delivered", si, depth, below);
			if (v != nid(si, depth - 1)) sim::fail("wrong_value", "call %d level %d: received %lld", si, depth, (long long)v);
		}
		catch (const Err& e)
		{
			if (below < 0 || e.id != nid(si, below)) sim::fail("wrong_exception", "call %d level %d: exception %lld instead of level %d's", si, depth, (long long)e.id, below);
			if ((c >> 12 & 15) != depth && (c >> 8 & 15) != depth) { sim::ev(E_NE, t, nid(si, depth), x->S.here()); throw; }
		}
	}
	else switch (c & 15)
	{
	case 1: co_await yield(); break;
	case 2: co_await sleep_for(std::chrono::microseconds(5)); break;
	case 3: co_await via(x->S.sch[(c >> 4 & 15) % x->S.n]); break;
	case 4: co_await action(x, (c & ~15) | 1); break;
	}
	sim::ev(E_NE, t, nid(si, depth), x->S.here());
	if ((c >> 8 & 15) == depth)
	{
		if constexpr (std::is_same_v<T, Brit>) co_return Brit(nid(si, depth), nid(si, depth));
		else throw Err{ nid(si, depth) };
	}
	if constexpr (!std::is_void_v<T>) co_return Mk<T>::mk(x, nid(si, depth));
}

// where a task should be running (its own thread's register)
void check_here(X* x, int t, int si, scheduler_t* cur)
{
	if (this_scheduler() != x->S.sch[x->S.here()]) sim::fail("this_scheduler", "task %d step %d: this_scheduler() is not the scheduler of this thread", t, si);
	if (cur && cur != this_scheduler()) sim::fail("current_scheduler", "task %d step %d: the current scheduler is not the one running it", t, si);
}
#define STEPS(FUT) \
	for (size_t i = 0; i < x->w->ops.size(); ++i) \
	{ \
		const Op& o = x->w->ops[i]; \
		if (o.actor != t || o.kind == T_HDR || o.kind == OBS_EMPTY) continue; \
		sim::ev(E_INV, t, i, o.kind); \
		switch (o.kind) \
		{ \
		case ST_YIELD: co_await yield(); break; \
		case ST_SLEEP: co_await sleep_for(std::chrono::nanoseconds(o.a)); break; \
		case ST_SLEEPOTHER: co_await sleep_for(std::chrono::nanoseconds(o.a), *x->S.sch[o.b % x->S.n]); break; \
		case ST_VIA: if (o.b) co_await via(*x->S.sch[o.a % x->S.n]); else co_await via(x->S.sch[o.a % x->S.n]); break; \
		case ST_CALL: switch (o.b) { \
			case V_INT: co_await call<int64_t>(x, t, (int)i, (int)o.a, o.c); break; \
			case V_VOID: co_await call<void>(x, t, (int)i, (int)o.a, o.c); break; \
			case V_REF: co_await call<int64_t&>(x, t, (int)i, (int)o.a, o.c); break; \
			case V_UPTR: co_await call<std::unique_ptr<int64_t>>(x, t, (int)i, (int)o.a, o.c); break; \
			case V_STR: co_await call<std::string>(x, t, (int)i, (int)o.a, o.c); break; \
			case V_TRACK: co_await call<Trk>(x, t, (int)i, (int)o.a, o.c); break; \
			case V_BRIT: co_await call<Brit>(x, t, (int)i, (int)o.a, o.c); break; } break; \
		case ST_AWAIT: \
		{ \
			int64_t v = -1; \
			try { v = co_await awaiting(x, (int)i); } catch (const Err& e) { v = 1000 + e.id; } \
			if (v != (o.b ? 1000 + (int64_t)i : (int64_t)i)) sim::fail("wrong_value", "task %d step %zu: awaited result is %lld", t, i, (long long)v); \
			break; \
		} \
		case ST_SPAWN: start_task(x, (int)o.a); break; \
		case ST_CUR: \
		{ \
			nested_local(x, o.a); \
			scheduler_t* s = librf_current_scheduler(); \
			check_here(x, t, (int)i, s); \
			task_t* tk = librf_current_task(); \
			sim::ev(E_TASKPTR, t, (int64_t)tk, i); \
			co_await nested_cur(x, t, (int)i, librf_root_state(), tk); \
			break; \
		} \
		case ST_THROW: sim::ev(E_STEP, t, i, x->S.here()); sim::reg(R_ENDED)++; sim::ev(E_END, t, 0, x->S.here()); throw Err{ t }; \
		} \
		check_here(x, t, (int)i, nullptr); \
		sim::ev(E_STEP, t, i, x->S.here()); \
	}

// a second local_scheduler_t on a thread that has a scheduler changes nothing, neither while it exists nor afterwards
void nested_local(X* x, int64_t how)
{
	if (how == 1) { local_scheduler_t again; check_here(x, -1, 0, nullptr); }
	else if (how == 2) { local_scheduler_t again(*x->S.sch[0]); check_here(x, -1, 1, nullptr); }
	else if (how == 3) { local_scheduler_t again; local_scheduler_t third(*this_scheduler()); check_here(x, -1, 2, nullptr); }
	if (how) sim::probe("nested local_scheduler_t");
}
future_t<int64_t> awaiting(X* x, int i)
{
	awaitable_t<int64_t> a;
	x->slot[i] = a;
	sim::hb_release(HB_USER + i);
	sim::reg(R_POST + i) = 1;
	return a.get_future();
}
future_t<> nested_cur(X* x, int t, int i, state_base_t* root, task_t* tk)
{
	co_await yield();
	check_here(x, t, i, librf_current_scheduler());
	if (librf_root_state() != root) sim::fail("root_state", "task %d step %d: a nested coroutine has another root", t, i);
	if (librf_current_task() != tk) sim::fail("current_task", "task %d step %d: a nested coroutine sees another task", t, i);
}
void ended(int t, int here) { sim::reg(R_ENDED)++; sim::ev(E_END, t, 0, here); }

future_t<> body(X* x, int t)
{
	sim::ev(E_BEGIN, t, 0, x->S.here());
	check_here(x, t, -1, nullptr);
	STEPS(0)
	ended(t, x->S.here());
}
future_t<int64_t> body_coyield(X* x, int t, int k)
{
	sim::ev(E_BEGIN, t, 0, x->S.here());
	for (int i = 0; i < k; ++i) { sim::ev(E_INV, t, 100 + i, ST_YIELD); co_yield i; sim::ev(E_STEP, t, 100 + i, x->S.here()); }
	STEPS(0)
	ended(t, x->S.here());
	co_return 7;
}
future_t<int64_t&> body_coyield_ref(X* x, int t, int k)
{
	sim::ev(E_BEGIN, t, 0, x->S.here());
	for (int i = 0; i < k; ++i) { sim::ev(E_INV, t, 100 + i, ST_YIELD); co_yield x->refs[i]; sim::ev(E_STEP, t, 100 + i, x->S.here()); }
	STEPS(0)
	ended(t, x->S.here());
	co_return x->refs[k];
}
generator_t<> body_gen_void(X* x, int t, int k)
{
	sim::ev(E_BEGIN, t, 0, x->S.here());
	for (int i = 0; i < k; ++i) { sim::ev(E_INV, t, 100 + i, ST_YIELD); co_yield_void; sim::ev(E_STEP, t, 100 + i, x->S.here()); }
	ended(t, x->S.here());
	co_return_void;
}
generator_t<int> never_started(std::string) { co_return 0; }
generator_t<int> body_gen(X* x, int t, int k)
{
	sim::ev(E_BEGIN, t, 0, x->S.here());
	for (int i = 0; i < k; ++i) { sim::ev(E_INV, t, 100 + i, ST_YIELD); co_yield i; sim::ev(E_STEP, t, 100 + i, x->S.here()); }
	ended(t, x->S.here());
	co_return 0;
}

// bare futures of several types come to an end with a value or an exception
int barekind(X* x, int t) { return (int)((x->w->get("bare") + t) % 6); }
template<class T> void complete(X* x, int t, awaitable_t<T>& a)
{
	if (barekind(x, t) % 2) a.throw_exception(Err{ t });
	else if constexpr (std::is_void_v<T>) a.set_value();
	else if constexpr (std::is_reference_v<T>) a.set_value(x->refs[0]);
	else a.set_value(std::string("a value that nobody ever takes out of its future"));
}
void start_task(X* x, int t)
{
	int h = t < 64 ? x->hdr[t] : -1;
	if (h < 0) return;
	const Op& o = x->w->ops[h];
	int form = (int)(o.a % 10), s = (int)(o.a / 10 % 10) % x->S.n, k = (int)(o.c % 4);
	scheduler_t& sch = *x->S.sch[s];
	sim::reg(R_STARTED)++;
	sim::ev(E_START, t, s, form);
	task_t* p = nullptr;
	switch (form)
	{
	case F_FUTURE: p = sch + body(x, t); break;
	case F_LAMBDA: { Cap cap(x, t); p = sch + [x, t, cap]() ->future_t<> { return body(x, t); }; break; }
	case F_LAMBDA_GEN: { Cap cap(x, t); p = sch + [x, t, cap, k]() { return body_gen(x, t, k); }; break; }
	case F_GEN:
		if (o.c & 4)
		{
			// a generator that is assigned another one lets go of its old coroutine
			generator_t<int> g = never_started("never"), h = body_gen(x, t, k);
			g = std::move(h);
			p = sch + std::move(g);
		}
		else p = sch + body_gen(x, t, k);
		break;
	case F_GEN_VOID: p = sch + body_gen_void(x, t, k); break;
	case F_COYIELD_REF: p = sch + body_coyield_ref(x, t, k); break;
	case F_COYIELD: p = sch + body_coyield(x, t, k); break;
	case F_KEPT: { x->kept[t].emplace(body(x, t)); p = sch + *x->kept[t]; break; }
	case F_AWAITABLE:
	{
		auto bare = [&]<class T>(std::optional<awaitable_t<T>>& slot)
		{
			awaitable_t<T> a;
			auto f = a.get_future();
			if (k == 0) { sim::reg(R_ENDED)++; sim::ev(E_SET, t); complete(x, t, a); p = sch + f; }
			else if (k == 1) { p = sch + f; sim::reg(R_ENDED)++; sim::ev(E_SET, t); complete(x, t, a); }
			else
			{
				slot = std::move(a);
				sim::hb_release(HB_USER + 100 + t);
				sim::reg(R_POST + h) = 1;
				p = sch + f;
			}
		};
		switch (barekind(x, t) / 2)
		{
		case 0: bare(x->tslot[t].v); break;
		case 1: bare(x->tslot[t].s); break;
		case 2: bare(x->tslot[t].r); break;
		}
		break;
	}
	}
	sim::ev(E_STARTED, t, (int64_t)p, s);
}
Cap::~Cap()
{
	if (--sim::reg(R_CAP + t)) return;
	sim::ev(E_CAPDEL, t);
	// what the destructor of a captured object may do: start another task
	if (x->w->ops[x->hdr[t]].c / 10 % 10 == 1) { sim::probe("captured object starts a task in its destructor"); start_task(x, 40 + t); }
}
// completes what coroutines wait for, and bare futures
void helper(X* x, int me)
{
	size_t n = x->w->ops.size();
	auto mine = [x, me](size_t i) {
		const Op& o = x->w->ops[i];
		if (o.kind == ST_AWAIT) return (int)(o.a % x->nt) == me;
		if (o.kind == T_HDR) return o.a % 10 == F_AWAITABLE && (int)(o.a / 100) % x->nt == me;
		return false;
	};
	std::vector<char> done(n);
	for (;;)
	{
		char* d = done.data();
		bool ok = sim::park([d, n, &mine] { for (size_t i = 0; i < n; ++i) if (!d[i] && mine(i) && sim::reg(R_POST + i)) return true; return sim::reg(R_QUIT) != 0; });
		if (!ok || sim::reg(R_QUIT)) return;
		for (size_t i = 0; i < n; ++i)
			if (!done[i] && mine(i) && sim::reg(R_POST + i))
			{
				done[i] = 1;
				const Op& o = x->w->ops[i];
				if (o.c > 100 || o.c < 0) pause(o.c);
				if (o.kind == ST_AWAIT)
				{
					sim::hb_acquire(HB_USER + (int)i);
					sim::ev(E_SET, -1, i);
					if (o.b) x->slot[i]->throw_exception(Err{ (int64_t)i });
					else x->slot[i]->set_value((int64_t)i);
				}
				else
				{
					int t = o.actor;
					sim::hb_acquire(HB_USER + 100 + t);
					sim::reg(R_ENDED)++;
					sim::ev(E_SET, t);
					switch (barekind(x, t) / 2)
					{
					case 0: complete(x, t, *x->tslot[t].v); break;
					case 1: complete(x, t, *x->tslot[t].s); break;
					case 2: complete(x, t, *x->tslot[t].r); break;
					}
				}
				sim::ev(E_SET, -2, i);
			}
	}
}
void starter(X* x, int me)
{
	for (auto& o : x->w->ops)
	{
		if (o.kind == T_HDR && o.b == me)
		{
			if (o.c >= 100 && o.a % 10 != F_AWAITABLE) sim::sleep_ns(o.c);
			start_task(x, o.actor);
		}
		if (o.kind == OBS_EMPTY && o.actor == 1000 + me)
		{
			if (o.c) sim::sleep_ns(o.c);
			int s = (int)o.a % x->S.n;
			sim::ev_quiet(E_EMPTY, me, s);
			bool e = x->S.sch[s]->empty();
			sim::ev_quiet(E_EMPTYR, me, s, e);
		}
	}
}

void run(const Workload& w)
{
	int ns = (int)w.get("scheds"), nt = (int)w.get("threads");
	X x; x.w = &w; x.nt = nt;
	x.slot.resize(w.ops.size());
	x.tslot.resize(64);
	x.kept.resize(64);
	x.refs.resize(1000);
	for (int& h : x.hdr) h = -1;
	for (size_t i = 0; i < w.ops.size(); ++i)
		if (w.ops[i].kind == T_HDR) x.hdr[w.ops[i].actor] = (int)i;
	x.S.until = w.get("until") != 0;
	x.S.log = true;
	bool early = w.get("early") != 0;	// start everything the main thread starts before the schedulers run
	(void)early;
	x.S.start(ns);
	X* xp = &x;
	std::vector<int> tids, sids;
	for (int t = 0; t < nt; ++t)
	{
		tids.push_back(sim::spawn([xp, t] { helper(xp, t); }));
		sids.push_back(sim::spawn([xp, t] { starter(xp, THREAD + t); }));
	}
	starter(&x, 0);
	for (int t : sids) sim::join(t);
	if (!sim::park([] { return sim::reg(R_STARTED) == sim::reg(R_ENDED); }))
		sim::fail("never_ended", "%lld of %lld started tasks never ended", (long long)(sim::reg(R_STARTED) - sim::reg(R_ENDED)), (long long)sim::reg(R_STARTED));
	if (!x.S.quiesce()) sim::fail("no_quiescence", "a scheduler does not come to rest although every task has ended");
	if (sim::reg(R_STARTED) != sim::reg(R_ENDED))
	{
		if (!sim::park([] { return sim::reg(R_STARTED) == sim::reg(R_ENDED); })) sim::fail("never_ended", "a task started late never ended");
		if (!x.S.quiesce()) sim::fail("no_quiescence", "a scheduler does not come to rest although every task has ended");
	}
	// (a bare future's task may be dropped by the completing thread: let the helpers finish)
	sim::reg(R_QUIT) = 1;
	for (int t : tids) sim::join(t);
	for (int i = 0; i < ns; ++i)
		if (!x.S.sch[i]->empty()) sim::fail("not_empty", "scheduler %d is not empty although every task has ended", i);
	for (int t = 0; t < 64; ++t)
		if (sim::reg(R_CAP + t)) sim::fail("captures_kept", "the captures of task %d still exist after it ended", t);
	if (sim::reg(R_TRACK)) sim::fail("values_kept", "%lld nested results still exist", (long long)sim::reg(R_TRACK));
	x.kept.clear();
	x.S.stop();
}

// ------------------------------------------------------------------------------------------ oracles
bool plain_gen(int f) { return f == F_GEN || f == F_LAMBDA_GEN || f == F_GEN_VOID; }
bool yields(int f) { return plain_gen(f) || f == F_COYIELD || f == F_COYIELD_REF; }
bool migrates(const Workload& w, int t)
{
	for (auto& o : w.ops) if (o.actor == t && (o.kind == ST_VIA || (o.kind == ST_CALL && (o.c & 15) == 3))) return true;
	return false;
}
void check_life(const Workload& w, const std::vector<Ev>& ev)
{
	struct T { uint64_t start = 0, started = 0, begin = 0, end = 0, set = 0; int s = -1, form = 0, caps = 0; size_t step = 0; bool threw = false; int64_t ptr = 0; std::vector<int64_t> steps; };
	std::map<int64_t, T> m;
	struct Call { int64_t s; uint64_t inv, resp; bool until; };
	std::vector<Call> calls;
	std::map<int64_t, uint64_t> open, eopen;
	for (auto& e : ev)
		switch (e.kind)
		{
		case E_START: { T& t = m[e.a]; if (t.start) sim::fail("harness", "task started twice"); t.start = e.seq; t.s = (int)e.b; t.form = (int)e.c; break; }
		case E_STARTED: m[e.a].started = e.seq; m[e.a].ptr = e.b; break;
		case E_BEGIN:
			if (m[e.a].begin) sim::fail("ran_twice", "task %lld began twice", (long long)e.a);
			m[e.a].begin = e.seq;
			if (e.c != m[e.a].s) sim::fail("wrong_scheduler", "task %lld began on scheduler %lld instead of %d", (long long)e.a, (long long)e.c, m[e.a].s);
			break;
		case E_STEP: m[e.a].steps.push_back(e.b); break;
		case E_END: if (m[e.a].end) sim::fail("ran_twice", "task %lld ended twice", (long long)e.a); m[e.a].end = e.seq; break;
		case E_SET: if (e.a >= 0) m[e.a].end = m[e.a].set = e.seq; break;
		case E_CAPDEL:
			if (++m[e.a].caps > 1) sim::fail("captures_twice", "the captures of task %lld were destroyed twice", (long long)e.a);
			if (!m[e.a].end) sim::fail("captures_early", "the captures of task %lld were destroyed before it ended", (long long)e.a);
			break;
		case EV_RUN: open[e.a] = e.seq; break;
		case EV_RUNRET: calls.push_back({ e.a, open[e.a], e.seq, true }); break;
		case E_EMPTY: eopen[e.a] = e.seq; break;
		case E_EMPTYR: if (e.c) calls.push_back({ e.b, eopen[e.a], e.seq, false }); break;
		}
	for (auto& kv : m)
	{
		T& t = kv.second;
		if (t.form != F_AWAITABLE && (!t.begin || !t.end)) sim::fail("never_ended", "task %lld never %s", (long long)kv.first, t.begin ? "ended" : "began");
		std::vector<int64_t> expect;
		if (yields(t.form))
			for (auto& o : w.ops) if (o.kind == T_HDR && o.actor == kv.first) for (int k = 0; k < (int)(o.c % 4); ++k) expect.push_back(100 + k);
		if (!plain_gen(t.form) && t.form != F_AWAITABLE)
			for (size_t i = 0; i < w.ops.size(); ++i)
				if (w.ops[i].actor == kv.first && w.ops[i].kind != T_HDR && w.ops[i].kind != OBS_EMPTY) { expect.push_back(i); if (w.ops[i].kind == ST_THROW) break; }
		if (expect != t.steps) sim::fail("wrong_steps", "task %lld performed %zu steps instead of %zu", (long long)kv.first, t.steps.size(), expect.size());
		// "there is nothing left to run" must not be said while this task is alive
		if (!migrates(w, (int)kv.first))
			for (auto& c : calls)
				if (c.s == t.s && t.started && t.started < c.inv && (!t.end || t.end > c.resp))
					sim::fail(c.until ? "notask_early" : "empty_wrong", "%s although task %lld was still unfinished", c.until ? "run_until_notask() returned" : "empty() was true", (long long)kv.first);
	}
}
void check_where(const Workload& w, const std::vector<Ev>& ev)
{
	std::map<int64_t, int64_t> home, ptr, retptr;
	std::map<int64_t, uint64_t> begun;
	for (auto& e : ev)
		switch (e.kind)
		{
		case E_START: home[e.a] = e.b; break;
		case E_STARTED: retptr[e.a] = e.b; if (ptr.count(e.a) && ptr[e.a] != e.b) sim::fail("current_task", "task %lld saw another task object than its starter", (long long)e.a); break;
		case E_TASKPTR:
			if (!e.b) sim::fail("current_task", "task %lld has no task object", (long long)e.a);
			if (ptr.count(e.a) && ptr[e.a] != e.b) sim::fail("current_task", "the task object of task %lld changed", (long long)e.a);
			if (retptr.count(e.a) && retptr[e.a] != e.b) sim::fail("current_task", "task %lld saw another task object than its starter", (long long)e.a);
			ptr[e.a] = e.b;
			break;
		case E_BEGIN: case E_END: case E_NB: case E_NE:
			if (e.kind == E_NE && (e.b % 10) == 0 && e.b / 10 < (int64_t)w.ops.size())
			{
				auto& o = w.ops[e.b / 10];
				if ((o.c & 15) == 3) home[e.a] = (o.c >> 4 & 15) % w.get("scheds");
			}
			if (e.c != home[e.a]) sim::fail("wrong_scheduler", "task %lld ran on scheduler %lld instead of %lld", (long long)e.a, (long long)e.c, (long long)home[e.a]);
			break;
		case E_STEP:
			if (e.b < (int64_t)w.ops.size() && w.ops[e.b].kind == ST_VIA) home[e.a] = w.ops[e.b].a % w.get("scheds");
			if (e.c != home[e.a]) sim::fail("wrong_scheduler", "task %lld step %lld finished on scheduler %lld instead of %lld", (long long)e.a, (long long)e.b, (long long)e.c, (long long)home[e.a]);
			break;
		}
}
// C03: everything becomes ready in some interval and is run in that order, one batch after another
void check_order(const Workload& w, const std::vector<Ev>& ev)
{
	int ns = (int)w.get("scheds");
	std::vector<uint64_t> next(ev.size());		// sequence number of the same thread's next event
	{
		std::map<int, uint64_t> nx;
		for (size_t i = ev.size(); i-- > 0;) { next[i] = nx.count(ev[i].fiber) ? nx[ev[i].fiber] : ~0ull; nx[ev[i].fiber] = ev[i].seq; }
	}
	struct R { uint64_t i, r, t; int s; int64_t task; bool own; int64_t what; };
	std::vector<R> rs;
	std::map<int64_t, R> pend;			// per task: what is going to be resumed next
	std::map<int64_t, int> home;
	std::map<int, int> fib;				// thread -> scheduler
	std::map<int, size_t> prevk;		// thread -> its previous event
	struct B { uint64_t b, e; bool worked; };
	std::vector<B> batch[8];
	auto resumed = [&](int64_t t, uint64_t seq, int64_t what) {
		auto it = pend.find(t);
		if (it == pend.end()) return;
		R r = it->second; r.t = seq; r.what = what;
		rs.push_back(r);
		pend.erase(it);
	};
	for (size_t k = 0; k < ev.size(); ++k)
	{
		auto& e = ev[k];
		switch (e.kind)
		{
		case EV_BATCH: batch[e.a].push_back({ e.seq, ~0ull, false }); fib[e.fiber] = (int)e.a; break;
		case EV_BATCHEND: batch[e.a].back().e = e.seq; batch[e.a].back().worked = e.b; break;
		case E_START: home[e.a] = (int)e.b; if (e.c != F_AWAITABLE) pend[e.a] = { e.seq, ~0ull, 0, (int)e.b, e.a, fib.count(e.fiber) && fib[e.fiber] == e.b, 0 }; break;
		case E_STARTED: if (pend.count(e.a) && pend[e.a].r == ~0ull && pend[e.a].what == 0) pend[e.a].r = e.seq; break;
		case E_BEGIN: resumed(e.a, e.seq, 0); break;
		case E_INV:
			if (e.c == ST_YIELD) pend[e.a] = { e.seq, next[k], 0, home[e.a], e.a, true, 1 };
			if (e.c == ST_VIA && w.ops[e.b].a % ns != home[e.a]) { home[e.a] = (int)(w.ops[e.b].a % ns); pend[e.a] = { e.seq, next[k], 0, home[e.a], e.a, false, 2 }; }
			if (e.c == ST_AWAIT) pend[e.a] = { 0, 0, 0, home[e.a], e.a, false, 3 };
			break;
		case E_SET:
			if (e.a == -1 || e.a == -2)
			{
				auto it = pend.find(w.ops[e.b].actor);
				if (it != pend.end() && it->second.what == 3 && w.ops[e.b].kind == ST_AWAIT)
				{
					// the await itself may come later than the set
					if (e.a == -1) it->second.i = e.seq;
					it->second.r = ~0ull;
				}
			}
			break;
		case E_NE:
			if (e.b % 10 == 0 && (w.ops[e.b / 10].c & 15) == 3) home[e.a] = (int)((w.ops[e.b / 10].c >> 4 & 15) % ns);
			break;
		case E_STEP:
			// what is there already is taken without suspending
			if (prevk.count(e.fiber) && ev[prevk[e.fiber]].kind == E_INV && ev[prevk[e.fiber]].a == e.a && pend.count(e.a) && pend[e.a].what == 3) pend.erase(e.a);
			resumed(e.a, e.seq, e.b);
			break;
		}
		prevk[e.fiber] = k;
	}
	for (auto& a : rs)
		for (auto& b : rs)
			if (a.s == b.s && a.r < b.i && a.t > b.t)
				sim::fail("out_of_order", "task %lld became ready before task %lld on scheduler %d but was run after it", (long long)a.task, (long long)b.task, a.s);
	for (auto& a : rs)
		for (auto& b : batch[a.s])
		{
			if (b.e == ~0ull) continue;
			if (a.r < b.b && a.t > b.e) sim::fail("postponed", "task %lld was ready before a batch of scheduler %d began but was not run in it", (long long)a.task, a.s);
			if (a.own && a.i > b.b && a.i < b.e && a.t < b.e) sim::fail("same_batch", "task %lld became ready during a batch of scheduler %d and was run in the same batch", (long long)a.task, a.s);
			if (a.t > b.b && a.t < b.e && !b.worked) sim::fail("batch_result", "run_one_batch() returned false although it ran task %lld", (long long)a.task);
		}
}
// going over to the scheduler one is on already does not suspend: the thread does nothing in between
void check_stay(const Workload& w, const std::vector<Ev>& ev)
{
	std::map<int64_t, int64_t> home;
	struct L { int64_t kind = 0, task = 0, what = 0; };
	std::map<int, L> last;			// per thread
	for (auto& e : ev)
	{
		L& l = last[e.fiber];
		switch (e.kind)
		{
		case E_START: home[e.a] = e.b; break;
		case E_STEP:
			if (e.b >= (int64_t)w.ops.size() || w.ops[e.b].kind != ST_VIA) break;
			if (home[e.a] == w.ops[e.b].a % w.get("scheds"))
			{
				if (l.kind != E_INV || l.task != e.a || l.what != e.b)
					sim::fail("via_suspended", "task %lld step %lld was suspended although it went over to the scheduler it was on", (long long)e.a, (long long)e.b);
				sim::probe("via to the current scheduler");
			}
			home[e.a] = w.ops[e.b].a % w.get("scheds");
			break;
		case E_NE:
			if (e.b % 10 || e.b / 10 >= (int64_t)w.ops.size() || (w.ops[e.b / 10].c & 15) != 3) break;
			if (home[e.a] == (w.ops[e.b / 10].c >> 4 & 15) % w.get("scheds") && (l.kind != E_NB || l.task != e.a || l.what != e.b))
				sim::fail("via_suspended", "task %lld: a nested coroutine was suspended although it went over to the scheduler it was on", (long long)e.a);
			home[e.a] = (w.ops[e.b / 10].c >> 4 & 15) % w.get("scheds");
			break;
		}
		l = L{ e.kind, e.a, e.b };
	}
}
void check_c01(const Workload& w, const std::vector<Ev>& ev) { check_life(w, ev); }
void check_c02(const Workload& w, const std::vector<Ev>& ev) { check_life(w, ev); check_where(w, ev); check_stay(w, ev); }
void check_c03(const Workload& w, const std::vector<Ev>& ev) { check_life(w, ev); check_order(w, ev); check_stay(w, ev); }
void check_c05(const Workload& w, const std::vector<Ev>& ev) { check_life(w, ev); check_where(w, ev); }

// ------------------------------------------------------------------------------------------ workloads
int64_t callspec(Rng& r, int ns, int depth, bool viaok)
{
	int64_t act = r.in(0, 4);
	if (act == 3 && !viaok) act = 1;
	int tl = r.p(1, 2) ? (int)r.in(0, depth) : 15, cl = r.p(1, 2) ? (int)r.in(0, depth) : 15;
	return act | r.in(0, ns - 1) << 4 | (int64_t)tl << 8 | (int64_t)cl << 12;
}
void gen_common(Rng& r, Workload& w, int flavour)
{
	int ns = flavour == 2 ? (int)r.in(1, 2) : (int)r.in(1, 3), nt = flavour == 3 ? 1 : (int)r.in(1, 2);
	w.set("bare", r.in(0, 5)); w.set("scheds", ns); w.set("threads", nt);
	w.set("until", flavour == 0 ? r.in(0, 1) : flavour == 2 ? 0 : r.p(1, 4));
	int n = (int)r.in(1, flavour == 3 ? 4 : 6), cap = flavour == 3 ? 4 : 6;
	bool mixed = r.p(1, 2), vias = ns > 1 && (flavour == 1 || r.p(1, 2)), delays = flavour != 2 && r.p(1, 2), dtor = flavour == 0 && r.p(1, 3);
	int hi = (int)r.in(4, 8);
	for (int t = 0; t < n; ++t)
	{
		Op h; h.actor = t; h.kind = T_HDR;
		int form = flavour == 0 ? (int)r.in(0, F_COUNT - 1) : flavour == 2 ? r.pick({ F_FUTURE, F_LAMBDA, F_GEN, F_COYIELD, F_FUTURE, F_COYIELD_REF, F_GEN_VOID }) : r.p(1, 2) ? F_FUTURE : r.p(1, 2) ? F_LAMBDA : F_KEPT;
		bool child = t > 0 && r.p(1, 3);
		h.a = form + 10 * r.in(0, ns - 1) + 100 * r.in(0, nt - 1);
		h.b = child ? CHILD : r.p(1, 2) ? 0 : THREAD + r.in(0, nt - 1);
		h.c = yields(form) ? r.in(0, 3) + (form == F_GEN && r.p(1, 4) ? 4 : 0) : form == F_AWAITABLE ? r.in(0, 3) : delays ? log_uniform(r, 3, hi) / 4 * 4 : 0;
		bool dt = dtor && (form == F_LAMBDA || form == F_LAMBDA_GEN) && r.p(1, 2);
		if (form == F_LAMBDA || form == F_LAMBDA_GEN) h.c = h.c % 4 + (dt ? 10 : 0);
		w.ops.push_back(h);
		if (dt) { Op k; k.actor = 40 + t; k.kind = T_HDR; k.a = r.pick({ F_FUTURE, F_GEN }) + 10 * r.in(0, ns - 1); k.b = CHILD; k.c = r.in(0, 3); w.ops.push_back(k); }
		if (child)
		{
			// spawned by an earlier task that has steps
			Op s; s.actor = (int)r.in(0, t - 1); s.kind = ST_SPAWN; s.a = t;
			w.ops.push_back(s);
		}
		int steps = (int)r.in(0, cap);
		for (int i = 0; i < steps; ++i)
		{
			Op o; o.actor = t;
			int k = (int)r.in(0, 99);
			if (flavour == 3) k = k < 80 ? 60 : k;
			if (k < 25 || (flavour == 2 && k < 60 && !mixed)) o.kind = ST_YIELD;
			else if (k < 40) { o.kind = ST_AWAIT; o.a = r.in(0, nt - 1); o.b = r.p(1, 4); o.c = flavour == 0 && r.p(1, 400) ? long_wait(r) : delays && r.p(1, 2) ? log_uniform(r, 3, hi) : 0; }
			else if (k < 55) { if (vias) { o.kind = ST_VIA; o.a = r.in(0, ns - 1); o.b = r.in(0, 1); } else o.kind = ST_YIELD; }
			else if (k < 75) { o.kind = ST_CALL; o.a = r.in(0, flavour == 3 ? 4 : 2); o.b = r.in(0, V_COUNT - 1); o.c = callspec(r, ns, (int)o.a, vias); }
			else if (k < 85 && flavour != 2) { o.kind = r.p(1, 3) ? ST_SLEEPOTHER : ST_SLEEP; o.a = log_uniform(r, 2, hi); o.b = r.in(0, ns - 1); }
			else if (k < 93) { o.kind = ST_CUR; o.a = r.in(0, 3); }
			else if (k < 95 && flavour != 2) o.kind = ST_THROW;
			else o.kind = ST_YIELD;
			w.ops.push_back(o);
		}
	}
	if (flavour == 0)
		for (int i = (int)r.in(0, 4); i > 0; --i)
		{
			Op o; o.kind = OBS_EMPTY; o.actor = 1000 + (r.p(1, 2) ? 0 : THREAD + (int)r.in(0, nt - 1)); o.a = r.in(0, ns - 1); o.c = r.p(1, 2) ? 0 : log_uniform(r, 2, hi);
			size_t at = (size_t)r.in(0, (int64_t)w.ops.size());
			w.ops.insert(w.ops.begin() + at, o);
		}
}
// ------------------------------------------------------------------------------------------ many at once
enum { B_BEGIN = 60, B_START, B_STARTED };
enum { R_GO = R_USER + 300, R_BENDED, R_BSTOP };
future_t<> many(int i, int yields)
{
	sim::ev(B_BEGIN, i, 0);
	for (int k = 0; k < yields; ++k) { co_await yield(); sim::ev(B_BEGIN, i, k + 1); }
	sim::reg(R_BENDED)++;
}
void run_bulk(const Workload& w)
{
	int n = (int)w.get("n"), m = (int)w.get("more"), y = (int)w.get("yields");
	struct Y { scheduler_t* sch = nullptr; } yy;
	Y* x = &yy;
	int total = n + m;
	int owner = sim::spawn([x, total] {
		local_scheduler_t ls;
		x->sch = this_scheduler();
		sim::hb_release(HB_SCHED);
		sim::reg(R_READY0) = 1;
		sim::park([] { return sim::reg(R_GO) != 0; });
		sim::hb_acquire(HB_USER);
		while (sim::reg(R_BENDED) < total || !x->sch->empty())
		{
			uint64_t q = sim::ev_quiet(EV_BATCH, 0);
			bool worked = x->sch->run_one_batch();
			if (worked || !sim::ev_drop(q)) sim::ev_quiet(EV_BATCHEND, 0, worked);
			if (!worked) sim::idle();
		}
		sim::park([] { return sim::reg(R_BSTOP) != 0; });
		sim::hb_acquire(HB_STOP);
	});
	sim::park([] { return sim::reg(R_READY0) != 0; });
	sim::hb_acquire(HB_SCHED);
	for (int i = 0; i < n; ++i) { sim::ev(B_START, i); *x->sch + many(i, i % (y + 1)); sim::ev(B_STARTED, i); }
	sim::hb_release(HB_USER);
	sim::reg(R_GO) = 1;
	for (int i = n; i < total; ++i) { sim::ev(B_START, i); *x->sch + many(i, i % (y + 1)); sim::ev(B_STARTED, i); }
	if (!sim::park([total] { return sim::reg(R_BENDED) >= total; })) sim::fail("never_ended", "%lld of %d coroutines ended", (long long)sim::reg(R_BENDED), total);
	sim::hb_release(HB_STOP);
	sim::reg(R_BSTOP) = 1;
	sim::join(owner);
}
void check_bulk(const Workload& w, const std::vector<Ev>& ev)
{
	int n = (int)w.get("n"), total = n + (int)w.get("more");
	std::vector<uint64_t> started(total), begun(total), batches;
	std::vector<int> turn(total, -1);
	int64_t cur = -1;		// number of the running batch
	std::vector<int64_t> lastin(total, -1);
	int64_t prev = -1, prevbatch = -1, prevturn = -1;
	bool worked = false;
	for (auto& e : ev)
		switch (e.kind)
		{
		case B_STARTED: started[e.a] = e.seq; break;
		case EV_BATCH: batches.push_back(e.seq); ++cur; worked = false; break;
		case EV_BATCHEND: if (!e.b && worked) sim::fail("batch_result", "run_one_batch() returned false although it ran coroutines"); break;
		case B_BEGIN:
		{
			worked = true;
			if (e.b != turn[e.a] + 1) sim::fail("ran_twice", "coroutine %lld performed step %lld after step %d", (long long)e.a, (long long)e.b, turn[e.a]);
			turn[e.a] = (int)e.b;
			if (e.b > 0)
			{
				// what yields in a batch runs in the next one
				if (lastin[e.a] == cur) sim::fail("same_batch", "coroutine %lld yielded and was run again in the same batch", (long long)e.a);
				if (lastin[e.a] + 1 != cur) sim::fail("postponed", "coroutine %lld yielded and was not run in the next batch", (long long)e.a);
			}
			else
			{
				begun[e.a] = e.seq;
				// ready before this batch was taken: must have been in the first batch after that
				for (int64_t b = cur - 1; b >= 0 && b >= cur - 1; --b)
					if (e.a < n ? b >= 0 : started[e.a] && started[e.a] < batches[b]) sim::fail("postponed", "coroutine %lld was ready before batch %lld began but was not run in it", (long long)e.a, (long long)b);
			}
			// in one batch, those that begin do so in the order in which they were started, those that yielded likewise
			if (prevbatch == cur && prevturn == e.b && prev > e.a) sim::fail("out_of_order", "coroutine %lld ran before coroutine %lld, which became ready earlier", (long long)prev, (long long)e.a);
			prev = e.a; prevbatch = cur; prevturn = e.b;
			lastin[e.a] = cur;
			break;
		}
		}
	for (int i = 0; i < total; ++i)
		if (turn[i] != i % ((int)w.get("yields") + 1)) sim::fail("never_ended", "coroutine %d stopped after step %d", i, turn[i]);
}
void gen_bulk(Rng& r, Workload& w)
{
	int64_t n = r.p(1, 2) ? r.pick({ 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097 }) : r.p(1, 2) ? r.in(100, 1000) : r.in(1000, 5000);
	w.set("n", n); w.set("more", r.p(1, 2) ? 0 : r.in(1, 50)); w.set("yields", r.in(0, 2));
}
void gen0(Rng& r, Workload& w) { gen_common(r, w, 0); }
void gen1(Rng& r, Workload& w) { gen_common(r, w, 1); }
void gen2(Rng& r, Workload& w) { gen_common(r, w, 2); }
void gen3(Rng& r, Workload& w) { gen_common(r, w, 3); }
sim::Register r0({ "task_lifecycle", "C01", gen0, run, check_c01, 1 });
sim::Register r1({ "task_affinity", "C02", gen1, run, check_c02, 1 });
sim::Register r2({ "task_order", "C03", gen2, run, check_c03, 400 });
sim::Register r4({ "task_many", "C03", gen_bulk, run_bulk, check_bulk, 1 });
sim::Register r3({ "task_nested", "C05", gen3, run, check_c05, 1 });
}

// C12, C13, C14: mutex_t against a sequential model (owner, recursion count, FIFO hand-off to suspended coroutines),
// timed locks, and deadlock-free locking of several mutexes.
#include "common.h"
#include <unordered_set>
using namespace H;

namespace {
enum { E_INV = 1, E_RESP, E_DEADLINE, E_SECTION };
// primitive operations on one mutex, as they appear in the history
enum { P_LOCK, P_SPIN, P_TRY, P_TIMED, P_UNLOCK, P_ISLOCKED, P_TRYSPIN };
// program steps
enum { O_GUARD, O_MANUAL, O_TRY, O_TRY_FOR, O_TRY_UNTIL, O_FOREIGN_UNLOCK, O_IS_LOCKED, O_BATCH, O_BATCH_MANUAL, O_MOVE_GUARD, O_EARLY };
enum { THREAD = 10, MAXM = 4 };
enum { R_OPID = R_USER, R_OWNER = R_USER + 10, R_DEPTH = R_USER + 20, R_LASTID = R_USER + 30 };
enum { HB_M = HB_USER };

struct X
{
	Scheds S;
	std::vector<mutex_t> mx;
	int64_t* data = nullptr;		// one plain counter per mutex, protected by it
	const Workload* w = nullptr;
};

// ---------------------------------------------------------------- history helpers
int64_t inv(int kind, int m, int who, int64_t id = -1) { if (id < 0) id = sim::reg(R_OPID)++; sim::ev(E_INV, id, kind | m << 8, who); return id; }
void resp(int64_t id, int64_t r) { sim::ev(E_RESP, id, r, sim::wall()); }

// critical section bookkeeping: called right after a successful acquisition / right before a release
void entered(X* x, int m, int who)
{
	if (sim::reg(R_DEPTH + m) && sim::reg(R_OWNER + m) != who)
		sim::fail("not_exclusive", "mutex %d acquired by %d while %d is inside", m, who, (int)sim::reg(R_OWNER + m));
	sim::reg(R_OWNER + m) = who;
	sim::reg(R_DEPTH + m)++;
	x->data[m]++;
}
void leaving(X* x, int m, int who)
{
	x->data[m]++;
	if (sim::reg(R_OWNER + m) != who || sim::reg(R_DEPTH + m) <= 0)
		sim::fail("not_exclusive", "mutex %d: %d lost it to %d inside its critical section", m, who, (int)sim::reg(R_OWNER + m));
	sim::reg(R_DEPTH + m)--;
}

// the time-out of an operation in one of several duration types
template<class F> auto in_unit(const Op* o, F f)
{
	switch (o->a >> 18 & 3)
	{
	case 1: return f(std::chrono::microseconds(o->b / 1000));
	case 2: return f(std::chrono::milliseconds(o->b / 1000000));
	case 3: return f(std::chrono::duration<double>(o->b * 1e-9));
	default: return f(std::chrono::nanoseconds(o->b));
	}
}
int pick_mutex(const Op& o) { return (int)(o.a & 3); }
// o.a: mutex | recursion depth << 4 | release style << 8 | second mutex set << 12;  o.b: timeout; o.c: hold time code

future_t<> hold(X* x, int64_t code, bool migrate)
{
	if (code == 1) co_await yield();
	else if (code) co_await co_pause(code);
	if (migrate) co_await via(x->S.sch[(x->S.here() + 1) % x->S.n]);
}

future_t<> section(X* x, const Op* o, int who, int depth);

future_t<> inside(X* x, const Op* o, int who, int depth, int m)
{
	if (depth > 0)
	{
		// recursion in a child coroutine of the same root: must never block
		int64_t id = inv(P_LOCK, m, who);
		batch_unlock_t g = co_await x->mx[m].lock();
		resp(id, 1);
		entered(x, m, who);
		co_await inside(x, o, who, depth - 1, m);
		leaving(x, m, who);
		id = inv(P_UNLOCK, m, who);
		g.unlock();
		resp(id, 1);
	}
	else co_await hold(x, o->c, (o->a >> 16 & 1) != 0);
}

int batch_n(const Op* o) { return (o->a >> 25 & 1) && o->kind == O_BATCH_MANUAL ? 1 : 2 + (int)(o->a >> 12 & 3) % 3; }

// releases a guard in one of the ways it can be released
template<class G> future_t<> keep(G g) { co_await yield(); (void)g; }
template<class G> future_t<> release(G g, int64_t how)
{
	switch (how)
	{
	case 0: break;										// by the destructor
	case 1: g.unlock(); co_await yield(); break;
	case 2: { G h(std::move(g)); } co_await yield(); break;
	case 3: { G h(std::adopt_lock, nullptr); h = std::move(g); h.unlock(); h.unlock(); } g.unlock(); co_await yield(); break;
	case 4: co_await keep(std::move(g)); break;
	case 5: g = G(std::adopt_lock, nullptr); co_await yield(); break;
	case 6: { G h(std::adopt_lock, nullptr); h = std::move(g); G k(std::move(h)); } break;
	default: g.unlock(); break;
	}
}

future_t<> section(X* x, const Op* o, int who, int)
{
	int m = pick_mutex(*o), depth = (int)(o->a >> 4 & 3), style = (int)(o->a >> 8 & 3);
	mutex_t copy = (o->a >> 20 & 1) ? x->mx[m] : mutex_t(std::adopt_lock);		// copies denote the same lock
	mutex_t& mx = (o->a >> 20 & 1) ? copy : x->mx[m];
	switch (o->kind)
	{
	case O_GUARD:
	{
		int64_t id = inv(P_LOCK, m, who), u = 0;
		{
			batch_unlock_t g = co_await mx;
			resp(id, 1);
			entered(x, m, who);
			co_await inside(x, o, who, depth, m);
			leaving(x, m, who);
			u = inv(P_UNLOCK, m, who);
		}
		resp(u, 1);
		break;
	}
	case O_EARLY:
	{
		int64_t id = inv(P_LOCK, m, who);
		batch_unlock_t g = co_await mx.lock();
		resp(id, 1);
		entered(x, m, who);
		co_await inside(x, o, who, depth, m);
		leaving(x, m, who);
		int64_t u = inv(P_UNLOCK, m, who);
		g.unlock();
		resp(u, 1);
		g.unlock();
		co_await hold(x, o->c, false);		// the guard's destructor runs later and must not unlock anybody else
		break;
	}
	case O_MOVE_GUARD:
	{
		int64_t id = inv(P_LOCK, m, who);
		batch_unlock_t g = co_await mx.lock();
		resp(id, 1);
		entered(x, m, who);
		{
			batch_unlock_t g2(std::move(g));
			co_await inside(x, o, who, depth, m);
			leaving(x, m, who);
			id = inv(P_UNLOCK, m, who);
			if (style & 1) g2 = batch_unlock_t<mutex_t>{};
			else { batch_unlock_t g3(std::move(g2)); }
			resp(id, 1);
		}
		break;
	}
	case O_MANUAL: case O_TRY: case O_TRY_FOR: case O_TRY_UNTIL:
	{
		bool ok = true;
		if (o->kind == O_MANUAL)
		{
			int64_t id = inv(P_LOCK, m, who);
			co_await mx.lock(adopt_manual_unlock);
			resp(id, 1);
		}
		else if (o->kind == O_TRY)
		{
			int64_t id = inv(P_TRY, m, who);
			ok = co_await mx.try_lock();
			resp(id, ok);
		}
		else
		{
			int64_t id = sim::reg(R_OPID)++;
			if (o->kind == O_TRY_FOR) ok = co_await in_unit(o, [&](auto d) {
				sim::ev_wall(E_DEADLINE, id, std::chrono::duration_cast<std::chrono::nanoseconds>(d).count(), 1);
				inv(P_TIMED, m, who, id);
				return mx.try_lock_for(d);
			});
			else
			{
				int64_t tp = sim::ev_wall(E_DEADLINE, id, o->b);
				inv(P_TIMED, m, who, id);
				ok = co_await mx.try_lock_until(std::chrono::system_clock::time_point(std::chrono::nanoseconds(tp)));
			}
			resp(id, ok);
		}
		if (!ok) break;
		entered(x, m, who);
		co_await inside(x, o, who, depth, m);
		leaving(x, m, who);
		int64_t u = inv(P_UNLOCK, m, who);
		switch (style)
		{
		case 0: co_await mx.unlock(); break;
		case 1: mx.unlock(librf_root_state()); break;
		case 2: co_await mutex_t::unlock(mx); break;
		default: mutex_t::unlock(librf_root_state(), mx); break;
		}
		resp(u, 1);
		break;
	}
	case O_FOREIGN_UNLOCK:
	{
		// unlocking a mutex one does not own changes nothing
		int64_t id = inv(P_UNLOCK, m, who);
		co_await mx.unlock();
		resp(id, 1);
		break;
	}
	case O_IS_LOCKED:
	{
		int64_t id = inv(P_ISLOCKED, m, who);
		bool r = mx.is_locked();
		resp(id, r);
		break;
	}
	case O_BATCH: case O_BATCH_MANUAL:
	{
		int n = batch_n(o);				// mutexes, rotated / reversed order
		int nm = (int)x->mx.size(); if (n > nm) n = nm;
		int at[4]; for (int i = 0; i < n; ++i) at[i] = (m + ((style & 1) ? nm * 4 - i : i)) % nm;
		auto in = [&] { for (int i = 0; i < n; ++i) entered(x, at[i], who); };
		auto out = [&] { for (int i = 0; i < n; ++i) leaving(x, at[i], who); };
		auto& M = x->mx;
		if (o->a >> 21 & 1) at[n - 1] = at[0];			// the same one twice: a recursive lock
		if (o->kind == O_BATCH)
		{
			if (n == 2) { auto g = co_await mutex_t::lock(M[at[0]], M[at[1]]); in(); co_await inside(x, o, who, 0, 0); out(); co_await release(std::move(g), o->a >> 22 & 7); }
			else if (n == 3) { batch_unlock_t g = co_await mutex_t::lock(M[at[0]], M[at[1]], M[at[2]]); in(); co_await inside(x, o, who, 0, 0); out(); if (style & 2) { g.unlock(); co_await yield(); } }
			else { batch_unlock_t g = co_await mutex_t::lock(M[at[0]], M[at[1]], M[at[2]], M[at[3]]); in(); co_await inside(x, o, who, 0, 0); out(); co_await release(std::move(g), o->a >> 22 & 7); }
		}
		else
		{
			if (n == 1) { co_await mutex_t::lock(adopt_manual_unlock, M[at[0]]); in(); co_await inside(x, o, who, 0, 0); out();
				if (style & 2) co_await mutex_t::unlock(M[at[0]]); else mutex_t::unlock(librf_root_state(), M[at[0]]); }
			else if (n == 2) { co_await mutex_t::lock(adopt_manual_unlock, M[at[0]], M[at[1]]); in(); co_await inside(x, o, who, 0, 0); out();
				if (style & 2) co_await mutex_t::unlock(M[at[0]], M[at[1]]); else mutex_t::unlock(librf_root_state(), M[at[0]], M[at[1]]); }
			else if (n == 3) { co_await mutex_t::lock(adopt_manual_unlock, M[at[0]], M[at[1]], M[at[2]]); in(); co_await inside(x, o, who, 0, 0); out();
				if (style & 2) co_await mutex_t::unlock(M[at[0]], M[at[1]], M[at[2]]); else mutex_t::unlock(librf_root_state(), M[at[0]], M[at[1]], M[at[2]]); }
			else { co_await mutex_t::lock(adopt_manual_unlock, M[at[0]], M[at[1]], M[at[2]], M[at[3]]); in(); co_await inside(x, o, who, 0, 0); out();
				if (style & 2) co_await mutex_t::unlock(M[at[0]], M[at[1]], M[at[2]], M[at[3]]); else mutex_t::unlock(librf_root_state(), M[at[0]], M[at[1]], M[at[2]], M[at[3]]); }
		}
		sim::ev(E_SECTION, who, n);
		break;
	}
	}
}
future_t<> actor(X* x, int a)
{
	for (size_t i = 0; i < x->w->ops.size(); ++i)
		if (x->w->ops[i].actor == a)
		{
			co_await section(x, &x->w->ops[i], a, 0);
			if (x->w->ops[i].a >> 17 & 1) co_await yield();
		}
	sim::reg(R_DONE)++;
}

// the same steps from a plain thread: blocking forms
void thread_hold(int64_t code) { if (code > 1 || code < 0) H::pause(code); else if (code) std::this_thread::yield(); }
template<class G> void thread_release(G& g, int64_t how)
{
	switch (how)
	{
	case 0: break;
	case 1: g.unlock(); break;
	case 2: { G h(std::move(g)); } break;
	case 3: { G h(std::adopt_lock, nullptr); h = std::move(g); h.unlock(); h.unlock(); } g.unlock(); break;
	case 4: { G h(std::move(g)); G k(std::move(h)); k.unlock(); } break;
	case 5: g = G(std::adopt_lock, nullptr); break;
	default: g.unlock(); g.unlock(); break;
	}
}
void thread_section(X* x, const Op* o, int who)
{
	int m = pick_mutex(*o), depth = (int)(o->a >> 4 & 3), style = (int)(o->a >> 8 & 3);
	mutex_t& mx = x->mx[m];
	int64_t me = who;			// its address stands for the owner
	switch (o->kind)
	{
	case O_GUARD: case O_MANUAL: case O_EARLY: case O_MOVE_GUARD: case O_TRY: case O_TRY_FOR: case O_TRY_UNTIL:
	{
		bool ok = true;
		int64_t id;
		if (o->kind == O_TRY) { id = inv(P_TRY, m, who); ok = mx.try_lock(&me); resp(id, ok); }
		else if (o->kind == O_TRY_FOR || o->kind == O_TRY_UNTIL)
		{
			id = sim::reg(R_OPID)++;
			if (o->kind == O_TRY_FOR) ok = in_unit(o, [&](auto d) {
				sim::ev_wall(E_DEADLINE, id, std::chrono::duration_cast<std::chrono::nanoseconds>(d).count(), 1);
				inv(P_TRYSPIN, m, who, id);
				return mx.try_lock_for(d, &me);
			});
			else
			{
			int64_t tp = sim::ev_wall(E_DEADLINE, id, o->b);
			inv(P_TRYSPIN, m, who, id);
			ok = mx.try_lock_until(std::chrono::system_clock::time_point(std::chrono::nanoseconds(tp)), &me);
			}
			resp(id, ok);
		}
		else { id = inv(P_SPIN, m, who); mx.lock(&me); resp(id, 1); }
		if (!ok) return;
		entered(x, m, who);
		for (int d = 0; d < depth; ++d) { id = inv(P_SPIN, m, who); mx.lock(&me); resp(id, 1); entered(x, m, who); }
		thread_hold(o->c);
		for (int d = 0; d < depth; ++d) { leaving(x, m, who); id = inv(P_UNLOCK, m, who); mx.unlock(&me); resp(id, 1); }
		leaving(x, m, who);
		id = inv(P_UNLOCK, m, who);
		if (style & 1) { batch_unlock_t<mutex_t> g(std::adopt_lock, &me, mx); }
		else mx.unlock(&me);
		resp(id, 1);
		break;
	}
	case O_FOREIGN_UNLOCK: { int64_t id = inv(P_UNLOCK, m, who); mx.unlock(&me); resp(id, 1); break; }
	case O_IS_LOCKED: { int64_t id = inv(P_ISLOCKED, m, who); bool r = mx.is_locked(); resp(id, r); break; }
	case O_BATCH: case O_BATCH_MANUAL:
	{
		int n = batch_n(o);
		int nm = (int)x->mx.size(); if (n > nm) n = nm;
		int at[4]; for (int i = 0; i < n; ++i) at[i] = (m + ((style & 1) ? nm * 4 - i : i)) % nm;
		auto in = [&] { for (int i = 0; i < n; ++i) entered(x, at[i], who); };
		auto out = [&] { for (int i = 0; i < n; ++i) leaving(x, at[i], who); };
		auto& M = x->mx;
		if (o->a >> 21 & 1) at[n - 1] = at[0];
		if (o->kind == O_BATCH)
		{
			auto rest = [&](auto g) { in(); thread_hold(o->c); out(); thread_release(g, o->a >> 22 & 7); };
			if (n == 2) rest(mutex_t::lock((void*)&me, M[at[0]], M[at[1]]));
			else if (n == 3) { auto g = mutex_t::lock((void*)&me, M[at[0]], M[at[1]], M[at[2]]); in(); thread_hold(o->c); out(); if (style & 2) g.unlock(); }
			else rest(mutex_t::lock((void*)&me, M[at[0]], M[at[1]], M[at[2]], M[at[3]]));
		}
		else
		{
			if (n == 1) { mutex_t::lock(adopt_manual_unlock, (void*)&me, M[at[0]]); in(); thread_hold(o->c); out(); batch_unlock_t<mutex_t> g(std::adopt_lock, &me, M[at[0]]); }
			else if (n == 2) { mutex_t::lock(adopt_manual_unlock, (void*)&me, M[at[0]], M[at[1]]); in(); thread_hold(o->c); out(); mutex_t::unlock((void*)&me, M[at[0]], M[at[1]]); }
			else if (n == 3) { mutex_t::lock(adopt_manual_unlock, (void*)&me, M[at[0]], M[at[1]], M[at[2]]); in(); thread_hold(o->c); out(); mutex_t::unlock((void*)&me, M[at[0]], M[at[1]], M[at[2]]); }
			else { mutex_t::lock(adopt_manual_unlock, (void*)&me, M[at[0]], M[at[1]], M[at[2]], M[at[3]]); in(); thread_hold(o->c); out(); mutex_t::unlock((void*)&me, M[at[0]], M[at[1]], M[at[2]], M[at[3]]); }
		}
		sim::ev(E_SECTION, who, n);
		break;
	}
	}
}

void gen_common(Rng& r, Workload& w, int flavour)
{
	int ns = (int)r.in(1, 3), nt = (int)r.in(0, 2), nm = flavour == 2 ? (int)r.in(2, 4) : (int)r.in(1, 2), nc = (int)r.in(1, 4);
	if (nc + nt < 2) nc = 2;
	w.set("scheds", ns); w.set("threads", nt); w.set("mutexes", nm); w.set("coros", nc);
	int n = (int)r.in(2, flavour == 2 ? 8 : 10);
	int hi = (int)r.in(3, 8);
	int64_t g = flavour == 1 ? coarse_clock(r, w) : 1;
	if (flavour == 1) clock_steps(r, w);
	for (int i = 0; i < n; ++i)
	{
		Op o;
		o.actor = nt && r.p(1, 3) ? THREAD + (int)r.in(0, nt - 1) : (int)r.in(0, nc - 1);
		int k = (int)r.in(0, 99);
		if (flavour == 2) o.kind = k < 55 ? O_BATCH : k < 85 ? O_BATCH_MANUAL : k < 95 ? O_GUARD : O_TRY;
		else if (flavour == 1) o.kind = k < 35 ? O_TRY_FOR : k < 60 ? O_TRY_UNTIL : k < 80 ? O_GUARD : k < 95 ? O_MANUAL : O_TRY;
		else o.kind = k < 25 ? O_GUARD : k < 45 ? O_MANUAL : k < 65 ? O_TRY : k < 74 ? O_EARLY : k < 84 ? O_MOVE_GUARD : k < 90 ? O_FOREIGN_UNLOCK : O_IS_LOCKED;
		o.a = r.in(0, nm - 1) | r.in(0, 3) << 8 | r.in(0, 3) << 12;
		if (r.p(1, 4)) o.a |= r.in(1, 2) << 4;
		if (ns > 1 && r.p(1, 8)) o.a |= 1 << 16;
		if (r.p(1, 3)) o.a |= 1 << 17;
		if (r.p(1, 3)) o.a |= r.in(1, 3) << 18;
		if (r.p(1, 4)) o.a |= 1 << 20;
		if (r.p(1, 10)) o.a |= 1 << 21;
		o.a |= r.in(0, 7) << 22;
		if (r.p(1, 10)) o.a |= 1 << 25;
		o.b = r.p(1, 8) ? 0 : r.p(1, 12) ? -1000 : on_grain(r, g, log_uniform(r, 2, hi + 1));
		o.c = r.p(1, 3) ? 0 : r.p(1, 2) ? 1 : log_uniform(r, 2, hi);
		w.ops.push_back(o);
	}
	if (nt && r.p(1, 200)) w.ops[r.in(0, n - 1)].c = long_wait(r);
}
void gen0(Rng& r, Workload& w) { gen_common(r, w, 0); }
// several timed attempts reach the same deadline on different schedulers as the mutex is released, others wait behind
void gen_expiry(Rng& r, Workload& w)
{
	int ns = (int)r.in(2, 4), timed = (int)r.in(2, 5), untimed = (int)r.in(1, 2), nc = 1 + timed + untimed;
	w.set("scheds", ns); w.set("threads", 0); w.set("mutexes", 1); w.set("coros", nc);
	int64_t d = coarse_clock(r, w, 2) * (int64_t)r.in(1, 3);
	if (d < 1000) d = log_uniform(r, 4, 7);
	for (int a = 0; a < nc; ++a)
	{
		Op o; o.actor = a;
		bool t = a > 0 && a <= timed;
		o.kind = t ? (r.p(1, 2) ? O_TRY_FOR : O_TRY_UNTIL) : O_GUARD;
		o.a = r.in(0, 3) << 8 | r.in(0, 7) << 22;
		o.b = t ? d : 0;
		o.c = a == 0 ? std::max<int64_t>(2, d + (r.p(1, 2) ? log_uniform(r, 2, 4) : r.p(1, 2) ? 0 : -log_uniform(r, 2, 4))) : r.in(0, 1);
		w.ops.push_back(o);
	}
}
void gen1(Rng& r, Workload& w) { if (r.p(1, 8)) gen_expiry(r, w); else gen_common(r, w, 1); }
void gen2(Rng& r, Workload& w) { gen_common(r, w, 2); }

void run(const Workload& w)
{
	int ns = (int)w.get("scheds"), nt = (int)w.get("threads"), nm = (int)w.get("mutexes"), nc = (int)w.get("coros");
	X x; x.w = &w;
	sim::clock_grain(w.get("grain"));
	x.mx.resize(nm);
	x.data = new int64_t[nm]();
	x.S.start(ns);
	X* xp = &x;
	for (int a = 0; a < nc; ++a) *x.S.sch[a % ns] + actor(&x, a);
	std::vector<int> tids;
	for (int t = 0; t < nt; ++t)
		tids.push_back(sim::spawn([xp, t] {
			for (auto& o : xp->w->ops) if (o.actor == THREAD + t) thread_section(xp, &o, o.actor);
			sim::reg(R_DONE)++;
		}));
	start_clock_steps(w, tids);
	int all = nc + nt;
	if (!sim::park([all] { return sim::reg(R_DONE) >= all; }, QUIET))
		sim::fail("stuck", "%d of %d coroutines and threads finished; the rest waits for ever", (int)sim::reg(R_DONE), all);
	for (int t : tids) sim::join(t);
	if (!x.S.quiesce()) sim::fail("no_quiescence", "schedulers never become idle");
	for (int m = 0; m < nm; ++m)
		if (x.mx[m].is_locked()) sim::fail("still_locked", "mutex %d is locked although everybody released it", m);
	x.S.stop();
	delete[] x.data;
}

// ---------------------------------------------------------------- sequential model, one mutex at a time
struct MOp { int kind; int who; uint64_t inv, resp = ~0ull; int64_t r = 1; };
struct Model
{
	std::vector<MOp> ops;
	std::unordered_set<std::string> seen;
	uint64_t budget = 1'000'000; bool exhausted = false;
	struct St { uint64_t lin = 0, fin = 0; int owner = -1, cnt = 0; std::vector<uint8_t> q; };
	bool step(St& s, int i)
	{
		MOp& o = ops[i];
		bool mine = s.cnt == 0 || s.owner == o.who;
		auto take = [&] { s.owner = o.who; s.cnt++; s.fin |= 1ull << i; };
		switch (o.kind)
		{
		case P_LOCK: case P_TIMED:
			s.lin |= 1ull << i;
			if (mine) { if (!o.r) return false; take(); }
			else s.q.push_back((uint8_t)i);
			return true;
		case P_SPIN: if (!mine) return false; s.lin |= 1ull << i; take(); return true;
		case P_TRY: if (mine != (o.r != 0)) return false; s.lin |= 1ull << i; if (mine) take(); else s.fin |= 1ull << i; return true;
		// a spinning timed lock fails after at least one failed attempt
		case P_TRYSPIN: if (mine != (o.r != 0)) return false; s.lin |= 1ull << i; if (mine) take(); else s.fin |= 1ull << i; return true;
		case P_ISLOCKED: if ((s.cnt > 0) != (o.r != 0)) return false; s.lin |= 1ull << i; s.fin |= 1ull << i; return true;
		case P_UNLOCK:
			s.lin |= 1ull << i; s.fin |= 1ull << i;
			if (s.cnt > 0 && s.owner == o.who && --s.cnt == 0)
			{
				s.owner = -1;
				if (!s.q.empty())
				{
					int w = s.q.front(); s.q.erase(s.q.begin());
					if (!ops[w].r) return false;
					s.owner = ops[w].who; s.cnt = 1; s.fin |= 1ull << w;
				}
			}
			return true;
		}
		return false;
	}
	bool dfs(const St& s)
	{
		bool all = true; uint64_t bound = ~0ull;
		for (size_t i = 0; i < ops.size(); ++i) if (!(s.fin >> i & 1)) { all = false; bound = std::min(bound, ops[i].resp); }
		if (all) return true;
		std::string k((const char*)&s.lin, 8); k.append((const char*)&s.fin, 8); k.push_back((char)s.owner); k.push_back((char)s.cnt); k.append((const char*)s.q.data(), s.q.size());
		if (!seen.insert(std::move(k)).second) return false;
		if (seen.size() > budget) { exhausted = true; return true; }
		for (size_t i = 0; i < ops.size(); ++i)
		{
			if (s.fin >> i & 1 || ops[i].inv > bound) continue;
			if (!(s.lin >> i & 1)) { St n = s; if (step(n, (int)i) && dfs(n)) return true; }
			else if (ops[i].kind == P_TIMED && !ops[i].r)
			{
				St n = s;
				n.q.erase(std::remove(n.q.begin(), n.q.end(), (uint8_t)i), n.q.end());
				n.fin |= 1ull << i;
				if (dfs(n)) return true;
			}
		}
		return false;
	}
};

void check(const Workload& w, const std::vector<Ev>& ev)
{
	std::map<int64_t, std::pair<int, size_t>> idx;
	Deadlines dl;
	std::vector<Model> md(MAXM);
	for (auto& e : ev)
	{
		if (e.kind == E_DEADLINE) dl.begin(e.a, e.b, e.c);
		if (e.kind == EV_CLOCK) dl.step(e.a, e.b);
		if (e.kind == E_INV)
		{
			int m = (int)(e.b >> 8);
			MOp o{ (int)(e.b & 255), (int)e.c, e.seq };
			idx[e.a] = { m, md[m].ops.size() };
			md[m].ops.push_back(o);
		}
		if (e.kind == E_RESP)
		{
			auto [m, i] = idx[e.a];
			MOp& o = md[m].ops[i];
			o.resp = e.seq; o.r = e.b;
			if (o.kind == P_TIMED || o.kind == P_TRYSPIN)
			{
				int64_t n = dl.early(e.a, e.c);
				if (!o.r && n) sim::fail("early_timeout", "a timed lock gave up %lld ns early", (long long)n);
			}
		}
	}
	if (w.get("batch", 0)) return;
	for (auto& o : w.ops) if (o.kind == O_BATCH || o.kind == O_BATCH_MANUAL) return;
	for (int m = 0; m < MAXM; ++m)
	{
		if (md[m].ops.empty()) continue;
		if (md[m].ops.size() > 62) { sim::probe("history too long for the model"); continue; }
		Model::St s;
		bool ok = md[m].dfs(s);
		if (md[m].exhausted) { sim::probe("model search budget exhausted"); continue; }
		if (!ok) sim::fail("not_linearizable", "no order of the %zu operations on mutex %d explains the results (owner, recursion count, FIFO hand-off)", md[m].ops.size(), m);
	}
}
// ---------------------------------------------------------------- C13: the mutex_t goes away while coroutines wait for it.
// Timed waiters time out as if it was there; behind a guard (which keeps the lock alive) everybody still gets it in turn.
enum { E_DQ = 20, E_DR };
future_t<> drop_waiter(mutex_t* mx, const Op* o, int i)
{
	if (o->c) co_await yield();
	int64_t at = sim::ev_wall(E_DQ, i, o->b), ok = 1;
	if (o->kind == O_GUARD)
	{
		batch_unlock_t g = co_await mx->lock();
		if (sim::reg(R_OWNER)) sim::fail("not_exclusive", "waiter %d got the mutex while %d holds it", i, (int)sim::reg(R_OWNER) - 1);
		sim::reg(R_OWNER) = i + 1;
		sim::ev(E_DR, i, 1);
		if (o->a & 1) co_await yield();
		sim::reg(R_OWNER) = 0;
		g.unlock();
	}
	else
	{
		if (o->kind == O_TRY_FOR) ok = co_await mx->try_lock_for(std::chrono::nanoseconds(o->b));
		else ok = co_await mx->try_lock_until(std::chrono::system_clock::time_point(std::chrono::nanoseconds(at)));
		sim::ev(E_DR, i, ok, sim::wall());
	}
	sim::reg(R_DONE)++;
}
future_t<> drop_owner(mutex_t* mx, const Workload* w)
{
	int key = 0;
	batch_unlock_t<mutex_t> g;
	if (w->get("guard")) { g = co_await mx->lock(); sim::reg(R_OWNER) = 100; }
	else while (!mx->try_lock(&key)) co_await yield();
	for (auto& o : w->ops) *this_scheduler() + drop_waiter(mx, &o, (int)(&o - w->ops.data()));
	// every waiter has made its call after at most three batches
	for (int i = 0; i < 4; ++i) co_await yield();
	for (int64_t i = w->get("wait"); i > 0; --i) co_await sleep_for(std::chrono::nanoseconds(w->get("pause")));
	delete mx;
	if (w->get("guard"))
	{
		for (int64_t i = w->get("wait"); i > 0; --i) co_await yield();
		sim::reg(R_OWNER) = 0;
		g.unlock();
	}
	sim::reg(R_DONE)++;
}
void gen_drop(Rng& r, Workload& w)
{
	bool guard = r.p(1, 2);
	w.set("guard", guard); w.set("wait", r.in(0, 2)); w.set("pause", log_uniform(r, 2, 8));
	int n = (int)r.in(1, 6);
	for (int i = 0; i < n; ++i)
	{
		Op o;
		o.kind = guard ? O_GUARD : r.p(1, 2) ? O_TRY_FOR : O_TRY_UNTIL;
		o.a = r.in(0, 1);
		o.b = r.p(1, 8) ? 0 : log_uniform(r, 2, 9);
		o.c = r.in(0, 1);
		w.ops.push_back(o);
	}
}
void run_drop(const Workload& w)
{
	Scheds S;
	S.start(1);
	mutex_t* mx = new mutex_t;
	*S.sch[0] + drop_owner(mx, &w);
	int all = (int)w.ops.size() + 1;
	if (!sim::park([all] { return sim::reg(R_DONE) >= all; }, QUIET))
		sim::fail("stuck", "%d of %d coroutines finished; the rest waits for ever", (int)sim::reg(R_DONE), all);
	if (!S.quiesce()) sim::fail("no_quiescence", "schedulers never become idle");
	S.stop();
}
void check_drop(const Workload& w, const std::vector<Ev>& ev)
{
	std::map<int64_t, int64_t> at;
	std::vector<int64_t> q, got;
	for (auto& e : ev)
		if (e.kind == E_DQ) { at[e.a] = e.b; q.push_back(e.a); }
		else if (e.kind == E_DR)
		{
			got.push_back(e.a);
			if (w.get("guard")) continue;
			if (e.b) sim::fail("phantom_lock", "timed waiter %lld got a mutex its owner never released", (long long)e.a);
			if (e.c < at[e.a]) sim::fail("early_timeout", "a timed lock gave up %lld ns early", (long long)(at[e.a] - e.c));
		}
	if (w.get("guard") && q != got) sim::fail("not_fifo", "waiters of a mutex did not get it in the order they asked for it");
}
sim::Register r0({ "mutex_own", "C12", gen0, run, check, 1 });
sim::Register r1({ "mutex_timed", "C13", gen1, run, check, 1 });
sim::Register r3({ "mutex_drop", "C13", gen_drop, run_drop, check_drop, 1 });
sim::Register r2({ "mutex_batch", "C14", gen2, run, check, 1 });
}

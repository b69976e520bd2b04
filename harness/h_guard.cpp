// C12, C14: the guards returned by lock(). Random programs that move guards between variables, assign over them,
// release them early or twice, and pass them on, by coroutines and plain threads that contend for the same mutexes.
// A mutex is held exactly as long as some guard variable stands for it, however the guard got there.
#include "common.h"
using namespace H;

namespace {
enum { G_LOCK, G_MOVE, G_SELF, G_DROP, G_UNLOCK, G_BACK, G_PASS, G_EMPTY, G_WAIT, G_KINDS };
enum { SLOTS = 3, MAXM = 4 };
enum { R_DEPTH = R_USER, R_OWNER = R_USER + 8, R_HERE = R_USER + 20, R_ENDED };
struct X { Scheds S; const Workload* w = nullptr; std::vector<mutex_t> m; int64_t* data = nullptr; int actors = 0; };

// what an actor's guard variables stand for
struct Model
{
	X* x; int who; uint8_t has[SLOTS] = {};		// one bit per mutex of the actor's set
	int held[MAXM] = {};
	void enter(int s, const std::vector<int>& set)
	{
		for (int m : set)
		{
			if (sim::reg(R_DEPTH + m) && sim::reg(R_OWNER + m) != who) sim::fail("not_exclusive", "actor %d got mutex %d while actor %lld is inside", who, m, (long long)sim::reg(R_OWNER + m));
			sim::reg(R_OWNER + m) = who; sim::reg(R_DEPTH + m)++;
			held[m]++; x->data[m]++;
		}
		has[s] = 1;
		sim::ev(EV_NOTE, who, 1);
	}
	void leave(int s, const std::vector<int>& set)
	{
		if (!has[s]) return;
		for (int m : set)
		{
			x->data[m]++;
			if (sim::reg(R_OWNER + m) != who || sim::reg(R_DEPTH + m) <= 0) sim::fail("not_exclusive", "actor %d lost mutex %d to %lld", who, m, (long long)sim::reg(R_OWNER + m));
			sim::reg(R_DEPTH + m)--;
			held[m]--;
		}
		has[s] = 0;
		sim::ev(EV_NOTE, who, 2);
	}
	bool any() const { for (int s = 0; s < SLOTS; ++s) if (has[s]) return true; return false; }
	// alone on the mutexes: their state is known exactly
	void probe()
	{
		if (x->actors > 1) return;
		int stranger = 0;
		for (size_t m = 0; m < x->m.size(); ++m)
		{
			bool want = held[m] > 0;
			if (x->m[m].is_locked() != want) sim::fail("guard", "mutex %zu is %s although %d guards stand for it", m, want ? "free" : "locked", held[m]);
			if (x->m[m].try_lock(&stranger) == want) sim::fail("guard", "try_lock of mutex %zu by a stranger %s although %d guards stand for it", m, want ? "succeeded" : "failed", held[m]);
			else if (!want) x->m[m].unlock(&stranger);
		}
	}
};

template<int N> struct Kind;
template<> struct Kind<1> { using G = batch_unlock_t<mutex_t>; static G none() { return G(); } };
template<> struct Kind<2> { using G = batch_unlock_t<mutex_t, mutex_t>; static G none() { return G(std::adopt_lock, nullptr); } };
template<> struct Kind<3> { using G = batch_unlock_t<mutex_t, mutex_t, mutex_t>; static G none() { return G(std::adopt_lock, nullptr); } };

std::vector<int> set_of(const Workload& w, int who, int n)
{
	int nm = (int)w.get("mutexes"), first = (int)(w.get("first") >> (who * 3) & 7), step = (w.get("back") >> who & 1) ? nm - 1 : 1;
	std::vector<int> r;
	for (int i = 0; i < n; ++i) r.push_back((first + i * step) % nm);
	return r;
}
// the steps that need neither waiting nor an owner; true if the step was one of them
template<int N> bool plain(Model& md, typename Kind<N>::G* g, const Op& o, const std::vector<int>& set)
{
	using G = typename Kind<N>::G;
	int s = (int)(o.a % SLOTS), t = (int)(o.b % SLOTS);
	switch (o.kind)
	{
	case G_MOVE:
		if (s == t) return true;
		{ auto& f = md.has[s]; md.leave(t, set); g[t] = std::move(g[s]); std::swap(md.has[t], f); }
		return true;
	case G_SELF: { G& same = g[s]; g[s] = std::move(same); } return true;
	case G_DROP: md.leave(s, set); { G h(std::move(g[s])); } return true;
	case G_UNLOCK: md.leave(s, set); g[s].unlock(); if (o.b & 4) g[s].unlock(); return true;
	case G_BACK: { G h(std::move(g[s])); G k = Kind<N>::none(); k = std::move(h); g[s] = std::move(k); } return true;
	case G_EMPTY: md.leave(s, set); g[s] = Kind<N>::none(); return true;
	}
	return false;
}
template<class G> future_t<G> pass(G g, int how) { if (how & 1) co_await yield(); co_return std::move(g); }

template<int N> future_t<> actor(X* x, int who)
{
	using G = typename Kind<N>::G;
	auto set = set_of(*x->w, who, N);
	G g[SLOTS] = { Kind<N>::none(), Kind<N>::none(), Kind<N>::none() };
	Model md{ x, who };
	for (auto& o : x->w->ops)
	{
		if (o.actor != who) continue;
		int s = (int)(o.a % SLOTS);
		if (o.kind == G_LOCK)
		{
			// the old content of the variable is released only after the new lock has been acquired
			if constexpr (N == 1) { G n = co_await x->m[set[0]].lock(); md.leave(s, set); g[s] = std::move(n); }
			else if constexpr (N == 2) { auto n = co_await mutex_t::lock(x->m[set[0]], x->m[set[1]]); md.leave(s, set); g[s] = std::move(n); }
			else { auto n = co_await mutex_t::lock(x->m[set[0]], x->m[set[1]], x->m[set[2]]); md.leave(s, set); g[s] = std::move(n); }
			md.enter(s, set);
		}
		else if (o.kind == G_PASS) g[s] = co_await pass(std::move(g[s]), (int)o.b);
		else if (o.kind == G_WAIT) { if (o.b & 1) co_await co_pause(o.c); else co_await yield(); }
		else plain<N>(md, g, o, set);
		md.probe();
	}
	for (int s = 0; s < SLOTS; ++s) if (md.has[s]) { md.leave(s, set); if (s & 1) g[s].unlock(); else { G h(std::move(g[s])); } }
	md.probe();
	// the variables live on, but stand for nothing: everybody must get here
	sim::ev(EV_NOTE, who, 3);
	sim::reg(R_HERE)++;
	while (sim::reg(R_HERE) < x->actors) co_await yield();
	sim::reg(R_DONE)++;
}
template<int N> void thread_actor(X* x, int who)
{
	using G = typename Kind<N>::G;
	auto set = set_of(*x->w, who, N);
	int64_t me = who;
	G g[SLOTS] = { Kind<N>::none(), Kind<N>::none(), Kind<N>::none() };
	Model md{ x, who };
	for (auto& o : x->w->ops)
	{
		if (o.actor != who) continue;
		int s = (int)(o.a % SLOTS);
		if (o.kind == G_LOCK)
		{
			if constexpr (N == 1) { x->m[set[0]].lock(&me); G n(std::adopt_lock, &me, x->m[set[0]]); md.leave(s, set); g[s] = std::move(n); }
			else if constexpr (N == 2) { auto n = mutex_t::lock(&me, x->m[set[0]], x->m[set[1]]); md.leave(s, set); g[s] = std::move(n); }
			else { auto n = mutex_t::lock(&me, x->m[set[0]], x->m[set[1]], x->m[set[2]]); md.leave(s, set); g[s] = std::move(n); }
			md.enter(s, set);
		}
		else if (o.kind == G_PASS) { auto f = [](G v) { return v; }; g[s] = f(std::move(g[s])); }
		else if (o.kind == G_WAIT) { if (o.b & 1) H::pause(o.c); else std::this_thread::yield(); }
		else plain<N>(md, g, o, set);
		md.probe();
	}
	for (int s = 0; s < SLOTS; ++s) if (md.has[s]) { md.leave(s, set); if (s & 1) g[s].unlock(); else { G h(std::move(g[s])); } }
	md.probe();
	sim::ev(EV_NOTE, who, 3);
	sim::reg(R_HERE)++;
	int n = x->actors;
	sim::park([n] { return sim::reg(R_HERE) >= n; }, 2 * QUIET);
	sim::reg(R_DONE)++;
}

void gen(Rng& r, Workload& w, int n)
{
	int actors = r.p(1, 3) ? 1 : (int)r.in(2, 4), nm = (int)r.in(n, MAXM);
	w.set("n", n); w.set("actors", actors); w.set("scheds", r.in(1, 3)); w.set("threads", r.in(0, 15)); w.set("mutexes", nm);
	w.set("first", (int64_t)(r.in(0, 3) | r.in(0, 3) << 3 | r.in(0, 3) << 6 | r.in(0, 3) << 9)); w.set("back", r.in(0, 15));
	for (int a = 0; a < actors; ++a)
		for (int k = (int)r.in(1, 12); k > 0; --k)
		{
			Op o; o.actor = a; o.kind = r.p(1, 3) ? (int)G_LOCK : (int)r.in(0, G_KINDS - 1); o.a = r.in(0, SLOTS - 1); o.b = r.in(0, 8);
			o.c = r.p(1, 8) ? long_wait(r) : log_uniform(r, 2, 5);
			w.ops.push_back(o);
		}
}
void gen1(Rng& r, Workload& w) { gen(r, w, 1); }
void gen2(Rng& r, Workload& w) { gen(r, w, (int)r.in(2, 3)); }

template<int N> void run_n(const Workload& w)
{
	X x; x.w = &w;
	int ns = (int)w.get("scheds"), n = (int)w.get("actors");
	if (ns < 1) ns = 1; if (n < 1) n = 1;
	x.actors = n;
	if (w.get("mutexes") < N) return;
	for (int i = 0; i < w.get("mutexes"); ++i) x.m.emplace_back();
	x.data = new int64_t[MAXM]();
	x.S.start(ns);
	X* xp = &x;
	std::vector<int> tids;
	for (int a = 0; a < n; ++a)
		if (w.get("threads") >> a & 1) tids.push_back(sim::spawn([xp, a] { thread_actor<N>(xp, a); }));
		else *x.S.sch[a % ns] + actor<N>(&x, a);
	if (!sim::park([n] { return sim::reg(R_DONE) >= n; }, QUIET))
		sim::fail("incomplete", "%lld of %d users of guards got to their end", (long long)sim::reg(R_HERE), n);
	for (int t : tids) sim::join(t);
	sim::ev(EV_NOTE);
	if (!x.S.quiesce()) sim::fail("incomplete", "the schedulers do not come to rest");
	for (size_t i = 0; i < x.m.size(); ++i) if (x.m[i].is_locked()) sim::fail("still_locked", "mutex %zu is locked after everybody released it", i);
	x.S.stop();
	delete[] x.data;
}
void run(const Workload& w)
{
	switch (w.get("n")) { case 1: run_n<1>(w); break; case 2: run_n<2>(w); break; case 3: run_n<3>(w); break; }
}
sim::Register g1({ "guard", "C12", gen1, run, nullptr, 1 });
sim::Register g2({ "guard_batch", "C14", gen2, run, nullptr, 1 });
}

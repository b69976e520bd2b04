// C23: spinlock and batch_lock_t used by plain threads: exclusion, try_lock, all-or-nothing locking of several locks
// in any order without deadlock, release exactly once.
#include "common.h"
#include <mutex>
using namespace H;

namespace {
enum { E_LOCK = 1, E_TRY, E_HELD, E_FAILED, E_REL, E_RELD, E_SECTION };
enum { O_LOCK, O_TRY, O_GUARD, O_UNIQUE, O_BATCH, O_BATCH_REF, O_BATCH_MTX, O_BATCH_ADOPT };
enum { MAXL = 5 };
enum { R_OWNER = R_USER, R_MOWNER = R_USER + 10 };

struct X
{
	std::vector<spinlock> lk;			// shared by everybody
	std::vector<std::mutex> mx;
	int64_t* data;						// data[i] is protected by lk[i], data[MAXL + i] by mx[i]
	const Workload* w;
};
void in(X* x, int i, int who, int base = 0)
{
	if (sim::reg(R_OWNER + base + i)) sim::fail("not_exclusive", "lock %d taken by %d while %d holds it", i, who, (int)sim::reg(R_OWNER + base + i) - 1);
	sim::reg(R_OWNER + base + i) = who + 1;
	x->data[(base ? MAXL : 0) + i]++;
}
void out(X* x, int i, int who, int base = 0)
{
	x->data[(base ? MAXL : 0) + i]++;
	if (sim::reg(R_OWNER + base + i) != who + 1) sim::fail("not_exclusive", "lock %d of %d was taken by %d", i, who, (int)sim::reg(R_OWNER + base + i) - 1);
	sim::reg(R_OWNER + base + i) = 0;
}
void hold(int64_t c) { if (c > 1 || c < 0) H::pause(c); else if (c) std::this_thread::yield(); }

// o.a: first lock | stride sign << 4 | number << 8 | release style << 12
template<class G> void finish(G& g, int style)
{
	switch (style)
	{
	case 0: break;										// destructor
	case 1: g.unlock(); break;
	case 2: { G h(std::move(g)); break; }				// the moved-to guard releases, the empty one must not
	default: { G h(std::move(g)); h.unlock(); h.unlock(); g.unlock(); break; }
	}
}
void step(X* x, const Op& o, int who)
{
	int nl = (int)x->lk.size(), first = (int)(o.a & 7) % nl, style = (int)(o.a >> 12 & 3);
	int n = (int)(o.a >> 8 & 7); if (n > nl) n = nl;
	int at[MAXL]; int64_t set = 0;
	for (int i = 0; i < n; ++i) { at[i] = (first + ((o.a >> 4 & 1) ? nl * 4 - i : i)) % nl; set |= 1 << at[i]; }
	auto took = [&](int64_t s) { sim::ev(E_HELD, who, s); };
	auto rel = [&](int64_t s) { sim::ev(E_REL, who, s); };
	auto reld = [&](int64_t s) { sim::ev(E_RELD, who, s); };
	switch (o.kind)
	{
	case O_LOCK: case O_GUARD: case O_UNIQUE:
	{
		int64_t s = 1 << first;
		sim::ev(E_LOCK, who, s);
		if (o.kind == O_LOCK) { x->lk[first].lock(); took(s); in(x, first, who); hold(o.c); out(x, first, who); rel(s); x->lk[first].unlock(); }
		else if (o.kind == O_GUARD) { std::scoped_lock<spinlock> g(x->lk[first]); took(s); in(x, first, who); hold(o.c); out(x, first, who); rel(s); }
		else { std::unique_lock<spinlock> g(x->lk[first]); took(s); in(x, first, who); hold(o.c); out(x, first, who); rel(s); }
		reld(s);
		break;
	}
	case O_TRY:
	{
		int64_t s = 1 << first;
		sim::ev(E_TRY, who, s);
		if (!x->lk[first].try_lock()) { sim::ev(E_FAILED, who, s); break; }
		took(s); in(x, first, who); hold(o.c); out(x, first, who); rel(s); x->lk[first].unlock(); reld(s);
		break;
	}
	case O_BATCH:
	{
		// the whole vector of locks, in its own order
		int64_t s = (1 << nl) - 1;
		sim::ev(E_LOCK, who, s);
		{
			batch_lock_t<spinlock> g(x->lk);
			took(s); for (int i = 0; i < nl; ++i) in(x, i, who);
			hold(o.c);
			for (int i = 0; i < nl; ++i) out(x, i, who);
			rel(s);
			finish(g, style);
		}
		reld(s);
		break;
	}
	case O_BATCH_REF: case O_BATCH_ADOPT:
	{
		// any selection in any order
		std::vector<std::reference_wrapper<spinlock>> v;
		for (int i = 0; i < n; ++i) v.push_back(x->lk[at[i]]);
		using G = batch_lock_t<std::reference_wrapper<spinlock>>;
		sim::ev(E_LOCK, who, set);
		if (o.kind == O_BATCH_REF)
		{
			G g(v);
			took(set); for (int i = 0; i < n; ++i) in(x, at[i], who);
			hold(o.c);
			for (int i = 0; i < n; ++i) out(x, at[i], who);
			rel(set);
			finish(g, style);
		}
		else
		{
			// taken elsewhere (in the common order), handed over to the guard
			for (int i = 0; i < nl; ++i) if (set >> i & 1) x->lk[i].lock();
			took(set); for (int i = 0; i < n; ++i) in(x, at[i], who);
			G g(std::adopt_lock, v);
			hold(o.c);
			for (int i = 0; i < n; ++i) out(x, at[i], who);
			rel(set);
			finish(g, style);
		}
		reld(set);
		break;
	}
	case O_BATCH_MTX:
	{
		std::vector<std::reference_wrapper<std::mutex>> v;
		for (int i = 0; i < n; ++i) v.push_back(x->mx[at[i]]);
		sim::ev(EV_NOTE);
		{
			using A = detail::_LockVectorAssembleT<std::reference_wrapper<std::mutex>>;
			using G = batch_lock_t<std::reference_wrapper<std::mutex>>;
			A la(v);
			auto body = [&](G& g) {
				for (int i = 0; i < n; ++i) in(x, at[i], who, 10);
				hold(o.c);
				for (int i = 0; i < n; ++i) out(x, at[i], who, 10);
				finish(g, style);
			};
			if (o.b & 1) { G g(v, la); body(g); }
			else if (o.b & 2)
			{
				for (int i = 0; i < nl; ++i) if (set >> i & 1) x->mx[i].lock();
				G g(std::adopt_lock, v, la); body(g);
			}
			else { G g(v); body(g); }
		}
		sim::ev(EV_NOTE);
		break;
	}
	}
	sim::ev(E_SECTION, who);
}

void gen(Rng& r, Workload& w)
{
	int nt = (int)r.in(2, 4), nl = (int)r.in(1, MAXL);
	w.set("threads", nt); w.set("locks", nl);
	int n = (int)r.in(2, 10), flavour = (int)r.in(0, 2), hi = (int)r.in(3, 7);
	for (int i = 0; i < n; ++i)
	{
		Op o;
		o.actor = (int)r.in(0, nt - 1);
		int k = (int)r.in(0, 99);
		if (flavour == 0) o.kind = k < 40 ? O_LOCK : k < 70 ? O_TRY : k < 85 ? O_GUARD : O_UNIQUE;
		else if (flavour == 1) o.kind = k < 20 ? O_LOCK : k < 30 ? O_TRY : k < 50 ? O_BATCH : k < 90 ? O_BATCH_REF : O_BATCH_ADOPT;
		else o.kind = k < 30 ? O_BATCH : k < 60 ? O_BATCH_REF : k < 90 ? O_BATCH_MTX : O_TRY;
		o.a = r.in(0, 7) | r.in(0, 1) << 4 | (r.p(1, 12) ? r.in(0, 1) : r.in(2, MAXL)) << 8 | r.in(0, 3) << 12;
		o.b = r.in(0, 3);
		o.c = r.p(1, 2) ? 0 : r.p(1, 2) ? 1 : log_uniform(r, 2, hi);
		w.ops.push_back(o);
	}
	if (r.p(1, 200)) w.ops[r.in(0, n - 1)].c = long_wait(r);
}
void run(const Workload& w)
{
	int nt = (int)w.get("threads"), nl = (int)w.get("locks");
	X x{ std::vector<spinlock>(nl), std::vector<std::mutex>(nl), new int64_t[2 * MAXL](), &w };
	std::vector<int> tids;
	X* xp = &x;
	for (int t = 0; t < nt; ++t)
		tids.push_back(sim::spawn([xp, t] {
			for (auto& o : xp->w->ops) if (o.actor == t) step(xp, o, t);
			sim::reg(R_DONE)++;
		}));
	if (!sim::park([nt] { return sim::reg(R_DONE) >= nt; }, QUIET))
		sim::fail("stuck", "%d of %d threads finished; the rest waits for ever", (int)sim::reg(R_DONE), nt);
	for (int t : tids) sim::join(t);
	for (int i = 0; i < nl; ++i)
	{
		if (!x.lk[i].try_lock()) sim::fail("still_locked", "spinlock %d is locked although everybody released it", i);
		x.lk[i].unlock();
		if (!x.mx[i].try_lock()) sim::fail("still_locked", "mutex %d is locked although everybody released it", i);
		x.mx[i].unlock();
	}
	delete[] x.data;
}
void check(const Workload&, const std::vector<Ev>& ev)
{
	// a failed try_lock overlaps somebody else's possession of that lock: from the call that took it to the end of the release
	struct Iv { int64_t who, set; uint64_t from, to; };
	std::vector<Iv> held, failed;
	std::map<int64_t, Iv> open;
	for (auto& e : ev)
		switch (e.kind)
		{
		case E_LOCK: case E_TRY: open[e.a] = { e.a, e.b, e.seq, ~0ull }; break;
		case E_RELD: open[e.a].to = e.seq; held.push_back(open[e.a]); open.erase(e.a); break;
		case E_FAILED: open[e.a].to = e.seq; failed.push_back(open[e.a]); open.erase(e.a); break;
		}
	for (auto& f : failed)
	{
		bool ok = false;
		for (auto& h : held) if (h.who != f.who && (h.set & f.set) && h.from < f.to && f.from < h.to) ok = true;
		if (!ok) sim::fail("try_failed", "try_lock failed although nobody could have held the lock meanwhile");
	}
}
sim::Register r0({ "spin_locks", "C23", gen, run, check, 1 });
}

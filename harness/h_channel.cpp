// C06 channel contents and order, C07 channel progress: coroutines on several schedulers and plain threads.
#include "common.h"
using namespace H;

namespace {
enum { E_W = 1, E_WR, E_R, E_RR };		// a = op id (drain ops from 1000), b = value read
enum { O_WRITE, O_READ, O_VIA, O_YIELD, O_NESTED };
enum { T_INT, T_STR, T_UPTR, T_INT_MT, T_TRK, T_SEM, T_TRK_OPT, T_COUNT };
enum { F_LAST = 1, F_SHIFT = 2, F_CO = 4 };
enum { R_TRK = R_USER, R_ACTORS, R_FEEDS };
using Trk = Tracked<R_TRK>;

int64_t val(int id) { return id * 7 + 3; }
template<class T> struct Val;
template<> struct Val<int64_t> { static int64_t make(int i) { return val(i); } static int64_t get(const int64_t& v) { return v; } };
template<> struct Val<std::string> { static std::string make(int i) { return "a value passed through a channel " + std::to_string(val(i)); } static int64_t get(const std::string& v) { return v.size() > 33 ? atoll(v.c_str() + 33) : -5; } };
template<> struct Val<std::unique_ptr<int64_t>> { static std::unique_ptr<int64_t> make(int i) { return std::make_unique<int64_t>(val(i)); } static int64_t get(const std::unique_ptr<int64_t>& v) { return v ? *v : -6; } };
template<> struct Val<Trk> { static Trk make(int i) { return Trk(val(i)); } static int64_t get(const Trk& v) { return v.v; } };
template<> struct Val<bool> { static bool make(int) { return true; } static int64_t get(const bool&) { return -1; } };

template<class CH>
struct X
{
	Scheds S;
	const Workload* w = nullptr;
	CH ch{ std::adopt_lock };
};
template<class CH> future_t<> co_write(X<CH>* x, CH& c, int id, int flags)
{
	using V = Val<typename CH::value_type>;
	sim::ev(E_W, id);
	if (flags & F_LAST)
	{
		// the channel object goes away while the operation is still pending
		auto aw = c.write(V::make(id));
		c = CH(std::adopt_lock);
		co_await aw;
	}
	else if (flags & F_SHIFT) co_await (c << V::make(id));
	else co_await c.write(V::make(id));
	sim::ev(E_WR, id);
}
template<class CH> future_t<> co_read(X<CH>* x, CH& c, int id, int flags)
{
	using V = Val<typename CH::value_type>;
	sim::ev(E_R, id);
	if (flags & F_LAST)
	{
		auto aw = c.read();
		c = CH(std::adopt_lock);
		auto v = co_await aw;
		sim::ev(E_RR, id, V::get(v));
	}
	else if (flags & F_CO) { auto v = co_await c; sim::ev(E_RR, id, V::get(v)); }
	else { auto v = co_await c.read(); sim::ev(E_RR, id, V::get(v)); }
}
template<class CH> future_t<> actor(X<CH>* x, CH c, int a)
{
	int home = x->S.here();
	for (size_t i = 0; i < x->w->ops.size(); ++i)
	{
		const Op& o = x->w->ops[i];
		if (o.actor != a) continue;
		switch (o.kind)
		{
		case O_WRITE: case O_READ:
			if (o.c & 1)	// in a coroutine of its own
			{
				if (o.kind == O_WRITE) co_await co_write(x, c, (int)i, (int)o.b);
				else co_await co_read(x, c, (int)i, (int)o.b);
			}
			else
			{
				using V = Val<typename CH::value_type>;
				if (o.kind == O_WRITE) { sim::ev(E_W, i); co_await (c << V::make((int)i)); sim::ev(E_WR, i); }
				else { sim::ev(E_R, i); auto v = co_await c.read(); sim::ev(E_RR, i, V::get(v)); }
			}
			break;
		case O_VIA: co_await via(x->S.sch[o.a % x->S.n]); home = (int)(o.a % x->S.n); break;
		case O_YIELD: co_await yield(); break;
		}
		if (x->S.here() != home) sim::fail("wrong_scheduler", "operation %d continued on scheduler %d instead of %d", (int)i, x->S.here(), home);
	}
	sim::reg(R_ACTORS)++;
}
template<class CH> future_t<> drain(X<CH>* x, CH c, int base, int n, bool wr)
{
	for (int k = 0; k < n; ++k)
	{
		if (wr) co_await co_write(x, c, base + k, 0);
		else co_await co_read(x, c, base + k, 0);
	}
	sim::reg(R_FEEDS)++;
}
template<class CH> void plain(X<CH>* x, CH c, int a)
{
	using V = Val<typename CH::value_type>;
	for (size_t i = 0; i < x->w->ops.size(); ++i)
	{
		const Op& o = x->w->ops[i];
		if (o.actor != a) continue;
		if (o.kind == O_WRITE) { sim::ev(E_W, i); (void)(c << V::make((int)i)); sim::ev(E_WR, i); }
		else if (o.kind == O_READ) { sim::ev(E_R, i); (void)c.read(); sim::ev(E_RR, i, -1); }
		else maybe_delay(o.b);
	}
	c = CH(std::adopt_lock);
	sim::reg(R_ACTORS)++;
}
template<class CH> void run_t(const Workload& w)
{
	int ns = (int)w.get("scheds"), nc = (int)w.get("coros"), nt = (int)w.get("threads"), cap = (int)w.get("cap");
	X<CH> x; x.w = &w;
	x.S.log = !w.get("late");
	x.S.start(ns);
	x.ch = CH((size_t)cap);
	if (!x.ch.valid() || (int)x.ch.capacity() != cap) sim::fail("capacity", "capacity() of a channel made for %d values", cap);
	X<CH>* xp = &x;
	std::vector<int> tids;
	// the other users of the channel hold copies of their own
	int64_t late = w.get("late");		// the plain threads begin long before anybody else
	if (!late) for (int a = 0; a < nc; ++a) *x.S.sch[a % ns] + actor<CH>(&x, x.ch, a);
	for (int t = 0; t < nt; ++t) { CH* c = new CH(x.ch); tids.push_back(sim::spawn([xp, c, t, nc] { CH m = std::move(*c); delete c; plain<CH>(xp, std::move(m), nc + t); })); }
	if (late)
	{
		maybe_delay(late);
		for (int a = 0; a < nc; ++a) *x.S.sch[a % ns] + actor<CH>(&x, x.ch, a);
	}
	bool dropped = w.get("drop") != 0;
	if (dropped) x.ch = CH(std::adopt_lock);
	int all = nc + nt, feeds = 0, next = 1000, strikes = 0;
	uint64_t struck = 0;
	for (;;)
	{
		sim::park([all, feeds] { return sim::reg(R_ACTORS) >= all && sim::reg(R_FEEDS) >= feeds; }, 2'000'000'000);
		sim::ev(EV_NOTE);
		uint64_t prog = sim::progress();
		if (!x.S.quiesce()) sim::fail("no_quiescence", "schedulers never become idle");
		if (sim::progress() != prog) continue;
		bool done = sim::reg(R_ACTORS) >= all && sim::reg(R_FEEDS) >= feeds;
		int w0 = (int)sim::ev_count(E_W), w1 = (int)sim::ev_count(E_WR), r0 = (int)sim::ev_count(E_R), r1 = (int)sim::ev_count(E_RR);
		int pw = w0 - w1, pr = r0 - r1;
		bool bad = (pw && pr) || (pw && w1 - r1 < cap) || (pr && w1 != r1) || (!done && !pw && !pr);
		if (bad && nt)
		{
			// plain threads poll: they may have been unlucky with the channel's lock rather than have missed something
			if (w0 + w1 + r0 + r1 != (int)struck) { struck = w0 + w1 + r0 + r1; strikes = 0; }
			if (++strikes < 4)
			{
				uint64_t until = sim::steps() + 20000 * strikes;
				sim::park([until, prog] { return sim::steps() > until || sim::progress() != prog; }, QUIET);
				sim::ev(EV_NOTE);
				continue;
			}
		}
		if (pw && pr) sim::fail("lost_wakeup", "%d writers and %d readers wait for each other (capacity %d)", pw, pr, cap);
		if (pw && w1 - r1 < cap) sim::fail("lost_wakeup", "%d writers wait although only %d of %d places are taken", pw, w1 - r1, cap);
		if (pr && w1 != r1) sim::fail("lost_wakeup", "%d readers wait although the channel holds %d values", pr, w1 - r1);
		if (w1 - r1 > cap || w1 < r1) sim::fail("overfull", "%d values written, %d read, capacity %d", w1, r1, cap);
		if (done && !pw && !pr)
		{
			if (dropped || w1 == r1) break;
			++feeds;
			*x.S.sch[0] + drain<CH>(&x, x.ch, next, w1 - r1, false);
			next += w1 - r1;
			continue;
		}
		if (!pw && !pr) sim::fail("stuck", "a user of the channel does not continue although nothing waits");
		if (dropped) sim::fail("stuck", "%d writers and %d readers of a balanced program wait for ever (capacity %d)", pw, pr, cap);
		++feeds;
		*x.S.sch[0] + drain<CH>(&x, x.ch, next, pw ? pw : pr, pr != 0);
		next += pw ? pw : pr;
	}
	for (int t : tids) sim::join(t);
	x.ch = CH(std::adopt_lock);
	if (!x.S.quiesce()) sim::fail("no_quiescence", "schedulers never become idle");
	for (int i = 0; i < ns; ++i) if (!x.S.sch[i]->empty()) sim::fail("not_empty", "a scheduler is not empty after everything ended");
	// what was left inside went away with the last copy of the channel
	if (sim::reg(R_TRK)) sim::fail("values_kept", "%lld values still exist", (long long)sim::reg(R_TRK));
	x.S.stop();
}
void run(const Workload& w)
{
	switch (w.get("type"))
	{
	case T_INT: run_t<channel_t<int64_t>>(w); break;
	case T_STR: run_t<channel_t<std::string>>(w); break;
	case T_UPTR: run_t<channel_t<std::unique_ptr<int64_t>>>(w); break;
	case T_INT_MT: run_t<channel_t<int64_t, false, true>>(w); break;
	case T_TRK: run_t<channel_t<Trk>>(w); break;
	case T_SEM: run_t<semaphore_t>(w); break;
	case T_TRK_OPT: run_t<channel_t<Trk, true, true>>(w); break;
	}
}
void gen(Rng& r, Workload& w)
{
	int ns = (int)r.in(1, 3), nc = (int)r.in(1, 5), nt = (int)r.in(0, 2);
	int cap = r.p(1, 4) ? 0 : (int)r.in(1, 4);
	int n = (int)r.in(2, 24);
	int wbias = r.p(1, 3) ? (int)r.in(1, 9) : 5;
	bool side = r.p(1, 2);
	w.set("scheds", ns); w.set("coros", nc); w.set("threads", nt); w.set("cap", cap);
	w.set("type", r.in(0, T_COUNT - 1));
	bool fixed = r.p(1, 2);			// actors only read or only write
	int nw = 0, nr = 0;
	for (int i = 0; i < n; ++i)
	{
		Op o; o.actor = (int)r.in(0, nc + nt - 1);
		bool thr = o.actor >= nc;
		if (r.p(1, 8)) { if (thr) { o.kind = O_YIELD; o.b = log_uniform(r, 2, 6); } else { o.kind = r.p(1, 2) ? O_VIA : O_YIELD; o.a = r.in(0, 2); } }
		else
		{
			bool wr = (int)r.in(0, 9) < wbias;
			if (fixed) wr = (o.actor & 1) == side;
			// two plain threads cannot meet in an unbuffered channel
			if (thr && cap == 0) wr = side;
			o.kind = wr ? O_WRITE : O_READ;
			o.c = r.p(1, 2);
			o.b = r.pick<int>({ 0, 0, F_SHIFT, F_CO });
			(wr ? nw : nr)++;
		}
		w.ops.push_back(o);
	}
	// sometimes the users hold the only copies of the channel: then the program must be balanced, and nobody may wait for himself
	if (r.p(1, 3))
	{
		std::vector<Op> ops;
		int pairs = (int)r.in(1, 6);
		nc = std::max(nc, 2);
		w.set("coros", nc);
		if (cap == 0) nt = 0;
		w.set("threads", nt);
		std::vector<int> wa, ra;
		for (int a = 0; a < nc + nt; ++a) (a & 1 ? ra : wa).push_back(a);
		std::map<int, int> lastw;
		for (int i = 0; i < pairs; ++i)
		{
			Op o; o.actor = wa[r.in(0, wa.size() - 1)]; o.kind = O_WRITE; o.c = r.p(1, 2); o.b = r.pick<int>({ 0, 0, F_SHIFT, F_CO });
			ops.push_back(o);
			o.actor = ra[r.in(0, ra.size() - 1)]; o.kind = O_READ; o.c = r.p(1, 2);
			ops.push_back(o);
		}
		for (size_t i = 0; i < ops.size(); ++i) std::swap(ops[i], ops[r.in(0, i)]);
		// the last operation of an actor gives up its copy first
		for (size_t i = 0; i < ops.size(); ++i)
		{
			bool last = true;
			for (size_t j = i + 1; j < ops.size(); ++j) if (ops[j].actor == ops[i].actor) last = false;
			if (last && ops[i].actor < nc && r.p(2, 3)) { ops[i].c = 1; ops[i].b = F_LAST; }
		}
		w.ops = ops;
		w.set("drop", 1);
	}
}
void gen_late(Rng& r, Workload& w)
{
	gen(r, w);
	if (w.get("threads") && r.p(1, 100)) w.set("late", long_wait(r));
}
void check(const Workload& w, const std::vector<Ev>& ev)
{
	const uint64_t INF = ~0ull;
	int cap = (int)w.get("cap");
	bool sem = w.get("type") == T_SEM;
	struct O { bool wr = false; uint64_t inv = INF, resp = INF, reg = INF; int fib = 0; int64_t v = -1; };
	std::map<int64_t, O> m;
	std::map<int, std::vector<int64_t>> pend;		// operations begun by this thread whose registration is still open
	int done_w = 0, begun_r = 0, done_r = 0, begun_w = 0;
	for (auto& e : ev)
	{
		// whatever this thread does next, the operation it was in has registered
		for (int64_t id : pend[e.fiber]) if (m[id].reg == INF) m[id].reg = e.seq;
		pend[e.fiber].clear();
		switch (e.kind)
		{
		case E_W: case E_R:
		{
			O& o = m[e.a];
			o.wr = e.kind == E_W; o.inv = e.seq; o.fib = e.fiber;
			pend[e.fiber].push_back(e.a);
			(o.wr ? begun_w : begun_r)++;
			break;
		}
		case E_WR: case E_RR:
		{
			O& o = m[e.a];
			if (o.resp != INF) sim::fail("resumed_twice", "operation %lld returned twice", (long long)e.a);
			o.resp = e.seq; o.v = e.b;
			if (o.reg == INF) o.reg = e.seq;
			(e.kind == E_WR ? done_w : done_r)++;
			if (done_w - begun_r > cap) sim::fail("over_capacity", "%d writes completed with %d reads begun (capacity %d)", done_w, begun_r, cap);
			if (done_r > begun_w) sim::fail("invented", "%d reads completed with %d writes begun", done_r, begun_w);
			break;
		}
		}
	}
	if (sem) return;
	// every value read was written, and read once
	std::map<int64_t, int64_t> wid;
	for (auto& kv : m) if (kv.second.wr) wid[val((int)kv.first)] = kv.first;
	std::map<int64_t, int64_t> rid;
	std::vector<std::pair<int64_t, int64_t>> pairs;
	int anon = 0;
	for (auto& kv : m)
	{
		O& o = kv.second;
		if (o.wr || o.resp == INF) continue;
		if (o.v == -1) { ++anon; continue; }
		auto it = wid.find(o.v);
		if (it == wid.end()) sim::fail("wrong_value", "operation %lld read %lld, which nobody wrote", (long long)kv.first, (long long)o.v);
		if (rid.count(o.v)) sim::fail("read_twice", "the value of write %lld was read by operations %lld and %lld", (long long)it->second, (long long)rid[o.v], (long long)kv.first);
		rid[o.v] = kv.first;
		if (o.resp < m[it->second].inv) sim::fail("invented", "the value of write %lld was read before it was written", (long long)it->second);
		pairs.push_back({ it->second, kv.first });
	}
	int lost = 0;
	for (auto& kv : m) if (kv.second.wr && !rid.count(val((int)kv.first))) ++lost;
	if (lost != anon) sim::fail("lost_value", "%d written values were never read (%d were read by plain threads)", lost, anon);
	// order: values leave in the order in which their writes began to wait, and go to readers in the order in which those began
	size_t n = pairs.size();
	auto before = [&](size_t i, size_t j) {
		const O &wi = m[pairs[i].first], &wj = m[pairs[j].first], &ri = m[pairs[i].second], &rj = m[pairs[j].second];
		return wi.reg <= wj.inv || ri.reg <= rj.inv;
	};
	std::vector<int> st(n);
	std::function<void(size_t)> dfs = [&](size_t i) {
		st[i] = 1;
		for (size_t j = 0; j < n; ++j)
			if (j != i && before(i, j))
			{
				if (st[j] == 1) sim::fail("order", "values were not passed on in first-in first-out order: write %lld/read %lld and write %lld/read %lld", (long long)pairs[i].first, (long long)pairs[i].second, (long long)pairs[j].first, (long long)pairs[j].second);
				if (!st[j]) dfs(j);
			}
		st[i] = 2;
	};
	for (size_t i = 0; i < n; ++i) if (!st[i]) dfs(i);
}
sim::Register r0({ "channel", "C06", gen, run, check, 1 });
sim::Register r1({ "channel", "C07", gen_late, run, check, 1 });
}

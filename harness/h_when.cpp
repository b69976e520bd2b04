// C17 when_all, C18 when_any: combinators over every form of task, on the own or another scheduler.
#include "common.h"
using namespace H;

namespace {
enum { E_INV = 1, E_RESP, E_TBEGIN, E_TEND, E_SET, E_TAKEN };
enum { O_ALL, O_ANY };
enum { FORM_TUPLE, FORM_FUTURES, FORM_CALLABLES };
enum { K_READY, K_YIELD, K_SLEEP, K_HELPER, K_LATE, K_THROW, K_NESTED, K_MOVED };
enum { R_POST = R_USER, R_GO = R_USER + 300, R_QUIT = R_USER + 600, R_TRK };
enum { MAXT = 8 };
using Trk = Tracked<R_TRK>;

struct X
{
	Scheds S;
	const Workload* w = nullptr;
	int nt = 0;
	std::vector<std::optional<awaitable_t<int64_t>>> slot;		// op * MAXT + task
	std::vector<std::string> refs;		// what tasks that return a reference refer to
};
// op: actor coroutine; a: form (0-3) | target+1 (4-7) | detach (8-11) | style (12-15); b: tasks; c: 8 bits per task: kind (0-2), value type (3-5), param (6-7)
int tasks_of(const Op& o) { return (int)o.b; }
int tkind(const Op& o, int j) { return (int)(o.c >> (8 * j) & 7); }
int ttype(const Op& o, int j) { return (int)(o.c >> (8 * j + 3) & 7) % 4; }
int tpar(const Op& o, int j) { return (int)(o.c >> (8 * j + 6) & 3); }
int64_t val(int i, int j) { return i * 100 + j; }
std::string sval(int i, int j) { return "value of a combined task: " + std::to_string(val(i, j)); }

future_t<int64_t> helped(X* x, int i, int j)
{
	awaitable_t<int64_t> a;
	int k = i * MAXT + j;
	x->slot[k] = a;
	sim::hb_release(HB_USER + k % 200);
	sim::reg(R_POST + k) = 1;
	return a.get_future();
}
future_t<int64_t> leaf(X* x, int i, int j) { co_await yield(); sim::ev(E_TBEGIN, i, j, 1); co_return val(i, j); }
future_t<> work(X* x, int i, int j)
{
	const Op& o = x->w->ops[i];
	switch (tkind(o, j))
	{
	case K_YIELD: for (int k = 0; k <= tpar(o, j); ++k) co_await yield(); break;
	case K_SLEEP: co_await sleep_for(std::chrono::microseconds(1 + 7 * tpar(o, j))); break;
	case K_HELPER: case K_LATE:
	{
		int64_t v = co_await helped(x, i, j);
		if (v != val(i, j)) sim::fail("wrong_value", "task %d of operation %d was completed with %lld", j, i, (long long)v);
		break;
	}
	case K_NESTED:
		if (tpar(o, j) & 1)
		{
			auto t = co_await when_all(leaf(x, i, j), [x, i, j] { return leaf(x, i, j); });
			if (std::get<0>(t) != val(i, j) || std::get<1>(t) != val(i, j)) sim::fail("wrong_value", "nested when_all of operation %d", i);
		}
		else
		{
			auto t = co_await when_any(leaf(x, i, j), [x, i, j] { return leaf(x, i, j); });
			if (t.first < 0 || t.first > 1 || any_cast<int64_t>(t.second) != val(i, j)) sim::fail("wrong_value", "nested when_any of operation %d", i);
		}
		break;
	case K_MOVED: co_await via(x->S.sch[tpar(o, j) % x->S.n]); break;
	}
}
#define TASK(...) { sim::ev(E_TBEGIN, i, j); co_await work(x, i, j); sim::ev(E_TEND, i, j); if (tkind(x->w->ops[i], j) == K_THROW) throw Err{ val(i, j) }; __VA_ARGS__ }
future_t<int64_t> t_int(X* x, int i, int j) TASK(co_return val(i, j);)
future_t<> t_void(X* x, int i, int j) TASK()
future_t<std::string> t_str(X* x, int i, int j) TASK(co_return sval(i, j);)
future_t<Trk> t_trk(X* x, int i, int j) TASK(co_return Trk(val(i, j));)
future_t<std::string&> t_ref(X* x, int i, int j) TASK(co_return x->refs[i * MAXT + j];)
future_t<bool> t_bool(X* x, int i, int j) TASK(co_return (i + j) % 3 == 0;)

void same(int i, int j, int64_t v) { if (v != val(i, j)) sim::fail("wrong_value", "result %d of operation %d is %lld", j, i, (long long)v); }
void same(int i, int j, const std::string& v) { if (v != sval(i, j)) sim::fail("wrong_value", "result %d of operation %d is '%s'", j, i, v.c_str()); }
void same(int i, int j, const Trk& v) { same(i, j, v.v); }
void same(int i, int j, decltype(std::ignore)) {}

// when_all / when_any on the own scheduler or an explicit one, awaited at once or later
future_t<> pause_(int d)
{
	if (d == 1) co_await yield();
	else if (d == 2) { co_await yield(); co_await yield(); co_await yield(); }
	else if (d == 3) co_await sleep_for(std::chrono::microseconds(20));
}
#define COMBINE(R, FN, ...) \
	if (tgt < 0) { auto r = co_await FN(__VA_ARGS__); R } \
	else if (!det) { auto r = co_await FN(*x->S.sch[tgt % x->S.n], __VA_ARGS__); R } \
	else { auto aw = FN(*x->S.sch[tgt % x->S.n], __VA_ARGS__); co_await pause_(det); auto r = co_await aw; R }

void any_result(X* x, int i, const when_any_pair& r)
{
	const Op& o = x->w->ops[i];
	int n = tasks_of(o);
	if (r.first < 0 || r.first >= n) sim::fail("wrong_index", "when_any of %d tasks reported index %lld", n, (long long)r.first);
	int j = (int)r.first, form = (int)(o.a & 15), ty = form == FORM_TUPLE ? ttype(o, j) : (int)(o.a >> 12 & 3);
	if (form == FORM_TUPLE && ty == 3) ty = 0;
	try
	{
		switch (ty)
		{
		case 0: same(i, j, any_cast<int64_t>(r.second)); break;
		case 1: if (r.second.has_value()) sim::fail("wrong_value", "when_any: a task without a result delivered one"); break;
		case 2: same(i, j, any_cast<std::string>(r.second)); break;
		case 3: same(i, j, any_cast<Trk>(r.second)); break;
		}
	}
	catch (const std::bad_any_cast&) { sim::fail("wrong_value", "when_any: result %d of operation %d has the wrong type", j, i); }
	sim::ev(E_RESP, i, r.first);
}
template<class T> future_t<T> mk(X* x, int i, int j)
{
	if constexpr (std::is_same_v<T, int64_t>) return t_int(x, i, j);
	else if constexpr (std::is_same_v<T, void>) return t_void(x, i, j);
	else if constexpr (std::is_same_v<T, std::string>) return t_str(x, i, j);
	else if constexpr (std::is_same_v<T, bool>) return t_bool(x, i, j);
	else if constexpr (std::is_same_v<T, std::string&>) return t_ref(x, i, j);
	else return t_trk(x, i, j);
}
template<class T> future_t<> all_range(X* x, int i, int tgt, int det)
{
	const Op& o = x->w->ops[i];
	int n = tasks_of(o);
#define GOT if ((int)r.size() != n) sim::fail("wrong_size", "when_all of %d tasks delivered %zu results", n, r.size()); \
	if constexpr (std::is_same_v<T, bool>) { for (int j = 0; j < n; ++j) if (r[j] != ((i + j) % 3 == 0)) sim::fail("wrong_value", "result %d of operation %d", j, i); } \
	else for (int j = 0; j < n; ++j) same(i, j, r[j]);
	if ((o.a & 15) == FORM_FUTURES)
	{
		std::vector<future_t<T>> v;
		for (int j = 0; j < n; ++j) v.push_back(mk<T>(x, i, j));
		if (o.a >> 14 & 1) { COMBINE(GOT, when_all, v) }
		else { COMBINE(GOT, when_all, v.begin(), v.end()) }
	}
	else
	{
		std::vector<std::function<future_t<T>()>> v;
		for (int j = 0; j < n; ++j) v.push_back([x, i, j] { return mk<T>(x, i, j); });
		if (o.a >> 14 & 1) { COMBINE(GOT, when_all, v) }
		else { COMBINE(GOT, when_all, v.begin(), v.end()) }
	}
}
template<class T> future_t<> any_range(X* x, int i, int tgt, int det)
{
	const Op& o = x->w->ops[i];
	int n = tasks_of(o);
#define GOTANY any_result(x, i, r);
	if ((o.a & 15) == FORM_FUTURES)
	{
		std::vector<future_t<T>> v;
		for (int j = 0; j < n; ++j) v.push_back(mk<T>(x, i, j));
		if (o.a >> 14 & 1) { COMBINE(GOTANY, when_any, v) }
		else { COMBINE(GOTANY, when_any, v.begin(), v.end()) }
	}
	else
	{
		std::vector<std::function<future_t<T>()>> v;
		for (int j = 0; j < n; ++j) v.push_back([x, i, j] { return mk<T>(x, i, j); });
		if (o.a >> 14 & 1) { COMBINE(GOTANY, when_any, v) }
		else { COMBINE(GOTANY, when_any, v.begin(), v.end()) }
	}
}
// fixed arities; the shape of the tuple is (int, void, string, int) in four rotations; some given as callables
#define CB(f, j) [x, i] { return f(x, i, j); }
future_t<> all_tuple(X* x, int i, int tgt, int det)
{
	const Op& o = x->w->ops[i];
	bool cb = o.a >> 14 & 1;
#define C0 {}
#define C1 { same(i, 0, std::get<0>(r)); }
#define C2 { same(i, 0, std::get<0>(r)); same(i, 1, std::get<1>(r)); }
#define C3 { same(i, 0, std::get<0>(r)); same(i, 1, std::get<1>(r)); same(i, 2, std::get<2>(r)); }
#define C4 { same(i, 0, std::get<0>(r)); same(i, 1, std::get<1>(r)); same(i, 2, std::get<2>(r)); same(i, 3, std::get<3>(r)); }
	switch (tasks_of(o))
	{
	case 0: if (tgt < 0) { auto r = co_await when_all(); (void)r; } else { auto r = co_await when_all(*x->S.sch[tgt % x->S.n]); (void)r; } break;
	case 1: if (cb) { COMBINE(C1, when_all, CB(t_str, 0)) } else { COMBINE(C1, when_all, t_int(x, i, 0)) } break;
	case 2: if (cb) { COMBINE(C2, when_all, CB(t_void, 0), CB(t_trk, 1)) } else { COMBINE(C2, when_all, t_int(x, i, 0), t_void(x, i, 1)) } break;
	case 3: if (cb) { COMBINE(C3, when_all, t_int(x, i, 0), CB(t_void, 1), t_str(x, i, 2)) } else { COMBINE(C3, when_all, t_str(x, i, 0), t_trk(x, i, 1), t_int(x, i, 2)) } break;
	default: if (cb) { COMBINE(C4, when_all, CB(t_int, 0), CB(t_void, 1), CB(t_str, 2), CB(t_trk, 3)) } else { COMBINE(C4, when_all, t_trk(x, i, 0), t_str(x, i, 1), t_int(x, i, 2), t_int(x, i, 3)) } break;
	}
}
#define ANYT(ty) \
	ty == 1 ? t_void : ty == 2 ? t_str : t_int
future_t<> any_tuple(X* x, int i, int tgt, int det)
{
	const Op& o = x->w->ops[i];
	bool cb = o.a >> 14 & 1;
	// the types follow the position: 0 int, 1 void, 2 string, 3 int
	switch (tasks_of(o))
	{
	case 1: if (cb) { COMBINE(GOTANY, when_any, CB(t_int, 0)) } else { COMBINE(GOTANY, when_any, t_int(x, i, 0)) } break;
	case 2: if (cb) { COMBINE(GOTANY, when_any, CB(t_int, 0), CB(t_void, 1)) } else { COMBINE(GOTANY, when_any, t_int(x, i, 0), t_void(x, i, 1)) } break;
	case 3: if (cb) { COMBINE(GOTANY, when_any, t_int(x, i, 0), CB(t_void, 1), t_str(x, i, 2)) } else { COMBINE(GOTANY, when_any, t_int(x, i, 0), t_void(x, i, 1), t_str(x, i, 2)) } break;
	default: if (cb) { COMBINE(GOTANY, when_any, CB(t_int, 0), CB(t_void, 1), CB(t_str, 2), CB(t_int, 3)) } else { COMBINE(GOTANY, when_any, t_int(x, i, 0), t_void(x, i, 1), t_str(x, i, 2), t_int(x, i, 3)) } break;
	}
}
future_t<> actor(X* x, int a)
{
	int home = x->S.here();
	for (size_t k = 0; k < x->w->ops.size(); ++k)
	{
		const Op& o = x->w->ops[k];
		if (o.actor != a) continue;
		int i = (int)k, form = (int)(o.a & 15), tgt = (int)(o.a >> 4 & 15) - 1, det = (int)(o.a >> 8 & 15), ty = (int)(o.a >> 12 & 3);
		sim::ev(E_INV, i, o.kind);
		if (o.kind == O_ALL)
		{
			if (form == FORM_TUPLE) co_await all_tuple(x, i, tgt, det);
			else if (ty == 0) co_await all_range<int64_t>(x, i, tgt, det);
			else if (ty == 1) co_await all_range<void>(x, i, tgt, det);
			else if (ty == 2 && (o.a >> 15 & 1)) co_await all_range<std::string&>(x, i, tgt, det);
			else if (ty == 2) co_await all_range<std::string>(x, i, tgt, det);
			else if (o.a >> 15 & 1) co_await all_range<bool>(x, i, tgt, det);
			else co_await all_range<Trk>(x, i, tgt, det);
			sim::ev(E_RESP, i, -1);
		}
		else
		{
			if (form == FORM_TUPLE) co_await any_tuple(x, i, tgt, det);
			else if (ty == 0) co_await any_range<int64_t>(x, i, tgt, det);
			else if (ty == 1) co_await any_range<void>(x, i, tgt, det);
			else if (ty == 2 && (o.a >> 15 & 1)) co_await any_range<std::string&>(x, i, tgt, det);
			else if (ty == 2) co_await any_range<std::string>(x, i, tgt, det);
			else co_await any_range<Trk>(x, i, tgt, det);
		}
		sim::reg(R_GO + i) = 1;
		if (x->S.here() != home) sim::fail("wrong_scheduler", "operation %d returned on scheduler %d instead of %d", i, x->S.here(), home);
	}
	sim::reg(R_DONE)++;
}
void helper(X* x, int me)
{
	size_t n = x->slot.size();
	std::vector<char> done(n);
	char* d = done.data();
	int nt = x->nt;
	auto ready = [x, d, n, me, nt](size_t k) {
		if (d[k] || (int)k % nt != me || !sim::reg(R_POST + k)) return false;
		return tkind(x->w->ops[k / MAXT], (int)(k % MAXT)) != K_LATE || sim::reg(R_GO + k / MAXT);
	};
	for (;;)
	{
		sim::park([ready, n] { for (size_t k = 0; k < n; ++k) if (ready(k)) return true; return sim::reg(R_QUIT) != 0; });
		bool any = false;
		for (size_t k = 0; k < n; ++k) if (ready(k))
		{
			any = true;
			d[k] = 1;
			int i = (int)(k / MAXT), j = (int)(k % MAXT);
			if (tpar(x->w->ops[i], j)) sim::sleep_ns(100 << (3 * tpar(x->w->ops[i], j)));
			sim::hb_acquire(HB_USER + (int)(k % 200));
			sim::ev(E_SET, i, j);
			x->slot[k]->set_value(val(i, j));
		}
		if (!any && sim::reg(R_QUIT)) return;
	}
}

void gen_common(Rng& r, Workload& w, int op)
{
	int ns = (int)r.in(1, 3), nc = (int)r.in(1, 3), nt = (int)r.in(1, 2);
	w.set("scheds", ns); w.set("coros", nc); w.set("threads", nt);
	int n = (int)r.in(1, 6);
	for (int i = 0; i < n; ++i)
	{
		Op o; o.actor = (int)r.in(0, nc - 1); o.kind = op;
		int form = (int)r.in(0, 2);
		int tgt = r.p(1, 2) ? 0 : (int)r.in(1, ns);
		int k = (int)r.in(op == O_ANY ? 1 : 0, 4);
		o.b = k;
		o.a = form | tgt << 4 | (tgt && r.p(1, 2) ? r.in(1, 3) : 0) << 8 | r.in(0, 15) << 12;
		int alive = 0;
		for (int j = 0; j < k; ++j)
		{
			int kind = (int)r.in(0, 7);
			if (op == O_ALL && (kind == K_LATE || kind == K_THROW)) kind = K_HELPER;
			if (op == O_ANY && j == k - 1 && !alive && (kind == K_LATE || kind == K_THROW)) kind = K_YIELD;
			if (kind != K_LATE && kind != K_THROW) ++alive;
			int ty = form == FORM_TUPLE ? (op == O_ANY ? (j == 3 ? 0 : j) : 0) : 0;
			o.c |= (int64_t)(kind | ty << 3 | (int)r.in(0, 3) << 6) << (8 * j);
		}
		w.ops.push_back(o);
	}
}
void gen_all(Rng& r, Workload& w) { gen_common(r, w, O_ALL); }
void gen_any(Rng& r, Workload& w) { gen_common(r, w, O_ANY); }

void run(const Workload& w)
{
	int ns = (int)w.get("scheds"), nc = (int)w.get("coros");
	X x; x.w = &w; x.nt = (int)w.get("threads");
	x.slot.resize(w.ops.size() * MAXT);
	for (size_t k = 0; k < w.ops.size() * MAXT; ++k) x.refs.push_back(sval((int)(k / MAXT), (int)(k % MAXT)));
	x.S.start(ns);
	X* xp = &x;
	std::vector<int> tids;
	for (int t = 0; t < x.nt; ++t) tids.push_back(sim::spawn([xp, t] { helper(xp, t); }));
	for (int a = 0; a < nc; ++a) *x.S.sch[a % ns] + actor(&x, a);
	if (!sim::park([nc] { return sim::reg(R_DONE) >= nc; }))
		sim::fail("never_completed", "%lld of %d coroutines never got past a when_all/when_any all of whose conditions are met", (long long)(nc - sim::reg(R_DONE)), nc);
	// losers of when_any may still be asleep, or wait for a helper
	if (!x.S.quiesce()) sim::fail("no_quiescence", "schedulers never become idle");
	for (int64_t t0 = sim::now();;)
	{
		bool e = true;
		for (int i = 0; i < ns; ++i) if (!x.S.sch[i]->empty()) e = false;
		if (e) break;
		sim::sleep_ns(50'000);
		if (!x.S.quiesce()) sim::fail("no_quiescence", "schedulers never become idle");
		if (sim::now() - t0 > 20'000'000'000ll) sim::fail("not_empty", "a task of a combinator never ended");
	}
	sim::reg(R_QUIT) = 1;
	for (int t : tids) sim::join(t);
	x.S.quiesce();
	for (size_t k = 0; k < x.refs.size(); ++k)
		if (x.refs[k] != sval((int)(k / MAXT), (int)(k % MAXT))) sim::fail("referent_changed", "what task %zu of operation %zu returned a reference to has become '%s'", k % MAXT, k / MAXT, x.refs[k].c_str());
	if (sim::reg(R_TRK)) sim::fail("values_kept", "%lld results still exist", (long long)sim::reg(R_TRK));
	x.S.stop();
}
void check(const Workload& w, const std::vector<Ev>& ev)
{
	struct O { uint64_t inv = 0, resp = 0; int64_t idx = -2; uint64_t begin[MAXT] = {}, end[MAXT] = {}; };
	std::map<int64_t, O> m;
	for (auto& e : ev)
		switch (e.kind)
		{
		case E_INV: m[e.a].inv = e.seq; break;
		case E_RESP: if (m[e.a].resp) sim::fail("resumed_twice", "operation %lld returned twice", (long long)e.a); m[e.a].resp = e.seq; m[e.a].idx = e.b; break;
		case E_TBEGIN: if (e.c == 0) { if (m[e.a].begin[e.b]) sim::fail("ran_twice", "task %lld of operation %lld began twice", (long long)e.b, (long long)e.a); m[e.a].begin[e.b] = e.seq; } break;
		case E_TEND: m[e.a].end[e.b] = e.seq; break;
		}
	for (auto& kv : m)
	{
		auto& o = w.ops[kv.first];
		auto& h = kv.second;
		int n = tasks_of(o);
		if (!h.resp) sim::fail("never_completed", "operation %lld never returned", (long long)kv.first);
		for (int j = 0; j < n; ++j)
		{
			if (!h.begin[j] || !h.end[j]) sim::fail("task_lost", "task %d of operation %lld was never %s", j, (long long)kv.first, h.begin[j] ? "finished" : "run");
			if (o.kind == O_ALL && h.end[j] > h.resp) sim::fail("too_early", "when_all (operation %lld) returned before its task %d had finished", (long long)kv.first, j);
		}
		if (o.kind == O_ANY)
		{
			if (h.end[h.idx] > h.resp) sim::fail("too_early", "when_any (operation %lld) reported task %lld before it had finished", (long long)kv.first, (long long)h.idx);
			if (tkind(o, (int)h.idx) == K_THROW) sim::fail("failed_task", "when_any (operation %lld) reported a task that failed", (long long)kv.first);
		}
	}
}
sim::Register r0({ "when_all", "C17", gen_all, run, check, 1 });
sim::Register r1({ "when_any", "C18", gen_any, run, check, 1 });
}

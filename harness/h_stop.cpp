// C19: stop sources, tokens and callbacks shared by threads and a task.
#include "common.h"
using namespace H;

namespace {
enum { E_BORN = 1, E_BORN_OK, E_DIE, E_DIED, E_REQ, E_REQD, E_QT, E_QTR, E_QS, E_QSR, E_REG, E_REGD, E_RUN, E_RAN, E_DEREG, E_DEREGD };
enum { O_SRC_COPY, O_SRC_MOVE, O_SRC_DROP, O_GET, O_TOK_COPY, O_TOK_MOVE, O_TOK_DROP, O_REG, O_REG_MOVE, O_DEREG, O_REQ, O_QTOK, O_QSRC, O_TASK_SRC, O_TASK_TOK, O_TASK_REQ, O_COUNT };
enum { A_NONE, A_SELF, A_OTHER, A_NEW, A_REQ, A_SLOW, A_QUERY, A_COUNT };
enum { G_PLAIN, G_TASK, G_NONE };
enum { MAXC = 48, SLOTS = 4, R_PUB = R_USER, R_CLAIM = R_USER + 100, R_OPSDONE = R_USER + 200, R_READY, R_FN, R_TASK };

struct Fn;
using CB = stop_callback<Fn>;
struct W;
struct Fn
{
	W* w; int id, g, act, arg;
	std::shared_ptr<int> cell;		// written by the callback, read by whoever deregistered it
	stop_token tok; stop_source src;
	Fn(W* w_, int i, int g_, int a, int r) : w(w_), id(i), g(g_), act(a), arg(r), src(nostopstate_t{}) { sim::reg(R_FN)++; }
	Fn(Fn&& o) : w(o.w), id(o.id), g(o.g), act(o.act), arg(o.arg), cell(std::move(o.cell)), tok(std::move(o.tok)), src(std::move(o.src)) { sim::reg(R_FN)++; }
	~Fn() { sim::reg(R_FN)--; }
	void operator()();
	using nostopstate_t = milk::concurrency::nostopstate_t;
};
struct W
{
	const Workload* w;
	int kind[2];
	int single[2];				// the only request of the group, or -1
	int* cell[2];				// written before that request
	CB* cb[MAXC * 2] = {};
	std::shared_ptr<int> cells[MAXC * 2];
	task_t* task = nullptr;
	Scheds S;
	awaitable_t<> gate;
};
void dereg(W* w, int id)
{
	if (!sim::reg(R_PUB + id) || sim::reg(R_CLAIM + id)++ != 0) return;
	sim::hb_acquire(HB_USER + id);
	std::shared_ptr<int> c = std::move(w->cells[id]);
	sim::ev(E_DEREG, id);
	delete w->cb[id];
	sim::ev(E_DEREGD, id);
	// the callback has ended or never runs
	if (*c != 0 && *c != 7) sim::fail("torn", "callback %d", id);
}
void registr(W* w, int id, int g, int act, int arg, stop_token& t, bool mv, const stop_source* s)
{
	Fn f(w, id, g, act, arg);
	f.cell = std::make_shared<int>(0);
	w->cells[id] = f.cell;
	if (act == A_NEW || act == A_QUERY) f.tok = t;
	if (act == A_REQ) { if (s) { sim::ev(E_BORN, g); f.src = *s; sim::ev(E_BORN_OK, g); } else f.act = A_NONE; }
	sim::ev(E_REG, id, g);
	w->cb[id] = mv ? new CB(std::move(t), std::move(f)) : new CB(t, std::move(f));
	sim::ev(E_REGD, id);
	sim::hb_release(HB_USER + id);
	sim::reg(R_PUB + id) = 1;
}
bool request(W*, int g, const stop_source& s)
{
	sim::ev(E_REQ, g);
	bool r = s.request_stop();
	sim::ev(E_REQD, g, r);
	return r;
}
void query(W* w, int g, const stop_token& t)
{
	sim::ev(E_QT, g);
	bool p = t.stop_possible(), r = t.stop_requested();
	sim::ev(E_QTR, g, p, r);
	if (r && w->single[g] >= 0 && *w->cell[g] != 1) sim::fail("not_visible", "what was written before request_stop() is not visible after stop_requested()");
}
void Fn::operator()()
{
	sim::ev(E_RUN, id);
	W* x = w; int i = id, a = act, r = arg, gr = g;
	std::shared_ptr<int> c = cell;
	if (*c) sim::fail("ran_twice", "callback %d ran twice", i);
	if (x->single[gr] >= 0 && *x->cell[gr] != 1) sim::fail("not_visible", "what was written before request_stop() is not visible in the callback");
	switch (a)
	{
	case A_SLOW: sim::sleep_ns(300); sim::sleep_ns(3000); break;
	case A_QUERY: query(x, gr, tok); break;
	case A_NEW: if (i < MAXC) registr(x, i + MAXC, gr, A_NONE, 0, tok, r & 1, nullptr); break;
	case A_REQ: if (request(x, gr, src)) sim::fail("two_winners", "request_stop() inside a callback reported success"); break;
	}
	sim::ev(E_RAN, i);
	*c = 7;
	if (a == A_SELF) dereg(x, i);
	else if (a == A_OTHER) dereg(x, r);
}
// the slots of one thread
struct L
{
	W* w;
	stop_source src[SLOTS] = { stop_source(Fn::nostopstate_t{}), stop_source(Fn::nostopstate_t{}), stop_source(Fn::nostopstate_t{}), stop_source(Fn::nostopstate_t{}) };
	stop_token tok[SLOTS];
	int sg[SLOTS], tg[SLOTS];
	explicit L(W* x) : w(x) { for (int i = 0; i < SLOTS; ++i) sg[i] = tg[i] = -1; }
	bool empty_group(int g) const { return w->kind[g] == G_NONE; }
	void born(int g) { sim::ev(E_BORN, g); }
	void alive(int g) { sim::ev(E_BORN_OK, g); }
	void drop(int a)
	{
		if (sg[a] < 0) return;
		sim::ev(E_DIE, sg[a]);
		src[a] = stop_source(Fn::nostopstate_t{});
		sim::ev(E_DIED, sg[a]);
		sg[a] = -1;
	}
	void op(int i)
	{
		const Op& o = w->w->ops[i];
		int a = (int)(o.a & 3), b = (int)(o.b & 3);
		switch (o.kind)
		{
		case O_SRC_COPY:
			if (sg[a] < 0 || a == b) break;
			drop(b);
			born(sg[a]); if (o.c & 1) src[b] = src[a]; else { stop_source t(src[a]); src[b].swap(t); } alive(sg[a]); sg[b] = sg[a];
			// two sources are equal exactly if they belong to the same group
			for (int k = 0; k < SLOTS; ++k)
				if (bool same = sg[k] == sg[a] || (empty_group(sg[a]) && sg[k] >= 0 && empty_group(sg[k])); sg[k] >= 0 && ((src[a] == src[k]) != same || (src[a] != src[k]) == same)) sim::fail("source_identity", "stop_source comparison does not tell groups apart");
			break;
		case O_SRC_MOVE:
			if (sg[a] < 0 || a == b) break;
			drop(b);
			// moving neither creates nor destroys
			src[b] = std::move(src[a]); sg[b] = sg[a]; sg[a] = -1;
			break;
		case O_SRC_DROP: drop(a); break;
		case O_GET: if (sg[a] >= 0) { tok[b] = src[a].get_token(); tg[b] = sg[a]; } break;
		case O_TOK_COPY: if (tg[a] >= 0) { if (o.c & 1) tok[b] = tok[a]; else { stop_token t(tok[a]); t.swap(tok[b]); } tg[b] = tg[a]; if (!(tok[a] == tok[b])) sim::fail("token_identity", "copies of a token differ"); } break;
		case O_TOK_MOVE: if (tg[a] >= 0 && a != b) { tok[b] = std::move(tok[a]); tg[b] = tg[a]; tg[a] = -1; } break;
		case O_TOK_DROP: tok[a] = stop_token(); tg[a] = -1; break;
		case O_REG: case O_REG_MOVE:
		{
			if (tg[a] < 0 || i >= MAXC) break;
			const stop_source* s = nullptr;
			for (int k = 0; k < SLOTS; ++k) if (sg[k] == tg[a]) s = &src[k];
			int act = (int)(o.c & 15), arg = (int)(o.c >> 4 & 63);
			if (act == A_OTHER && arg >= i) act = A_NONE;
			registr(w, i, tg[a], act, arg, tok[a], o.kind == O_REG_MOVE, s);
			if (o.kind == O_REG_MOVE) { tok[a] = stop_token(); tg[a] = -1; }
			break;
		}
		case O_DEREG: if (o.c >= 0 && o.c < MAXC) dereg(w, (int)o.c + (o.b & 4 ? MAXC : 0)); break;
		case O_REQ:
			if (sg[a] < 0) break;
			if (w->single[sg[a]] == i) *w->cell[sg[a]] = 1;
			request(w, sg[a], src[a]);
			break;
		case O_QTOK: if (tg[a] >= 0) query(w, tg[a], tok[a]); break;
		case O_QSRC:
			if (sg[a] < 0) break;
			sim::ev(E_QS, sg[a]);
			{ bool p = src[a].stop_possible(), r = src[a].stop_requested(); sim::ev(E_QSR, sg[a], p, r); }
			break;
		case O_TASK_SRC:
			if (!w->task) break;
			drop(b);
			born(0); src[b] = w->task->get_stop_source(); alive(0); sg[b] = 0;
			break;
		case O_TASK_TOK: if (w->task) { tok[b] = w->task->get_stop_token(); tg[b] = 0; } break;
		case O_TASK_REQ:
			if (!w->task) break;
			if (w->single[0] == i) *w->cell[0] = 1;
			if (o.c & 1)
			{
				// a task whose stop source nobody asked for cannot be stopped, and says so
				sim::ev(E_REQ, 0, 1);
				bool r = w->task->request_stop_if_possible();
				sim::ev(E_REQD, 0, r, 1);
			}
			else
			{
				sim::ev(E_REQ, 0);
				bool r = w->task->request_stop();
				sim::ev(E_REQD, 0, r);
			}
			break;
		}
		if (o.kind == O_TASK_SRC || o.kind == O_TASK_TOK || (o.kind == O_TASK_REQ && !(o.c & 1))) if (w->task) sim::reg(R_TASK) = 1;
	}
	void end() { for (int k = 0; k < SLOTS; ++k) { drop(k); tok[k] = stop_token(); } }
};
future_t<> body(W* w)
{
	w->task = co_await get_current_task();
	sim::hb_release(HB_SCHED + 8);
	sim::reg(R_READY) = 1;
	{
		L l(w);
		for (size_t i = 0; i < w->w->ops.size(); ++i)
			if (w->w->ops[i].actor == 0) { l.op((int)i); if (w->w->ops[i].c & 1) co_await yield(); }
		l.end();
	}
	auto f = w->gate.get_future();
	sim::hb_release(HB_SCHED + 9);
	sim::reg(R_OPSDONE)++;
	co_await f;
}

void gen(Rng& r, Workload& w)
{
	int nt = (int)r.in(2, 4), ng = r.p(1, 4) ? 2 : 1, n = (int)r.in(4, 30);
	w.set("threads", nt); w.set("groups", ng);
	bool task = r.p(1, 3);
	int sg[4][SLOTS], tg[4][SLOTS];
	for (auto& t : sg) for (int& g : t) g = -1;
	for (auto& t : tg) for (int& g : t) g = -1;
	for (int g = 0; g < ng; ++g)
	{
		int k = g == 0 && task ? G_TASK : r.p(1, 20) ? G_NONE : G_PLAIN;
		w.set(g ? "kind1" : "kind0", k);
		// who starts with a source / a token (bits per thread)
		int s = (int)r.in(1, (1 << nt) - 1);
		if (r.p(1, 3)) s = 1 << r.in(0, nt - 1);
		int t = r.p(1, 2) ? (1 << nt) - 1 : (int)r.in(1, (1 << nt) - 1);
		w.set(g ? "src1" : "src0", s);
		w.set(g ? "tok1" : "tok0", t);
		if (k != G_TASK) for (int i = task ? 1 : 0; i < nt; ++i) { if (k == G_NONE || s >> i & 1) sg[i][g] = g; if (k == G_NONE || t >> i & 1) tg[i][g] = g; }
	}
	bool reqs = r.p(7, 8);
	int wreq = r.p(1, 2) ? 4 : 12, wdrop = r.p(1, 2) ? 3 : 9;
	for (int i = 0; i < n; ++i)
	{
		Op o; int t = o.actor = (int)r.in(0, nt - 1);
		auto slot = [&](int (&v)[SLOTS]) { int k = (int)r.in(0, SLOTS - 1); for (int q = 0; q < SLOTS; ++q) if (v[(k + q) % SLOTS] >= 0) return (k + q) % SLOTS; return -1; };
		int s = slot(sg[t]), k = slot(tg[t]);
		o.b = r.in(0, 3); o.c = r.in(0, 1);
		int x = (int)r.in(0, 99), tot = 0;
		auto is = [&](int wt) { tot += wt; return x < tot; };
		if (is(34) && k >= 0)
		{
			o.kind = r.p(1, 4) ? O_REG_MOVE : O_REG; o.a = k;
			int act = r.p(1, 2) ? A_NONE : (int)r.in(0, A_COUNT - 1);
			o.c = act | (act == A_OTHER ? r.in(0, i) : r.in(0, 1)) << 4;
			if (o.kind == O_REG_MOVE) tg[t][k] = -1;
		}
		else if (is(24)) { o.kind = O_DEREG; o.c = r.in(0, i); if (r.p(1, 8)) o.b |= 4; }
		else if (is(wreq) && reqs && (s >= 0 || task)) { o.kind = task && (s < 0 || r.p(1, 3)) ? O_TASK_REQ : O_REQ; o.a = s; }
		else if (task && is(8)) { o.kind = r.p(1, 2) ? O_TASK_SRC : O_TASK_TOK; (o.kind == O_TASK_SRC ? sg : tg)[t][o.b] = 0; }
		else if (is(8) && s >= 0) { o.kind = O_GET; o.a = s; tg[t][o.b] = sg[t][s]; }
		else if (is(wdrop) && s >= 0) { o.kind = O_SRC_DROP; o.a = s; sg[t][s] = -1; }
		else if (is(wdrop) && k >= 0) { o.kind = O_TOK_DROP; o.a = k; tg[t][k] = -1; }
		else if (is(5) && k >= 0) { o.kind = O_QTOK; o.a = k; }
		else if (is(2) && s >= 0) { o.kind = O_QSRC; o.a = s; }
		else if (is(4) && s >= 0) { o.kind = O_SRC_COPY; o.a = s; sg[t][o.b] = sg[t][s]; }
		else if (is(3) && s >= 0) { o.kind = O_SRC_MOVE; o.a = s; int g = sg[t][s]; sg[t][s] = -1; sg[t][o.b] = g; }
		else if (is(4) && k >= 0) { o.kind = O_TOK_COPY; o.a = k; tg[t][o.b] = tg[t][k]; }
		else if (k >= 0) { o.kind = O_TOK_MOVE; o.a = k; int g = tg[t][k]; tg[t][k] = -1; tg[t][o.b] = g; }
		else { o.kind = O_QTOK; o.a = r.in(0, 3); }
		w.ops.push_back(o);
	}
}
void run(const Workload& w)
{
	int nt = (int)w.get("threads"), ng = (int)w.get("groups");
	W x; x.w = &w;
	bool task = w.get("kind0") == G_TASK;
	int cells[2] = { 0, 0 };
	for (int g = 0; g < 2; ++g) { x.kind[g] = (int)w.get(g ? "kind1" : "kind0"); x.single[g] = -1; x.cell[g] = &cells[g]; }
	// a group with exactly one request in the whole workload publishes data through it
	{
		int nreq = 0, last = -1;
		for (size_t i = 0; i < w.ops.size(); ++i) { auto& o = w.ops[i]; if (o.kind == O_REQ || o.kind == O_TASK_REQ) { ++nreq; last = (int)i; } if ((o.kind == O_REG || o.kind == O_REG_MOVE) && (o.c & 15) == A_REQ) nreq += 2; }
		if (nreq == 1) for (int g = 0; g < ng; ++g) x.single[g] = last;
	}
	W* xp = &x;
	std::vector<int> tids;
	std::vector<std::unique_ptr<L>> ls;
	for (int t = 0; t < nt; ++t) ls.push_back(std::make_unique<L>(&x));
	for (int g = 0; g < ng; ++g)
	{
		if (x.kind[g] == G_TASK) continue;
		if (x.kind[g] == G_NONE)
		{
			stop_source s{ Fn::nostopstate_t{} };
			for (int t = 0; t < nt; ++t) { ls[t]->src[g] = s; ls[t]->sg[g] = g; ls[t]->tok[g] = s.get_token(); ls[t]->tg[g] = g; }
			continue;
		}
		sim::ev(E_BORN, g);
		stop_source s;
		sim::ev(E_BORN_OK, g);
		for (int t = task ? 1 : 0; t < nt; ++t)
		{
			if (w.get(g ? "src1" : "src0") >> t & 1) { sim::ev(E_BORN, g); ls[t]->src[g] = s; sim::ev(E_BORN_OK, g); ls[t]->sg[g] = g; }
			if (w.get(g ? "tok1" : "tok0") >> t & 1) { ls[t]->tok[g] = s.get_token(); ls[t]->tg[g] = g; }
		}
		sim::ev(E_DIE, g);
		{ stop_source t(std::move(s)); }
		sim::ev(E_DIED, g);
	}
	if (task)
	{
		x.S.start(1);
		*x.S.sch[0] + body(&x);
		sim::park([] { return sim::reg(R_READY) != 0; });
		sim::hb_acquire(HB_SCHED + 8);
	}
	L** lp = new L*[nt];
	for (int t = 0; t < nt; ++t) lp[t] = ls[t].release();
	for (int t = task ? 1 : 0; t < nt; ++t)
		tids.push_back(sim::spawn([xp, lp, t] {
			L* l = lp[t];
			for (size_t i = 0; i < xp->w->ops.size(); ++i)
				if (xp->w->ops[i].actor == t) l->op((int)i);
			l->end();
			delete l;
			sim::reg(R_OPSDONE)++;
		}));
	if (!sim::park([nt] { return sim::reg(R_OPSDONE) >= nt; })) sim::fail("stuck", "an operation on stop sources or callbacks never returned");
	for (int t : tids) sim::join(t);
	if (task) delete lp[0];
	delete[] lp;
	// a token of the group taken after everything else tells the final state
	if (task)
	{
		sim::hb_acquire(HB_SCHED + 9);
		x.gate.set_value();
		if (!x.S.quiesce()) sim::fail("no_quiescence", "schedulers never become idle");
	}
	for (int i = 0; i < MAXC * 2; ++i) dereg(&x, i);
	if (task) x.S.stop();
	if (sim::reg(R_FN)) sim::fail("callback_kept", "%lld callback objects still exist", (long long)sim::reg(R_FN));
}
void check(const Workload& w, const std::vector<Ev>& ev)
{
	const uint64_t INF = ~0ull;
	int ng = (int)w.get("groups");
	for (int g = 0; g < ng; ++g)
	{
		bool none = w.get(g ? "kind1" : "kind0") == G_NONE, task = g == 0 && w.get("kind0") == G_TASK;
		uint64_t tinv = INF, tresp = INF; int tfib = -1;
		struct Q { uint64_t inv, resp; int kind, p, r, fib; bool opt; };
		std::vector<Q> qs;
		std::map<int, std::vector<size_t>> open;
		struct C { uint64_t reg = 0, regd = 0, run = 0, ran = 0, de = INF, ded = INF; int regfib = -1, runfib = -1, defib = -1; };
		std::map<int64_t, C> cs;
		for (auto& e : ev)
		{
			if (e.kind == E_REG && e.b == g) { cs[e.a].reg = e.seq; cs[e.a].regfib = e.fiber; }
			if (e.kind >= E_REGD && e.kind <= E_DEREGD && cs.count(e.a))
			{
				auto& c = cs[e.a];
				switch (e.kind)
				{
				case E_REGD: c.regd = e.seq; break;
				case E_RUN: if (c.run) sim::fail("ran_twice", "callback %lld ran twice", (long long)e.a); c.run = e.seq; c.runfib = e.fiber; break;
				case E_RAN: c.ran = e.seq; break;
				case E_DEREG: c.de = e.seq; c.defib = e.fiber; break;
				case E_DEREGD: c.ded = e.seq; break;
				}
			}
			if (e.a != g) continue;
			if (e.kind == E_REQ || e.kind == E_QT || e.kind == E_QS) { open[e.fiber].push_back(qs.size()); qs.push_back({ e.seq, 0, e.kind, 0, 0, e.fiber, e.kind == E_REQ && e.b == 1 }); }
			if (e.kind == E_REQD || e.kind == E_QTR || e.kind == E_QSR)
			{
				Q& q = qs[open[e.fiber].back()]; open[e.fiber].pop_back();
				q.resp = e.seq; q.p = (int)e.b; q.r = (int)e.c;
				if (e.kind == E_REQD && e.b)
				{
					if (tinv != INF) sim::fail("two_winners", "two request_stop() calls reported success");
					tinv = q.inv; tresp = e.seq; tfib = e.fiber;
				}
			}
		}
		// when the stop is certain to have been visible
		uint64_t sure = tresp;
		for (auto& kv : cs) if (kv.second.run) sure = std::min(sure, kv.second.run);
		// the first call that certainly created a task's source
		for (auto& q : qs)
		{
			if (q.kind == E_REQ)
			{
				if (!q.p)
				{
					if (none) continue;
					if (q.opt) { if (q.inv > sure) continue; if (tinv < q.resp) continue; /* nobody asked for the source yet */ 
						bool created = false; for (auto& o : qs) if (o.kind == E_REQ && !o.opt && o.resp < q.inv) created = true;
						for (auto& e : ev) if (e.kind == E_BORN_OK && e.a == g && e.seq < q.inv) created = true;
						if (created) sim::fail("no_winner", "request_stop_if_possible() failed although no stop had been requested");
						continue; }
					if (tinv == INF || tinv > q.resp) sim::fail("no_winner", "request_stop() reported failure although no other had been made before");
				}
				else if (none) sim::fail("stop_of_nothing", "request_stop() of a source without a state reported success");
			}
			else
			{
				if (q.r && (tinv == INF || tinv > q.resp)) sim::fail("phantom_stop", "stop_requested() answered true although no stop was requested");
				if (!q.r && sure < q.inv) sim::fail("stop_not_seen", "stop_requested() answered false after the stop had been requested");
				// stop_possible
				if (q.kind == E_QS) { if (q.p != !none) sim::fail("stop_possible", "stop_possible() of a source answered %d", q.p); }
				else if (none) { if (q.p) sim::fail("stop_possible", "stop_possible() of an empty token answered true"); }
				else if (!task)
				{
					int sureAlive = 0, maybe = 0, minSure = 0, maxMaybe = 0; bool in = false;
					for (auto& e : ev)
					{
						if (e.seq == q.inv) { in = true; minSure = sureAlive; maxMaybe = maybe; }
						if (e.a == g) switch (e.kind)
						{
						case E_BORN: ++maybe; break;
						case E_BORN_OK: ++sureAlive; break;
						case E_DIE: --sureAlive; break;
						case E_DIED: --maybe; break;
						}
						if (in) { minSure = std::min(minSure, sureAlive); maxMaybe = std::max(maxMaybe, maybe); }
						if (e.seq == q.resp) break;
					}
					// sources held by callbacks die with them, which is not logged: they only ever count as possible
					int held = 0;
					for (auto& kv : cs) { int i = (int)kv.first; if (i < MAXC && (w.ops[i].c & 15) == A_REQ) ++held; }
					if (q.p && !q.r && maxMaybe <= 0 && !(tinv < q.resp)) sim::fail("stop_possible", "stop_possible() answered true although every source was gone");
					if (!q.p && minSure - held > 0 && true) sim::fail("stop_possible", "stop_possible() answered false although a source existed");
					if (!q.p && q.r) sim::fail("stop_possible", "stop_possible() answered false for a stopped token");
				}
			}
		}
		for (auto& kv : cs)
		{
			auto& c = kv.second; long long id = kv.first;
			if (c.run)
			{
				if (tinv == INF || c.run < tinv) sim::fail("ghost_run", "callback %lld ran although no stop was requested", id);
				bool inl = c.runfib == c.regfib && c.run > c.reg && (!c.regd || c.ran < c.regd);
				bool win = c.runfib == tfib && c.run > tinv && c.ran < tresp;
				if (!inl && !win) sim::fail("wrong_run", "callback %lld ran neither in its registration nor in the request", id);
				if (c.run > c.ded) sim::fail("ran_after_dereg", "callback %lld ran after it had been deregistered", id);
				if (c.ran > c.ded && c.defib != c.runfib) sim::fail("dereg_early", "callback %lld was deregistered while it was running", id);
			}
			else if (tinv != INF && c.de > tresp && c.regd)
				sim::fail("never_ran", "callback %lld was registered but the stop request did not run it", id);
		}
	}
}
sim::Register r0({ "stop_tokens", "C19", gen, run, check, 1 });
}

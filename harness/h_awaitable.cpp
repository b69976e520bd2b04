// C04: awaitable_t / future_t deliver exactly one result, whatever the race between set and co_await.
#include "common.h"
using namespace H;

namespace {
enum { E_AWAIT = 1, E_GOT, E_SET, E_BAD };
enum { K_INT, K_VOID, K_REF, K_UPTR, K_STR, K_BRIT, K_COUNT };
enum { R_TRACK = R_USER + 200 };
using Brit = Brittle<R_TRACK>;
enum { FROM_SELF_BEFORE, FROM_THREAD, FROM_CORO, FROM_COUNT };


struct Slot
{
	int vk, from; bool exc; int64_t delay, id;
	int hand = 0, wait = 0; bool current = false;
	int64_t target = 0;
	// the copies handed to the completing side (as a callback captures them)
	std::optional<awaitable_t<int64_t>> ai;
	std::optional<awaitable_t<void>> av;
	std::optional<awaitable_t<int64_t&>> ar;
	std::optional<awaitable_t<std::unique_ptr<int64_t>>> au;
	std::optional<awaitable_t<std::string>> as;
	std::optional<awaitable_t<Brit>> ab;
	void get(std::optional<awaitable_t<int64_t>>*& p) { p = &ai; }
	void get(std::optional<awaitable_t<void>>*& p) { p = &av; }
	void get(std::optional<awaitable_t<int64_t&>>*& p) { p = &ar; }
	void get(std::optional<awaitable_t<std::unique_ptr<int64_t>>>*& p) { p = &au; }
	void get(std::optional<awaitable_t<std::string>>*& p) { p = &as; }
	void get(std::optional<awaitable_t<Brit>>*& p) { p = &ab; }
};

template<class T> void fail_or(Slot& s, std::optional<awaitable_t<T>>& a)
{
	if (s.current)
	{
		// what a callback does with a failure of its own
		try { throw Err{ s.id }; }
		catch (...) { a->set_exception(std::current_exception()); }
	}
	else a->throw_exception(Err{ s.id });
	if (*a) sim::fail("not_consumed", "an awaitable still holds its operation after the exception was set");
	a.reset();
}
void do_set(Slot& s)
{
	sim::ev(E_SET, s.id);
	if (s.exc)
	{
		switch (s.vk)
		{
		case K_INT: fail_or(s, s.ai); break;
		case K_VOID: fail_or(s, s.av); break;
		case K_REF: fail_or(s, s.ar); break;
		case K_UPTR: fail_or(s, s.au); break;
		case K_STR: fail_or(s, s.as); break;
		case K_BRIT:
			if (s.current)
			{
				// the value cannot be stored: the operation fails with whatever that threw
				awaitable_t<Brit> copy(*s.ab);
				try { copy.set_value(Brit(s.id, s.id)); }
				catch (const Err&) { s.ab->set_exception(std::current_exception()); s.ab.reset(); break; }
				sim::fail("exception_lost", "set_value() returned although the value could not be moved");
			}
			fail_or(s, s.ab);
			break;
		}
		return;
	}
	switch (s.vk)
	{
	case K_INT: s.ai->set_value(s.id); s.ai.reset(); break;
	case K_VOID: s.av->set_value(); s.av.reset(); break;
	case K_REF: s.ar->set_value(s.target); s.ar.reset(); break;
	case K_UPTR: s.au->set_value(std::make_unique<int64_t>(s.id)); s.au.reset(); break;
	case K_STR: s.as->set_value("value-" + std::to_string(s.id) + "-0123456789abcdef"); s.as.reset(); break;
	case K_BRIT: s.ab->set_value(Brit(s.id, -1)); s.ab.reset(); break;
	}
}

future_t<> setter(Slot* s)
{
	if (s->delay) co_await sleep_for(std::chrono::nanoseconds(s->delay));
	do_set(*s);
}

// an awaitable function: starts the "asynchronous operation" and returns its future
template<class T> future_t<T> start_op(Slot* s)
{
	awaitable_t<T> a;
	std::optional<awaitable_t<T>>* p; s->get(p);
	switch (s->hand)
	{
	case 1: { awaitable_t<T> b; b = a; *p = std::move(b); break; }							// copy assignment drops b's own operation
	case 2: { awaitable_t<T> b(a); p->emplace(); **p = std::move(b); break; }				// move assignment
	case 3: { std::function<awaitable_t<T>()> cb = [a] { return a; }; *p = cb(); break; }	// captured by a callback
	default: *p = a;
	}
	if (!**p) sim::fail("lost_operation", "a copy of an awaitable lost its operation");
	if (s->from == FROM_SELF_BEFORE) do_set(*s);
	else
	{
		sim::hb_release(HB_USER + (int)s->id);
		sim::reg(R_USER + s->id) = 1;
	}
	if (s->hand == 2) { future_t<T> f = a.get_future(); future_t<T> g(f); f = std::move(g); return f; }
	return a.get_future();
}
template<class T> future_t<T> late(Slot* s)
{
	// the future is kept while others get a turn, and awaited afterwards
	future_t<T> f = start_op<T>(s);
	for (int i = 0; i < s->wait; ++i) co_await yield();
	if constexpr (std::is_same_v<T, void>) co_await f;
	else co_return co_await f;
}

future_t<> waiter(Slot* s, Scheds* S)
{
	int64_t got = -1;
	int code = 0;
	sim::ev(E_AWAIT, s->id);
	try
	{
		if (s->wait) switch (s->vk)
		{
		case K_INT: got = co_await late<int64_t>(s); break;
		case K_VOID: co_await late<void>(s); got = s->id; break;
		case K_REF: { auto f = start_op<int64_t&>(s); for (int i = 0; i < s->wait; ++i) co_await yield(); int64_t& r = co_await std::move(f); got = &r == &s->target ? s->id : -5; break; }
		case K_UPTR: { auto p = co_await late<std::unique_ptr<int64_t>>(s); got = p ? *p : -6; break; }
		case K_BRIT: { auto p = co_await late<Brit>(s); got = p.t.v; break; }
		case K_STR: { auto p = co_await late<std::string>(s); got = p == "value-" + std::to_string(s->id) + "-0123456789abcdef" ? s->id : -7; break; }
		}
		else
		switch (s->vk)
		{
		case K_INT: got = co_await start_op<int64_t>(s); break;
		case K_VOID: co_await start_op<void>(s); got = s->id; break;
		case K_REF: { int64_t& r = co_await start_op<int64_t&>(s); got = &r == &s->target ? s->id : -5; break; }
		case K_UPTR: { auto p = co_await start_op<std::unique_ptr<int64_t>>(s); got = p ? *p : -6; break; }
		case K_BRIT: { auto p = co_await start_op<Brit>(s); got = p.t.v; break; }
		case K_STR: { auto p = co_await start_op<std::string>(s); got = p == "value-" + std::to_string(s->id) + "-0123456789abcdef" ? s->id : -7; break; }
		}
	}
	catch (const Err& e) { got = e.id; code = 1; }
	catch (const future_exception&) { code = 2; }
	sim::ev(E_GOT, s->id, got, code * 100 + S->here());
}

void gen(Rng& r, Workload& w)
{
	int ns = (int)r.in(1, 3), nt = (int)r.in(1, 2), n = (int)r.in(1, 8);
	w.set("scheds", ns); w.set("threads", nt);
	int vk = r.p(1, 2) ? (int)r.in(0, K_COUNT - 1) : -1;
	bool delays = r.p(1, 2);
	for (int i = 0; i < n; ++i)
	{
		Op o; o.actor = (int)r.in(0, ns - 1);
		o.kind = vk >= 0 ? vk : (int)r.in(0, K_COUNT - 1);
		int from = r.p(1, 8) ? FROM_SELF_BEFORE : r.p(2, 3) ? FROM_THREAD : FROM_CORO;
		o.a = from * 10 + (from == FROM_THREAD ? r.in(0, nt - 1) : r.in(0, ns - 1));
		o.b = r.p(1, 3) | r.in(0, 3) << 1 | (r.p(1, 3) ? r.in(1, 3) : 0) << 4 | r.in(0, 1) << 6;
		o.c = delays && r.p(1, 2) ? log_uniform(r, 2, 6) : 0;
		w.ops.push_back(o);
	}
}

void run(const Workload& w)
{
	int ns = (int)w.get("scheds"), nt = (int)w.get("threads");
	Scheds S; S.start(ns);
	std::vector<std::unique_ptr<Slot>> slots;
	int n = (int)w.ops.size();
	for (int i = 0; i < n; ++i)
	{
		auto& o = w.ops[i];
		auto s = std::make_unique<Slot>();
		s->vk = o.kind; s->from = (int)(o.a / 10); s->exc = (o.b & 1) != 0; s->hand = (int)(o.b >> 1 & 3); s->wait = (int)(o.b >> 4 & 3); s->current = (o.b >> 6 & 1) != 0; s->delay = o.c; s->id = i;
		slots.push_back(std::move(s));
	}
	std::vector<int> tids;
	for (int t = 0; t < nt; ++t)
		tids.push_back(sim::spawn([t, &w, &slots] {
			for (size_t i = 0; i < w.ops.size(); ++i)
			{
				if (slots[i]->from != FROM_THREAD || w.ops[i].a % 10 != t) continue;
				int64_t id = (int64_t)i;
				// the future has been taken (as an awaitable function does before handing itself to a callback)
				sim::park([id] { return sim::reg(R_USER + id) != 0; });
				sim::hb_acquire(HB_USER + (int)id);
				maybe_delay(slots[i]->delay);
				do_set(*slots[i]);
			}
		}));
	for (int i = 0; i < n; ++i)
		*S.sch[w.ops[i].actor] + waiter(slots[i].get(), &S);
	for (int i = 0; i < n; ++i)
		if (slots[i]->from == FROM_CORO)
		{
			int64_t id = i;
			sim::park([id] { return sim::reg(R_USER + id) != 0; });
			sim::hb_acquire(HB_USER + i);
			*S.sch[w.ops[i].a % 10] + setter(slots[i].get());
		}
	bool ok = sim::park([n] { return (int)sim::ev_count(E_GOT) >= n; });
	if (!ok) sim::fail("lost_result", "%d of %d awaits never completed although every result was set", n - (int)sim::ev_count(E_GOT), n);
	for (int t : tids) sim::join(t);
	if (!S.quiesce()) sim::fail("no_quiescence", "schedulers never become idle");
	S.stop();
	if (sim::reg(R_TRACK)) sim::fail("value_leaked", "%lld values still exist", (long long)sim::reg(R_TRACK));
}

void check(const Workload& w, const std::vector<Ev>& ev)
{
	std::map<int64_t, int> got;
	for (auto& e : ev)
		if (e.kind == E_GOT)
		{
			if (++got[e.a] > 1) sim::fail("twice", "await %lld resumed twice", (long long)e.a);
			auto& o = w.ops[e.a];
			if (e.b != e.a) sim::fail("wrong_value", "await %lld received %lld", (long long)e.a, (long long)e.b);
			if (e.c / 100 != (o.b & 1 ? 1 : 0)) sim::fail("wrong_kind", "await %lld: expected %s, outcome code %lld", (long long)e.a, o.b & 1 ? "the exception" : "the value", (long long)(e.c / 100));
			if (e.c % 100 != o.actor) sim::fail("wrong_thread", "await %lld resumed on scheduler %lld instead of %d", (long long)e.a, (long long)(e.c % 100), o.actor);
		}
}
sim::Register reg_({ "awaitable_race", "C04", gen, run, check, 1 });
}

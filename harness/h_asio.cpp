// C26: the asio adapter (asio/asio_task.h): an asio asynchronous operation started with rf_task is awaited as a future.
// Real asio headers (token machinery) and the real adapter; the I/O behind them is a simulated thread.
#define ASIO_STANDALONE
#define ASIO_HEADER_ONLY
#define ASIO_NO_DEPRECATED_WARNINGS
#include "common.h"
#include <system_error>
#include <climits>
#include <tuple>
#include <asio/version.hpp>
#include <asio/detail/config.hpp>
#include <asio/error_code.hpp>
#include <asio/error.hpp>
#include <asio/system_error.hpp>
#include <asio/executor.hpp>
#include <asio/async_result.hpp>
#include "asio/asio_task.h"
using namespace H;

namespace {
enum { E_AWAIT = 1, E_GOT, E_SET };
// completion signatures
enum { K_V, K_E, K_X, K_T, K_ET, K_XT, K_TT, K_ETT, K_XTT, K_MOVE, K_COUNT };
enum { AT_ONCE, FROM_THREAD, FROM_CORO };
enum { OK, FAILED };

struct Slot
{
	const Op* o; int64_t id; bool bad; int64_t delay; int from;
	std::function<void()> complete;
};
struct Own : std::error_category
{
	const char* name() const noexcept override { return "own"; }
	std::string message(int) const override { return "own"; }
};
const Own& own() { static Own o; return o; }
// which error: an arbitrary one, or one of those that I/O reports in ordinary life
asio::error_code ec_of(Slot* s)
{
	int v = (int)(s->o->b >> 8 & 15);
	if (!s->bad)	//success: zero, in whatever category
		switch (v & 3)
		{
		case 1: return asio::error_code(0, own());
		case 2: return asio::error_code(0, std::generic_category());
		case 3: return asio::error_code(0, asio::error::get_misc_category());
		default: return asio::error_code();
		}
	switch (v)
	{
	case 8: return asio::error_code(-(int)s->id - 1, own());
	case 9: return asio::error_code(INT_MIN, own());
	case 10: return asio::error_code(256 << s->id % 20, own());	//zero in its low bits
	case 11: return asio::error_code(1, own());
	case 12: return asio::error_code(-1, std::system_category());
	case 13: return asio::error::no_data;
	case 14: return asio::error_code(INT_MAX, std::generic_category());
	case 15: return asio::error::interrupted;
	case 1: return asio::error::eof;
	case 2: return asio::error::operation_aborted;
	case 3: return asio::error::timed_out;
	case 4: return asio::error::would_block;
	case 5: return asio::error::connection_reset;
	case 6: return asio::error::host_not_found_try_again;
	case 7: return asio::error_code((int)s->id + 100, std::generic_category());
	default: return asio::error_code((int)s->id + 100, std::system_category());
	}
}
std::exception_ptr ex_of(Slot* s)
{
	if (!s->bad) return nullptr;
	switch (s->o->b >> 8 & 3)
	{
	case 1: return std::make_exception_ptr((int64_t)s->id);		//not a class
	case 2: return std::make_exception_ptr(asio::system_error(ec_of(s)));
	default: return std::make_exception_ptr(Err{ s->id });
	}
}
std::string text_of(int64_t id) { return "text-" + std::to_string(id) + "-0123456789abcdef"; }

// calls the handler with the arguments its signature asks for
template<class T> struct Tag {};
template<class H> void call(H& h, Slot*, Tag<void()>) { h(); }
template<class H> void call(H& h, Slot* s, Tag<void(asio::error_code)>) { h(ec_of(s)); }
template<class H> void call(H& h, Slot* s, Tag<void(std::exception_ptr)>) { h(ex_of(s)); }
template<class H> void call(H& h, Slot* s, Tag<void(int64_t)>) { h(s->id); }
template<class H> void call(H& h, Slot* s, Tag<void(asio::error_code, std::size_t)>) { h(ec_of(s), (std::size_t)s->id); }
template<class H> void call(H& h, Slot* s, Tag<void(std::exception_ptr, std::string)>) { h(ex_of(s), text_of(s->id)); }
template<class H> void call(H& h, Slot* s, Tag<void(int64_t, std::string)>) { h(s->id, text_of(s->id)); }
template<class H> void call(H& h, Slot* s, Tag<void(asio::error_code, int64_t, std::string)>) { h(ec_of(s), s->id, text_of(s->id)); }
template<class H> void call(H& h, Slot* s, Tag<void(std::exception_ptr, int64_t, std::string)>) { h(ex_of(s), s->id, text_of(s->id)); }
template<class H> void call(H& h, Slot* s, Tag<void(asio::error_code, std::unique_ptr<int64_t>)>) { h(ec_of(s), std::make_unique<int64_t>(s->id)); }

void finish(Slot* s) { sim::ev(E_SET, s->id); auto f = std::move(s->complete); f(); }

template<class Sig> auto async_op(Slot* s)
{
	return asio::async_initiate<const asio::rf_task_t<>&, Sig>([](auto&& handler, Slot* s) {
		auto h = std::forward<decltype(handler)>(handler);
		s->complete = [h, s]() mutable { call(h, s, Tag<Sig>{}); };
		if (s->from == AT_ONCE) finish(s);
		else { sim::hb_release(HB_USER + (int)s->id); sim::reg(R_USER + s->id) = 1; }
	}, asio::rf_task, s);
}

future_t<> waiter(Slot* s, Scheds* S)
{
	int64_t got = -1; int code = OK;
	sim::ev(E_AWAIT, s->id);
	int early = (int)(s->o->b >> 4 & 3);
	try
	{
		switch (s->o->kind)
		{
		case K_V: co_await async_op<void()>(s); got = s->id; break;
		case K_E: { auto f = async_op<void(asio::error_code)>(s); for (int i = 0; i < early; ++i) co_await yield(); co_await f; got = s->id; break; }
		case K_X: co_await async_op<void(std::exception_ptr)>(s); got = s->id; break;
		case K_T: got = co_await async_op<void(int64_t)>(s); break;
		case K_ET: { auto f = async_op<void(asio::error_code, std::size_t)>(s); for (int i = 0; i < early; ++i) co_await yield(); got = (int64_t)co_await f; break; }
		case K_XT: { std::string t = co_await async_op<void(std::exception_ptr, std::string)>(s); got = t == text_of(s->id) ? s->id : -2; break; }
		case K_TT: { auto [a, b] = co_await async_op<void(int64_t, std::string)>(s); got = b == text_of(a) ? a : -3; break; }
		case K_ETT: { auto [a, b] = co_await async_op<void(asio::error_code, int64_t, std::string)>(s); got = b == text_of(a) ? a : -3; break; }
		case K_XTT: { auto [a, b] = co_await async_op<void(std::exception_ptr, int64_t, std::string)>(s); got = b == text_of(a) ? a : -3; break; }
		case K_MOVE: { auto p = co_await async_op<void(asio::error_code, std::unique_ptr<int64_t>)>(s); got = p ? *p : -4; break; }
		}
	}
	catch (const Err& e) { got = e.id; code = FAILED; }
	catch (int64_t e) { got = e; code = FAILED; }
	catch (const asio::system_error& e) { got = e.code() == ec_of(s) ? s->id : -5; code = FAILED; }
	catch (...) { code = 9; }
	sim::ev(E_GOT, s->id, got, code * 100 + S->here());
}
future_t<> completer(Slot* s)
{
	if (s->delay) co_await sleep_for(std::chrono::nanoseconds(s->delay));
	finish(s);
}
bool can_fail(int k) { return k == K_E || k == K_X || k == K_ET || k == K_XT || k == K_ETT || k == K_XTT || k == K_MOVE; }

void gen(Rng& r, Workload& w)
{
	int ns = (int)r.in(1, 3), nt = (int)r.in(1, 2), n = (int)r.in(1, 8);
	w.set("scheds", ns); w.set("threads", nt);
	int k = r.p(1, 2) ? (int)r.in(0, K_COUNT - 1) : -1;
	for (int i = 0; i < n; ++i)
	{
		Op o; o.actor = (int)r.in(0, ns - 1);
		o.kind = k >= 0 ? k : (int)r.in(0, K_COUNT - 1);
		int from = r.p(1, 8) ? AT_ONCE : r.p(2, 3) ? FROM_THREAD : FROM_CORO;
		o.a = from * 10 + (from == FROM_THREAD ? r.in(0, nt - 1) : r.in(0, ns - 1));
		o.b = (can_fail(o.kind) && r.p(1, 3)) | (r.p(1, 2) ? r.in(0, 3) : 0) << 4 | r.in(0, 15) << 8;
		o.c = r.p(1, 4) ? log_uniform(r, 2, 6) : 0;
		w.ops.push_back(o);
	}
}
void run(const Workload& w)
{
	int ns = (int)w.get("scheds"), nt = (int)w.get("threads"), n = (int)w.ops.size();
	Scheds S; S.start(ns);
	std::vector<std::unique_ptr<Slot>> slots;
	for (int i = 0; i < n; ++i)
	{
		auto& o = w.ops[i];
		slots.push_back(std::make_unique<Slot>(Slot{ &o, i, (o.b & 1) != 0, o.c, (int)(o.a / 10) }));
	}
	std::vector<int> tids;
	for (int t = 0; t < nt; ++t)
		tids.push_back(sim::spawn([t, n, &slots] {
			for (int i = 0; i < n; ++i)
			{
				if (slots[i]->from != FROM_THREAD || slots[i]->o->a % 10 != t) continue;
				sim::park([i] { return sim::reg(R_USER + i) != 0; });
				sim::hb_acquire(HB_USER + i);
				maybe_delay(slots[i]->delay);
				finish(slots[i].get());
			}
		}));
	for (int i = 0; i < n; ++i) *S.sch[w.ops[i].actor] + waiter(slots[i].get(), &S);
	for (int i = 0; i < n; ++i)
		if (slots[i]->from == FROM_CORO)
		{
			sim::park([i] { return sim::reg(R_USER + i) != 0; });
			sim::hb_acquire(HB_USER + i);
			*S.sch[w.ops[i].a % 10] + completer(slots[i].get());
		}
	if (!sim::park([n] { return (int)sim::ev_count(E_GOT) >= n; }, QUIET))
		sim::fail("lost_result", "%d of %d operations never came back although every handler was called", n - (int)sim::ev_count(E_GOT), n);
	for (int t : tids) sim::join(t);
	if (!S.quiesce()) sim::fail("no_quiescence", "schedulers never become idle");
	S.stop();
}
void check(const Workload& w, const std::vector<Ev>& ev)
{
	std::map<int64_t, int> got;
	for (auto& e : ev)
		if (e.kind == E_GOT)
		{
			auto& o = w.ops[e.a];
			if (++got[e.a] > 1) sim::fail("twice", "operation %lld resumed its coroutine twice", (long long)e.a);
			if (e.c / 100 != (o.b & 1 ? FAILED : OK)) sim::fail("wrong_kind", "operation %lld: expected %s, got outcome code %lld", (long long)e.a, o.b & 1 ? "its error" : "its result", (long long)(e.c / 100));
			if (e.b != e.a) sim::fail("wrong_value", "operation %lld received %lld", (long long)e.a, (long long)e.b);
			if (e.c % 100 != o.actor) sim::fail("wrong_thread", "operation %lld resumed on scheduler %lld instead of %d", (long long)e.a, (long long)(e.c % 100), o.actor);
		}
}
sim::Register r0({ "asio_adapter", "C26", gen, run, check, 1 });
}

// Shared parts of the workload harnesses: simulated scheduler threads and small helpers.
// Rule: cross-thread harness book-keeping goes through sim::ev / sim::reg only (they are invisible to
// the race detector and create no happens-before edges), everything else is librf's own API.
#pragma once
#include "librf/librf.h"
#include "../sim/rt.h"
#include <memory>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <functional>

using namespace librf;
using sim::Ev;
using sim::Op;
using sim::Rng;
using sim::Workload;

namespace H
{
	// register map
	enum { R_STOP = 0, R_LEFT = 1, R_DONE = 2, R_IDLE0 = 10, R_WORK0 = 20, R_READY0 = 30, R_USER = 64 };
	// happens-before slots
	enum { HB_SCHED = 0, HB_STOP = 10, HB_LEFT = 11, HB_USER = 20 };
	// simulated time without any progress after which a wait counts as endless (idle rotations accelerate time,
	// so this only has to exceed what busy but eventless work can accumulate)
	constexpr int64_t QUIET = 100'000'000'000'000ll;
	// event kinds common to all families
	enum { EV_NOTE = 900, EV_RUN, EV_RUNRET, EV_BATCH, EV_BATCHEND, EV_CLOCK };

	// N threads, each with its own scheduler (local_scheduler_t), polling run_one_batch()
	struct Scheds
	{
		int n = 0;
		scheduler_t* sch[6] = {};
		int tid[6] = {};
		bool until = false;		// run_until_notask() instead of single batches
		bool log = false;		// log every batch

		static void body(Scheds* self, int i)
		{
			local_scheduler_t ls;
			scheduler_t* s = this_scheduler();
			self->sch[i] = s;
			sim::hb_release(HB_SCHED + i);
			sim::reg(R_READY0 + i) = 1;
			while (!sim::reg(R_STOP))
			{
				bool worked = false;
				if (self->until)
				{
					uint64_t p = sim::progress(), q = sim::ev_quiet(EV_RUN, i);
					s->run_until_notask();
					if (!sim::ev_drop(q)) sim::ev_quiet(EV_RUNRET, i);
					// any progress meanwhile may have been this scheduler's work
					if (sim::progress() != p) sim::reg(R_WORK0 + i)++;
				}
				else
				{
					uint64_t q = self->log ? sim::ev_quiet(EV_BATCH, i) : 0;
					worked = s->run_one_batch();
					if (self->log && (worked || !sim::ev_drop(q))) sim::ev_quiet(EV_BATCHEND, i, worked);
				}
				if (worked) sim::reg(R_WORK0 + i)++;
				else { sim::reg(R_IDLE0 + i)++; sim::idle(); }
			}
			sim::hb_release(HB_LEFT);
			sim::reg(R_LEFT)++;
			int n = self->n;
			sim::park([n] { return sim::reg(R_LEFT) >= n; });
			sim::hb_acquire(HB_LEFT);
		}
		void start(int n_)
		{
			n = n_;
			for (int i = 0; i < n; ++i)
				tid[i] = sim::spawn([this, i] { body(this, i); });
			int k = n;
			sim::park([k] { for (int i = 0; i < k; ++i) if (!sim::reg(R_READY0 + i)) return false; return true; });
			for (int i = 0; i < n; ++i) sim::hb_acquire(HB_SCHED + i);
		}
		// every scheduler has nothing left to run (final clean-up batches included)
		bool quiesce(int64_t quiet = QUIET)
		{
			for (;;)
			{
				int64_t w[6], d[6];
				for (int i = 0; i < n; ++i) { w[i] = sim::reg(R_WORK0 + i); d[i] = sim::reg(R_IDLE0 + i); }
				int k = n;
				int64_t* dp = d;
				if (!sim::park([k, dp] { for (int i = 0; i < k; ++i) if (sim::reg(R_IDLE0 + i) < dp[i] + 2) return false; return true; }, quiet)) return false;
				bool same = true;
				for (int i = 0; i < n; ++i) if (w[i] != sim::reg(R_WORK0 + i)) same = false;
				if (same) return true;
			}
		}
		void stop()
		{
			sim::hb_release(HB_LEFT);
			sim::reg(R_STOP) = 1;
			for (int i = 0; i < n; ++i) sim::join(tid[i]);
		}
		int index_of(scheduler_t* s) const { for (int i = 0; i < n; ++i) if (sch[i] == s) return i; return -1; }
		// index of the scheduler the calling thread runs, -1 for others
		int here() const { int t = sim::self(); for (int i = 0; i < n; ++i) if (tid[i] == t) return i; return -1; }
	};

	inline int64_t log_uniform(Rng& r, int lo_pow10, int hi_pow10)	// ns
	{
		int e = (int)r.in(lo_pow10, hi_pow10 - 1);
		int64_t b = 1; for (int i = 0; i < e; ++i) b *= 10;
		return b * r.in(1, 9) + r.in(0, b - 1);
	}
	// waits for simulated time; a negative argument waits for that many steps of everybody else instead, however busy
	// they are (so that somebody who polls meanwhile goes round his loop tens of thousands of times)
	// all the long waits of a run together leave enough of its step budget for the rest
	inline uint64_t until_step(int64_t ns) { uint64_t now = sim::steps(); return std::min(now + (uint64_t)-ns, std::max<uint64_t>(now, 950'000)); }
	inline void pause(int64_t ns)
	{
		if (ns >= 0) { sim::sleep_ns(ns); return; }
		uint64_t until = until_step(ns);
		sim::probe("somebody polls for a long time");
		// in small portions: if nobody polls, nothing but a little time passes
		for (int64_t k = 0; k < -ns / 500 && sim::steps() <= until; ++k) { sim::ev(EV_NOTE); sim::sleep_ns(100'000); }
	}
	inline void maybe_delay(int64_t ns)
	{
		if (ns) pause(ns);
	}
	inline future_t<> co_pause(int64_t ns)
	{
		if (ns >= 0) { co_await sleep_for(std::chrono::nanoseconds(ns)); co_return; }
		uint64_t until = until_step(ns);
		sim::probe("somebody polls for a long time");
		for (int64_t k = 0; k < -ns / 100 && sim::steps() <= until; ++k) { if (k % 50 == 0) sim::ev(EV_NOTE); co_await yield(); }
	}
	// steps of the realtime clock while a program with deadlines runs
	inline void clock_steps(Rng& r, Workload& w, int in = 6)
	{
		w.set("jump", r.p(1, (uint64_t)in) ? (r.p(1, 2) ? 1 : -1) * log_uniform(r, 3, 11) : 0);
		w.set("jump_at", log_uniform(r, 2, 8));
		w.set("jump_back", r.p(1, 2) ? log_uniform(r, 2, 8) : 0);
	}
	inline void start_clock_steps(const Workload& w, std::vector<int>& tids)
	{
		int64_t j = w.get("jump", 0), at = w.get("jump_at", 0), back = w.get("jump_back", 0);
		if (!j) return;
		tids.push_back(sim::spawn([j, at, back] {
			sim::sleep_ns(at); sim::jump_wall(j, EV_CLOCK);
			if (back) { sim::sleep_ns(back); sim::jump_wall(-j, EV_CLOCK); }
		}));
	}
	// what the clock showed while each operation with a deadline was under way
	struct Deadlines
	{
		struct D { int64_t tp, peak; bool relative, over; };
		std::map<int64_t, D> d;
		// relative: the library reads the clock itself, after we did
		void begin(int64_t id, int64_t tp, bool relative) { d[id] = { tp, INT64_MIN, relative, false }; }
		void step(int64_t delta, int64_t before)
		{
			for (auto& kv : d)
			{
				auto& x = kv.second;
				if (x.over) continue;
				x.peak = std::max(x.peak, before);
				if (x.relative && delta < 0) x.tp += delta;
			}
		}
		// by how much it ended before its deadline
		int64_t early(int64_t id, int64_t now)
		{
			auto& x = d[id];
			x.over = true;
			return std::max<int64_t>(0, x.tp - std::max(x.peak, now));
		}
	};
	// the length of such a wait
	// a coarse clock in one run of `in`; durations are then mostly multiples of its step
	inline int64_t coarse_clock(Rng& r, Workload& w, int in = 5)
	{
		static const int64_t G[] = { 1'000, 100'000, 1'000'000, 15'625'000 };
		int64_t g = r.p(1, (uint64_t)in) ? G[r.in(0, 3)] : 1;
		w.set("grain", g);
		return g;
	}
	inline int64_t on_grain(Rng& r, int64_t g, int64_t d) { return g > 1 && d > 0 && r.p(3, 4) ? g * (d < g ? r.in(1, 3) : d / g) : d; }
	inline int64_t long_wait(Rng& r) { return -(r.p(1, 4) ? r.in(200'000, 900'000) : log_uniform(r, 4, 5)); }
	// an exception with an identity and no heap payload
	struct Err { int64_t id; };
	// counts live instances (through a simulator register) so that duplicated or lost values show up
	template<int REG>
	struct Tracked
	{
		int64_t v = -1;
		Tracked() { sim::reg(REG)++; }
		explicit Tracked(int64_t x) : v(x) { sim::reg(REG)++; }
		Tracked(const Tracked& o) : v(o.v) { sim::reg(REG)++; }
		Tracked(Tracked&& o) noexcept : v(o.v) { o.v = -2; sim::reg(REG)++; }
		Tracked& operator=(const Tracked& o) { v = o.v; return *this; }
		Tracked& operator=(Tracked&& o) noexcept { v = o.v; o.v = -2; return *this; }
		~Tracked() { v = -3; sim::reg(REG)--; }
	};
	// a value that may refuse to be moved from where it was made
	template<int REG>
	struct Brittle
	{
		Tracked<REG> t; int64_t err;
		Brittle(int64_t id, int64_t err_) : t(id), err(err_) {}
		Brittle(Brittle&& o) : t((o.check(), std::move(o.t))), err(o.err) {}
		Brittle& operator=(Brittle&& o) { o.check(); t = std::move(o.t); err = o.err; return *this; }
		void check() { if (err >= 0) throw Err{ err }; }
	};
}

// Public interface of the deterministic simulator, as seen by the harnesses.
// Everything here is implemented in rt.cpp, which is compiled WITHOUT instrumentation: calls
// into it are neither scheduling points nor memory accesses, so harness book-keeping done
// through this interface never perturbs (or synchronises) the execution under test.
#pragma once
#include <cstdint>
#include <cstddef>
#include <vector>
#include <string>
#include <utility>

namespace sim
{
	// ---------------------------------------------------------------- workload
	struct Op
	{
		int actor = 0;
		int kind = 0;
		int64_t a = 0, b = 0, c = 0;
	};
	struct Workload
	{
		std::vector<std::pair<std::string, int64_t>> params;
		std::vector<Op> ops;
		int64_t get(const char* k, int64_t def = 0) const
		{
			for (auto& p : params) if (p.first == k) return p.second;
			return def;
		}
		void set(const char* k, int64_t v)
		{
			for (auto& p : params) if (p.first == k) { p.second = v; return; }
			params.emplace_back(k, v);
		}
	};

	// PRNG used only to generate workloads (before a run starts).
	struct Rng
	{
		uint64_t s;
		explicit Rng(uint64_t seed) : s(seed) {}
		uint64_t next()
		{
			uint64_t z = (s += 0x9E3779B97F4A7C15ull);
			z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
			z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
			return z ^ (z >> 31);
		}
		// uniform in [lo, hi]
		int64_t in(int64_t lo, int64_t hi) { return lo + (int64_t)(next() % (uint64_t)(hi - lo + 1)); }
		bool p(int num, int den) { return (int64_t)(next() % (uint64_t)den) < num; }
		template<class T> T pick(std::initializer_list<T> l) { return *(l.begin() + next() % l.size()); }
	};

	// ---------------------------------------------------------------- event log
	struct Ev
	{
		uint64_t seq;		// global, total order of the run
		int64_t t;			// simulated time, ns (monotonic)
		int32_t fiber;		// simulated thread
		int32_t kind;
		int64_t a, b, c;
	};

	struct Family
	{
		const char* name;
		const char* property;
		void (*gen)(Rng&, Workload&);
		void (*run)(const Workload&);			// executed as simulated thread 0
		void (*check)(const Workload&, const std::vector<Ev>&);	// after the run, simulator inactive; may be null
		int weight = 1;
	};
	struct Register { explicit Register(const Family& f); };

	// ---------------------------------------------------------------- in-run services
	// record an event; counts as progress for stagnation detection; returns its sequence number
	uint64_t ev(int kind, int64_t a = 0, int64_t b = 0, int64_t c = 0);
	// as ev(), but does not count as progress (polling loops)
	uint64_t ev_quiet(int kind, int64_t a = 0, int64_t b = 0, int64_t c = 0);
	// as ev() with b = realtime clock + add, read in the same step; returns b
	int64_t ev_wall(int kind, int64_t a, int64_t add = 0, int64_t c = 0);
	// takes back the event with this sequence number if it is still the last one logged
	bool ev_drop(uint64_t seq);
	uint64_t progress();							// number of progress events so far
	size_t ev_count(int kind);						// events of this kind so far
	// unsynchronised harness counters: invisible to the race detector
	int64_t& reg(int i);							// 0..1023
	void probe(const char* name);					// reach probe (counted in the evidence)
	[[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
	bool failed();

	int64_t now();									// simulated monotonic time, ns
	int64_t wall();									// simulated realtime clock (what system_clock reads), ns
	void clock_grain(int64_t ns);			// fault: both clocks advance in steps of this size only
	void jump_wall(int64_t delta, int evkind = 0);	// fault: step the realtime clock; logs (delta, clock before) as one step with it
	void advance(int64_t ns);						// let simulated time pass (all clocks)

	int spawn_raw(void (*fn)(void*), void* arg);
	void join(int tid);
	int self();
	void yield();									// scheduling point: prefer somebody else
	void idle();									// yield of a thread that found nothing to do (time moves when everybody idles)
	void sleep_ns(int64_t ns);
	void point();									// plain scheduling point
	// park until pred(arg) is true (re-evaluated by the scheduler; no happens-before is implied).
	// Returns false when the run has stagnated: no progress event for quiet_ns of simulated time
	// and for many scheduling rounds although every runnable thread was given turns.
	bool park_until(bool (*pred)(void*), void* arg, int64_t quiet_ns);
	// schedule/fault decision: 0..n-1, 0 is the default in minimised replays
	uint32_t choose(uint32_t n, uint32_t num, uint32_t den, const char* fault_kind);
	// happens-before edge between harness threads, for publishing harness-owned objects
	void hb_release(int slot);
	void hb_acquire(int slot);
	// allocation failures: while armed, every allocation of the calling thread fails with
	// probability num/den (a recorded fault decision)
	void alloc_fault(uint32_t num, uint32_t den);
	uint64_t alloc_faults_fired();
	size_t live_blocks();							// live blocks of the simulated heap
	// exempts blocks allocated by the calling thread while ignoring from the leak check
	void leak_ignore(bool on);
	// leak check at the end of the run on/off (off when the run legitimately ended with suspended work)
	void expect_no_leak(bool on);
	// a simulated thread was killed / abandoned on purpose
	uint64_t steps();
	void allow_steps(uint64_t n);						// this run may take n more steps than others

	template<class F>
	int spawn(F f)
	{
		F* p = new F(std::move(f));
		return spawn_raw([](void* a) {
			F* q = static_cast<F*>(a);
			(*q)();
			delete q;
		}, p);
	}
	template<class F>
	bool park(F pred, int64_t quiet_ns = 100'000'000'000'000ll)
	{
		return park_until([](void* a) { return (*static_cast<F*>(a))(); }, &pred, quiet_ns);
	}
}

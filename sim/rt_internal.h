// Interface between the simulator runtime and its driver (not for harnesses).
#pragma once
#include "rt.h"
#include <cstdint>

namespace simrt
{
	enum { D_SWITCH = 0, D_CHOOSE = 1, D_ALLOC = 2 };
	enum { ST_RANDOM = 0, ST_SITE = 1, ST_PCT = 2 };
	enum { FK_STALL = 0, FK_ALLOC, FK_CLOCK_FWD, FK_CLOCK_BACK, FK_CLOCK_COARSE, FK_MAX };
	static const int MAXPROBE = 128;

	struct Dec { uint64_t tick; uint32_t kind; uint32_t val; };

	struct RunConfig
	{
		uint64_t seed = 1;			// schedule/fault seed
		uint64_t step_cap = 2'000'000;
		uint64_t quantum = 1000;
		int64_t step_ns = 20;
		bool races = true;
		bool replaying = false;
		const Dec* replay = nullptr;
		uint32_t nreplay = 0;
	};
	struct RunResult
	{
		bool violation;
		char cls[256];
		char msg[512];
		char report[16384];
		uint64_t fail_tick;
		uint64_t hash, shash;
		uint64_t ticks, ssteps, switches, preempts;
		int64_t simtime;
		uint32_t nlog; int nthreads;
	};
	struct Stats
	{
		uint64_t runs, ssteps, ticks, switches, preempts;
		int64_t simtime;
		uint64_t strat[4];
		uint64_t faults[FK_MAX];
		const char* probe_name[MAXPROBE]; uint64_t probe_cnt[MAXPROBE];
		const char* fk_name[MAXPROBE]; uint64_t fk_cnt[MAXPROBE];
	};
	void init();
	const RunResult& run_once(const sim::Family& fam, const sim::Workload& w, const RunConfig& cfg);
	const RunResult& last_result();
	int family_count();
	const sim::Family& family(int i);
	Stats& stats();
	const Dec* recorded(uint32_t& n);
	const sim::Ev* log(uint32_t& n);
}

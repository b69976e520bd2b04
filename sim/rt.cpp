// librf-sim runtime: a deterministic simulator for multi-threaded C++ code.
//
// The code under test (librf) and the harness are compiled with -fsanitize=thread, but are linked
// against THIS runtime instead of the real one: every atomic operation, every plain memory access,
// every allocation, every clock read, sleep, mutex, condition variable, futex or thread operation
// arrives here.  Simulated threads are fibers of a single OS thread; which fiber runs next, what the
// clocks read and which faults are injected is decided here, from one seed, or from a replay file.
//
// This file must be compiled WITHOUT instrumentation.
#include "rt.h"
#include "rt_internal.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <new>
#include <exception>
#include <cxxabi.h>
#include <link.h>
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <linux/futex.h>
#include <setjmp.h>

#define NOINL __attribute__((noinline))
#define likely_(x) __builtin_expect(!!(x), 1)
#define unlikely_(x) __builtin_expect(!!(x), 0)

extern "C" {
	extern char __executable_start[], etext[], __data_start[], _end[];
#ifdef COVWRITE
extern "C" char __start___llvm_prf_cnts[], __stop___llvm_prf_cnts[];
#endif

	extern char __libc_single_threaded;
}

namespace simrt
{
	// ------------------------------------------------------------------ layout
	static const uint64_t ARENA = 0x200000000000ull;
	static const uint64_t ARENA_SZ = 128ull << 20;
	static const uint64_t STACKS = 0x210000000000ull;
	static const uint64_t STACK_SZ = 512 << 10;
	static const uint64_t SHADOW = 0x220000000000ull;
	static const uint64_t PERSIST = 0x230000000000ull;
	static const uint64_t PERSIST_SZ = 16ull << 30;
	static const uint64_t RTBASE = 0x240000000000ull;
	static const int MAXF = 24;
	static const int MAXSTK = 192;

	struct Granule
	{
		uint32_t gen;
		uint8_t valid;		// valid bytes 0..8 (prefix)
		uint8_t flags;		// 1 freed, 2 norace
		uint16_t pad;
		uint64_t cell[4];	// clk<<15 | tid<<10 | mask<<2 | w<<1 | a
		uint32_t pc[4];
	};
	static_assert(sizeof(Granule) == 56 || sizeof(Granule) == 64, "");

	struct VC { uint32_t c[MAXF]; };

	enum FState : uint8_t { F_FREE, F_RUN, F_SLEEP, F_BLOCK, F_PARK, F_DONE };

	struct Fiber
	{
		FState st;
		bool timed_out, stagnant, reaped;
		uint64_t vol_prog, vol_n;			// how often it gave way by itself since the last progress
		bool alloc_armed, leak_ign;
		int id;
		void* sp;
		void (*fn)(void*);
		void* arg;
		void* (*pfn)(void*);
		void* pret;
		int64_t wake_at;		// INT64_MAX: none
		uint64_t block_addr;
		bool (*pred)(void*);
		void* parg;
		int64_t quiet;
		uint64_t stall_until;	// in sync steps
		int64_t prio;
		uint64_t spin_addr, spin_val;
		uint32_t spin_n;
		uint32_t clk_n; uint64_t clk_prog;
		uint64_t quantum_start;
		uint32_t af_num, af_den;
		VC vc, facq, frel;
		char ehg[16];
		uint32_t nstk;
		uint32_t stk[MAXSTK];
		int natexit;
		struct { void (*d)(void*); void* o; } atexit_[32];
	};

	struct Block
	{
		uint32_t off, size;
		uint8_t flags;			// 1 freed, 2 norace(non-exe caller), 4 leak-ignored
		uint8_t tid;
		uint32_t stk[20];
		uint32_t fstk[12];
	};

	struct SyncVar
	{
		uint64_t key;
		uint32_t gen;
		VC rel;
	};
	struct MuState { uint64_t key; uint32_t gen; int owner; int count; int readers; };

	struct Range { uint64_t lo, hi; };

	struct RT
	{
		bool init, active, in_rt, failed_, cfg_alive;
		uint32_t gen;
		// ---- memory
		uint64_t bump;
		uint64_t pbump;
		void* pfree[40];
		Block* blocks; uint32_t nblocks;
		uint64_t live;
		SyncVar* sync; 	// 1<<16
		MuState* mus;	// 1<<16
		void* scratch;
		uint32_t nsync, nmus;	// entries in use
		Range exe, stdcxx;
		char* snap; size_t snap_len;
		char* tls; size_t tls_len; char* tls_img; char* tls_new; const void* tls_init; size_t tls_init_len; char* tls_fib[MAXF];
		void* ehg;
		// ---- fibers
		Fiber f[MAXF];
		int nf, cur;
		void* main_sp;
		// ---- schedule
		RunConfig cfg;
		uint64_t tick, ssteps, calls;
		uint64_t prng;
		int strat; int64_t mean; int64_t cd; 
		uint64_t site_salt; int site_shift; bool plain_pts; bool stalls;
		int64_t prio_low;
		uint64_t chg[8]; int nchg, ichg;
		Dec* rec; uint32_t nrec;
		uint32_t irep; uint64_t rep_next;
		int64_t now_, wall_off, grain;
		int64_t last_prog; uint64_t nprog, prog_step; uint64_t rot; uint64_t rot_total; uint64_t next_chk;
		uint64_t hash, shash;
		uint64_t aleak;
		// ---- log
		sim::Ev* log; uint32_t nlog;
		uint64_t seq;
		int64_t regs[1024];
		VC hbslot[256];
		bool expect_leak_ok;
		uint64_t af_fired;
		// ---- result
		RunResult res;
		sigjmp_buf crash_jmp; bool crash_armed;
		Stats stats;
		int64_t t0;
	};
	static RT* const R = reinterpret_cast<RT*>(RTBASE);
	static Granule* const SH = reinterpret_cast<Granule*>(SHADOW);
	static const uint32_t MAXBLOCKS = 1u << 20;
	static const uint32_t MAXLOG = 1u << 17;
	static const uint32_t MAXREC = 1u << 18;
	// a very long run stops making scheduling decisions here and goes on round-robin
	// a wait that is endless by intent is only given up when nothing was heard of for this many steps as well: work without
	// any event may go through many hands, each of which costs simulated time
	static const int64_t ENDLESS = 100'000'000'000'000ll;
	static const uint64_t ENDLESS_STEPS = 150'000;
	static const uint32_t CALM = MAXREC - 4096;
	static bool g_mapped = false;	// in .data: part of the snapshot, always true there

	static inline uint64_t rnd()
	{
		uint64_t z = (R->prng += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	static inline void hmix(uint64_t& h, uint64_t v) { h = (h ^ v) * 0x100000001B3ull; h ^= h >> 29; }

	static void* mapfix(uint64_t a, size_t n)
	{
		void* p = mmap((void*)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
		if (p != (void*)a) { static const char m[] = "sim: mmap failed\n"; (void)!write(2, m, sizeof m - 1); _exit(3); }
		return p;
	}
	static void* mapany(size_t n)
	{
		void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (p == MAP_FAILED) { static const char m[] = "sim: mmap failed\n"; (void)!write(2, m, sizeof m - 1); _exit(3); }
		return p;
	}
	static int phdr_cb(struct dl_phdr_info* i, size_t, void*)
	{
		uint64_t lo = ~0ull, hi = 0;
		for (int k = 0; k < i->dlpi_phnum; ++k)
		{
			auto& p = i->dlpi_phdr[k];
			if (p.p_type == PT_LOAD && (p.p_flags & PF_X))
			{
				uint64_t a = i->dlpi_addr + p.p_vaddr;
				if (a < lo) lo = a;
				if (a + p.p_memsz > hi) hi = a + p.p_memsz;
			}
		}
		if (i->dlpi_name && strstr(i->dlpi_name, "libstdc++")) R->stdcxx = { lo, hi };
		return 0;
	}
	static void ensure_mapped()
	{
		if (likely_(g_mapped)) return;
		g_mapped = true;
		mapfix(RTBASE, sizeof(RT));
		mapfix(PERSIST, PERSIST_SZ);
		R->pbump = PERSIST;
		R->exe = { (uint64_t)__executable_start, (uint64_t)etext };
	}

	// ------------------------------------------------------------------ persistent heap
	static void* pmalloc(size_t n, size_t al = 16)
	{
		ensure_mapped();
		if (n < 16) n = 16;
		int c = 64 - __builtin_clzll(n - 1);
		if (al <= 16 && R->pfree[c])
		{
			void* p = R->pfree[c];
			R->pfree[c] = *(void**)p;
			return p;
		}
		uint64_t sz = 1ull << c;
		uint64_t b = (R->pbump + 16 + al - 1) & ~(uint64_t)(al - 1);
		if (b + sz > PERSIST + PERSIST_SZ) { static const char m[] = "sim: persistent heap exhausted\n"; (void)!write(2, m, sizeof m - 1); _exit(3); }
		R->pbump = b + sz;
		((uint64_t*)b)[-1] = (uint64_t)c | (al > 16 ? 256 : 0);
		return (void*)b;
	}
	static void pfree(void* p)
	{
		uint64_t h = ((uint64_t*)p)[-1];
		if (h & 256) return;
		*(void**)p = R->pfree[h];
		R->pfree[h] = p;
	}
	static size_t psize(void* p) { return 1ull << (((uint64_t*)p)[-1] & 63); }

	static inline bool in_arena(const void* p) { return (uint64_t)p - ARENA < ARENA_SZ; }
	static inline bool live_() { return g_mapped && R->active && !R->in_rt; }
	static inline Fiber& cf() { return R->f[R->cur]; }

	struct RtScope { bool o; RtScope() : o(R->in_rt) { R->in_rt = true; } ~RtScope() { R->in_rt = o; } };

	// ------------------------------------------------------------------ failure
	static void append(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
	static void append(const char* fmt, ...)
	{
		size_t l = strlen(R->res.report);
		va_list ap; va_start(ap, fmt);
		vsnprintf(R->res.report + l, sizeof R->res.report - l, fmt, ap);
		va_end(ap);
	}
	static void append_stack(const char* title, const uint32_t* s, int n)
	{
		append("  %s:\n", title);
		for (int i = 0; i < n; ++i) if (s[i]) append("    pc 0x%x\n", s[i]);
	}
	static void append_fiber_stack(int id)
	{
		Fiber& f = R->f[id];
		append("  stack of simulated thread %d (innermost first):\n", id);
		int k = 0;
		for (int i = (int)f.nstk - 1; i >= 0 && k < 24; --i, ++k) if (i < MAXSTK) append("    pc 0x%x\n", f.stk[i]);
	}
	extern "C" void simrt_switch(void** save, void* to);
	static void to_main();

	NOINL static void vfail(const char* cls, const char* fmt, va_list ap)
	{
		R->in_rt = true;
		if (!R->failed_)
		{
			R->failed_ = true;
			R->res.violation = true;
			snprintf(R->res.cls, sizeof R->res.cls, "%s", cls);
			size_t l = 0;
			R->res.report[0] = 0;
			vsnprintf(R->res.report, sizeof R->res.report, fmt, ap);
			l = strlen(R->res.report);
			if (l + 1 < sizeof R->res.report) { R->res.report[l] = '\n'; R->res.report[l + 1] = 0; }
			snprintf(R->res.msg, sizeof R->res.msg, "%.*s", (int)strcspn(R->res.report, "\n"), R->res.report);
			R->res.fail_tick = R->tick;
		}
	}
	[[noreturn]] NOINL static void die()
	{
		if (R->active)
		{
			to_main();
		}
		siglongjmp(R->crash_jmp, 2);
	}
	[[noreturn]] NOINL static void rfail(const char* cls, const char* fmt, ...)
	{
		va_list ap; va_start(ap, fmt);
		vfail(cls, fmt, ap);
		va_end(ap);
		if (R->active) append_fiber_stack(R->cur);
		die();
	}

	// ------------------------------------------------------------------ TLS / context switch
	asm(R"(
	.text
	.globl simrt_switch
	.type simrt_switch,@function
simrt_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp, (%rdi)
	movq %rsi, %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
	.size simrt_switch,.-simrt_switch
)");

	static void save_tls(int id)
	{
		memcpy(R->tls_fib[id], R->tls, R->tls_len);
		memcpy(R->f[id].ehg, R->ehg, 16);
	}
	static void load_tls(int id)
	{
		memcpy(R->tls, R->tls_fib[id], R->tls_len);
		memcpy(R->ehg, R->f[id].ehg, 16);
	}
	static void to_main()
	{
		void* dummy;
		R->active = false;
		simrt_switch(&dummy, R->main_sp);
		__builtin_unreachable();
	}
	static void pick_and_switch(bool forced);
	static void wake(uint64_t addr, int n, bool all);

	static inline void vc_join(VC& a, const VC& b) { for (int i = 0; i < R->nf; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

	static void fiber_main()
	{
		Fiber& f = cf();
		R->in_rt = false;
		if (f.pfn) f.pret = f.pfn(f.arg);
		else f.fn(f.arg);
		while (f.natexit > 0)
		{
			auto& e = f.atexit_[--f.natexit];
			e.d(e.o);
		}
		R->in_rt = true;
		f.st = F_DONE;
		f.vc.c[f.id]++;
		wake(0x1000000 + f.id, 0, true);
		if (f.id == 0) to_main();
		pick_and_switch(true);
		__builtin_unreachable();
	}

	static int new_fiber(void (*fn)(void*), void* (*pfn)(void*), void* arg)
	{
		if (R->nf >= MAXF) rfail("harness", "too many simulated threads");
		int id = R->nf++;
		Fiber& f = R->f[id];
		uint32_t* stk = f.stk; (void)stk;
		memset(&f, 0, offsetof(Fiber, stk));
		f.natexit = 0;
		f.id = id;
		f.st = F_RUN;
		f.fn = fn; f.pfn = pfn; f.arg = arg;
		f.wake_at = INT64_MAX;
		f.prio = (int64_t)(rnd() >> 2);
		if (id > 0)
		{
			Fiber& p = cf();
			f.vc = p.vc;
			p.vc.c[p.id]++;
		}
		f.vc.c[id] = 1;
		memcpy(R->tls_fib[id], id == 0 ? R->tls_img : R->tls_new, R->tls_len);
		uint64_t top = STACKS + (uint64_t)(id + 1) * STACK_SZ;
		memset((void*)(top - (64 << 10)), 0, 64 << 10);	// uninitialised stack reads must not depend on earlier runs
		uint64_t* sp = (uint64_t*)top;
		*--sp = 0;	// fake return address; leaves the stack aligned as at a call
		*--sp = (uint64_t)&fiber_main;
		for (int i = 0; i < 6; ++i) *--sp = 0;
		f.sp = sp;
		return id;
	}

	// ------------------------------------------------------------------ scheduling
	static inline bool runnable(const Fiber& f) { return f.st == F_RUN; }

	static void note_rotation()
	{
		int n = 0;
		for (int i = 0; i < R->nf; ++i) if (R->f[i].st == F_RUN || R->f[i].st == F_SLEEP) ++n;
		R->rot++; R->rot_total++;
		uint64_t e = R->rot / (uint64_t)(2 * (n ? n : 1));
		int64_t adv = e >= 24 ? 20'000'000ll << (e > 31 ? 8 : e - 23) : e >= 17 ? 20'000'000 : (int64_t)(200ull << e);
		R->now_ += adv;
	}
	static void check_cap()
	{
		if (unlikely_(R->ssteps > R->cfg.step_cap))
			rfail("stuck", "run exceeded %llu synchronisation steps (simulated time %.3f s): livelock or endless wait", (unsigned long long)R->cfg.step_cap, R->now_ / 1e9);
	}
	// a loop that never reaches a synchronisation point again
	static void check_work()
	{
		if (R->tick + R->calls > 60 * R->cfg.step_cap)
			rfail("stuck", "run exceeded %llu memory accesses and calls: endless loop", (unsigned long long)(60 * R->cfg.step_cap));
	}
	// wakes timed waiters whose time has come
	static bool expire()
	{
		bool ch = false;
		for (int i = 0; i < R->nf; ++i)
		{
			Fiber& f = R->f[i];
			if ((f.st == F_SLEEP || f.st == F_BLOCK) && f.wake_at <= R->now_)
			{
				f.timed_out = true;
				f.st = F_RUN;
				f.wake_at = INT64_MAX;
				ch = true;
			}
		}
		return ch;
	}
	static void gives_way() { Fiber& f = cf(); if (f.vol_prog != R->nprog) { f.vol_prog = R->nprog; f.vol_n = 0; } f.vol_n++; }
	// everybody who could run has given way by itself several times since the last progress: idle, polling or spinning
	static bool nobody_works()
	{
		for (int i = 0; i < R->nf; ++i) { Fiber& f = R->f[i]; if (f.st == F_RUN && (f.vol_prog != R->nprog || f.vol_n < 3)) return false; }
		return true;
	}
	static bool eval_parked()
	{
		bool ch = false;
		for (int i = 0; i < R->nf; ++i)
		{
			Fiber& f = R->f[i];
			if (f.st != F_PARK) continue;
			bool o = R->in_rt;
			R->in_rt = true;
			bool ok = f.pred(f.parg);
			R->in_rt = o;
			if (ok) { f.stagnant = false; f.st = F_RUN; ch = true; }
			else if (R->rot > 40ull * (uint64_t)R->nf && R->now_ - R->last_prog > f.quiet
				&& (f.quiet < ENDLESS || (R->ssteps - R->prog_step > ENDLESS_STEPS && (R->ssteps - R->prog_step > 4 * ENDLESS_STEPS || nobody_works())))) { f.stagnant = true; f.st = F_RUN; ch = true; }
		}
		return ch;
	}
	// the default successor: next runnable thread in cyclic order, other than the current one if possible
	static int default_next()
	{
		for (int k = 1; k <= R->nf; ++k)
		{
			int i = (R->cur + k) % R->nf;
			if (runnable(R->f[i])) return i;
		}
		return -1;
	}
	static void record(uint32_t kind, uint32_t val)
	{
		if (R->nrec >= MAXREC) rfail("harness", "schedule log overflow");
		R->rec[R->nrec++] = Dec{ R->tick, kind, val };
	}
	static const Dec* replay_at(uint32_t kind)
	{
		auto& c = R->cfg;
		while (R->irep < c.nreplay && c.replay[R->irep].tick < R->tick) ++R->irep;
		const Dec* d = nullptr;
		if (R->irep < c.nreplay && c.replay[R->irep].tick == R->tick && c.replay[R->irep].kind == kind)
			d = &c.replay[R->irep++];
		R->rep_next = R->irep < c.nreplay ? c.replay[R->irep].tick : ~0ull;
		return d;
	}
	static int strategy_pick(int def, bool forced)
	{
		int cand[MAXF], n = 0;
		for (int i = 0; i < R->nf; ++i)
			if (runnable(R->f[i]) && (i != R->cur || !forced) && (R->f[i].stall_until <= R->ssteps || R->rot > 20ull * (uint64_t)R->nf)) cand[n++] = i;
		if (n == 0 || (R->rot > 6ull * R->nf))
		{
			n = 0;
			for (int i = 0; i < R->nf; ++i)
				if (runnable(R->f[i]) && (i != R->cur || !forced)) cand[n++] = i;
		}
		if (n == 0) return def;
		if (R->strat == ST_PCT && R->rot <= 6ull * R->nf)
		{
			int best = cand[0];
			for (int i = 1; i < n; ++i) if (R->f[cand[i]].prio > R->f[best].prio) best = cand[i];
			return best;
		}
		return cand[rnd() % n];
	}
	static void switch_to(int id)
	{
		if (id == R->cur) { cf().quantum_start = R->ssteps; return; }
		int from = R->cur;
		save_tls(from);
		R->res.switches++;
		hmix(R->hash, R->tick * 64 + id);
		// schedule shape: who was interrupted where, who came next
		hmix(R->shash, ((uint64_t)(R->f[from].nstk ? R->f[from].stk[(R->f[from].nstk - 1) % MAXSTK] : 0) << 8) ^ (uint64_t)(from * 32 + id));
		R->cur = id;
		load_tls(id);
		R->f[id].quantum_start = R->ssteps;
		simrt_switch(&R->f[from].sp, R->f[id].sp);
	}
	// current thread cannot or should not continue
	static void pick_and_switch(bool forced)
	{
		for (;;)
		{
			++R->tick;
			check_cap();
			expire();
			eval_parked();
			int def = default_next();
			if (def < 0)
			{
				// nobody can run: let time pass until the first sleeper wakes
				int64_t w = INT64_MAX; bool parked = false;
				for (int i = 0; i < R->nf; ++i)
				{
					Fiber& f = R->f[i];
					if (f.st == F_SLEEP || f.st == F_BLOCK) { if (f.wake_at < w) w = f.wake_at; }
					if (f.st == F_PARK) parked = true;
				}
				if (w != INT64_MAX) { if (w > R->now_) R->now_ = w; R->rot++; R->ssteps++; continue; }
				if (parked)
				{
					for (int i = 0; i < R->nf; ++i) if (R->f[i].st == F_PARK) { R->f[i].stagnant = true; R->f[i].st = F_RUN; break; }
					continue;
				}
				R->in_rt = true;
				if (!R->failed_)
				{
					R->failed_ = true; R->res.violation = true;
					strcpy(R->res.cls, "deadlock");
					strcpy(R->res.report, "deadlock: every simulated thread is blocked\n");
					strcpy(R->res.msg, "deadlock: every simulated thread is blocked");
					for (int i = 0; i < R->nf; ++i) if (R->f[i].st != F_DONE) append_fiber_stack(i);
				}
				to_main();
			}
			int nx = def;
			if (R->cfg.replaying)
			{
				if (const Dec* d = replay_at(D_SWITCH)) if (d->val < (uint32_t)R->nf && runnable(R->f[d->val])) nx = (int)d->val;
			}
			else
			{
				if (likely_(R->nrec < CALM)) nx = strategy_pick(def, forced);
				if (nx != def) record(D_SWITCH, (uint32_t)nx);
			}
			switch_to(nx);
			return;
		}
	}
	static void rotate()
	{
		Fiber& f = cf();
		bool o = R->in_rt; R->in_rt = true;
		f.spin_n = 0;
		if (R->strat == ST_PCT) f.prio = --R->prio_low;
		note_rotation();
		pick_and_switch(true);
		R->in_rt = o;
	}
	static void set_countdown()
	{
		if (R->strat == ST_RANDOM || R->strat == ST_SITE)
		{
			// geometric-ish: uniform in [1, 2*mean]
			R->cd = 1 + (int64_t)(rnd() % (uint64_t)(2 * R->mean));
		}
		else R->cd = INT64_MAX;
	}
	// voluntary preemption of a running thread
	NOINL static void preempt()
	{
		bool o = R->in_rt; R->in_rt = true;
		Fiber& f = cf();
		int nx = R->cur;
		if (!R->cfg.replaying && unlikely_(R->nrec >= CALM)) { R->cd = INT64_MAX; R->in_rt = o; return; }
		if (R->cfg.replaying)
		{
			if (const Dec* d = replay_at(D_SWITCH))
			{
				expire();
				eval_parked();
				if (d->val < (uint32_t)R->nf && runnable(R->f[d->val])) nx = (int)d->val;
			}
		}
		else
		{
			bool ch = expire();
			ch |= eval_parked();
			if (R->strat == ST_PCT) f.prio = --R->prio_low;
			nx = strategy_pick(R->cur, true);
			if (nx != R->cur || ch) record(D_SWITCH, (uint32_t)nx);
			if (nx != R->cur)
			{
				if (R->stalls && rnd() % 4 == 0)
				{
					f.stall_until = R->ssteps + 20 + (1ull << (rnd() % 13));
					R->stats.faults[FK_STALL]++;
				}
			}
			set_countdown();
		}
		if (nx != R->cur) { R->res.preempts++; switch_to(nx); }
		R->in_rt = o;
	}
	static inline bool site_hit(uint64_t pc)
	{
		return (((pc ^ R->site_salt) * 0x9E3779B97F4A7C15ull) >> R->site_shift) == 0;
	}
	// a synchronisation point
	static inline void point(uint64_t pc)
	{
		++R->tick; ++R->ssteps;
		R->now_ += R->cfg.step_ns;
		if (R->cfg.replaying)
		{
			if (unlikely_(R->tick >= R->rep_next)) preempt();
		}
		else if (unlikely_(--R->cd <= 0)) preempt();
		else if (R->strat == ST_SITE) { if (unlikely_(site_hit(pc)) && (rnd() & 1)) preempt(); }
		else if (R->strat == ST_PCT) { if (unlikely_(R->ichg < R->nchg && R->ssteps >= R->chg[R->ichg])) { ++R->ichg; preempt(); } }
		Fiber& f = cf();
		// (the length varies, so that a polling loop is not always interrupted at the same place)
		if (unlikely_(R->ssteps - f.quantum_start > R->cfg.quantum + (R->rot_total * 2654435761u >> 12) % 251)) { check_cap(); rotate(); }
		else if (unlikely_(R->ssteps >= R->next_chk))
		{
			R->next_chk = R->ssteps + 200 + (R->rot_total * 2654435761u >> 12) % 101;
			check_cap();
			// several threads busy without any progress are waiting for time to pass
			if (R->ssteps - R->prog_step > 12 * R->cfg.quantum) { rotate(); return; }
			bool o = R->in_rt; R->in_rt = true; expire(); eval_parked(); R->in_rt = o;
		}
	}
	static inline void plain_point(uint64_t pc)
	{
		++R->tick;
		if (unlikely_((R->tick & 0xFFFFF) == 0)) check_work();
		if (R->cfg.replaying)
		{
			if (unlikely_(R->tick >= R->rep_next)) preempt();
		}
		else if (R->plain_pts && unlikely_(site_hit(pc)) && (rnd() & 3) == 0) preempt();
	}
	static void block_on(uint64_t addr, int64_t until)
	{
		bool o = R->in_rt; R->in_rt = true;
		Fiber& f = cf();
		f.st = F_BLOCK; f.block_addr = addr; f.wake_at = until; f.timed_out = false;
		pick_and_switch(true);
		R->in_rt = o;
	}
	static void wake(uint64_t addr, int n, bool all)
	{
		for (int i = 0; i < R->nf && (all || n > 0); ++i)
		{
			Fiber& f = R->f[i];
			if (f.st == F_BLOCK && f.block_addr == addr) { f.st = F_RUN; f.wake_at = INT64_MAX; f.timed_out = false; --n; }
		}
	}
	static void do_sleep(int64_t until)
	{
		gives_way();
		bool o = R->in_rt; R->in_rt = true;
		++R->tick; ++R->ssteps;
		Fiber& f = cf();
		f.st = F_SLEEP; f.wake_at = until; f.timed_out = false;
		pick_and_switch(true);
		R->in_rt = o;
	}

	// ------------------------------------------------------------------ sync variables
	// what lies in freed memory is not needed any more (addresses are never used twice in one run)
	static bool is_freed(uint64_t addr)
	{
		uint64_t off = addr - ARENA;
		return off < ARENA_SZ && SH[off >> 3].gen == R->gen && (SH[off >> 3].flags & 1);
	}
	template<class S> NOINL static void forget_freed(S* tab, uint32_t& used)
	{
		static_assert(sizeof(S) <= sizeof(SyncVar), "");
		S* keep = (S*)R->scratch;
		uint32_t n = 0;
		for (uint32_t i = 0; i < 65536; ++i)
			if (tab[i].gen == R->gen) { if (!is_freed(tab[i].key)) keep[n++] = tab[i]; tab[i].gen = 0; }
		for (uint32_t i = 0; i < n; ++i)
		{
			S& s = keep[i];
			uint64_t h = (s.key * 0x9E3779B97F4A7C15ull) >> 48;
			while (tab[h].gen == R->gen) h = (h + 1) & 65535;
			tab[h] = s;
		}
		used = n;
	}
	static SyncVar& sv(uint64_t addr)
	{
		uint64_t k = addr;	// exact: neighbours in one word are different variables
		uint64_t h = (k * 0x9E3779B97F4A7C15ull) >> 48;
		uint32_t probes = 0;
		for (;; h = (h + 1) & 65535)
		{
			SyncVar& s = R->sync[h];
			if (s.gen != R->gen)
			{
				if (R->nsync >= 40000) { forget_freed(R->sync, R->nsync); if (R->nsync >= 40000) rfail("harness", "too many synchronisation variables"); return sv(addr); }
				++R->nsync;
				s.gen = R->gen; s.key = k; memset(&s.rel, 0, sizeof s.rel); return s;
			}
			if (s.key == k) return s;
			if (++probes > 65535) rfail("harness", "too many synchronisation variables");
		}
	}
	static MuState& mu(const void* a)
	{
		uint64_t k = (uint64_t)a;
		uint64_t h = (k * 0x9E3779B97F4A7C15ull) >> 48;
		for (uint32_t probes = 0;; h = (h + 1) & 65535)
		{
			if (++probes > 65535) rfail("harness", "too many mutexes");
			MuState& s = R->mus[h];
			if (s.gen != R->gen)
			{
				if (R->nmus >= 40000) { forget_freed(R->mus, R->nmus); if (R->nmus >= 40000) rfail("harness", "too many mutexes"); return mu(a); }
				++R->nmus;
				s.gen = R->gen; s.key = k; s.owner = -1; s.count = 0; s.readers = 0; return s;
			}
			if (s.key == k) return s;
		}
	}
	static void hb_acq(uint64_t addr) { vc_join(cf().vc, sv(addr).rel); }
	static void hb_rel(uint64_t addr) { Fiber& f = cf(); sv(addr).rel = f.vc; f.vc.c[f.id]++; }
	static void hb_relacc(uint64_t addr) { Fiber& f = cf(); vc_join(sv(addr).rel, f.vc); f.vc.c[f.id]++; }

	// ------------------------------------------------------------------ shadow memory
	static Block* find_block(uint64_t off)
	{
		uint32_t lo = 0, hi = R->nblocks;
		while (lo < hi) { uint32_t m = (lo + hi) / 2; if (R->blocks[m].off <= off) lo = m + 1; else hi = m; }
		return lo ? &R->blocks[lo - 1] : nullptr;
	}
	static void describe(uint64_t addr)
	{
		Block* b = find_block(addr - ARENA);
		if (!b) return;
		append("  address is %lld bytes into a %u-byte block allocated by thread %d%s\n", (long long)(addr - ARENA - b->off), b->size, b->tid, b->flags & 1 ? " (freed)" : "");
		append_stack("allocated at", b->stk, 20);
		if (b->flags & 1) append_stack("freed at", b->fstk, 12);
	}
	[[noreturn]] NOINL static void mem_fail(const char* cls, const char* what, uint64_t addr, size_t size, uint64_t pc)
	{
		R->in_rt = true;
		auto f = [](const char* cls, const char* fmt, ...) { va_list ap; va_start(ap, fmt); vfail(cls, fmt, ap); va_end(ap); };
		f(cls, "%s (%zu bytes)", what, size);
		append("  pc 0x%llx\n", (unsigned long long)pc);
		describe(addr);
		append_fiber_stack(R->cur);
		die();
	}
	[[noreturn]] NOINL static void race_fail(uint64_t addr, bool w, bool a, uint64_t pc, uint64_t cell, uint32_t opc)
	{
		R->in_rt = true;
		auto f = [](const char* cls, const char* fmt, ...) { va_list ap; va_start(ap, fmt); vfail(cls, fmt, ap); va_end(ap); };
		f("race", "data race: %s%s by thread %d is unordered with an earlier %s%s by thread %d", a ? "atomic " : "", w ? "write" : "read", R->cur, cell & 1 ? "atomic " : "", cell & 2 ? "write" : "read", (int)((cell >> 10) & 31));
		append("  current access\n    pc 0x%llx\n  earlier access\n    pc 0x%x\n", (unsigned long long)pc, opc);
		describe(addr);
		append_fiber_stack(R->cur);
		die();
	}
	static inline void access_granule(Granule& g, uint64_t addr, uint32_t mask, uint32_t top, bool w, bool a, uint64_t pc, size_t size)
	{
		if (unlikely_(g.gen != R->gen)) mem_fail("wild", "access to memory that was never allocated", addr, size, pc);
		if (unlikely_(g.flags & 1)) mem_fail("uaf", w ? "write to freed memory" : "read of freed memory", addr, size, pc);
		if (unlikely_(top > g.valid)) mem_fail("oob", "access beyond the end of a heap block", addr, size, pc);
		if (g.flags & 2) return;
		Fiber& f = cf();
		uint64_t my = ((uint64_t)f.vc.c[f.id] << 15) | ((uint64_t)f.id << 10) | (mask << 2) | (w ? 2 : 0) | (a ? 1 : 0);
		int slot = -1;
		for (int i = 0; i < 4; ++i)
		{
			uint64_t c = g.cell[i];
			if (c == 0) { if (slot < 0) slot = i; continue; }
			uint32_t cm = (c >> 2) & 255;
			if (!(cm & mask)) continue;
			int ct = (c >> 10) & 31;
			if (ct == f.id)
			{
				// replace own older access when the new one is at least as strong
				if ((cm & ~mask) == 0 && ((c & 2) == 0 || w) && ((c & 1) || !a)) { g.cell[i] = 0; if (slot < 0) slot = i; }
				continue;
			}
			if (!((c & 2) || w)) continue;
			if ((c & 1) && a) continue;
			if ((uint32_t)(c >> 15) <= f.vc.c[ct]) 
			{
				if (w && (cm & ~mask) == 0) { g.cell[i] = 0; if (slot < 0) slot = i; }
				continue;
			}
			if (R->cfg.races) race_fail(addr, w, a, pc, c, g.pc[i]);
		}
		if (slot < 0)
		{
			// evict: prefer cells that already happen-before us
			for (int i = 0; i < 4; ++i) { uint64_t c = g.cell[i]; if ((uint32_t)(c >> 15) <= f.vc.c[(c >> 10) & 31] && !(c & 2)) { slot = i; break; } }
			if (slot < 0) slot = (int)(R->tick & 3);
		}
		g.cell[slot] = my;
		g.pc[slot] = (uint32_t)pc;
	}
	static inline void access(uint64_t addr, size_t size, bool w, bool a, uint64_t pc)
	{
		uint64_t off = addr - ARENA;
		if (off >= ARENA_SZ) return;
		while (size)
		{
			uint32_t lo = off & 7;
			uint32_t n = 8 - lo; if (n > size) n = (uint32_t)size;
			access_granule(SH[off >> 3], ARENA + off, ((1u << n) - 1) << lo, lo + n, w, a, pc, size);
			off += n; size -= n;
		}
	}

	// ------------------------------------------------------------------ simulated heap
	static void grab_stack(uint32_t* out, int n)
	{
		Fiber& f = cf();
		for (int i = 0; i < n; ++i)
		{
			int k = (int)f.nstk - 1 - i;
			out[i] = (k >= 0 && k < MAXSTK) ? f.stk[k] : 0;
		}
	}
	static bool alloc_should_fail()
	{
		Fiber& f = cf();
		if (!f.alloc_armed) return false;
		++R->tick;
		bool fail = false;
		if (R->cfg.replaying) fail = replay_at(D_ALLOC) != nullptr;
		else
		{
			fail = rnd() % f.af_den < f.af_num;
			if (fail) record(D_ALLOC, 1);
		}
		if (fail) { R->af_fired++; R->stats.faults[FK_ALLOC]++; hmix(R->hash, R->tick ^ 0xA110C); }
		return fail;
	}
	static void* amalloc(size_t n, size_t al, bool exe)
	{
		uint64_t b = (R->bump + 16 + al - 1) & ~(uint64_t)(al - 1);
		uint64_t e = (b + (n ? n : 1) + 7) & ~7ull;
		if (e + 64 > ARENA_SZ) rfail("memory", "simulated heap exhausted (unbounded memory growth)");
		if (R->nblocks >= MAXBLOCKS) rfail("memory", "too many allocations in one run");
		R->bump = e + 16;
		uint8_t fl = exe ? 0 : 2;
		// a redzone granule on each side stays unallocated (its generation may be stale: reset it)
		uint64_t i = b >> 3, last = (b + n) >> 3;
		for (; i <= last; ++i)
		{
			uint64_t st = i << 3;
			uint32_t v = b + n >= st + 8 ? 8 : (b + n > st ? (uint32_t)(b + n - st) : 0);
			Granule& g = SH[i];
			g.gen = v ? R->gen : 0;
			g.valid = (uint8_t)v; g.flags = fl;
			g.cell[0] = g.cell[1] = g.cell[2] = g.cell[3] = 0;
		}
		Block& k = R->blocks[R->nblocks++];
		k.off = (uint32_t)b; k.size = (uint32_t)n; k.flags = fl; k.tid = (uint8_t)R->cur;
		if (R->active && cf().leak_ign) k.flags |= 4;
		if (R->active) grab_stack(k.stk, 20); else memset(k.stk, 0, sizeof k.stk);
		memset(k.fstk, 0, sizeof k.fstk);
		R->live++;
		memset((void*)(ARENA + b), 0xCD, n);
		return (void*)(ARENA + b);
	}
	static void afree(void* p, uint64_t pc)
	{
		uint64_t off = (uint64_t)p - ARENA;
		Block* b = find_block(off);
		if (!b || b->off != off) mem_fail("badfree", "free of a pointer that is not the start of a heap block", (uint64_t)p, 0, pc);
		if (b->flags & 1) mem_fail("doublefree", "double free", (uint64_t)p, b->size, pc);
		if (R->active && !R->in_rt && !(b->flags & 2)) access((uint64_t)p, b->size, true, false, pc);
		b->flags |= 1;
		if (R->active) grab_stack(b->fstk, 12);
		for (uint64_t i = off >> 3; i <= (off + b->size) >> 3; ++i) if (SH[i].gen == R->gen) SH[i].flags |= 1;
		memset(p, 0xDD, b->size);
		R->live--;
	}
	static inline int classify(void* ra)
	{
		uint64_t a = (uint64_t)ra;
		if (a >= R->exe.lo && a < R->exe.hi) return 0;
		if (a >= R->stdcxx.lo && a < R->stdcxx.hi) return 1;
		return 2;
	}
	// returns null when the allocation must fail
	static void* xmalloc(size_t n, size_t al, void* ra)
	{
		ensure_mapped();
		if (!live_()) return pmalloc(n, al);
		int c = classify(ra);
		if (c == 2) return pmalloc(n, al);
		RtScope s;
		if (n > (48u << 20)) return nullptr;
		if (c == 0 && alloc_should_fail()) return nullptr;
		return amalloc(n, al < 16 ? 16 : al, c == 0);
	}
	static void xfree(void* p, void* ra)
	{
		if (!p) return;
		if (in_arena(p)) { bool o = R->in_rt; bool l = live_(); if (!l) R->in_rt = true; afree(p, (uint64_t)ra); R->in_rt = o; return; }
		if ((uint64_t)p - PERSIST < PERSIST_SZ) { pfree(p); return; }
	}
	static size_t xsize(void* p)
	{
		if (in_arena(p)) { Block* b = find_block((uint64_t)p - ARENA); return b ? b->size : 0; }
		return psize(p);
	}

	// ------------------------------------------------------------------ clocks
	// a clock may advance in steps of R->grain only: equal readings, and deadlines met to the nanosecond, are then common
	static int64_t coarse(int64_t t) { return R->grain > 1 ? t - t % R->grain : t; }
	static int64_t clk(int id)
	{
		if (!live_())
		{
			struct timespec ts; syscall(SYS_clock_gettime, id, &ts);
			return ts.tv_sec * 1000000000ll + ts.tv_nsec;
		}
		++R->tick;
		R->now_ += 30;
		if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) return coarse(R->now_ + R->wall_off);
		return coarse(R->now_);
	}
	static const int64_t WALL0 = 1'700'000'000'000'000'000ll;
}
using namespace simrt;

// ====================================================================== public API
namespace sim
{
	static Family g_fams[64];
	static int g_nfams;
	Register::Register(const Family& f) { g_fams[g_nfams++] = f; }

	static uint64_t log_ev(int kind, int64_t a, int64_t b, int64_t c)
	{
		RtScope s;
		if (R->nlog >= MAXLOG) rfail("harness", "event log overflow");
		Ev& e = R->log[R->nlog++];
		e.seq = ++R->seq; e.t = R->now_; e.fiber = R->active ? R->cur : -1; e.kind = kind; e.a = a; e.b = b; e.c = c;
		hmix(R->hash, ((uint64_t)kind << 48) ^ (uint64_t)a * 31 ^ (uint64_t)b * 1009 ^ (uint64_t)c * 65537 ^ ((uint64_t)e.fiber << 40) ^ (uint64_t)R->now_);
		return e.seq;
	}
	uint64_t ev(int kind, int64_t a, int64_t b, int64_t c)
	{
		R->rot = 0; R->last_prog = R->now_; ++R->nprog; R->prog_step = R->ssteps;
		return log_ev(kind, a, b, c);
	}
	uint64_t progress() { return R->nprog; }
	bool ev_drop(uint64_t seq)
	{
		if (!R->nlog || R->log[R->nlog - 1].seq != seq) return false;
		--R->nlog;
		return true;
	}
	uint64_t ev_quiet(int kind, int64_t a, int64_t b, int64_t c) { return log_ev(kind, a, b, c); }
	size_t ev_count(int kind)
	{
		size_t n = 0;
		for (uint32_t i = 0; i < R->nlog; ++i) if (R->log[i].kind == kind) ++n;
		return n;
	}
	int64_t& reg(int i) { return R->regs[i & 1023]; }
	void probe(const char* name)
	{
		RtScope s;
		for (int i = 0; i < MAXPROBE; ++i)
		{
			if (R->stats.probe_name[i] == nullptr) { R->stats.probe_name[i] = name; R->stats.probe_cnt[i] = 1; return; }
			if (R->stats.probe_name[i] == name || !strcmp(R->stats.probe_name[i], name)) { R->stats.probe_cnt[i]++; return; }
		}
	}
	void fail(const char* cls, const char* fmt, ...)
	{
		va_list ap; va_start(ap, fmt);
		char c[64]; snprintf(c, sizeof c, "oracle:%s", cls);
		vfail(c, fmt, ap);
		va_end(ap);
		if (R->active) append_fiber_stack(R->cur);
		die();
	}
	bool failed() { return R->failed_; }
	int64_t now() { return R->now_; }
	int64_t wall() { return coarse(R->now_ + R->wall_off); }
	void clock_grain(int64_t ns) { R->grain = ns; if (ns > 1) R->stats.faults[FK_CLOCK_COARSE]++; }
	int64_t ev_wall(int kind, int64_t a, int64_t add, int64_t c) { int64_t b = sim::wall() + add; sim::ev(kind, a, b, c); return b; }
	void jump_wall(int64_t d, int evkind) { if (R->grain > 1) d -= d % R->grain; if (evkind) sim::ev(evkind, d, sim::wall()); R->wall_off += d; R->stats.faults[d >= 0 ? FK_CLOCK_FWD : FK_CLOCK_BACK]++; }
	void advance(int64_t ns) { R->now_ += ns; }
	int self() { return R->cur; }
	int spawn_raw(void (*fn)(void*), void* arg)
	{
		int id;
		{ RtScope s; id = new_fiber(fn, nullptr, arg); }
		simrt::point((uint64_t)__builtin_return_address(0));
		return id;
	}
	void join(int t)
	{
		while (R->f[t].st != F_DONE) block_on(0x1000000 + t, INT64_MAX);
		RtScope s;
		vc_join(cf().vc, R->f[t].vc);
		R->f[t].reaped = true;
	}
	void yield() { ++R->ssteps; gives_way(); rotate(); }
	void idle() { ++R->ssteps; gives_way(); rotate(); }
	void sleep_ns(int64_t ns) { do_sleep(R->now_ + ns); }
	void point() { simrt::point((uint64_t)__builtin_return_address(0)); }
	bool park_until(bool (*pred)(void*), void* arg, int64_t quiet)
	{
		RtScope s;
		Fiber& f = cf();
		if (pred(arg)) return true;
		f.st = F_PARK; f.pred = pred; f.parg = arg; f.quiet = quiet; f.stagnant = false;
		pick_and_switch(true);
		return !f.stagnant;
	}
	uint32_t choose(uint32_t n, uint32_t num, uint32_t den, const char* kind)
	{
		RtScope s;
		++R->tick;
		uint32_t v = 0;
		if (R->cfg.replaying) { if (const Dec* d = replay_at(D_CHOOSE)) v = d->val % n; }
		else
		{
			if (rnd() % den < num && n > 1) v = 1 + (uint32_t)(rnd() % (n - 1));
			if (v) record(D_CHOOSE, v);
		}
		if (v && kind)
		{
			for (int i = 0; i < MAXPROBE; ++i)
			{
				if (R->stats.fk_name[i] == nullptr) { R->stats.fk_name[i] = kind; R->stats.fk_cnt[i] = 1; break; }
				if (!strcmp(R->stats.fk_name[i], kind)) { R->stats.fk_cnt[i]++; break; }
			}
		}
		hmix(R->hash, v);
		return v;
	}
	void hb_release(int slot) { Fiber& f = cf(); vc_join(R->hbslot[slot & 255], f.vc); f.vc.c[f.id]++; }
	void hb_acquire(int slot) { vc_join(cf().vc, R->hbslot[slot & 255]); }
	void alloc_fault(uint32_t num, uint32_t den) { Fiber& f = cf(); f.alloc_armed = num > 0; f.af_num = num; f.af_den = den ? den : 1; }
	uint64_t alloc_faults_fired() { return R->af_fired; }
	size_t live_blocks()
	{
		size_t n = 0;
		for (uint32_t i = 0; i < R->nblocks; ++i) if (!(R->blocks[i].flags & 7)) ++n;
		return n;
	}
	void leak_ignore(bool on) { cf().leak_ign = on; }
	void expect_no_leak(bool on) { R->expect_leak_ok = !on; }
	uint64_t steps() { return R->ssteps; }
	void allow_steps(uint64_t n) { R->cfg.step_cap += n; }
}

namespace simrt
{
	int family_count() { return sim::g_nfams; }
	const sim::Family& family(int i) { return sim::g_fams[i]; }
	Stats& stats() { return R->stats; }
	const RunResult& last_result() { return R->res; }
	const Dec* recorded(uint32_t& n) { n = R->nrec; return R->rec; }
	const sim::Ev* log(uint32_t& n) { n = R->nlog; return R->log; }

	static void on_terminate()
	{
		R->in_rt = true;
		const char* what = "unknown";
		char buf[256] = "";
		std::type_info* t = abi::__cxa_current_exception_type();
		if (t) { snprintf(buf, sizeof buf, "%s", t->name()); what = buf; }
		rfail("terminate", "std::terminate called (uncaught exception, or an exception out of noexcept code): %s", what);
	}
	static void on_signal(int sig, siginfo_t* si, void*)
	{
		if (!R->crash_armed) { signal(sig, SIG_DFL); raise(sig); return; }
		R->in_rt = true;
		if (!R->failed_)
		{
			R->failed_ = true; R->res.violation = true;
			snprintf(R->res.cls, sizeof R->res.cls, "crash:%d", sig);
			snprintf(R->res.report, sizeof R->res.report, "signal %d at address %p\n", sig, si->si_addr);
			snprintf(R->res.msg, sizeof R->res.msg, "signal %d (%s)", sig, sig == SIGSEGV ? "invalid memory access" : "crash");
			if (R->active) append_fiber_stack(R->cur);
		}
		siglongjmp(R->crash_jmp, 1);
	}

	// processor time passes: a run that touches nothing and calls nothing for several seconds never will
	static void on_cpu_time(int, siginfo_t*, void*)
	{
		static uint64_t last; static int same;
		if (!R->active || !R->crash_armed || R->in_rt) { same = 0; return; }
		uint64_t now = (R->stats.runs + 1) * 0x9E3779B97F4A7C15ull + R->tick * 31 + R->ssteps * 17 + R->calls;
		if (now != last) { last = now; same = 0; return; }
		if (++same < 4) return;
		same = 0;
		R->in_rt = true;
		if (!R->failed_)
		{
			R->failed_ = true; R->res.violation = true;
			snprintf(R->res.cls, sizeof R->res.cls, "stuck");
			snprintf(R->res.report, sizeof R->res.report, "endless loop without any memory access\n");
			snprintf(R->res.msg, sizeof R->res.msg, "endless loop without any memory access");
			append_fiber_stack(R->cur);
		}
		siglongjmp(R->crash_jmp, 1);
	}

	void init()
	{
		ensure_mapped();
		__libc_single_threaded = 0;
		dl_iterate_phdr(phdr_cb, nullptr);
		mapfix(ARENA, ARENA_SZ);
		mapfix(SHADOW, (ARENA_SZ >> 3) * sizeof(Granule) + 4096);
		mapfix(STACKS, STACK_SZ * MAXF);
		for (int i = 0; i < MAXF; ++i) mprotect((void*)(STACKS + i * STACK_SZ), 4096, PROT_NONE);
		R->blocks = (Block*)mapany(sizeof(Block) * MAXBLOCKS);
		R->sync = (SyncVar*)mapany(sizeof(SyncVar) * 65536);
		R->scratch = mapany(sizeof(SyncVar) * 65536);
		R->mus = (MuState*)mapany(sizeof(MuState) * 65536);
		R->log = (sim::Ev*)mapany(sizeof(sim::Ev) * MAXLOG);
		R->rec = (Dec*)mapany(sizeof(Dec) * MAXREC);
		R->ehg = abi::__cxa_get_globals();
		// TLS block of the executable
		dl_iterate_phdr([](struct dl_phdr_info* i, size_t, void*) -> int {
			for (int k = 0; k < i->dlpi_phnum; ++k)
				if (i->dlpi_phdr[k].p_type == PT_TLS) { R->tls = (char*)i->dlpi_tls_data; R->tls_len = i->dlpi_phdr[k].p_memsz; R->tls_init = (const void*)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr); R->tls_init_len = i->dlpi_phdr[k].p_filesz; }
			return 1;	// only the first object: the executable
		}, nullptr);
		if (!R->tls) { R->tls = (char*)mapany(4096); R->tls_len = 8; }
		R->tls_img = (char*)mapany(R->tls_len + 4096);
		R->tls_new = (char*)mapany(R->tls_len + 4096);	// what a new thread starts with
		if (R->tls_init_len) memcpy(R->tls_new, R->tls_init, R->tls_init_len);
		for (int i = 0; i < MAXF; ++i) R->tls_fib[i] = (char*)mapany(R->tls_len + 4096);
		stack_t ss{}; ss.ss_size = 1 << 18; ss.ss_sp = mapany(ss.ss_size);
		sigaltstack(&ss, nullptr);
		struct sigaction sa{}; sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
		for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT }) sigaction(s, &sa, nullptr);
		sa.sa_sigaction = on_cpu_time; sa.sa_flags |= SA_RESTART;
		sigaction(SIGVTALRM, &sa, nullptr);
		itimerval iv{ { 2, 0 }, { 2, 0 } };
		setitimer(ITIMER_VIRTUAL, &iv, nullptr);
		std::set_terminate(on_terminate);
		// warm up the unwinder so that its one-time initialisation never happens inside a run
		try { throw 1; } catch (int) {}
		memcpy(R->tls_img, R->tls, R->tls_len);
		R->snap_len = (size_t)(_end - __data_start);
		R->snap = (char*)mapany(R->snap_len + 4096);
		memcpy(R->snap, __data_start, R->snap_len);
	}

	NOINL static void run_main(void* a)
	{
		auto** p = (const void**)a;
		((const sim::Family*)p[0])->run(*(const sim::Workload*)p[1]);
	}

	static void restore_data()
	{
#ifdef COVWRITE
		// coverage audit: the counters survive
		char *a = __start___llvm_prf_cnts, *b = __stop___llvm_prf_cnts;
		memcpy(__data_start, R->snap, (size_t)(a - __data_start));
		memcpy(b, R->snap + (b - __data_start), R->snap_len - (size_t)(b - __data_start));
#else
		memcpy(__data_start, R->snap, R->snap_len);
#endif
	}
	// Executes one run.  The result is a pure function of (family, workload, config, code).
	const RunResult& run_once(const sim::Family& fam, const sim::Workload& w, const RunConfig& cfg)
	{
		sim::Family fcopy = fam;
		restore_data();
		memcpy(R->tls, R->tls_img, R->tls_len);
		memset(R->ehg, 0, 16);
		R->gen++;
		if (R->gen == 0) R->gen = 1;
		R->bump = 4096; R->nblocks = 0; R->live = 0;
		R->nf = 0; R->cur = 0;
		R->cfg = cfg;
		R->tick = R->ssteps = R->calls = 0;
		R->prng = cfg.seed * 0x9E3779B97F4A7C15ull + 0x1234567;
		R->nrec = 0; R->irep = 0; R->rep_next = cfg.replaying && cfg.nreplay ? cfg.replay[0].tick : ~0ull;
		R->now_ = 1'000'000'000; R->wall_off = WALL0; R->grain = 1;
		R->last_prog = R->now_; R->nprog = 1; R->prog_step = 0; R->rot = 0; R->rot_total = 0; R->next_chk = 256;
		R->hash = 0xcbf29ce484222325ull; R->shash = 0xcbf29ce484222325ull;
		R->nlog = 0; R->seq = 0; R->nsync = R->nmus = 0;
		memset(R->regs, 0, sizeof R->regs);
		memset(R->hbslot, 0, sizeof R->hbslot);
		R->expect_leak_ok = false; R->af_fired = 0; R->failed_ = false;
		memset(&R->res, 0, sizeof R->res);
		R->t0 = R->now_;
		// strategy parameters
		R->strat = ST_RANDOM; R->mean = 50; R->plain_pts = false; R->stalls = false; R->nchg = R->ichg = 0; R->prio_low = 0; R->site_shift = 60; R->site_salt = 0;
		if (!cfg.replaying)
		{
			uint64_t k = rnd() % 10;
			static const int means[] = { 2, 4, 8, 20, 60, 200, 1000 };
			if (k < 4) { R->strat = ST_RANDOM; R->mean = means[rnd() % 7]; }
			else if (k < 7)
			{
				R->strat = ST_SITE; R->mean = means[3 + rnd() % 4];
				R->site_salt = rnd(); R->site_shift = 58 + (int)(rnd() % 4); R->plain_pts = rnd() % 2;
			}
			else
			{
				R->strat = ST_PCT; R->nchg = 1 + (int)(rnd() % 6);
				uint64_t L = 200ull << (rnd() % 8);
				for (int i = 0; i < R->nchg; ++i) R->chg[i] = 1 + rnd() % L;
				for (int i = 0; i < R->nchg; ++i) for (int j = i + 1; j < R->nchg; ++j) if (R->chg[j] < R->chg[i]) { uint64_t t = R->chg[i]; R->chg[i] = R->chg[j]; R->chg[j] = t; }
			}
			R->stalls = rnd() % 3 == 0;
			set_countdown();
		}
		else R->cd = INT64_MAX;
		R->stats.strat[R->strat]++;

		const void* args[2] = { &fcopy, &w };
		R->crash_armed = true;
		R->in_rt = true;
		if (sigsetjmp(R->crash_jmp, 1) == 0)
		{
			new_fiber(run_main, nullptr, args);
			R->cur = 0;
			load_tls(0);
			R->active = true;
			simrt_switch(&R->main_sp, R->f[0].sp);
			// back on the main context
			R->active = false;
			R->in_rt = true;
			if (!R->failed_)
			{
				for (int i = 0; i < R->nf; ++i) if (R->f[i].st != F_DONE) rfail("harness", "simulated thread %d still running at the end of the run", i);
				if (!R->expect_leak_ok)
				{
					for (uint32_t i = 0; i < R->nblocks; ++i)
						if (!(R->blocks[i].flags & 7))
						{
							size_t n = sim::live_blocks();
							auto f = [](const char* cls, const char* fmt, ...) { va_list ap; va_start(ap, fmt); vfail(cls, fmt, ap); va_end(ap); };
							f("leak", "%zu heap block(s) never released, first: %u bytes", n, R->blocks[i].size);
							append_stack("allocated at", R->blocks[i].stk, 20);
							break;
						}
				}
				if (!R->failed_ && fcopy.check)
				{
					std::vector<sim::Ev> ev(R->log, R->log + R->nlog);
					R->in_rt = false;
					fcopy.check(w, ev);
				}
			}
		}
		R->active = false;
		R->in_rt = false;
		R->crash_armed = false;
		memcpy(R->tls, R->tls_img, R->tls_len);
		memset(R->ehg, 0, 16);
		restore_data();
		R->res.hash = R->hash; R->res.shash = R->shash; R->res.ticks = R->tick; R->res.ssteps = R->ssteps;
		R->res.simtime = R->now_ - R->t0;
		R->res.nlog = R->nlog; R->res.nthreads = R->nf;
		R->stats.runs++; R->stats.simtime += R->res.simtime; R->stats.ssteps += R->ssteps; R->stats.ticks += R->tick; R->stats.switches += R->res.switches; R->stats.preempts += R->res.preempts;
		return R->res;
	}
}

// a thread that keeps reading the clock while nothing else happens is waiting for time to pass
static void clock_polled()
{
	if (!live_()) return;
	Fiber& f = cf();
	if (f.clk_prog != R->nprog) { f.clk_prog = R->nprog; f.clk_n = 0; }
	else if (++f.clk_n >= 6) { f.clk_n = 4; ++R->ssteps; gives_way(); rotate(); }
}

// ====================================================================== interposed C library
#define RA __builtin_return_address(0)
extern "C"
{
	void* malloc(size_t n) { void* p = xmalloc(n, 16, RA); if (!p) errno = ENOMEM; return p; }
	void free(void* p) { xfree(p, RA); }
	void* calloc(size_t a, size_t b)
	{
		size_t n;
		if (__builtin_mul_overflow(a, b, &n)) return nullptr;
		void* p = xmalloc(n, 16, RA);
		if (p) memset(p, 0, n);
		return p;
	}
	void* realloc(void* p, size_t n)
	{
		if (!p) return xmalloc(n, 16, RA);
		if (n == 0) { xfree(p, RA); return nullptr; }
		size_t o = xsize(p);
		void* q = xmalloc(n, 16, RA);
		if (!q) return nullptr;
		memcpy(q, p, o < n ? o : n);
		xfree(p, RA);
		return q;
	}
	void* memalign(size_t al, size_t n) { return xmalloc(n, al, RA); }
	void* aligned_alloc(size_t al, size_t n) { return xmalloc(n, al, RA); }
	int posix_memalign(void** o, size_t al, size_t n) { void* p = xmalloc(n, al, RA); if (!p) return ENOMEM; *o = p; return 0; }
	size_t malloc_usable_size(void* p) { return p ? xsize(p) : 0; }

	int clock_gettime(clockid_t id, struct timespec* ts) noexcept
	{
		clock_polled();
		int64_t t = clk(id);
		ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000;
		return 0;
	}
	int gettimeofday(struct timeval* tv, void*) noexcept
	{
		int64_t t = clk(CLOCK_REALTIME);
		tv->tv_sec = t / 1000000000; tv->tv_usec = (t % 1000000000) / 1000;
		return 0;
	}
	time_t time(time_t* o) noexcept { time_t t = clk(CLOCK_REALTIME) / 1000000000; if (o) *o = t; return t; }
	int sched_yield() noexcept { if (live_()) { ++R->ssteps; gives_way(); rotate(); } return 0; }
	int nanosleep(const struct timespec* rq, struct timespec*)
	{
		if (live_()) do_sleep(R->now_ + rq->tv_sec * 1000000000ll + rq->tv_nsec);
		return 0;
	}
	int clock_nanosleep(clockid_t id, int flags, const struct timespec* rq, struct timespec*)
	{
		if (!live_()) return 0;
		int64_t t = rq->tv_sec * 1000000000ll + rq->tv_nsec;
		if (flags & TIMER_ABSTIME) { if (id == CLOCK_REALTIME) t -= R->wall_off; }
		else t += R->now_;
		do_sleep(t);
		return 0;
	}
	int usleep(useconds_t us) { if (live_()) do_sleep(R->now_ + us * 1000ll); return 0; }
	unsigned sleep(unsigned s) { if (live_()) do_sleep(R->now_ + s * 1000000000ll); return 0; }
	int rand() noexcept { if (live_()) { ++R->tick; return (int)((R->tick * 0x9E3779B97F4A7C15ull ^ R->hash) >> 33); } return 4; }
	void srand(unsigned) noexcept {}

	void __assert_fail(const char* e, const char* file, unsigned line, const char* fn)
	{
		const char* b = strrchr(file, '/');
		char c[200]; snprintf(c, sizeof c, "assert:%.90s", e);
		if (!g_mapped || !R->crash_armed) { fprintf(stderr, "assert %s %s:%u\n", e, file, line); _exit(3); }
		rfail(c, "assertion failed: %s (%s:%u, %s)", e, b ? b + 1 : file, line, fn ? fn : "");
	}
	void abort() noexcept
	{
		if (!g_mapped || !R->crash_armed) _exit(3);
		rfail("abort", "abort() called");
	}

	// ---- threads
	pthread_t pthread_self() noexcept { return g_mapped && R->active ? (pthread_t)(0x7000000 + R->cur) : (pthread_t)0x7ffffff; }
	int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg) noexcept
	{
		if (!live_()) return EAGAIN;
		int id;
		{ RtScope s; id = new_fiber(nullptr, fn, arg); }
		*t = (pthread_t)(0x7000000 + id);
		simrt::point((uint64_t)RA);
		return 0;
	}
	int pthread_join(pthread_t t, void** ret)
	{
		int id = (int)((uint64_t)t - 0x7000000);
		sim::join(id);
		if (ret) *ret = R->f[id].pret;
		return 0;
	}
	int pthread_detach(pthread_t) noexcept { return 0; }

	static inline bool simcall(void* ra) { return live_() && classify(ra) != 2; }

	int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) noexcept
	{
		memset(m, 0, sizeof *m);
		if (a) { int k = *(const int*)a & 3; m->__data.__kind = k; }
		if (live_()) { MuState& s = mu(m); s.owner = -1; s.count = 0; }
		return 0;
	}
	int pthread_mutex_destroy(pthread_mutex_t*) noexcept { return 0; }
	static int mlock(pthread_mutex_t* m, bool tryonly, int64_t until, uint64_t pc)
	{
		access((uint64_t)m, 4, false, true, pc);
		simrt::point(pc);
		access((uint64_t)m, 4, false, true, pc);
		for (;;)
		{
			MuState& s = mu(m);
			if (s.owner < 0) { s.owner = R->cur; s.count = 1; break; }
			if (s.owner == R->cur)
			{
				if (m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP) { s.count++; break; }
				if (tryonly) return EBUSY;
				rfail("deadlock", "self-deadlock: recursive lock of a non-recursive mutex");
			}
			if (tryonly) return EBUSY;
			block_on((uint64_t)m, until);
			if (cf().timed_out) return ETIMEDOUT;
		}
		hb_acq((uint64_t)m);
		return 0;
	}
	int pthread_mutex_lock(pthread_mutex_t* m) noexcept { return simcall(RA) ? mlock(m, false, INT64_MAX, (uint64_t)RA) : 0; }
	int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { return simcall(RA) ? mlock(m, true, INT64_MAX, (uint64_t)RA) : 0; }
	static int64_t abst(clockid_t c, const struct timespec* ts)
	{
		int64_t t = ts->tv_sec * 1000000000ll + ts->tv_nsec;
		if (c == CLOCK_REALTIME) t -= R->wall_off;
		return t;
	}
	int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) noexcept { return simcall(RA) ? mlock(m, false, abst(CLOCK_REALTIME, ts), (uint64_t)RA) : 0; }
	int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) noexcept { return simcall(RA) ? mlock(m, false, abst(c, ts), (uint64_t)RA) : 0; }
	static void munlock(pthread_mutex_t* m, uint64_t pc)
	{
		access((uint64_t)m, 4, false, true, pc);
		MuState& s = mu(m);
		if (s.owner != R->cur) rfail("mutex", "unlock of a mutex that the thread does not own");
		if (--s.count == 0)
		{
			hb_rel((uint64_t)m);
			s.owner = -1;
			wake((uint64_t)m, 0, true);
		}
	}
	int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
	{
		if (!simcall(RA)) return 0;
		munlock(m, (uint64_t)RA);
		simrt::point((uint64_t)RA);
		return 0;
	}
	int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) noexcept { memset(c, 0, sizeof *c); return 0; }
	int pthread_cond_destroy(pthread_cond_t*) noexcept { return 0; }
	static int cwait(pthread_cond_t* c, pthread_mutex_t* m, int64_t until, uint64_t pc)
	{
		simrt::point(pc);
		munlock(m, pc);
		// spurious wake-up: a legal, recorded fault decision
		if (sim::choose(2, 1, 40, "cond_spurious_wakeup") == 0) block_on((uint64_t)c, until);
		else cf().timed_out = false;
		bool to = cf().timed_out;
		mlock(m, false, INT64_MAX, pc);
		return to ? ETIMEDOUT : 0;
	}
	int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return simcall(RA) ? cwait(c, m, INT64_MAX, (uint64_t)RA) : 0; }
	int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { return simcall(RA) ? cwait(c, m, abst(CLOCK_REALTIME, ts), (uint64_t)RA) : 0; }
	int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) { return simcall(RA) ? cwait(c, m, abst(k, ts), (uint64_t)RA) : 0; }
	int pthread_cond_signal(pthread_cond_t* c) noexcept
	{
		if (!simcall(RA)) return 0;
		access((uint64_t)c, 4, false, true, (uint64_t)RA);
		wake((uint64_t)c, 1, false);
		simrt::point((uint64_t)RA);
		return 0;
	}
	int pthread_cond_broadcast(pthread_cond_t* c) noexcept
	{
		if (!simcall(RA)) return 0;
		access((uint64_t)c, 4, false, true, (uint64_t)RA);
		wake((uint64_t)c, 0, true);
		simrt::point((uint64_t)RA);
		return 0;
	}
	static int rwl(pthread_rwlock_t* m, bool wr, bool tryonly, uint64_t pc)
	{
		simrt::point(pc);
		for (;;)
		{
			MuState& s = mu(m);
			if (s.owner < 0 && (!wr || s.readers == 0)) { if (wr) s.owner = R->cur; else s.readers++; break; }
			if (tryonly) return EBUSY;
			block_on((uint64_t)m, INT64_MAX);
		}
		hb_acq((uint64_t)m);
		return 0;
	}
	int pthread_rwlock_init(pthread_rwlock_t* m, const pthread_rwlockattr_t*) noexcept { memset(m, 0, sizeof *m); return 0; }
	int pthread_rwlock_destroy(pthread_rwlock_t*) noexcept { return 0; }
	int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept { return simcall(RA) ? rwl(m, false, false, (uint64_t)RA) : 0; }
	int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept { return simcall(RA) ? rwl(m, true, false, (uint64_t)RA) : 0; }
	int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) noexcept { return simcall(RA) ? rwl(m, false, true, (uint64_t)RA) : 0; }
	int pthread_rwlock_trywrlock(pthread_rwlock_t* m) noexcept { return simcall(RA) ? rwl(m, true, true, (uint64_t)RA) : 0; }
	int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept
	{
		if (!simcall(RA)) return 0;
		MuState& s = mu(m);
		if (s.owner == R->cur) { s.owner = -1; hb_rel((uint64_t)m); }
		else { s.readers--; hb_relacc((uint64_t)m); }
		wake((uint64_t)m, 0, true);
		simrt::point((uint64_t)RA);
		return 0;
	}
	int pthread_once(pthread_once_t* o, void (*fn)(void))
	{
		if (!live_()) { if (*o == 0) { *o = 2; fn(); } return 0; }
		for (;;)
		{
			if (*o == 2) { hb_acq((uint64_t)o); return 0; }
			if (*o == 0) { *o = 1; fn(); hb_rel((uint64_t)o); *o = 2; wake((uint64_t)o, 0, true); return 0; }
			block_on((uint64_t)o, INT64_MAX);
		}
	}
	int sem_init(sem_t* s, int, unsigned v) noexcept { *(unsigned*)s = v; return 0; }
	int sem_destroy(sem_t*) noexcept { return 0; }
	int sem_post(sem_t* s) noexcept
	{
		if (live_()) simrt::point((uint64_t)RA);
		++*(unsigned*)s;
		if (live_()) { hb_relacc((uint64_t)s); wake((uint64_t)s, 1, false); }
		return 0;
	}
	static int semw(sem_t* s, bool tr, int64_t until)
	{
		if (live_()) simrt::point((uint64_t)RA);
		while (*(unsigned*)s == 0)
		{
			if (tr) { errno = EAGAIN; return -1; }
			block_on((uint64_t)s, until);
			if (cf().timed_out && *(unsigned*)s == 0) { errno = ETIMEDOUT; return -1; }
		}
		--*(unsigned*)s;
		if (live_()) hb_acq((uint64_t)s);
		return 0;
	}
	int sem_wait(sem_t* s) { return semw(s, false, INT64_MAX); }
	int sem_trywait(sem_t* s) noexcept { return semw(s, true, 0); }
	int sem_timedwait(sem_t* s, const struct timespec* ts) { return semw(s, false, abst(CLOCK_REALTIME, ts)); }
	int sem_clockwait(sem_t* s, clockid_t c, const struct timespec* ts) { return semw(s, false, abst(c, ts)); }

	long syscall(long n, ...) noexcept
	{
		va_list ap; va_start(ap, n);
		long a[6];
		for (int i = 0; i < 6; ++i) a[i] = va_arg(ap, long);
		va_end(ap);
		if (n == SYS_futex && g_mapped && live_())
		{
			int op = (int)a[1] & 127;
			uint32_t* u = (uint32_t*)a[0];
			if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
			{
				simrt::point((uint64_t)RA);
				if (*u != (uint32_t)a[2]) { errno = EAGAIN; return -1; }
				int64_t until = INT64_MAX;
				if (a[3])
				{
					auto* ts = (const struct timespec*)a[3];
					if (op == FUTEX_WAIT) until = R->now_ + ts->tv_sec * 1000000000ll + ts->tv_nsec;
					else until = abst((a[1] & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts);
				}
				block_on((uint64_t)u, until);
				if (cf().timed_out) { errno = ETIMEDOUT; return -1; }
				return 0;
			}
			if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET)
			{
				wake((uint64_t)u, (int)a[2], a[2] >= 0x7fffffff);
				simrt::point((uint64_t)RA);
				return 1;
			}
		}
		long r;
		register long r10 asm("r10") = a[3];
		register long r8 asm("r8") = a[4];
		register long r9 asm("r9") = a[5];
		asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
		if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
		return r;
	}

	// ---- C++ ABI
	int __cxa_thread_atexit(void (*d)(void*), void* o, void*) noexcept
	{
		if (!live_()) return 0;
		Fiber& f = cf();
		if (f.natexit < 32) f.atexit_[f.natexit++] = { d, o };
		return 0;
	}
	// guarded statics: byte 0 = initialised, byte 1 = in progress
	int __cxa_guard_acquire(__cxxabiv1::__guard* g)
	{
		unsigned char* b = (unsigned char*)g;
		if (!live_()) { if (b[0]) return 0; return 1; }
		for (;;)
		{
			if (b[0]) { hb_acq((uint64_t)g); return 0; }
			if (!b[1]) { b[1] = 1; return 1; }
			block_on((uint64_t)g, INT64_MAX);
		}
	}
	void __cxa_guard_release(__cxxabiv1::__guard* g) noexcept
	{
		unsigned char* b = (unsigned char*)g;
		b[0] = 1; b[1] = 0;
		if (live_()) { hb_rel((uint64_t)g); wake((uint64_t)g, 0, true); }
	}
	void __cxa_guard_abort(__cxxabiv1::__guard* g) noexcept
	{
		unsigned char* b = (unsigned char*)g;
		b[1] = 0;
		if (live_()) wake((uint64_t)g, 0, true);
	}
}

void* operator new(size_t n) { void* p = xmalloc(n, 16, RA); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = xmalloc(n, 16, RA); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return xmalloc(n, 16, RA); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return xmalloc(n, 16, RA); }
void* operator new(size_t n, std::align_val_t a) { void* p = xmalloc(n, (size_t)a, RA); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n, std::align_val_t a) { void* p = xmalloc(n, (size_t)a, RA); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { xfree(p, RA); }
void operator delete[](void* p) noexcept { xfree(p, RA); }
void operator delete(void* p, size_t) noexcept { xfree(p, RA); }
void operator delete[](void* p, size_t) noexcept { xfree(p, RA); }
void operator delete(void* p, std::align_val_t) noexcept { xfree(p, RA); }
void operator delete[](void* p, std::align_val_t) noexcept { xfree(p, RA); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { xfree(p, RA); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { xfree(p, RA); }

// ====================================================================== instrumentation callbacks
#define PC ((uint64_t)__builtin_return_address(0))

static inline void hook_access(void* p, size_t n, bool w, uint64_t pc)
{
	if (!live_()) return;
	if (!in_arena(p)) return;
	plain_point(pc);
	access((uint64_t)p, n, w, false, pc);
}

extern "C"
{
	void __tsan_init() {}
	void __tsan_func_entry(void* ra)
	{
		if (!g_mapped || !R->active || R->in_rt) return;
		Fiber& f = cf();
		if (f.nstk < MAXSTK) f.stk[f.nstk] = (uint32_t)PC;
		f.nstk++;
		if (unlikely_((++R->calls & 0xFFFFF) == 0)) check_work();
		(void)ra;
	}
	void __tsan_func_exit()
	{
		if (!g_mapped || !R->active || R->in_rt) return;
		Fiber& f = cf();
		if (f.nstk) f.nstk--;
	}
	void __tsan_ignore_thread_begin() {}
	void __tsan_ignore_thread_end() {}

#define RW(n) \
	void __tsan_read##n(void* p) { hook_access(p, n, false, PC); } \
	void __tsan_write##n(void* p) { hook_access(p, n, true, PC); } \
	void __tsan_unaligned_read##n(void* p) { hook_access(p, n, false, PC); } \
	void __tsan_unaligned_write##n(void* p) { hook_access(p, n, true, PC); } \
	void __tsan_read_write##n(void* p) { hook_access(p, n, true, PC); } \
	void __tsan_unaligned_read_write##n(void* p) { hook_access(p, n, true, PC); } \
	void __tsan_volatile_read##n(void* p) { hook_access(p, n, false, PC); } \
	void __tsan_volatile_write##n(void* p) { hook_access(p, n, true, PC); } \
	void __tsan_unaligned_volatile_read##n(void* p) { hook_access(p, n, false, PC); } \
	void __tsan_unaligned_volatile_write##n(void* p) { hook_access(p, n, true, PC); }
	RW(1) RW(2) RW(4) RW(8) RW(16)

	void __tsan_vptr_read(void** p) { hook_access(p, 8, false, PC); }
	void __tsan_vptr_update(void** p, void* v) { if (*p != v) hook_access(p, 8, true, PC); else hook_access(p, 8, false, PC); }
	void __tsan_read_range(void* p, size_t n) { if (n) hook_access(p, n, false, PC); }
	void __tsan_write_range(void* p, size_t n) { if (n) hook_access(p, n, true, PC); }
	void* __tsan_memcpy(void* d, const void* s, size_t n)
	{
		if (n) { hook_access(const_cast<void*>(s), n, false, PC); hook_access(d, n, true, PC); }
		return memcpy(d, s, n);
	}
	void* __tsan_memmove(void* d, const void* s, size_t n)
	{
		if (n) { hook_access(const_cast<void*>(s), n, false, PC); hook_access(d, n, true, PC); }
		return memmove(d, s, n);
	}
	void* __tsan_memset(void* d, int v, size_t n)
	{
		if (n) hook_access(d, n, true, PC);
		return memset(d, v, n);
	}
}

// ---- atomics.  mo: 0 relaxed, 1 consume, 2 acquire, 3 release, 4 acq_rel, 5 seq_cst
static inline bool mo_acq(int mo) { return mo == 1 || mo == 2 || mo >= 4; }
static inline bool mo_rel(int mo) { return mo >= 3; }

static inline void at_pre(void* p, size_t n, bool w, uint64_t pc)
{
	point(pc);
	access((uint64_t)p, n, w, true, pc);
}
static inline void at_load1(uint64_t a, int mo)
{
	SyncVar& s = sv(a);
	Fiber& f = cf();
	if (mo_acq(mo)) vc_join(f.vc, s.rel);
	else vc_join(f.facq, s.rel);
}
static inline void at_store1(uint64_t a, int mo)
{
	SyncVar& s = sv(a);
	Fiber& f = cf();
	if (mo_rel(mo)) s.rel = f.vc;
	else s.rel = f.frel;
}
static inline void at_rmw1(uint64_t a, int mo)
{
	SyncVar& s = sv(a);
	Fiber& f = cf();
	if (mo_acq(mo)) vc_join(f.vc, s.rel); else vc_join(f.facq, s.rel);
	if (mo_rel(mo)) vc_join(s.rel, f.vc);
	else vc_join(s.rel, f.frel);
}
// an 8-byte access also covers a variable in its second half (libstdc++ reads both shared_ptr counts at once)
static inline void at_load(uint64_t a, size_t n, int mo) { at_load1(a, mo); if (n == 8) at_load1(a + 4, mo); }
static inline void at_end(int mo) { Fiber& f = cf(); if (mo_rel(mo)) f.vc.c[f.id]++; f.spin_n = 0; }
static inline void at_store(uint64_t a, size_t n, int mo) { at_store1(a, mo); if (n == 8) at_store1(a + 4, mo); at_end(mo); }
static inline void at_rmw(uint64_t a, size_t n, int mo) { at_rmw1(a, mo); if (n == 8) at_rmw1(a + 4, mo); at_end(mo); }
static inline void spin_check(uint64_t a, uint64_t v)
{
	Fiber& f = cf();
	if (f.spin_addr == a && f.spin_val == v) { if (++f.spin_n >= 4) { gives_way(); rotate(); } }
	else { f.spin_addr = a; f.spin_val = v; f.spin_n = 0; }
}

#define ATOMICS(N, T) \
extern "C" { \
	T __tsan_atomic##N##_load(const volatile T* p, int mo) \
	{ \
		if (!live_()) return *p; \
		at_pre((void*)p, sizeof(T), false, PC); \
		T v = *p; at_load((uint64_t)p, sizeof(T), mo); \
		spin_check((uint64_t)p, (uint64_t)v); \
		return v; \
	} \
	void __tsan_atomic##N##_store(volatile T* p, T v, int mo) \
	{ \
		if (!live_()) { *p = v; return; } \
		at_pre((void*)p, sizeof(T), true, PC); \
		at_store((uint64_t)p, sizeof(T), mo); *p = v; \
	} \
	T __tsan_atomic##N##_exchange(volatile T* p, T v, int mo) \
	{ \
		if (!live_()) { T o = *p; *p = v; return o; } \
		at_pre((void*)p, sizeof(T), true, PC); \
		bool same = *p == v; uint32_t sn = cf().spin_n; \
		at_rmw((uint64_t)p, sizeof(T), mo); \
		T o = *p; *p = v; \
		if (same) { cf().spin_n = sn; spin_check((uint64_t)p, (uint64_t)o); } \
		return o; \
	} \
	static inline T cas##N(volatile T* p, T c, T v, int mo, int fmo, uint64_t pc) \
	{ \
		if (!live_()) { T o = *p; if (o == c) *p = v; return o; } \
		point(pc); \
		T o = *p; \
		access((uint64_t)p, sizeof(T), o == c, true, pc); \
		if (o == c) { at_rmw((uint64_t)p, sizeof(T), mo); *p = v; } \
		else { at_load((uint64_t)p, sizeof(T), fmo); spin_check((uint64_t)p, (uint64_t)o); } \
		return o; \
	} \
	T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T c, T v, int mo, int fmo) { return cas##N(p, c, v, mo, fmo, PC); } \
	int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* c, T v, int mo, int fmo) { T o = cas##N(p, *c, v, mo, fmo, PC); if (o == *c) return 1; *c = o; return 0; } \
	int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* c, T v, int mo, int fmo) { T o = cas##N(p, *c, v, mo, fmo, PC); if (o == *c) return 1; *c = o; return 0; } \
} \
FETCH(N, T, add, o + v) FETCH(N, T, sub, o - v) FETCH(N, T, and, o & v) FETCH(N, T, or, o | v) FETCH(N, T, xor, o ^ v) FETCH(N, T, nand, ~(o & v))
#define FETCH(N, T, op, expr) \
extern "C" T __tsan_atomic##N##_fetch_##op(volatile T* p, T v, int mo) \
{ \
	if (!live_()) { T o = *p; *p = (T)(expr); return o; } \
	at_pre((void*)p, sizeof(T), true, PC); \
	at_rmw((uint64_t)p, sizeof(T), mo); \
	T o = *p; *p = (T)(expr); \
	return o; \
}
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)

extern "C"
{
	void __tsan_atomic_thread_fence(int mo)
	{
		if (!live_()) return;
		point(PC);
		Fiber& f = cf();
		if (mo_acq(mo)) vc_join(f.vc, f.facq);
		if (mo_rel(mo)) { f.frel = f.vc; f.vc.c[f.id]++; }
	}
	void __tsan_atomic_signal_fence(int) {}
}

// std::list's link functions live in libstdc++.so, uninstrumented: report their accesses too
#include <list>
namespace std { namespace __detail {
	void _List_node_base::_M_hook(_List_node_base* const pos) noexcept
	{
		hook_access(this, 16, true, PC); hook_access(pos, 16, true, PC); hook_access(pos->_M_prev, 8, true, PC);
		_M_next = pos; _M_prev = pos->_M_prev; pos->_M_prev->_M_next = this; pos->_M_prev = this;
	}
	void _List_node_base::_M_unhook() noexcept
	{
		hook_access(this, 16, false, PC);
		_List_node_base* const n = _M_next; _List_node_base* const p = _M_prev;
		hook_access(n, 16, true, PC); hook_access(p, 8, true, PC);
		p->_M_next = n; n->_M_prev = p;
	}
	void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept
	{
		if (this == last) return;
		hook_access(this, 16, true, PC); hook_access(first, 16, true, PC); hook_access(last, 16, true, PC);
		last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
		_List_node_base* const tmp = this->_M_prev;
		this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = tmp;
	}
} }

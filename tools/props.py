"""Which harness files decide which property, and how much each check runs."""
# property -> (harness files, runs in quick)
PROPS = {
    "C01": dict(h=["h_sched", "h_mix", "h_volume"], runs=150000),
    "C02": dict(h=["h_sched", "h_mix", "h_volume"], runs=150000),
    "C03": dict(h=["h_sched", "h_volume"], runs=150000),
    "C05": dict(h=["h_sched", "h_volume"], runs=150000),
    "C04": dict(h=["h_awaitable", "h_volume"], runs=400000),
    "C06": dict(h=["h_channel", "h_volume"], runs=200000),
    "C07": dict(h=["h_channel", "h_volume"], runs=150000),
    "C08": dict(h=["h_bind"], runs=200000),
    "C09": dict(h=["h_event", "h_volume"], runs=200000),
    "C10": dict(h=["h_event", "h_volume"], runs=200000),
    "C11": dict(h=["h_event", "h_volume"], runs=200000),
    "C12": dict(h=["h_mutex", "h_guard", "h_volume"], runs=200000),
    "C13": dict(h=["h_mutex", "h_volume"], runs=200000),
    "C14": dict(h=["h_mutex", "h_guard", "h_volume"], runs=150000),
    "C15": dict(h=["h_timer", "h_volume"], runs=250000),
    "C16": dict(h=["h_sleep", "h_volume"], runs=200000),
    "C17": dict(h=["h_when", "h_volume"], runs=200000),
    "C18": dict(h=["h_when", "h_volume"], runs=200000),
    "C19": dict(h=["h_stop", "h_volume"], runs=1000000),
    "C20": dict(h=["h_stopall", "h_volume"], runs=200000),
    "C23": dict(h=["h_spin"], runs=200000),
    "C26": dict(h=["h_asio"], runs=200000),
}

REAL = ["all of /repo/source/*.cpp and /repo/include/librf (scheduler, state, promise, timer manager, event, mutex, channel, when_all/any, stop tokens, spinlock, generator), instrumented with -fsanitize=thread hooks",
        "libstdc++ containers, shared_ptr, exception_ptr and exception unwinding"]
STUBS = ["operating-system threads -> fibers chosen by the seeded scheduler",
         "steady/system/high-resolution clocks, nanosleep, sched_yield -> simulated time",
         "pthread mutex/cond/rwlock, semaphores, futex -> simulator objects",
         "malloc/new -> simulator heap with access checking and failure injection",
         "ThreadSanitizer run-time -> the simulator's own scheduling points and race detector"]
# thorough also explores other builds of the same sources: optimised code, and the configurable lock type
VARIANTS = {"optimised": ("-O2",), "std::mutex as spinlock": ("-DRESUMEF_USE_CUSTOM_SPINLOCK=std::mutex",)}
for _n, _p in PROPS.items():
    _p.setdefault("variants", dict(VARIANTS, **({"exact channel size": ("-D_WITH_LOCK_FREE_Q_KEEP_REAL_SIZE",)} if _n in ("C06", "C07") else {})))

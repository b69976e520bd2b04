// Driver of one simulator binary: batches of seeded runs, reproduction gate, minimisation, replay.
#include "rt_internal.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <algorithm>
#include <unordered_set>
#include <unistd.h>
#include <sys/syscall.h>
#include <time.h>

using namespace simrt;
using sim::Workload; using sim::Op; using sim::Rng;

static double real_now()
{
	struct timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
	return ts.tv_sec + ts.tv_nsec * 1e-9;
}
static uint64_t mix(uint64_t a, uint64_t b)
{
	uint64_t z = a * 0x9E3779B97F4A7C15ull + b * 0xD1B54A32D192ED03ull + 0x632BE59BD9B4E019ull;
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}
struct Sched
{
	uint64_t seed, quantum; int64_t step_ns;
};
static Sched make_sched(uint64_t s)
{
	Rng r(s);
	Sched k;
	k.seed = r.next();
	k.quantum = (uint64_t)r.pick({ 200, 600, 2000 });
	k.step_ns = r.pick({ 5, 20, 100, 400 });
	return k;
}
static uint64_t g_cap = 1'500'000;
static RunConfig cfg_of(const Sched& k)
{
	RunConfig c;
	c.seed = k.seed; c.quantum = k.quantum; c.step_ns = k.step_ns; c.step_cap = g_cap;
	return c;
}
struct Failure
{
	std::string cls, msg, report;
	uint64_t hash = 0;
	Sched k{};
	Workload w;
	std::vector<Dec> decs;
};
static std::vector<Dec> take_rec()
{
	uint32_t n; const Dec* d = recorded(n);
	return std::vector<Dec>(d, d + n);
}
static bool run_rand(const sim::Family& f, const Workload& w, const Sched& k, Failure& out)
{
	const RunResult& r = run_once(f, w, cfg_of(k));
	if (!r.violation) { out.hash = r.hash; return false; }
	out.cls = r.cls; out.msg = r.msg; out.report = r.report; out.hash = r.hash; out.k = k; out.w = w; out.decs = take_rec();
	return true;
}
static bool run_replay(const sim::Family& f, const Workload& w, const Sched& k, const std::vector<Dec>& d, Failure& out)
{
	RunConfig c = cfg_of(k);
	c.replaying = true; c.replay = d.data(); c.nreplay = (uint32_t)d.size();
	const RunResult& r = run_once(f, w, c);
	out.hash = r.hash;
	if (!r.violation) { out.cls.clear(); return false; }
	out.cls = r.cls; out.msg = r.msg; out.report = r.report; out.k = k; out.w = w; out.decs = d;
	return true;
}

static Failure minimise(const sim::Family& f, const Failure& orig, double budget)
{
	double t0 = real_now();
	Failure best = orig;
	// 1. drop operations; a candidate counts if some schedule fails with the same class
	size_t chunk = std::max<size_t>(1, best.w.ops.size() / 2);
	uint64_t salt = 0;
	while (real_now() - t0 < budget * 0.6)
	{
		bool any = false;
		for (size_t i = 0; i < best.w.ops.size() && real_now() - t0 < budget * 0.6;)
		{
			Workload c = best.w;
			size_t e = std::min(c.ops.size(), i + chunk);
			c.ops.erase(c.ops.begin() + i, c.ops.begin() + e);
			bool ok = false;
			for (int t = 0; t < 40 && !ok; ++t)
			{
				Failure o;
				Sched k = t == 0 ? best.k : make_sched(mix(0xABCDEF, ++salt));
				if (run_rand(f, c, k, o) && o.cls == best.cls) { best = o; ok = true; }
				if (real_now() - t0 > budget * 0.6) break;
			}
			if (ok) any = true; else i += chunk;
		}
		if (chunk == 1 && !any) break;
		chunk = std::max<size_t>(1, chunk / 2);
	}
	// 2. drop scheduling decisions: fewer context switches than the default policy would not make
	Failure r;
	if (!run_replay(f, best.w, best.k, best.decs, r) || r.cls != best.cls) return best;	// caught by the gate
	// try shorter executions of the same workload first
	for (int t = 0; t < 60 && real_now() - t0 < budget * 0.7; ++t)
	{
		Failure o;
		if (run_rand(f, best.w, make_sched(mix(0x515EED, t)), o) && o.cls == best.cls && o.decs.size() < best.decs.size()) best = o;
	}
	chunk = std::max<size_t>(1, best.decs.size() / 2);
	while (real_now() - t0 < budget)
	{
		bool any = false;
		for (size_t i = 0; i < best.decs.size() && real_now() - t0 < budget;)
		{
			std::vector<Dec> d = best.decs;
			size_t e = std::min(d.size(), i + chunk);
			d.erase(d.begin() + i, d.begin() + e);
			Failure o;
			if (run_replay(f, best.w, best.k, d, o) && o.cls == best.cls) { best = o; any = true; }
			else i += chunk;
		}
		if (chunk == 1 && !any) break;
		chunk = std::max<size_t>(1, chunk / 2);
	}
	return best;
}

static void write_replay(const char* path, const sim::Family& f, const Failure& x, uint64_t verif_seed, uint64_t index)
{
	FILE* o = fopen(path, "w");
	if (!o) { perror(path); _exit(3); }
	fprintf(o, "librf-sim-replay 1\n");
	fprintf(o, "# found by VERIF_SEED=%llu run=%llu\n", (unsigned long long)verif_seed, (unsigned long long)index);
	fprintf(o, "property %s\nfamily %s\nclass %s\nhash %llx\n", f.property, f.name, x.cls.c_str(), (unsigned long long)x.hash);
	fprintf(o, "seed %llu\nquantum %llu\nstep_ns %lld\nstep_cap %llu\n", (unsigned long long)x.k.seed, (unsigned long long)x.k.quantum, (long long)x.k.step_ns, (unsigned long long)g_cap);
	for (auto& p : x.w.params) fprintf(o, "param %s %lld\n", p.first.c_str(), (long long)p.second);
	for (auto& p : x.w.ops) fprintf(o, "op %d %d %lld %lld %lld\n", p.actor, p.kind, (long long)p.a, (long long)p.b, (long long)p.c);
	for (auto& d : x.decs) fprintf(o, "dec %llu %u %u\n", (unsigned long long)d.tick, d.kind, d.val);
	fprintf(o, "# ---- report\n");
	const char* s = x.report.c_str();
	while (*s)
	{
		size_t n = strcspn(s, "\n");
		fprintf(o, "# %.*s\n", (int)n, s);
		s += n; if (*s) ++s;
	}
	fclose(o);
}

static const sim::Family* find_family(const char* n)
{
	for (int i = 0; i < family_count(); ++i) if (!strcmp(family(i).name, n)) return &family(i);
	return nullptr;
}

static int cmd_replay(const char* path, bool verbose)
{
	FILE* in = fopen(path, "r");
	if (!in) { perror(path); return 3; }
	char line[4096];
	Failure x; std::string fam;
	uint64_t want = 0;
	while (fgets(line, sizeof line, in))
	{
		char a[256], b[256];
		long long v, v1, v2; int i1, i2; unsigned long long u; unsigned k, val;
		if (line[0] == '#') continue;
		if (sscanf(line, "family %255s", a) == 1) fam = a;
		else if (!strncmp(line, "class ", 6)) { x.cls = line + 6; while (!x.cls.empty() && x.cls.back() == '\n') x.cls.pop_back(); }
		else if (sscanf(line, "hash %llx", &u) == 1) want = u;
		else if (sscanf(line, "seed %llu", &u) == 1) x.k.seed = u;
		else if (sscanf(line, "quantum %llu", &u) == 1) x.k.quantum = u;
		else if (sscanf(line, "step_ns %lld", &v) == 1) x.k.step_ns = v;
		else if (sscanf(line, "step_cap %llu", &u) == 1) g_cap = u;
		else if (sscanf(line, "param %255s %lld", a, &v) == 2) x.w.params.emplace_back(a, v);
		else if (sscanf(line, "op %d %d %lld %lld %lld", &i1, &i2, &v, &v1, &v2) == 5) x.w.ops.push_back(Op{ i1, i2, v, v1, v2 });
		else if (sscanf(line, "dec %llu %u %u", &u, &k, &val) == 3) x.decs.push_back(Dec{ u, k, val });
		(void)b;
	}
	fclose(in);
	const sim::Family* f = find_family(fam.c_str());
	if (!f) { fprintf(stderr, "unknown family %s\n", fam.c_str()); return 3; }
	Failure o;
	bool v = run_replay(*f, x.w, x.k, x.decs, o);
	if (verbose)
	{
		uint32_t n; const sim::Ev* l = log(n);
		for (uint32_t i = 0; i < n; ++i) printf("ev %llu t=%lld thr=%d kind=%d a=%lld b=%lld c=%lld\n", (unsigned long long)l[i].seq, (long long)l[i].t, l[i].fiber, l[i].kind, (long long)l[i].a, (long long)l[i].b, (long long)l[i].c);
	}
	if (!v) { printf("replay: no violation\n"); return 0; }
	printf("replay: %s: %s\n%s", o.cls.c_str(), o.msg.c_str(), o.report.c_str());
	if (o.cls == x.cls && o.hash == want) { printf("replay: reproduced exactly (hash %llx)\n", (unsigned long long)o.hash); return 1; }
	printf("replay: DIVERGED (expected class %s hash %llx, got hash %llx)\n", x.cls.c_str(), (unsigned long long)want, (unsigned long long)o.hash);
	return 2;
}

static std::string js(const char* s)
{
	std::string r = "\"";
	for (; *s; ++s)
	{
		if (*s == '"' || *s == '\\') { r += '\\'; r += *s; }
		else if ((unsigned char)*s < 32) r += ' ';
		else r += *s;
	}
	return r + "\"";
}

// properties that share a family still see different runs
static uint64_t salt(const std::string& p) { uint64_t h = 0xcbf29ce484222325ull; for (char c : p) h = (h ^ (uint8_t)c) * 0x100000001b3ull; return h; }
// batch SEED START STRIDE COUNT SECONDS OUTPREFIX PROPERTY [minimise_seconds [vary]]
// Writes OUTPREFIX.json (statistics), OUTPREFIX.hashes (schedule shapes of non-trivial runs) and, on a
// violation, OUTPREFIX.replay.  Exit: 0 nothing found, 1 violation, 3 the machinery itself failed.
// the families a property's runs are drawn from; the volume families take every seventh run
static std::vector<const sim::Family*> families_of(const std::string& prop)
{
	std::vector<const sim::Family*> v;
	int other = 0;
	for (int k = 0; k < family_count(); ++k)
		if (prop == family(k).property || prop == family(k).name)
		{
			bool vol = !strncmp(family(k).name, "volume_", 7) && prop != family(k).name;
			if (!vol) for (int q = 0; q < 6 * family(k).weight; ++q) { v.push_back(&family(k)); ++other; }
		}
	for (int k = 0; k < family_count(); ++k)
		if (prop == family(k).property && !strncmp(family(k).name, "volume_", 7) && prop != family(k).name)
			for (int q = 0; q < other / 6 || q < 1; ++q) v.push_back(&family(k));
	return v;
}
static int cmd_batch(int argc, char** argv)
{
	if (argc < 7) return 3;
	uint64_t seed = strtoull(argv[0], 0, 10), start = strtoull(argv[1], 0, 10), stride = strtoull(argv[2], 0, 10), count = strtoull(argv[3], 0, 10);
	double secs = atof(argv[4]);
	std::string pfx = argv[5];
	std::string prop = argv[6];
	double minb = argc > 7 ? atof(argv[7]) : 40;
	std::vector<const sim::Family*> fams = families_of(prop);
	if (fams.empty()) { fprintf(stderr, "no family for %s\n", prop.c_str()); return 3; }
	double t0 = real_now();
	std::unordered_set<uint64_t> shapes;
	std::vector<std::string> samples;
	uint64_t done = 0, nontrivial = 0, detchk = 0, maxsteps = 0, nev = 0, opsn = 0;
	int64_t maxsim = 0;
	int rc = 0;
	std::string vio = "null";
	std::vector<uint64_t> famruns(family_count());
	for (uint64_t i = start; i < count; i += stride)
	{
		if (real_now() - t0 > secs) break;
		uint64_t rs = mix(seed ^ salt(prop), i);
		const sim::Family& f = *fams[mix(rs, 7) % fams.size()];
		Workload w;
		Rng g(mix(rs, 1));
		f.gen(g, w);
		Sched k = make_sched(mix(rs, 2));
		Failure x;
		bool v = run_rand(f, w, k, x);
		const RunResult& r = last_result();
		++done; famruns[&f - &family(0)]++;
		nev += r.nlog; opsn += w.ops.size();
		if (r.ssteps > maxsteps) maxsteps = r.ssteps;
		if (r.simtime > maxsim) maxsim = r.simtime;
		// non-trivial: at least two simulated threads really interleaved
		if (r.nthreads > 1 && r.switches >= 4 && r.nlog > 0)
		{
			++nontrivial;
			shapes.insert(r.shash);
		}
		if (samples.size() < 4 && (done % 7) == 1)
		{
			char b[512];
			snprintf(b, sizeof b, "run %llu: family %s, %zu operations, %d threads, %llu context switches (%llu preemptions), %llu synchronisation steps, %u events, %.6f s simulated",
				(unsigned long long)i, f.name, w.ops.size(), r.nthreads, (unsigned long long)r.switches, (unsigned long long)r.preempts, (unsigned long long)r.ssteps, r.nlog, r.simtime / 1e9);
			samples.push_back(b);
		}
		if (v || done % 16 == 1)
		{
			// determinism: the same seed twice must give the same execution
			uint64_t h = r.hash; uint64_t tk = r.ticks;
			Failure y;
			bool v2 = run_rand(f, w, k, y);
			++detchk;
			if (v2 != v || last_result().hash != h || last_result().ticks != tk || (v && y.cls != x.cls))
			{
				fprintf(stderr, "NONDETERMINISM family=%s run=%llu (%s / %s) %llx %llx\n", f.name, (unsigned long long)i, x.cls.c_str(), y.cls.c_str(), (unsigned long long)h, (unsigned long long)last_result().hash);
				rc = 3;
				break;
			}
		}
		if (v)
		{
			if (x.cls == "harness") { fprintf(stderr, "HARNESS ERROR family=%s run=%llu: %s\n%s", f.name, (unsigned long long)i, x.msg.c_str(), x.report.c_str()); rc = 3; break; }
			Failure m = minb > 0 ? minimise(f, x, minb) : x;
			Failure a, b;
			auto reproduces = [&](const Failure& m) { return run_replay(f, m.w, m.k, m.decs, a) && a.cls == m.cls && run_replay(f, m.w, m.k, m.decs, b) && b.cls == m.cls && a.hash == b.hash; };
			bool ok = reproduces(m) || reproduces(x);
			if (!ok)
			{
				fprintf(stderr, "NOT REPRODUCIBLE family=%s run=%llu class %s\n", f.name, (unsigned long long)i, x.cls.c_str());
				rc = 3;
				break;
			}
			write_replay((pfx + ".replay").c_str(), f, a, seed, i);
			char b2[256];
			snprintf(b2, sizeof b2, "{\"run\": %llu, \"ops_before\": %zu, \"ops\": %zu, \"decisions_before\": %zu, \"decisions\": %zu, ", (unsigned long long)i, x.w.ops.size(), a.w.ops.size(), x.decs.size(), a.decs.size());
			vio = std::string(b2) + "\"family\": " + js(f.name) + ", \"class\": " + js(a.cls.c_str()) + ", \"message\": " + js(a.msg.c_str()) + "}";
			rc = 1;
			break;
		}
	}
	Stats& s = stats();
	FILE* o = fopen((pfx + ".json").c_str(), "w");
	if (!o) return 3;
	fprintf(o, "{\"runs\": %llu, \"nontrivial\": %llu, \"distinct\": %zu, \"executions\": %llu, \"sync_steps\": %llu, \"ticks\": %llu, \"switches\": %llu, \"preemptions\": %llu, \"sim_ns\": %lld, \"seconds\": %.3f,\n",
		(unsigned long long)done, (unsigned long long)nontrivial, shapes.size(), (unsigned long long)s.runs, (unsigned long long)s.ssteps, (unsigned long long)s.ticks, (unsigned long long)s.switches, (unsigned long long)s.preempts, (long long)s.simtime, real_now() - t0);
	fprintf(o, " \"determinism_checks\": %llu, \"max_sync_steps\": %llu, \"max_sim_ns\": %lld, \"events\": %llu, \"operations\": %llu, \"wanted\": %llu,\n", (unsigned long long)detchk, (unsigned long long)maxsteps, (long long)maxsim, (unsigned long long)nev, (unsigned long long)opsn, (unsigned long long)((count - start + stride - 1) / stride));
	fprintf(o, " \"strategies\": {\"random_walk\": %llu, \"site_biased\": %llu, \"priority_change_points\": %llu},\n", (unsigned long long)s.strat[0], (unsigned long long)s.strat[1], (unsigned long long)s.strat[2]);
	fprintf(o, " \"faults\": {\"preemption\": %llu, \"thread_stall\": %llu, \"allocation_failure\": %llu, \"clock_jump_forward\": %llu, \"clock_jump_backward\": %llu, \"coarse_clock\": %llu", (unsigned long long)s.preempts, (unsigned long long)s.faults[0], (unsigned long long)s.faults[1], (unsigned long long)s.faults[2], (unsigned long long)s.faults[3], (unsigned long long)s.faults[4]);
	for (int i = 0; i < MAXPROBE && s.fk_name[i]; ++i) fprintf(o, ", %s: %llu", js(s.fk_name[i]).c_str(), (unsigned long long)s.fk_cnt[i]);
	fprintf(o, "},\n \"probes\": {");
	for (int i = 0; i < MAXPROBE && s.probe_name[i]; ++i) fprintf(o, "%s%s: %llu", i ? ", " : "", js(s.probe_name[i]).c_str(), (unsigned long long)s.probe_cnt[i]);
	fprintf(o, "},\n \"families\": {");
	bool first = true;
	for (int i = 0; i < family_count(); ++i) if (famruns[i]) { fprintf(o, "%s%s: %llu", first ? "" : ", ", js(family(i).name).c_str(), (unsigned long long)famruns[i]); first = false; }
	fprintf(o, "},\n \"samples\": [");
	for (size_t i = 0; i < samples.size(); ++i) fprintf(o, "%s%s", i ? ", " : "", js(samples[i].c_str()).c_str());
	fprintf(o, "],\n \"violation\": %s}\n", vio.c_str());
	fclose(o);
	o = fopen((pfx + ".hashes").c_str(), "wb");
	if (o) { for (uint64_t h : shapes) fwrite(&h, 8, 1, o); fclose(o); }
	return rc;
}

// one RUN_INDEX with its log:  one SEED INDEX PROPERTY
static int cmd_one(int argc, char** argv)
{
	if (argc < 3) return 3;
	uint64_t seed = strtoull(argv[0], 0, 10), i = strtoull(argv[1], 0, 10);
	std::string prop = argv[2];
	std::vector<const sim::Family*> fams = families_of(prop);
	uint64_t rs = mix(seed ^ salt(prop), i);
	const sim::Family& f = *fams[mix(rs, 7) % fams.size()];
	Workload w; Rng g(mix(rs, 1)); f.gen(g, w);
	for (auto& p : w.params) printf("param %s %lld\n", p.first.c_str(), (long long)p.second);
	for (auto& p : w.ops) printf("op %d %d %lld %lld %lld\n", p.actor, p.kind, (long long)p.a, (long long)p.b, (long long)p.c);
	Failure x;
	bool v = run_rand(f, w, make_sched(mix(rs, 2)), x);
	uint32_t n; const sim::Ev* l = log(n);
	for (uint32_t q = 0; q < n; ++q) printf("ev %llu t=%lld thr=%d kind=%d a=%lld b=%lld c=%lld\n", (unsigned long long)l[q].seq, (long long)l[q].t, l[q].fiber, l[q].kind, (long long)l[q].a, (long long)l[q].b, (long long)l[q].c);
	const RunResult& r = last_result();
	printf("family %s hash %llx ticks %llu ssteps %llu switches %llu sim %.6f threads %d\n", f.name, (unsigned long long)r.hash, (unsigned long long)r.ticks, (unsigned long long)r.ssteps, (unsigned long long)r.switches, r.simtime / 1e9, r.nthreads);
	if (v) printf("VIOLATION %s: %s\n%s", x.cls.c_str(), x.msg.c_str(), x.report.c_str());
	return v;
}
// hashes SEED START STRIDE COUNT PROPERTY: prints the hash of each run (cross-process determinism proof)
static int cmd_hashes(int argc, char** argv)
{
	if (argc < 5) return 3;
	uint64_t seed = strtoull(argv[0], 0, 10), start = strtoull(argv[1], 0, 10), stride = strtoull(argv[2], 0, 10), count = strtoull(argv[3], 0, 10);
	std::string prop = argv[4];
	std::vector<const sim::Family*> fams = families_of(prop);
	for (uint64_t i = start; i < count; i += stride)
	{
		uint64_t rs = mix(seed ^ salt(prop), i);
		const sim::Family& f = *fams[mix(rs, 7) % fams.size()];
		Workload w; Rng g(mix(rs, 1)); f.gen(g, w);
		Failure x;
		run_rand(f, w, make_sched(mix(rs, 2)), x);
		printf("%llu %llx %llu\n", (unsigned long long)i, (unsigned long long)last_result().hash, (unsigned long long)last_result().ticks);
	}
	return 0;
}

#ifdef COVWRITE
extern "C" int __llvm_profile_write_file(void);
#endif
int main(int argc, char** argv)
{
	simrt::init();
	if (argc >= 2 && !strcmp(argv[1], "list"))
	{
		for (int i = 0; i < family_count(); ++i) printf("%s %s\n", family(i).property, family(i).name);
		return 0;
	}
	int rc = 3;
	if (argc >= 2 && !strcmp(argv[1], "batch")) rc = cmd_batch(argc - 2, argv + 2);
	else if (argc >= 3 && !strcmp(argv[1], "replay")) rc = cmd_replay(argv[2], argc > 3);
	else if (argc >= 2 && !strcmp(argv[1], "one")) rc = cmd_one(argc - 2, argv + 2);
	else if (argc >= 2 && !strcmp(argv[1], "hashes")) rc = cmd_hashes(argc - 2, argv + 2);
	else fprintf(stderr, "usage: list | batch ... | replay FILE [-v] | one SEED INDEX PROPERTY | hashes ...\n");
	fflush(stdout);
#ifdef COVWRITE
	__llvm_profile_write_file();		// only in the coverage audit
#endif
	_exit(rc);
}

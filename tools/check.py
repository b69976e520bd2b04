#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property by seeded simulation of /repo's working tree.

Exit 0: nothing found.  Exit 1: violation (minimised, reproduced in a fresh process).  Exit 2: the check failed."""
import array, json, os, re, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from props import PROPS, STUBS, REAL
from symbolize import symbolize

VERIF = B.VERIF
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))


def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_batch(exe, fam, seed, runs, cap, outdir, tag, minimise=float(os.environ.get("VERIF_MINIMISE", "60")), start0=0):
    """runs split over WORKERS processes: worker k takes the runs k, k+WORKERS, ... of one fixed sequence"""
    ps = []
    for k in range(WORKERS):
        pfx = os.path.join(outdir, f"{tag}{k}")
        ps.append((pfx, subprocess.Popen([exe, "batch", str(seed), str(start0 + k), str(WORKERS), str(start0 + runs), str(cap), pfx, fam, str(minimise)],
                                         stdout=subprocess.DEVNULL, stderr=open(pfx + ".err", "w"), preexec_fn=limits)))
    res, bad = [], []
    deadline = time.time() + cap + minimise + 120
    hit = False
    while ps:
        time.sleep(0.02)
        rest = []
        for pfx, p in ps:
            rc = p.poll()
            if rc is None:
                if time.time() > deadline:
                    p.kill(); p.wait(); rc = -9
                else:
                    rest.append((pfx, p))
                    continue
            if rc in (0, 1) and os.path.exists(pfx + ".json"):
                r = json.load(open(pfx + ".json"))
                r["hashes"] = pfx + ".hashes"
                r["replay"] = pfx + ".replay"
                res.append(r)
                if rc == 1 and not hit:
                    # one confirmed violation is enough: stop the workers that are still searching
                    hit = True
                    deadline = min(deadline, time.time() + 20)
            elif rc == -9 and hit:
                pass
            else:
                bad.append(f"worker {pfx} ended with {rc}: " + open(pfx + ".err").read()[-3000:])
        ps = rest
    return res, bad


def merge(res):
    tot = {}
    shapes = set()
    for r in res:
        for k, v in r.items():
            if isinstance(v, (int, float)):
                if k.startswith("max_"):
                    tot[k] = max(tot.get(k, 0), v)
                else:
                    tot[k] = tot.get(k, 0) + v
            elif isinstance(v, dict) and k in ("strategies", "faults", "probes", "families"):
                d = tot.setdefault(k, {})
                for a, b in v.items():
                    d[a] = d.get(a, 0) + b
        try:
            a = array.array("Q")
            a.frombytes(open(r["hashes"], "rb").read())
            shapes.update(a)
        except OSError:
            pass
        tot.setdefault("samples", []).extend(r.get("samples", [])[:1])
    tot["distinct"] = len(shapes)
    return tot


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)) if f.get("kind") == "finding" and f["property"] == prop]


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = PROPS[prop]
    t0 = time.time()
    print(f"check {prop} tier={tier} seed={seed}", flush=True)
    try:
        exe = B.build(cfg["h"], cfg.get("flags", ()))
        variants = [("", exe)]
        if tier == "thorough":
            for name, fl in cfg.get("variants", {}).items():
                variants.append((name, B.build(cfg["h"], tuple(cfg.get("flags", ())) + tuple(fl))))
    except B.BuildError as e:
        print(e)
        return 2
    tbuild = time.time() - t0
    runs = cfg["runs"]
    cap = cfg.get("cap", 200)
    if tier == "thorough":
        runs = int(os.environ.get("VERIF_THOROUGH_RUNS", runs * 40))
        cap = float(os.environ.get("VERIF_THOROUGH_SECONDS", 1800))
    if os.environ.get("VERIF_RUNS"):
        runs = int(os.environ["VERIF_RUNS"])
    outdir = tempfile.mkdtemp(prefix=f"librf-sim-{prop}-")
    rc = 0
    try:
        res, bad, vio = [], [], []
        t1 = time.time()
        for i, (vn, vexe) in enumerate(variants):
            n = runs if i == 0 else runs // 4
            r, b = run_batch(vexe, prop, seed, n, cap, outdir, f"v{i}-")
            res += r
            bad += b
            vio += [(x, vexe, vn) for x in r if x["violation"]]
            if vio:
                break
        twall = time.time() - t1
        # listed findings: dedicated families that show exactly the listed behaviour
        for f in known_findings(prop):
            r, b = run_batch(exe, f["family"], seed, f.get("runs", 400), 60, outdir, "k-" + f["family"], minimise=0)
            bad += b
            seen = [x["violation"] for x in r if x["violation"]]
            match = [v for v in seen if v["class"] in f["classes"]]
            other = [x for x in r if x["violation"] and x["violation"]["class"] not in f["classes"]]
            if match:
                print(f"KNOWN-FINDING: property={prop} {f['what']}")
            vio += [(x, exe, "") for x in other]
        if vio:
            # the smallest replay first
            vio.sort(key=lambda x: (x[0]["violation"]["ops"], x[0]["violation"]["decisions"]))
            x, vexe, vn = vio[0]
            p = subprocess.run([vexe, "replay", x["replay"]], capture_output=True, text=True, timeout=300)
            if p.returncode != 1:
                print(f"violation did not reproduce in a fresh process (rc {p.returncode}): {x['violation']}\n{p.stdout[-2000:]}")
                return 2
            rd = os.path.join(VERIF, "replays")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, f"{prop}-{seed}-{x['violation']['run']}.replay")
            shutil.copy(x["replay"], path)
            report = symbolize(vexe, p.stdout)
            with open(path, "a") as f:
                f.write(f"# binary {vexe} variant '{vn}' repo {B.REPO}\n# replay with: python3 tools/replay.py {prop} {path}\n")
                for line in report.splitlines():
                    f.write("# " + line + "\n")
            print(report)
            v = x["violation"]
            print(f"minimised: operations {v['ops_before']} -> {v['ops']}, scheduling/fault decisions {v['decisions_before']} -> {v['decisions']}")
            print(f"VIOLATION property={prop} replay={path}", flush=True)
            rc = 1
        elif bad:
            print("\n".join(bad))
            rc = 2
        tot = merge(res)
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": int(tot.get("runs", 0)),
                "distinct_nontrivial": int(tot.get("distinct", 0)),
                "rule": "one evaluation = one simulated run: workload, schedule and faults all derived from (VERIF_SEED, run index). "
                        "Non-trivial = at least two simulated threads with >= 4 context switches and a non-empty history; distinct = "
                        "distinct hashes of the sequence (thread switched to, code address it was switched at) of the whole run.",
                "samples": tot.get("samples", [])[:8],
                "nontrivial_runs": int(tot.get("nontrivial", 0)),
                "runs_requested": int(tot.get("wanted", 0)),
                "executions_including_replays": int(tot.get("executions", 0)),
                "runs_per_hour": int(tot.get("runs", 0) / max(twall, 1e-9) * 3600),
                "seeds_per_hour": int(tot.get("runs", 0) / max(twall, 1e-9) * 3600),
                "simulated_seconds": tot.get("sim_ns", 0) / 1e9,
                "longest_run_simulated_seconds": tot.get("max_sim_ns", 0) / 1e9,
                "synchronisation_points": int(tot.get("sync_steps", 0)),
                "memory_access_points": int(tot.get("ticks", 0)),
                "context_switches": int(tot.get("switches", 0)),
                "recorded_history_events": int(tot.get("events", 0)),
                "workload_operations": int(tot.get("operations", 0)),
                "same_seed_twice_comparisons": int(tot.get("determinism_checks", 0)),
                "strategies": tot.get("strategies", {}),
                "faults_injected": tot.get("faults", {}),
                "probes_reached": tot.get("probes", {}),
                "families": tot.get("families", {}),
                "variants": [v for v, _ in variants],
                "components_real": REAL,
                "components_stubbed": STUBS,
                "build_seconds": round(tbuild, 2),
            },
            "assumptions": [
                "sampled, not enumerated: a clean batch is evidence, not proof",
                "sequentially consistent execution of one simulated thread at a time; weak-memory effects are covered only as data races found by the happens-before detector, which honours the memory orders used",
                "the library is compiled for the simulator with clang++-16 -O0 and assertions on, as the pinned build does",
            ],
            "wall_s": round(time.time() - t0, 3),
            "violations": len(vio),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", f".{prop}.{os.getpid()}")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.rename(tmp, os.path.join(VERIF, "evidence", prop + ".json"))
        if rc == 0:
            print(f"{prop}: held on {ev['coverage']['evaluations']} simulated runs, {ev['coverage']['distinct_nontrivial']} distinct interleavings, {ev['wall_s']} s")
        return rc
    finally:
        shutil.rmtree(outdir, ignore_errors=True)
        B.prune()


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception as e:
        import traceback
        traceback.print_exc()
        sys.exit(2)

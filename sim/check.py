"""Command line of the simulator.

  check.py --property C01 --tier quick|thorough      explore seeds, write evidence
  check.py --replay FILE                             re-run one recorded violation
  check.py --selftest                                determinism self-test
"""
from __future__ import annotations

import argparse
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PYTHON = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True


def pick_scratch():
    for base in ("/dev/shm", "/tmp"):
        try:
            d = tempfile.mkdtemp(prefix="tsim-", dir=base)
            st = os.statvfs(d)
            if st.f_bavail * st.f_frsize < (1 << 29):
                shutil.rmtree(d)
                continue
            return d
        except OSError:
            continue
    raise SystemExit("no scratch directory")


def build_shim(scratch):
    so = os.path.join(scratch, "shim.so")
    subprocess.run(["gcc", "-O2", "-fPIC", "-shared", "-fno-builtin", "-U_FORTIFY_SOURCE", "-w",
                    "-o", so, os.path.join(HERE, "shim.c"), "-ldl", "-lpthread"], check=True)
    return so


class Worker:
    def __init__(self, n, scratch, so, hashseed):
        self.n = n
        self.hashseed = hashseed
        r, w = os.pipe()
        env = {k: v for k, v in os.environ.items()
               if not k.startswith(("PYTHON", "OMP_", "MKL_", "MPL", "LD_"))}
        env.update({
            "LD_PRELOAD": so, "PYTHONHASHSEED": str(hashseed), "PYTHONDONTWRITEBYTECODE": "1",
            "OMP_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
            "NUMEXPR_NUM_THREADS": "1", "MPLBACKEND": "Agg", "SIM_OUT_FD": str(w),
            "MPLCONFIGDIR": os.path.join(scratch, f"mpl{n}"), "HOME": os.path.join(scratch, "home"),
            "SIM_SCRATCH": os.path.join(scratch, f"w{n}"), "TZ": "UTC", "LC_ALL": "C.UTF-8",
            "MALLOC_ARENA_MAX": "1",
        })
        os.makedirs(env["MPLCONFIGDIR"], exist_ok=True)
        os.makedirs(env["HOME"], exist_ok=True)
        self.log = open(os.path.join(scratch, f"worker{n}.log"), "w+b")
        self.p = subprocess.Popen([PYTHON, "-B", "-u", "-m", "sim.worker"], cwd=VERIF, env=env,
                                  stdin=subprocess.PIPE, stdout=self.log, stderr=self.log,
                                  pass_fds=[w], text=True)
        os.close(w)
        self.rd = os.fdopen(r, "r")
        self.lock = threading.Lock()
        self.jid = 0

    def ready(self):
        line = self.rd.readline()
        if not line:
            self.log.seek(0)
            raise RuntimeError("worker failed to start:\n" + self.log.read().decode(errors="replace")[-3000:])

    def call(self, job):
        with self.lock:
            self.jid += 1
            job = dict(job, id=self.jid)
            try:
                self.p.stdin.write(json.dumps(job) + "\n")
                self.p.stdin.flush()
            except OSError:
                pass
            line = self.rd.readline()
            if not line:
                self.log.seek(0)
                return {"error": "worker died:\n" + self.log.read().decode(errors="replace")[-3000:],
                        "died": True}
            return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(timeout=20)
        except Exception:
            self.p.kill()
            self.p.wait()
        self.rd.close()
        self.log.close()


class Pool:
    def __init__(self, n, scratch, so, vseed):
        self.ws = [Worker(i, scratch, so, (vseed * 1000003 + i * 7919 + 1) % 4294967296) for i in range(n)]
        for w in self.ws:
            w.ready()

    def close(self):
        for w in self.ws:
            try:
                w.p.stdin.close()
            except OSError:
                pass
        for w in self.ws:
            w.close()


def known_findings(pid):
    try:
        with open(os.path.join(VERIF, "KNOWN_FINDINGS.json")) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [e for e in data.get("known", []) if e["property"] == pid]


def is_known(v, known):
    for e in known:
        if v["cls"] == e["cls"] and re.search(e.get("detail_re", ""), v["detail"]):
            return e
    return None


def explore(pid, tier, vseed, jobs, scratch, so, count=None, wall=None, quiet=False):
    from sim.props import meta
    m = meta(pid)
    total = count or int(os.environ.get("VERIF_RUNS", 0)) or m["count"][tier]
    cap = wall or float(os.environ.get("VERIF_WALL", 0)) or m["wall"][tier]
    chunk = m.get("chunk", 8)
    t0 = time.monotonic()
    pool = Pool(jobs, scratch, so, vseed)
    t_start = time.monotonic() - t0
    deadline = time.time() + cap
    known = known_findings(pid)
    lock = threading.Lock()
    nxt = [0]
    twins = []
    twin_n = max(8, total // 20) if jobs > 1 else 0
    results = {}
    errors = []
    stop = threading.Event()
    mism = []
    twin_done = [0]

    def feeder(w):
        while not stop.is_set():
            job = None
            with lock:
                for k, (ix, ex) in enumerate(twins):
                    if ex != w.n:
                        job = ("twin", twins.pop(k)[0])
                        break
                if job is None and nxt[0] < total and time.time() < deadline:
                    lo = nxt[0]
                    hi = min(total, lo + chunk)
                    nxt[0] = hi
                    job = ("run", list(range(lo, hi)))
            if job is None:
                return
            r = w.call({"kind": "seeds", "prop": pid, "tier": tier, "vseed": vseed, "idx": job[1],
                        "deadline": deadline})
            with lock:
                if "error" in r:
                    errors.append(r["error"])
                    if r.get("died"):
                        return
                    continue
                for o in r["runs"]:
                    if "error" in o:
                        errors.append(f"run {o['i']}: " + o["error"])
                        if len(errors) > 20:
                            stop.set()
                        continue
                    if job[0] == "run":
                        o["worker"] = w.n
                        o["hashseed"] = w.hashseed
                        results[o["i"]] = o
                        if o["i"] < twin_n:
                            twins.append(([o["i"]], w.n))
                        if any(not is_known(v, known) for v in o["violations"]):
                            stop.set()
                    else:
                        twin_done[0] += 1
                        a = results[o["i"]]
                        if a["outcome"] != o["outcome"] and o["outcome"] is not None:
                            a["violations"].append({
                                "cls": "outcome-differs-across-processes",
                                "detail": f"seed {o['seed']}: same seed and schedule, hash seeds "
                                          f"{a['hashseed']} and {w.hashseed}: {a['outcome']} != {o['outcome']}"})
                            a["twin_hashseeds"] = [a["hashseed"], w.hashseed]
                            a.setdefault("scn", None)
                            stop.set()
                        elif a["digest"] != o["digest"]:
                            mism.append([o["i"], a["hashseed"], w.hashseed])

    ths = [threading.Thread(target=feeder, args=(w,)) for w in pool.ws]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    # twins left over when a worker ended early
    explored = time.monotonic() - t0 - t_start
    bad = {}
    known_hit = {}
    for i in sorted(results):
        for v in results[i]["violations"]:
            e = is_known(v, known)
            if e:
                known_hit[e["id"]] = known_hit.get(e["id"], 0) + 1
            else:
                bad.setdefault(v["cls"], []).append((i, v))
    reports = []
    if bad:
        order = sorted(bad, key=lambda c: bad[c][0][0])[:2]
        for cls in order:
            i, v = bad[cls][0]
            r = results[i]
            w = pool.ws[r["worker"]]
            rep = {"property": pid, "class": cls, "detail": v["detail"], "seed": r["seed"], "index": i,
                   "verif_seed": vseed, "tier": tier, "hashseed": r["hashseed"], "scenario": r.get("scn"),
                   "plan": r.get("plan")}
            if cls != "outcome-differs-across-processes":
                mr = w.call({"kind": "minimise", "prop": pid, "scn": r["scn"], "plan": r["plan"],
                             "cls": cls, "budget": 150, "deadline": time.time() + 60})
                if "error" in mr:
                    rep["minimise_error"] = mr["error"]
                elif mr["reproduced"] or any(x["cls"] == cls for x in mr["violations"]):
                    rep.update(scenario=mr["scn"], plan=mr["plan"], digest=mr["digest"],
                               minimise_runs=mr["tests"], trace=mr["trace"][-400:],
                               minimised_detail=[x["detail"] for x in mr["violations"] if x["cls"] == cls][:1])
                    rr = w.call({"kind": "plan", "prop": pid, "scn": mr["scn"], "plan": mr["plan"]})
                    rep["replay_reproduces"] = rr.get("digest") == mr["digest"] and any(
                        x["cls"] == cls for x in rr.get("violations", []))
                else:
                    rep["replay_reproduces"] = False
            else:
                rep["twin_hashseeds"] = r["twin_hashseeds"]
            rd = os.path.join(os.environ.get("VERIF_REPLAYS", os.path.join(VERIF, "replays")), pid)
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, f"{re.sub(r'[^A-Za-z0-9_.-]+', '_', cls)[:60]}-{vseed}-{i}.json")
            with open(path, "w") as f:
                json.dump(rep, f, indent=1, default=str)
            reports.append((cls, v, path, rep))
    pool.close()
    return {
        "meta": m, "results": results, "errors": errors, "reports": reports, "mismatch": mism,
        "twins": twin_done[0], "explored_s": explored, "start_s": t_start,
        "wall": time.monotonic() - t0, "known": known, "known_hit": known_hit, "total": total,
        "bad": {k: len(v) for k, v in bad.items()},
    }


def write_evidence(pid, tier, vseed, jobs, R):
    m = R["meta"]
    res = R["results"]
    stats, probes = {}, {}
    sim_ns = steps = 0
    sigs, outs, nontriv = set(), set(), set()
    for r in res.values():
        for k, v in r["stats"].items():
            stats[k] = stats.get(k, 0) + v
        for k, v in r["probes"].items():
            probes[k] = probes.get(k, 0) + v
        sim_ns += r["sim_ns"]
        steps += r["steps"]
        sigs.add(r["sig"])
        outs.add(r["digest"])
        if r["nontrivial"]:
            nontriv.add(r["digest"])
    faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault.")}
    benign = {k[7:]: v for k, v in sorted(stats.items()) if k.startswith("benign.")}
    other = {k: v for k, v in sorted(stats.items()) if not k.startswith(("fault.", "benign."))}
    n = len(res)
    sample_ix = sorted(res)[:: max(1, n // 6)][:6]
    samples = [{"index": i, "seed": res[i]["seed"], "hashseed": res[i]["hashseed"],
                "steps": res[i]["steps"], "digest": res[i]["digest"],
                "faults": {k: v for k, v in res[i]["stats"].items() if k.startswith("fault.")},
                "probes": res[i]["probes"]} for i in sample_ix]
    dur = max(R["explored_s"], 1e-9)
    ev = {
        "property": pid, "tier": tier, "seed": vseed, "level": m["level"],
        "coverage": {
            "evaluations": n,
            "distinct_nontrivial": len(nontriv),
            "rule": m["rule"],
            "samples": samples,
            "runs_requested": R["total"],
            "runs_per_hour": int(n / dur * 3600),
            "seeds_per_hour": int(n / dur * 3600),
            "simulated_seconds": round(sim_ns / 1e9, 3),
            "simulated_operations": steps,
            "faults_injected": faults,
            "benign_nondeterminism": benign,
            "counters": other,
            "distinct_interleavings": len(sigs),
            "interleaving_measure": m["measure"],
            "distinct_executions": len(outs),
            "probes": dict(sorted(probes.items())),
            "twin_runs": R["twins"],
            "twin_digest_mismatches": len(R["mismatch"]),
            "workers": jobs,
            "components": m["components"],
            "known_findings_hit": R["known_hit"],
        },
        "assumptions": m["assumptions"],
        "wall_s": round(R["wall"], 2),
        "violations": sum(R["bad"].values()),
    }
    ed = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
    os.makedirs(ed, exist_ok=True)
    tmp = os.path.join(ed, f".{pid}.json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(ed, f"{pid}.json"))


def cmd_check(a):
    vseed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    jobs = a.jobs
    scratch = pick_scratch()
    try:
        so = build_shim(scratch)
        R = explore(a.property, tier, vseed, jobs, scratch, so, a.runs, a.wall)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    write_evidence(a.property, tier, vseed, jobs, R)
    n = len(R["results"])
    print(f"{a.property} {tier}: {n}/{R['total']} runs in {R['wall']:.1f}s "
          f"(start {R['start_s']:.1f}s), twins {R['twins']}, digest mismatches {len(R['mismatch'])}")
    if R["mismatch"]:
        print("note: executions that differed between twin processes:", R["mismatch"][:5])
    for e in R["known"]:
        print(f"KNOWN-FINDING: property={a.property} {e['what']}")
    if R["reports"]:
        for cls, v, path, rep in R["reports"]:
            print(f"violation class {cls}: {v['detail'][:600]}")
            print(f"  seed {rep['seed']} plan {json.dumps(rep.get('plan'))[:400]} "
                  f"reproduces={rep.get('replay_reproduces')}")
            print(f"VIOLATION property={a.property} replay={path}")
        return 1
    if R["errors"]:
        print(f"harness errors: {len(R['errors'])}")
        for e in R["errors"][:3]:
            print(e)
        return 2
    m = R["meta"]
    if n < m.get("min_runs", 1):
        print("too few runs completed")
        return 2
    if n == R["total"]:
        probes = {}
        for r in R["results"].values():
            for k, v in r["probes"].items():
                probes[k] = probes.get(k, 0) + v
        cold = [p for p in m.get("required_probes", []) if not probes.get(p)]
        if cold:
            print("note: probes never reached:", ", ".join(cold))
    return 0


def cmd_replay(a):
    with open(a.replay) as f:
        rep = json.load(f)
    scratch = pick_scratch()
    try:
        so = build_shim(scratch)
        pid = rep["property"]
        if rep["class"] == "outcome-differs-across-processes":
            outs = []
            for k, hs in enumerate(rep["twin_hashseeds"]):
                w = Worker(k, scratch, so, hs)
                w.ready()
                r = w.call({"kind": "seedtrace", "prop": pid, "seed": rep["seed"], "tier": rep["tier"]})
                outs.append(r.get("outcome"))
                w.close()
            print(json.dumps(outs)[:2000])
            if outs[0] != outs[1]:
                print(f"VIOLATION property={pid} replay={a.replay}")
                return 1
            return 0
        w = Worker(0, scratch, so, rep["hashseed"])
        w.ready()
        r = w.call({"kind": "plan", "prop": pid, "scn": rep["scenario"], "plan": rep["plan"]})
        w.close()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if "error" in r:
        print(r["error"])
        return 2
    if a.verbose:
        for t in r["trace"]:
            print(t)
    hit = [v for v in r["violations"] if v["cls"] == rep["class"]]
    for v in r["violations"]:
        print(f"{v['cls']}: {v['detail'][:800]}")
    print(f"digest {r['digest']} recorded {rep.get('digest')} "
          f"{'identical' if r['digest'] == rep.get('digest') else 'different'}")
    if hit:
        print(f"VIOLATION property={pid} replay={a.replay}")
        return 1
    return 0


def cmd_seed(a):
    """Debug: run one index and print its trace."""
    vseed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from sim import engine
    scratch = pick_scratch()
    try:
        so = build_shim(scratch)
        w = Worker(0, scratch, so, 0)
        w.ready()
        r = w.call({"kind": "seedtrace", "prop": a.property, "tier": a.tier or "quick",
                    "seed": engine.seed_int(vseed, a.property, a.index)})
        w.log.seek(0)
        log = w.log.read().decode(errors="replace")
        w.close()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if "error" in r:
        print(r["error"])
        print(log[-2000:])
        return 2
    print(json.dumps(r.get("scn"))[:3000])
    if a.verbose:
        for t in r["trace"]:
            print(t)
    for k in ("digest", "steps", "stats", "probes", "outcome", "violations", "plan", "wall"):
        print(k, json.dumps(r.get(k))[:3000])
    print(log[-3000:])
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier")
    ap.add_argument("--replay")
    ap.add_argument("--index", type=int)
    ap.add_argument("--runs", type=int)
    ap.add_argument("--wall", type=float)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", min(8, os.cpu_count() or 4))))
    ap.add_argument("-v", "--verbose", action="store_true")
    a = ap.parse_args()
    if a.replay:
        return cmd_replay(a)
    if a.index is not None:
        return cmd_seed(a)
    return cmd_check(a)


if __name__ == "__main__":
    sys.exit(main())

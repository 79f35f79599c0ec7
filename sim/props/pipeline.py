"""Scripted scenes: the example programs as whole-system workloads (C19)."""
from __future__ import annotations

import hashlib
import json
import os

from sim import corpora, engine
from sim.netmodel import NetModel
from sim.props.builder import (ASSUME, MEASURE, BuilderProp, compare_exc, diff, snapshot)
from sim.props.render import complete, gen_viz_faults

ALL = ["aew", "ahw", "aup", "awb", "axb", "bdl", "clb", "eey", "fem", "gka", "jmk", "ksp", "ljm", "lnh", "rms", "rxr", "slp", "slt"]
COMPONENTS = {
    "real": ["examples/*.py and everything they call (corpus access, sampling, simulation, convolution, outputs, rendering, logging)",
             "torch, numpy, soundfile/libsndfile, matplotlib (Agg), Pillow, argparse, urllib/http.client", "the kernel's tmpfs"],
    "stub": ["archive server (model)", "plot resolution capped at 30 dpi", "clock, sleep, pid, getrandom (virtual)"],
}


def gen_prog(rng):
    kind = rng.choice(["static.py", "dynamic_src.py", "dynamic_mic.py", "cli.py", "cli.py", "cli.py",
                       "build_dynamic_dataset.py", "build_dynamic_dataset.py"])
    p = {"script": kind, "k": rng.choice([1, 1, 2, 3]), "seed": rng.randrange(1000), "duration": rng.choice([0.01, 0.02, 0.04]),
         "room": rng.choice([[6.0, 4.0, 3.0], [6.0, 4.0, 3.0], [8.0, 7.0, 4.0], [7.0, 5.0]]),
         "order": rng.randrange(0, 3), "tmax": rng.choice([0.005, 0.01, 0.02])}
    if kind == "cli.py":
        p["mode"] = rng.choice(["static", "dynamic_src", "dynamic_mic"])
        if rng.random() < 0.3:
            p["deterministic"] = True
    else:
        p["mics"] = rng.choice([1, 2, 2, 3])
    if kind != "static.py":
        p["steps"] = rng.choice([2, 3, 4, 5])
    if kind in ("dynamic_src.py", "build_dynamic_dataset.py"):
        p["moving"] = rng.randrange(0, p["k"] + 1)
    if kind == "build_dynamic_dataset.py":
        p["scenes"] = rng.choice([1, 2, 2, 3])
        p["dataset"] = rng.choice(["cmu", "libri"])
    return p


def argv(p, corpus, out, download, over):
    a = ["--dataset-dir", corpus, "--num-sources", str(p["k"]), "--duration", repr(p["duration"]), "--seed", str(p["seed"]),
         "--room", *map(repr, p["room"]), "--order", str(p["order"]), "--tmax", repr(p["tmax"]), "--out-dir", out]
    if p["script"] == "build_dynamic_dataset.py":
        if download:
            a.append("--download")
    elif not download:
        a.append("--no-download")
    for k, o in (("mode", "--mode"), ("mics", "--num-mics"), ("steps", "--steps"), ("moving", "--num-moving-sources")):
        if k in p:
            a += [o, str(p[k])]
    if p.get("deterministic"):
        a.append("--deterministic")
    if p["script"] == "build_dynamic_dataset.py":
        a += ["--num-scenes", str(over.get("scenes", p["scenes"])), "--dataset", "cmu_arctic" if p["dataset"] == "cmu" else "librispeech",
              "--subset", "dev-clean"]
    if over.get("plot"):
        a.append("--plot")
        if p["script"] == "cli.py":
            a.append("--gif")
    if over.get("level"):
        a += ["--log-level", over["level"]]
    return a


def scenes_of(p, n=None):
    k = p["k"]
    if p["script"] == "cli.py":
        b = p["mode"] + "_binaural"
        return [{"mix": b + ".wav", "meta": b + "_metadata.json", "refs": [], "k": k, "order": p["order"]}]
    if p["script"] == "build_dynamic_dataset.py":
        names = [f"scene_{i:03d}" for i in range(n or p["scenes"])]
    else:
        names = [p["script"][:-3]]
    return [{"mix": b + ".wav", "meta": b + "_metadata.json", "refs": [f"{b}_ref{i + 1:02d}.wav" for i in range(k)], "k": k,
             "order": p["order"]} for b in names]


def outputs(base, names):
    """name -> digest; the options recorded in the metadata that do not describe the scene are left out."""
    out = {}
    for n in names:
        try:
            with open(os.path.join(base, n), "rb") as f:
                data = f.read()
        except OSError:
            continue
        if n.endswith(".json"):
            try:
                m = json.loads(data)
                args = (m.get("extra") or {}).get("args")
                if isinstance(args, dict):
                    for k in ("out_dir", "dataset_dir", "plot", "gif", "log_level", "download", "num_scenes"):
                        args.pop(k, None)
                data = json.dumps(m).encode()
            except ValueError:
                pass
        out[n] = hashlib.sha256(data).hexdigest()[:20]
    return out


class Programs(BuilderProp):
    """C19"""
    META = {
        "level": "exploration", "count": {"quick": 1200, "thorough": 24000}, "wall": {"quick": 80, "thorough": 780},
        "chunk": 4, "min_runs": 60,
        "rule": "a seeded example program, arguments and corpus (on disk or behind the simulated archive server): one undisturbed "
                "run checked against the corpus and a recomputation from its own metadata, then 1-3 further runs, some at the same "
                "time, with other listing orders, locales, path spellings, random states, plotting, a saved configuration, or "
                "with disk faults, network faults, plotting faults and crashes, and a last undisturbed run over the debris; "
                "non-trivial = another run's outputs were compared, or a fault was injected",
        "measure": MEASURE, "components": COMPONENTS, "assumptions": ASSUME,
        "required_probes": ["compared", "checked", "raised", "crashed", "returned_after_fault", "after_debris", "config", "rendered",
                            "downloaded", "earlier_runs"],
    }

    def gen(self, rng, tier, seed):
        p = gen_prog(rng)
        libri = p.get("dataset") == "libri"
        if libri:
            spec = {"kind": "libri", "seed": rng.randrange(50), "units": ["dev-clean"], "n": rng.choice([1, 2, 3]), "nspk": 4,
                    "nchap": rng.choice([1, 2]), "len": [40, rng.choice([200, 700])], "stray": rng.random() < 0.3}
        else:
            spec = {"kind": "cmu", "seed": rng.randrange(50), "units": ALL, "n": rng.choice([1, 2, 3]),
                    "len": [40, rng.choice([200, 700])], "fs": 16000, "stray": rng.random() < 0.3}
        online = rng.random() < 0.25
        f = {"perm": True, "max": rng.choice([1, 1, 2])}
        r = rng.random()
        if r < 0.35:
            f["crash"] = rng.choice([0.003, 0.01, 0.03])
        elif r < 0.75:
            f["err"] = rng.choice([0.003, 0.01, 0.03])
            if rng.random() < 0.5:
                f["only"] = rng.choice([r"\.json$", r"\.wav$", r"^work/", r"^corpus/", r"txt$", r"\.(png|gif)$"])
                f["err"] = 0.1
        else:
            f["crash"] = f["err"] = 0.006
        if rng.random() < 0.5:
            f["short"] = rng.choice([0.05, 0.4])
        scn = {"spec": spec, "prog": p, "cfg": {}, "cfg_fixed": True, "faults": f, "online": online,
               "sched": {"p": rng.choice([0.05, 0.3, 0.7])},
               "net": {"soft_p": rng.choice([0, 0.3]), "fault_p": rng.choice([0, 0.3, 0.6]) if online else 0.0},
               "phases": [{"keep": True, "nodes": [{"name": "ref", "out": "ref", "job": "program", "opts": {}, "over": {}}]},
                          {"nodes": [{"name": "check", "out": "ref", "job": "check"}]}]}
        nodes = []
        for i in range(rng.choice([1, 1, 2])):
            o, ov = {}, {}
            if rng.random() < 0.5:
                o["perturb"] = rng.randrange(1, 1 << 20)
            if rng.random() < 0.2 and not online:
                scn["other"] = dict(spec, seed=spec["seed"] + 1, n=max(1, spec["n"] + rng.choice([-1, 0, 1])))
                o["before"] = []
                for _ in range(rng.choice([1, 1, 2])):
                    q = gen_prog(rng)
                    while (q.get("dataset") == "libri") != libri:
                        q = gen_prog(rng)
                    o["before"].append({"prog": q, "other": rng.random() < 0.7})
            if rng.random() < (0.2 if p["script"] == "cli.py" else 0.12):
                ov["plot"] = True
                if rng.random() < 0.6:
                    o["viz_faults"] = gen_viz_faults(rng, 1.0)
            if "scenes" in p and rng.random() < 0.3:
                ov["scenes"] = max(1, p["scenes"] + rng.choice([-1, 1]))
            if p["script"] == "cli.py" and rng.random() < 0.4:
                ov["config"] = rng.choice(["json", "yaml"])
            if rng.random() < 0.3:
                ov["level"] = rng.choice(["DEBUG", "WARNING", "ERROR"])
            nodes.append({"name": f"v{i}", "out": f"v{i}", "job": "program", "opts": o, "over": ov})
        if rng.random() < 0.75:
            dead = [dict(n, name=f"f{i}", out=f"f{i}", over=dict(n["over"], config=None)) for i, n in enumerate(nodes)]
            if rng.random() < 0.3:
                dead[0]["over"]["plot"] = True
            scn["phases"].append({"faults": True, "nodes": dead})
            nodes[0] = dict(nodes[0], out="f0")
        scn["phases"].append({"nodes": nodes})
        return scn

    # -- the world -------------------------------------------------------------
    def lay_corpus(self, scn, c, cmu):
        if scn["online"]:
            return
        base = os.path.join(cmu, "ARCTIC") if scn["spec"]["kind"] == "cmu" else cmu
        for u in scn["spec"]["units"]:
            corpora.install(base, c["archives"][u])

    def make_net(self, scn, c, decider):
        arch = {}
        if scn["online"]:
            arch = Lazy(scn["spec"]["kind"], c["archives"])
        return NetModel(decider, arch, **scn["net"])

    corpus_fixed = False

    def spawn_other(self, w, n, target, st):
        from sim import work_pipe
        scn = st["scn"]
        p = scn["prog"]
        if n["job"] == "check":
            truth = st["c"]["truth"]
            if scn["spec"]["kind"] == "libri":
                t = truth["dev-clean"]
                truth = {}
                for utt, _, spk, _ in t["sentences"]:
                    truth.setdefault(spk, {"samples": {}, "fs": t["fs"]})["samples"][utt] = t["samples"][utt]
            if "ret" in st["results"].get("ref", {}):
                w.spawn(n["name"], work_pipe.check, scenes_of(p), target, truth, p["duration"])
            else:
                w.spawn(n["name"], work_pipe.check, [], target, {}, p["duration"])
            return
        ov = n["over"]
        corpus, out = w.path(n["name"], st["cmu"]), w.path(n["name"], target)
        a = argv(p, corpus, out, scn["online"], ov)
        if n["opts"].get("before"):
            n = dict(n, opts=dict(n["opts"]))
            n["opts"]["before"] = [
                (b["prog"]["script"], argv(b["prog"], os.path.join(st["run_root"], "other") if b["other"] else st["cmu"],
                                           f"{target}-before{i}", False, {"level": "INFO"} if i else {}))
                for i, b in enumerate(n["opts"]["before"])]
        if ov.get("config"):
            # write a configuration in a first run, then run from it
            cfgp = os.path.join(st["run_root"], "work", n["name"] + "." + ov["config"])
            a = {"first": [*a, "--config-out", cfgp], "then": ["--config-in", cfgp, "--out-dir", out]}
            w.spawn(n["name"], two_runs, p["script"], a["first"], a["then"], n["opts"], target)
            return
        w.spawn(n["name"], work_pipe.program, p["script"], a, n["opts"])

    def names(self, scn, ov):
        out = []
        for s in scenes_of(scn["prog"], ov.get("scenes")):
            out += [s["mix"], s["meta"], *s["refs"]]
        return out + ["ATTRIBUTION.txt"]

    def after_phase(self, st, pi, ph):
        out = st["out"]
        for n in ph["nodes"]:
            r = st["results"][n["name"]]
            base = os.path.join(st["run_root"], "work", n["out"])
            if n["name"] == "ref":
                st["ref"] = r
                st["refs"] = outputs(base, self.names(st["scn"], {}))
                out.outcome = hashlib.sha256(json.dumps([st["refs"], (r.get("exc") or {}).get("exc")], sort_keys=True).encode()).hexdigest()[:16]
                if "exc" in r and r["exc"]["exc"] not in ("ValueError", "RuntimeError"):
                    out.violate("program-failed", f"an undisturbed run raised {r['exc']['exc']}: {r['exc']['msg']} at {r['exc']['frames'][-3:]}")
                if "ret" in r and set(st["refs"]) != set(self.names(st["scn"], {})):
                    out.violate("output-missing", f"a run that ended normally wrote {sorted(st['refs'])} instead of "
                                                  f"{sorted(self.names(st['scn'], {}))}")
                if st["scn"]["online"]:
                    out.probe("downloaded")
            elif n["job"] == "check":
                if isinstance(r, dict):
                    if "exc" in r:
                        out.violate("inconsistent-scene", f"the outputs could not be read back: {r['exc']['exc']}: {r['exc']['msg']} "
                                                          f"at {r['exc']['frames'][-3:]}")
                elif "ret" in st.get("ref", {}):
                    out.probe("checked")
                    for x in r[:3]:
                        out.violate("inconsistent-scene", x)
            else:
                self.judge_run(st, n, r, base)

    def judge_run(self, st, n, r, base):
        out, ref, ov = st["out"], st.get("ref"), n["over"]
        node = st["w"].nodes[n["name"]]
        if ref is None or ref.get("crashed"):
            return
        if r.get("crashed"):
            out.probe("crashed")
            return
        netf = st["scn"]["online"] and st["phase"].get("faults")
        if "exc" in r:
            out.probe("raised")
            if not node.faulted and not netf and not compare_exc(ref, r) and (
                    "exc" not in ref or ov.get("scenes", 0) <= st["scn"]["prog"].get("scenes", 0)):
                out.violate("program-failed", f"{n['name']} raised without a fault: {r['exc']['exc']}: {r['exc']['msg']} at "
                                              f"{r['exc']['frames'][-3:]}")
            return
        k = ov.get("scenes", st["scn"]["prog"].get("scenes"))
        k0 = st["scn"]["prog"].get("scenes")
        if "exc" in ref:
            if k is None or k >= k0:
                out.violate("outcome-differs", f"{n['name']} ended normally, the reference raised {ref['exc']['exc']}")
            return
        if node.faulted or r.get("fired"):
            out.probe("returned_after_fault")
        want = st["refs"]
        have = outputs(base, self.names(st["scn"], ov))
        if set(have) != set(self.names(st["scn"], ov)):
            out.violate("output-missing", f"{n['name']} ended normally (faults {node.faulted}) without "
                                          f"{sorted(set(self.names(st['scn'], ov)) - set(have))[:4]}")
        if k is not None and k != k0:
            common = set(want) & set(have)
            want = {x: v for x, v in want.items() if x in common}
            have = {x: v for x, v in have.items() if x in common}
        out.probe("compared")
        st["compared"] = True
        if ov.get("config"):
            out.probe("config")
        if n["opts"].get("before"):
            out.probe("earlier_runs")
        if n["out"].startswith("f") and not st["phase"].get("faults"):
            out.probe("after_debris")
        if want != have:
            out.violate("scene-not-reproducible", f"{n['name']} ({n['opts']}, {ov}, faults {node.faulted}): {diff(want, have)}")
        if ov.get("plot"):
            out.probe("rendered")
            warns = [m for m in r["log"] if m[0] in ("WARNING", "ERROR")]
            pics = [m[2].split("saved: ", 1)[1] for m in r["log"] if m[2].startswith("saved: ") and m[2].endswith((".png", ".gif"))]
            for q in pics:
                if not complete(os.path.join(st["run_root"], q)):
                    out.violate("saved-but-incomplete", f"{n['name']}: the log says {q} was saved but it is missing or incomplete")
            if not pics and not warns and not ov.get("level"):
                out.violate("rendering-loss-unreported", f"{n['name']} was asked for plots: neither saved nor warned")
            if r["figs"][0] != r["figs"][1]:
                out.violate("figure-left-open", f"{n['name']}: figures {r['figs']}")

    def is_nontrivial(self, st):
        return bool(st.get("compared")) or any(k.startswith("fault.") for k in st["w"].stats)


def two_runs(script, first, then, opts, target):
    import shutil

    from sim import work_pipe
    r = work_pipe.program(script, first, opts)
    if "exc" in r:
        return r
    shutil.rmtree(target)
    return work_pipe.program(script, then, opts)


class Lazy(dict):
    """Archives packed when the server is first asked for them."""

    def __init__(self, kind, files):
        super().__init__()
        self.kind = kind
        self.files = {corpora.archive_name(kind, u): v for u, v in files.items()}

    def __missing__(self, k):
        self[k] = corpora.archive_bytes(self.kind, self.files[k])
        return self[k]

    def __contains__(self, k):
        return k in self.files

    def get(self, k, d=None):
        return self[k] if k in self.files else d

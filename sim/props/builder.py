"""Dataset building: C08-C10 (rendering off unless a variant turns it on)."""
from __future__ import annotations

import copy
import hashlib
import json
import os
import re

from sim import corpora, engine
from sim.netmodel import NetModel
from sim.procworld import MUTATING, O_WR, Stuck, World

SPK = ["bdl", "slt", "rms", "clb", "aew", "jmk", "awb", "ksp"]
COMPONENTS = {
    "real": ["torchrir.datasets.dynamic_cmu_arctic and everything it calls (simulation, convolution, metadata, corpus access)",
             "torch, numpy, scipy, soundfile/libsndfile, matplotlib (Agg) and Pillow", "shutil/pathlib/json", "the kernel's tmpfs"],
    "stub": ["ffmpeg (a model writing a marked file, fate decided per invocation)", "plot resolution capped at 30 dpi",
             "clock, sleep, pid, getrandom (virtual)"],
}
ASSUME = ["crash = SIGKILL at an intercepted libc operation, with a prefix of the write in flight; the page cache survives",
          "one process runs at a time; interleaving granularity is one libc call", "torch runs single-threaded"]
MEASURE = "digest of the sequence (node, op index, op kind) at every context switch, plus fault positions"
RENDER = re.compile(r"(^|/)room_layout_")


def gen_cfg(rng, units):
    n_sources = rng.randrange(1, min(3, len(units)) + 1)
    return {
        "speakers": units, "n_scenes": rng.choice([1, 1, 2, 2, 3]), "n_sources": n_sources,
        "n_moving_sources": rng.randrange(0, n_sources + 1),
        "duration_sec": rng.choice([0.01, 0.02, 0.035, 0.05]),
        "trajectory_steps": rng.randrange(1, 5), "rir_samples": rng.choice([40, 64, 100, 180]),
        "max_order": rng.randrange(0, 3), "seed": rng.randrange(1 << 20),
        "octa_edge_m": rng.choice([0.2, 0.5, 1.0]), "rt60": rng.choice([0.2, 0.3, 0.5]),
        "randomize_mic_center": rng.random() < 0.8,
        "room_size": rng.choice([[8.0, 6.0, 3.0], [10.0, 9.0, 4.0], [7.0, 7.0, 3.5]]),
        "save_layout_images": False, "save_layout_mp4": False,
        **gen_geometry(rng),
    }


def gen_geometry(rng):
    """The less used arguments of a build."""
    g = {}
    if rng.random() < 0.25:
        g["source_margin"] = rng.choice([[0.3, 0.4, 0.2], [0.6, 0.5, 0.5]])
    if rng.random() < 0.25:
        g["mic_center"] = rng.choice([[3.6, 3.2, 1.4], [3.5, 3.0, 1.7]])
    if rng.random() < 0.2:
        g["sound_speed"] = rng.choice([331.5, 343.0, 350.0])
    if rng.random() < 0.2:
        g["moving_speed_min"], g["moving_speed_max"] = rng.choice([[0.1, 0.2], [5.0, 9.0], [20.0, 20.0]])
    if rng.random() < 0.2:
        g["move_start_ratio"], g["move_end_ratio"] = rng.choice([[0.0, 1.0], [0.1, 0.4], [0.5, 1.0]])
    return g


PYTHON_ONLY = {"move_start_ratio", "move_end_ratio", "moving_speed_min", "moving_speed_max"}


def gen_corpus(rng, k=None, **kw):
    units = rng.sample(SPK, k or rng.randrange(1, 5))
    spec = {"kind": "cmu", "seed": rng.randrange(1 << 30), "units": units, "n": rng.randrange(1, 5),
            "len": [rng.choice([3, 40, 200]), rng.choice([400, 900])], "fs": 16000}
    if rng.random() < 0.2:
        spec["missing"] = 1
        spec["n"] += 1
    if rng.random() < 0.2 and spec["n"] > 1:
        spec["empty"] = 2
    if rng.random() < 0.3:
        spec["amp"] = rng.choice([1000, 32700])
    spec.update(kw)
    return spec


def snapshot(path):
    """relpath -> content digest, links by target, directories by marker."""
    out = {}
    if os.path.islink(path):
        return {"": "link:" + os.readlink(path)}
    if os.path.isfile(path):
        with open(path, "rb") as f:
            return {"": hashlib.sha256(f.read()).hexdigest()[:20]}
    if not os.path.isdir(path):
        return {}
    out[""] = "dir"
    for dp, dns, fns in os.walk(path):
        rel = os.path.relpath(dp, path)
        for d in sorted(dns):
            p = os.path.join(dp, d)
            r = os.path.normpath(os.path.join(rel, d))
            out[r] = "link:" + os.readlink(p) if os.path.islink(p) else "dir"
        for fn in sorted(fns):
            p = os.path.join(dp, fn)
            r = os.path.normpath(os.path.join(rel, fn))
            if os.path.islink(p):
                out[r] = "link:" + os.readlink(p)
            else:
                with open(p, "rb") as f:
                    out[r] = hashlib.sha256(f.read()).hexdigest()[:20]
    return out


def essential(snap):
    return {k: v for k, v in snap.items()
            if k.endswith((".wav", ".json")) and v not in ("dir",) and not v.startswith("link:")}


def diff(a, b):
    out = []
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            out.append(k + (" missing" if k not in b else " new" if k not in a else " differs"))
    return out[:6]


class BuilderProp:
    def __init__(self, pid):
        self.pid = pid

    corpus_fixed = True

    def lay_corpus(self, scn, c, cmu):
        for u in scn.get("present", scn["spec"]["units"]):
            corpora.install(os.path.join(cmu, "ARCTIC"), c["archives"][u])

    def make_net(self, scn, c, decider):
        return NetModel(decider, {}, **scn.get("net", {}))

    # scenario: {"spec","cfg","phases":[{"faults":bool,"nodes":[{"name","out","opts"}]}],"faults","sched","pre"}
    def run(self, scn, decider, ctx):
        out = engine.RunOut()
        run_root = self.run_root = ctx.fresh()
        cmu = os.path.join(run_root, "corpus")
        c = corpora.make(scn["spec"])
        self.lay_corpus(scn, c, cmu)
        if scn.get("other"):
            # another data collection with the same speaker names
            oc = corpora.make(scn["other"])
            for u in scn["other"]["units"]:
                corpora.install(os.path.join(run_root, "other", *(["ARCTIC"] if scn["other"]["kind"] == "cmu" else [])),
                                oc["archives"][u])
        os.makedirs(os.path.join(run_root, "work"))
        self.prepare(scn, run_root)
        net = self.make_net(scn, c, decider)
        w = World(run_root, decider, faults=scn.get("faults"), sched=scn.get("sched"), net=net,
                  max_steps=scn.get("max_steps", 60000), seed=scn["spec"]["seed"], cpu_limit=60,
                  machines=scn.get("machines"))
        st = {"w": w, "c": c, "scn": scn, "out": out, "run_root": run_root, "results": {}, "snaps": {}, "muts": {},
              "net": net, "cmu": cmu}
        self.start(st)
        w.watch = lambda *a: self.watch(st, *a)
        w.hook = lambda kind, node, text: self.on_mark(st, node, text)
        corpus0 = snapshot(cmu)
        try:
            for pi, ph in enumerate(scn["phases"]):
                w.faults_on = bool(ph.get("faults"))
                net.faults_on = w.faults_on
                st["phase"] = ph
                w.current = None
                self.before_phase(st, pi, ph)
                from sim import work_build
                for n in ph["nodes"]:
                    target = os.path.join(run_root, "work", n["out"])
                    if n.get("job") == "verify":
                        w.spawn(n["name"], work_build.verify, scn["cfg"], target, c["truth"])
                    elif n.get("job"):
                        self.spawn_other(w, n, target, st)
                    else:
                        cfg = dict(scn["cfg"])
                        cfg.update(n.get("cfg", {}))
                        opts = dict(n.get("opts", {}))
                        if opts.get("before"):
                            opts["before"] = [
                                {"cmu": os.path.join(run_root, "other") if b["other"] else cmu,
                                 "out": os.path.join(run_root, "work", f"{n['name']}-before{i}"), "cfg": {**cfg, **b["cfg"]}}
                                for i, b in enumerate(opts["before"])]
                        w.spawn(n["name"], work_build.build, cfg, w.path(n["name"], cmu), w.path(n["name"], target), opts)
                w.run()
                for n in ph["nodes"]:
                    node = w.nodes[n["name"]]
                    st["results"][n["name"]] = self.result_of(st, node)
                self.after_phase(st, pi, ph)
        except Stuck as exc:
            out.violate("no-progress", str(exc))
        for e in w.escapes:
            out.violate("outside-mutation", f"{e}")
        if self.corpus_fixed and snapshot(cmu) != corpus0:
            out.violate("corpus-altered", f"the source corpus changed: {diff(corpus0, snapshot(cmu))}")
        self.judge(st)
        out.digest = w.digest()
        out.sig = w.sched_sig.hexdigest()[:16] if w.switches > 1 else out.digest
        out.trace = w.trace
        out.sim_ns = w.now
        out.steps = w.steps
        out.add_stats(w.stats)
        out.stats["switches"] = w.switches
        out.nontrivial = self.is_nontrivial(st)
        return out

    def result_of(self, st, node):
        if node.crashed or node.result is None:
            return {"crashed": True}
        r = node.result
        if r.get("hang"):
            st["out"].violate("no-progress", f"{node.name} used its whole CPU allowance without finishing")
            return {"crashed": True}
        if not r["ok"]:
            return {"exc": r, "log": [], "figs": [[], []]}
        return r["value"]

    def prepare(self, scn, run_root):
        pass

    def start(self, st):
        pass

    def before_phase(self, st, pi, ph):
        pass

    def after_phase(self, st, pi, ph):
        pass

    def watch(self, st, node, name, rel1, rel2, a, b, action):
        if name in MUTATING or (name == "open" and a & O_WR):
            for r in (rel1, rel2):
                if r:
                    st["muts"].setdefault(node.name, set()).add(r)
                    if name in ("open", "mkdir", "rename", "link", "symlink"):
                        st.setdefault("makes", {}).setdefault(node.name, set()).add(r)

    def on_mark(self, st, node, text):
        pass

    def judge(self, st):
        pass

    def is_nontrivial(self, st):
        return any(k.startswith("fault.") for k in st["w"].stats)

    def snap(self, st, name):
        return snapshot(os.path.join(st["run_root"], "work", name))

    def machine_names(self, scn):
        return [n["name"] for ph in scn["phases"] for n in ph["nodes"] if n.get("job") != "verify"]

    def shrinks(self, scn):
        yield from engine.shrink_machines(scn)
        for pi, ph in enumerate(scn["phases"]):
            if len(scn["phases"]) > 1 and not ph.get("keep"):
                c = copy.deepcopy(scn)
                del c["phases"][pi]
                yield c
            for ni in range(len(ph["nodes"])):
                if len(ph["nodes"]) > 1:
                    c = copy.deepcopy(scn)
                    del c["phases"][pi]["nodes"][ni]
                    yield c
                for k in ("before", "cli", "perturb", "logger"):
                    if ph["nodes"][ni].get("opts", {}).get(k):
                        c = copy.deepcopy(scn)
                        del c["phases"][pi]["nodes"][ni]["opts"][k]
                        yield c
        for k, v in (("n_scenes", 1), ("trajectory_steps", 1), ("max_order", 0), ("n_moving_sources", 0), ("n_sources", 1)):
            if scn["cfg"].get(k, v) != v and not scn.get("cfg_fixed"):
                c = copy.deepcopy(scn)
                c["cfg"][k] = v
                if k == "n_sources":
                    c["cfg"]["n_moving_sources"] = min(1, c["cfg"]["n_moving_sources"])
                yield c
        for k in ("missing", "empty", "amp"):
            if scn["spec"].get(k):
                c = copy.deepcopy(scn)
                c["spec"][k] = 0
                yield c


def compare_exc(a, b):
    return a.get("exc") is not None and b.get("exc") is not None and a["exc"]["exc"] == b["exc"]["exc"]


def gen_earlier(rng):
    c = {"n_scenes": 1, "overwrite": True}
    for k, v in (("seed", rng.randrange(1 << 20)), ("rt60", 0.25), ("octa_edge_m", 0.3), ("max_order", 1), ("rir_samples", 50),
                 ("trajectory_steps", 2), ("duration_sec", rng.choice([0.015, 0.00001])), ("sound_speed", 340.0),
                 ("room_size", rng.choice([[9.0, 7.0, 3.2], [2.0, 2.0, 2.0]])), ("n_moving_sources", 0)):
        if rng.random() < 0.3:
            c[k] = v
    return {"other": rng.random() < 0.7, "cfg": c}


class Reproducible(BuilderProp):
    """C09"""
    META = {
        "level": "exploration", "count": {"quick": 1200, "thorough": 20000}, "wall": {"quick": 65, "thorough": 780},
        "chunk": 4, "min_runs": 60,
        "rule": "seeded small build configuration and corpus; one reference build, then 1-3 variants of it (concurrent with each "
                "other) under other listing orders, global random states, prior library activity, rendering options, scene "
                "counts, or after crashed builds; non-trivial = at least two finished builds were compared, or a crash came "
                "before one",
        "measure": MEASURE, "components": COMPONENTS, "assumptions": ASSUME,
        "required_probes": ["compared", "prefix", "after_crash", "rendered", "earlier_builds", "command_line"],
    }

    def gen(self, rng, tier, seed):
        spec = gen_corpus(rng)
        cfg = gen_cfg(rng, spec["units"])
        scn = {"spec": spec, "cfg": cfg, "faults": {"perm": True, "max": rng.choice([1, 2]), "crash": rng.choice([0.003, 0.01, 0.03])},
               "sched": {"p": rng.choice([0.05, 0.3, 0.7])}, "phases": []}
        scn["phases"].append({"keep": True, "nodes": [{"name": "ref", "out": "ref", "opts": {}}]})
        nodes = []
        for i in range(rng.choice([1, 1, 2, 3])):
            o = {"perturb": rng.randrange(1, 1 << 20)}
            ov = {}
            if rng.random() < 0.3:
                ov["n_scenes"] = max(1, cfg["n_scenes"] + rng.choice([-1, 1, 2]))
            if rng.random() < (0.12 if tier == "quick" else 0.2):
                o["kw"] = {"save_layout_images": True, "save_layout_images_3d": rng.random() < 0.3}
                if rng.random() < 0.4:
                    o["kw"] = {"save_layout_mp4": True, "save_layout_mp4_3d": False,
                               "layout_video_mux_audio": rng.random() < 0.7, "annotate_source_indices": rng.random() < 0.5}
                ov["n_scenes"] = 1
            if rng.random() < 0.3:
                o["logger"] = True
            if rng.random() < 0.25:
                # earlier builds in the same process
                scn["other"] = dict(spec, seed=spec["seed"] + 1, n=max(1, spec["n"] + rng.choice([-1, 0, 1])))
                o["before"] = [gen_earlier(rng) for _ in range(rng.choice([1, 1, 2]))]
            if rng.random() < 0.2 and not set(cfg) & PYTHON_ONLY:
                o["cli"] = True
            nodes.append({"name": f"v{i}", "out": f"v{i}", "opts": o, "cfg": ov})
        if rng.random() < 0.4:
            # crashed or failed attempts into v0 first, then an overwriting build
            for k in range(rng.choice([1, 1, 2])):
                scn["phases"].append({"faults": True, "nodes": [
                    {"name": f"dead{k}", "out": "v0", "opts": {"kw": {"overwrite": True}},
                     "cfg": {"seed": cfg["seed"] + k, "n_scenes": cfg["n_scenes"] + rng.choice([0, 1])}}]})
            nodes[0]["opts"].setdefault("kw", {})["overwrite"] = True
            scn["after_crash"] = True
        scn["phases"].append({"keep": True, "nodes": nodes})
        return scn

    def judge(self, st):
        out = st["out"]
        res = st["results"]
        ref = res.get("ref")
        if ref is None or ref.get("crashed"):
            return
        rs = essential(self.snap(st, "ref"))
        out.outcome = hashlib.sha256(json.dumps(rs, sort_keys=True).encode()).hexdigest()[:16]
        st["compared"] = 0
        for ph in st["scn"]["phases"]:
            if ph.get("faults"):
                continue
            for n in ph["nodes"]:
                if n["name"] == "ref":
                    continue
                r = res.get(n["name"])
                if r is None or r.get("crashed"):
                    continue
                if "exc" in ref or "exc" in r:
                    k = n.get("cfg", {}).get("n_scenes", st["scn"]["cfg"]["n_scenes"])
                    if k == st["scn"]["cfg"]["n_scenes"] and not compare_exc(ref, r):
                        out.violate("outcome-differs", f"{n['name']}: {r.get('exc') or r.get('ret')} but the same build first "
                                                       f"gave {ref.get('exc') or ref.get('ret')}")
                    continue
                if n["opts"].get("before"):
                    out.probe("earlier_builds")
                if n["opts"].get("cli"):
                    out.probe("command_line")
                if r["ret"] != ref["ret"] and not n["opts"].get("cli"):
                    out.violate("outcome-differs", f"{n['name']} returned {r['ret']}, reference {ref['ret']}")
                vs = essential(self.snap(st, n["out"]))
                k = n.get("cfg", {}).get("n_scenes", st["scn"]["cfg"]["n_scenes"])
                common = min(k, st["scn"]["cfg"]["n_scenes"])
                cut = lambda s: {f: v for f, v in s.items() if int(f.split("/")[0][6:]) < common}  # noqa: E731
                try:
                    a, b = cut(rs), cut(vs)
                except (ValueError, IndexError):
                    a, b = rs, vs
                out.probe("compared")
                st["compared"] += 1
                if k != st["scn"]["cfg"]["n_scenes"]:
                    out.probe("prefix")
                if st["scn"].get("after_crash") and n["out"] == "v0":
                    out.probe("after_crash")
                if n["opts"].get("kw", {}).get("save_layout_images") or n["opts"].get("kw", {}).get("save_layout_mp4"):
                    out.probe("rendered")
                if a != b:
                    out.violate("build-not-reproducible", f"{n['name']} ({n['opts']}, {n.get('cfg')}): {diff(a, b)}")
                if k == st["scn"]["cfg"]["n_scenes"] and set(rs) != set(vs):
                    out.violate("build-not-reproducible", f"{n['name']}: other files: {diff(dict.fromkeys(rs), dict.fromkeys(vs))}")

    def is_nontrivial(self, st):
        return st.get("compared", 0) > 0


class Commit(BuilderProp):
    """C10"""
    META = {
        "level": "exploration", "count": {"quick": 1600, "thorough": 40000}, "wall": {"quick": 50, "thorough": 780},
        "chunk": 6, "min_runs": 80,
        "rule": "seeded small build configuration and corpus; a clean reference build checked against the corpus model and a "
                "recomputation from its own metadata, then builds of the same dataset under disk faults, short writes and "
                "crashes; non-trivial = a fault was injected into a build",
        "measure": MEASURE, "components": COMPONENTS, "assumptions": ASSUME,
        "required_probes": ["verified", "returned_after_fault", "raised", "crashed", "scene_committed_before_crash", "over_old_returned"],
    }

    def gen(self, rng, tier, seed):
        spec = gen_corpus(rng)
        cfg = gen_cfg(rng, spec["units"])
        r = rng.random()
        f = {"perm": True, "max": rng.choice([1, 1, 2])}
        if r < 0.4:
            f["crash"] = rng.choice([0.005, 0.02, 0.05])
        elif r < 0.8:
            f["err"] = rng.choice([0.005, 0.02, 0.05])
            if rng.random() < 0.5:
                f["only"] = rng.choice([r"\.json$", r"\.wav$", r"^work/", r"mixture\.wav$", r"source_info\.json$", r"^corpus/"])
                f["err"] = 0.1
        else:
            f["crash"] = 0.01
            f["err"] = 0.01
        if rng.random() < 0.5:
            f["short"] = rng.choice([0.05, 0.4])
        phases = [{"keep": True, "nodes": [{"name": "ref", "out": "ref", "opts": {}}]},
                  {"nodes": [{"name": "verify", "out": "ref", "job": "verify"}]}]
        onto = rng.random() < 0.3
        if onto:
            # over the dataset of an earlier build
            phases.append({"nodes": [{"name": "old", "out": "d0", "opts": {}, "cfg": {
                "n_scenes": cfg["n_scenes"] + rng.choice([0, 1, 1]), "seed": cfg["seed"] + rng.choice([0, 1])}}]})
            if rng.random() < 0.6:
                f.update({"err.unlink": 0.15, "err.rmdir": 0.15})
                f.pop("only", None)
        for k in range(rng.choice([1, 2, 3])):
            phases.append({"faults": True, "nodes": [{"name": f"b{k}", "out": "d0" if onto else f"d{k}",
                                                      "opts": {"kw": {"overwrite": True}} if onto else {}}]})
        return {"spec": spec, "cfg": cfg, "faults": f, "phases": phases, "sched": {}}

    def after_phase(self, st, pi, ph):
        out = st["out"]
        for n in ph["nodes"]:
            r = st["results"][n["name"]]
            if n["name"] == "ref":
                st["ref"] = r
                st["refsnap"] = essential(self.snap(st, "ref"))
                if "exc" in r and not r["exc"]["exc"] in ("ValueError", "RuntimeError"):
                    out.violate("build-failed", f"clean build raised {r['exc']['exc']}: {r['exc']['msg']}")
            elif n.get("job") == "verify":
                if "ret" not in st.get("ref", {}):
                    continue
                if isinstance(r, dict):
                    if "exc" in r:
                        out.violate("inconsistent-dataset", f"a finished dataset could not be read back: {r['exc']['exc']}: "
                                                            f"{r['exc']['msg']} at {r['exc']['frames'][-3:]}")
                    continue
                out.probe("verified")
                for p in r[:3]:
                    out.violate("inconsistent-dataset", p)
            elif n["name"] == "old":
                continue
            else:
                self.judge_build(st, n, r)

    @staticmethod
    def lost_in_library(node, n, want, have):
        pre = f"work/{n['out']}/"
        bad = {k for k in set(want) | set(have) if want.get(k) != have.get(k)}
        return bool(node.rewrites) and all(k.endswith(".wav") and pre + k in node.rewrites and k in have for k in bad)

    def judge_build(self, st, n, r):
        out = st["out"]
        node = st["w"].nodes[n["name"]]
        ref = st.get("ref")
        if ref is None:
            return
        snap = essential(self.snap(st, n["out"]))
        rs = st["refsnap"]
        base = os.path.join(st["run_root"], "work", n["out"])
        if r.get("crashed"):
            out.probe("crashed")
        elif "ret" in r:
            if node.faulted:
                out.probe("returned_after_fault")
            if "ret" not in ref:
                out.violate("outcome-differs", f"{n['name']} returned {r['ret']} but the reference raised {ref['exc']['exc']}")
            elif snap != rs and self.lost_in_library(node, n, rs, snap):
                # libsndfile drops the error when it rewrites a header on close
                out.violate("header-rewrite-error-lost", f"{n['name']} returned normally (faults {node.faulted}) but "
                                                         f"{diff(rs, snap)}")
                return
            elif snap != rs or r["ret"] != ref["ret"]:
                out.violate("silent-damage", f"{n['name']} returned normally (faults {node.faulted}) but differs from the "
                                             f"fault-free build: {diff(rs, snap)}")
        else:
            out.probe("raised")
            if not node.faulted and "exc" not in ref:
                out.violate("build-failed", f"{n['name']} raised without a fault: {r['exc']['exc']}: {r['exc']['msg']} "
                                            f"at {r['exc']['frames'][-3:]}")
        if n["opts"].get("kw", {}).get("overwrite"):
            out.probe("over_old_returned" if "ret" in r else "over_old_failed")
            return      # what is left may be half of the old dataset
        # a source list that parses commits its scene
        if "ret" not in ref:
            return
        for sid in sorted({k.split("/")[0] for k in snap}):
            try:
                with open(os.path.join(base, sid, "source_info.json"), encoding="utf-8") as f:
                    json.load(f)
            except (OSError, ValueError):
                continue
            mine = {k: v for k, v in snap.items() if k.startswith(sid + "/")}
            want = {k: v for k, v in rs.items() if k.startswith(sid + "/")}
            if r.get("crashed"):
                out.probe("scene_committed_before_crash")
            if mine != want:
                cls = "header-rewrite-error-lost" if self.lost_in_library(node, n, want, mine) else "committed-scene-incomplete"
                out.violate(cls, f"{n['name']} ({'crashed' if r.get('crashed') else 'raised' if 'exc' in r else 'returned'}, "
                                                          f"faults {node.faulted}): {sid} has a valid source list but {diff(want, mine)}")


class Overwrite(BuilderProp):
    """C08"""
    META = {
        "level": "exploration", "count": {"quick": 2000, "thorough": 40000}, "wall": {"quick": 50, "thorough": 780},
        "chunk": 8, "min_runs": 80,
        "rule": "seeded destination state, 1-3 builders (each allowed to overwrite or not, some with arguments or a corpus that "
                "cannot work) started together or one after another, with interleaving, read faults and crashes; non-trivial = "
                "the destination existed beforehand, or two builders met, or a fault hit",
        "measure": MEASURE, "components": COMPONENTS, "assumptions": ASSUME,
        "required_probes": ["refused_existing", "raced", "invalid_overwrite", "overwrote"],
    }
    INVALID = ["n_scenes", "n_sources", "too_many_speakers_sources", "missing_speaker", "rate_mismatch", "n_mics", "duration",
               "room_shape", "infeasible", "moving", "steps", "no_audio", "empty_audio", "rir", "t60"]

    def gen(self, rng, tier, seed):
        k = rng.randrange(2, 4)
        spec = gen_corpus(rng, k)
        spec.pop("empty", None)
        cfg = gen_cfg(rng, spec["units"])
        cfg["n_scenes"] = rng.choice([1, 1, 2])
        pre = rng.choice(["none", "none", "dataset", "dataset", "dataset", "empty", "file", "link", "foreign", "dangling", "partial",
                          "nested"])
        scn = {"spec": spec, "cfg": cfg, "pre": pre, "pseed": rng.randrange(1 << 20),
               "sched": {"p": rng.choice([0.0, 0.05, 0.3]), "p_hot": rng.choice([0.3, 0.8]), "p_stat": rng.choice([0.1, 0.7])},
               "faults": {"perm": True, "max": 1}, "phases": [], "cfg_fixed": True}
        if rng.random() < 0.35:
            scn["faults"].update(rng.choice([{"crash": 0.01}, {"err": 0.01}, {"err.open_r": 0.05, "err.read": 0.05, "only": "^corpus/"}]))
        nph = rng.choice([1, 1, 2])
        i = 0
        for _ in range(nph):
            nodes = []
            for _ in range(rng.choice([1, 1, 2, 2, 3])):
                ow = rng.random() < 0.5
                n = {"name": f"b{i}", "out": "dest", "opts": {"kw": {"overwrite": ow}}, "cfg": {"seed": cfg["seed"] + i}}
                if rng.random() < 0.4:
                    kind = rng.choice(self.INVALID)
                    n["invalid"] = kind
                    n["cfg"].update(self.invalid_cfg(kind, scn, rng))
                nodes.append(n)
                i += 1
            if len(nodes) > 1 and rng.random() < 0.6:
                for n in nodes:
                    n["opts"]["kw"]["overwrite"] = False
                if rng.random() < 0.5:
                    scn["pre"] = "none"
            scn["phases"].append({"faults": True, "nodes": nodes})
        return scn

    def invalid_cfg(self, kind, scn, rng):
        spec = scn["spec"]
        u = spec["units"]
        if kind == "n_scenes":
            return {"n_scenes": rng.choice([0, -1])}
        if kind == "n_sources":
            return {"n_sources": 0, "n_moving_sources": 0}
        if kind == "too_many_speakers_sources":
            return {"n_sources": len(u) + 1}
        if kind == "missing_speaker":
            absent = [s for s in SPK if s not in u]
            return {"speakers": u + [absent[0]]}
        if kind == "rate_mismatch":
            spec["fs"] = {x: 16000 for x in u}
            spec["fs"][u[-1]] = 8000
            return {}
        if kind == "n_mics":
            return {"speakers": (u * 4)[:8], "n_sources": 7, "n_moving_sources": 0}
        if kind == "duration":
            return {"duration_sec": rng.choice([0.0, -1.0, 1e-6])}
        if kind == "room_shape":
            return {"room_size": [5.0, 4.0]}
        if kind == "infeasible":
            return {"room_size": rng.choice([[2.0, 2.0, 2.0], [3.0, 9.0, 3.0]]), "randomize_mic_center": rng.random() < 0.5}
        if kind == "moving":
            return {"n_moving_sources": scn["cfg"]["n_sources"] + 1}
        if kind == "steps":
            return {"trajectory_steps": 0}
        if kind == "no_audio":
            spec["missing"] = spec["n"]
            return {}
        if kind == "empty_audio":
            spec["empty"] = 1
            return {}
        if kind == "rir":
            return {"rir_samples": 0}
        if kind == "t60":
            return {"rt60": -1.0}
        raise AssertionError(kind)

    def prepare(self, scn, run_root):
        import random
        r = random.Random(scn["pseed"])
        dest = os.path.join(run_root, "work", "dest")
        outside = os.path.join(run_root, "work", "precious")
        os.makedirs(outside)
        for i in range(3):
            with open(os.path.join(outside, f"keep{i}.txt"), "w") as f:
                f.write(f"keep {i}\n")
        pre = scn["pre"]
        if pre in ("dataset", "partial", "nested"):
            for s in range(2):
                d = os.path.join(dest, f"scene_{s:04d}")
                os.makedirs(d)
                for n in ("mixture.wav", "source_00.wav", "metadata.json", "source_info.json"):
                    if pre == "partial" and s == 1 and n.endswith("json"):
                        continue
                    with open(os.path.join(d, n), "wb") as f:
                        f.write(f"old {n} {s} {r.random()}".encode())
            if pre == "nested":
                os.symlink(outside, os.path.join(dest, "scene_0001", "shortcut"))
                os.symlink(os.path.join(outside, "keep0.txt"), os.path.join(dest, "scene_0000", "source_01.wav"))
        elif pre == "foreign":
            os.makedirs(dest)
            with open(os.path.join(dest, "thesis.txt"), "w") as f:
                f.write("irreplaceable\n")
        elif pre == "empty":
            os.makedirs(dest)
        elif pre == "file":
            with open(dest, "w") as f:
                f.write("a file\n")
        elif pre == "link":
            os.symlink(outside, dest)
        elif pre == "dangling":
            os.symlink(os.path.join(run_root, "work", "nowhere"), dest)

    def start(self, st):
        st["outside"] = snapshot(os.path.join(st["run_root"], "work", "precious"))
        st["nontrivial"] = st["scn"]["pre"] != "none"

    def before_phase(self, st, pi, ph):
        st["dest0"] = self.snap(st, "dest")
        st["muts"], st["makes"] = {}, {}
        st["exists0"] = os.path.lexists(os.path.join(st["run_root"], "work", "dest"))
        st["marker"] = None

    def after_phase(self, st, pi, ph):
        out = st["out"]
        w = st["w"]
        after = self.snap(st, "dest")
        may = [n for n in ph["nodes"] if n["opts"]["kw"]["overwrite"]]
        writers = sorted(k for k, v in st["muts"].items()
                         if any(p == "work/dest" or p.startswith("work/dest/") for p in v) and self.effective(st, k))
        if len(ph["nodes"]) > 1:
            out.probe("raced")
            st["nontrivial"] = True
        oks = [n for n in ph["nodes"] if "ret" in st["results"][n["name"]]]
        for n in ph["nodes"]:
            r = st["results"][n["name"]]
            ow = n["opts"]["kw"]["overwrite"]
            if not ow and st["exists0"] and st["scn"]["pre"] != "dangling" and not may:
                if "ret" in r:
                    out.violate("overwrote-without-permission", f"{n['name']} built into an existing destination ({st['scn']['pre']})")
                elif "exc" in r and r["exc"]["exc"] == "FileExistsError":
                    out.probe("refused_existing")
            if "exc" in r and not w.nodes[n["name"]].faulted and n.get("invalid") is None and len(ph["nodes"]) == 1:
                if ow and st["scn"]["pre"] not in ("file", "link", "dangling") and not st["scn"]["spec"].get("missing") \
                        and not isinstance(st["scn"]["spec"]["fs"], dict) and not st["scn"]["spec"].get("empty") \
                        and not self.infeasible(r):
                    out.violate("build-failed", f"{n['name']}: overwriting build raised {r['exc']['exc']}: {r['exc']['msg']}")
            if "ret" in r and ow and st["exists0"]:
                out.probe("overwrote")
        if not may:
            if st["exists0"] and after != st["dest0"]:
                out.violate("overwrote-without-permission",
                            f"{[n['name'] for n in ph['nodes']]} had no permission to overwrite, but the existing destination "
                            f"({st['scn']['pre']}) changed: {diff(st['dest0'], after)}")
            if len(oks) > 1:
                out.violate("two-builders-one-destination", f"{[n['name'] for n in oks]} all report success at one destination")
            creators = [k for k in writers if any(p.startswith("work/dest/") for p in st["muts"][k])]
            if len(creators) > 1:
                out.violate("two-builders-one-destination", f"{creators} all wrote below one destination without permission to overwrite")
            if len(oks) == 1 and len(ph["nodes"]) > 1 and "ret" in st["results"][oks[0]["name"]]:
                self.check_whole(st, oks[0], after)
        elif len(ph["nodes"]) == 1:
            n = ph["nodes"][0]
            r = st["results"][n["name"]]
            if n.get("invalid") and "exc" in r:
                out.probe("invalid_overwrite")
                st["nontrivial"] = True
            started = any(p.startswith("work/dest/scene_") for p in self.created(st, n["name"]))
            if "exc" in r and st["exists0"] and after != st["dest0"]:
                # destroyed: acceptable only when new data was being written
                unstartable = n.get("invalid") or any(x.startswith(("EIO.open_r", "EIO.read", "EMFILE.open_r")) for x in
                                                      w.nodes[n["name"]].faulted) or not w.nodes[n["name"]].faulted
                if unstartable and not started:
                    out.violate("destroyed-by-refused-build",
                                f"{n['name']} (invalid={n.get('invalid')}, faults {w.nodes[n['name']].faulted}) raised "
                                f"{r['exc']['exc']}: {r['exc']['msg'][:100]} and the existing dataset is gone: "
                                f"{diff(st['dest0'], after)}")
        now = snapshot(os.path.join(st["run_root"], "work", "precious"))
        if now != st["outside"]:
            out.violate("outside-changed", f"files next to the destination changed: {diff(st['outside'], now)}")
        for k, v in st["muts"].items():
            bad = [p for p in v if not (p == "work/dest" or p.startswith(("work/dest/", "work/dest.", "work/.dest", "tmp")))
                   and p != "work" and not p.startswith("dev")]
            if st["scn"]["pre"] in ("link", "dangling"):
                bad = [p for p in bad if not p.startswith("work/nowhere")]
            if bad:
                out.violate("outside-changed", f"{k} modified {sorted(bad)[:4]} outside its destination")

    @staticmethod
    def infeasible(r):
        return r["exc"]["exc"] == "ValueError" and ("feasible" in r["exc"]["msg"] or "place" in r["exc"]["msg"])

    def effective(self, st, name):
        return True

    def created(self, st, name):
        return st.get("makes", {}).get(name, set())

    def check_whole(self, st, n, after):
        out = st["out"]
        k = n.get("cfg", {}).get("n_scenes", st["scn"]["cfg"]["n_scenes"])
        for i in range(k):
            for f in ("mixture.wav", "metadata.json", "source_info.json"):
                if f"scene_{i:04d}/{f}" not in after:
                    out.violate("build-damaged-by-loser", f"{n['name']} reports success but scene_{i:04d}/{f} is missing")
                    return

    def is_nontrivial(self, st):
        return st["nontrivial"] or any(k.startswith("fault.") for k in st["w"].stats)

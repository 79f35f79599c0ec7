"""Corpus acquisition and access: C01-C07."""
from __future__ import annotations

import copy
import hashlib
import io
import json
import os
import tarfile

from sim import corpora, engine
from sim.netmodel import FATES_HARD, NetModel
from sim.procworld import MUTATING, O_WR, Stuck, World

CMU = ["bdl", "slt", "rms", "clb", "aew", "jmk"]
SUBSETS = ["dev-clean", "test-clean", "train-clean-100", "dev-other"]

COMPONENTS = {
    "real": ["torchrir.datasets (all of it)", "torchrir.io", "tarfile/bz2/zlib/gzip", "urllib.request and http.client",
             "soundfile and libsndfile", "pathlib/os", "the kernel's tmpfs and flock"],
    "stub": ["archive servers and the network below http.client (HTTP/1.1 peer model, per-request fate)",
             "TLS (pass-through)", "DNS", "clock, sleep, pid, getrandom (virtual)"],
}
ASSUME = ["crash = SIGKILL of one process at an intercepted libc operation, with a prefix of the write in flight; "
          "the page cache survives (no power loss: the code never fsyncs and claims nothing about it)",
          "all file access goes through the interposed libc entry points (checked: python, libsndfile)",
          "one process runs at a time; interleaving granularity is one libc call"]
MEASURE = "digest of the sequence (node, op index, op kind) at every context switch, plus fault positions"


def gen_spec(rng, kind, nunits=1, **kw):
    if kind == "cmu":
        units = rng.sample(CMU, nunits)
        spec = {"kind": "cmu", "seed": rng.randrange(1 << 30), "units": units,
                "n": rng.randrange(1, 5), "len": [40, rng.choice([80, 300])], "fs": 16000,
                "blank": rng.random() < 0.3, "stray": rng.random() < 0.3}
    else:
        units = rng.sample(SUBSETS, nunits)
        spec = {"kind": "libri", "seed": rng.randrange(1 << 30), "units": units,
                "n": rng.randrange(1, 4), "nspk": rng.randrange(1, 4), "nchap": rng.randrange(1, 3),
                "len": [40, rng.choice([80, 200])], "blank": rng.random() < 0.3, "stray": rng.random() < 0.3}
    if rng.random() < 0.25:
        spec["missing"] = 1
    if rng.random() < 0.15 and kind == "cmu":
        spec["big"] = rng.choice([6000, 20000, 60000])
    spec.update(kw)
    return spec


def gen_arch(rng):
    return {"seed": rng.randrange(1000), "dirs": rng.random() < 0.7,
            "order": rng.choice(["sorted", "shuffled", "reverse", "index_last", "index_first"]),
            "dot": rng.random() < 0.15, "fmt": rng.choice(["gnu", "pax"]), "streams": rng.choice([0, 0, 1, 3]),
            "pad": rng.choice([0] * 8 + [3 << 20])}


def archives(scn):
    c = corpora.make(scn["spec"])
    out = {}
    for u, files in c["archives"].items():
        out[corpora.archive_name(scn["spec"]["kind"], u)] = corpora.archive_bytes(
            scn["spec"]["kind"], files, **scn["arch"])
    return out


def base_dir(kind, root):
    return os.path.join(root, "ARCTIC") if kind == "cmu" else root


def unit_dir(kind, root, unit):
    if kind == "cmu":
        return os.path.join(root, "ARCTIC", f"cmu_us_{unit}_arctic")
    return os.path.join(root, "LibriSpeech", unit)


def unit_files(kind, files, unit):
    pre = f"cmu_us_{unit}_arctic/" if kind == "cmu" else f"LibriSpeech/{unit}/"
    return {k[len(pre):]: v for k, v in files.items() if k.startswith(pre)}


def setup_pre(scn, root, c, arch):
    """Lay out the state left on disk before the first node starts."""
    kind = scn["spec"]["kind"]
    base = base_dir(kind, root)
    for unit, pre in scn.get("pre", {}).items():
        name = corpora.archive_name(kind, unit)
        if pre and pre != "noroot":
            os.makedirs(base, exist_ok=True)
        if "dataset" in pre:
            corpora.install(base, c["archives"][unit])
        if "archive" in pre:
            with open(os.path.join(base, name), "wb") as f:
                f.write(arch[name])
        if "truncated" in pre:
            with open(os.path.join(base, name), "wb") as f:
                f.write(arch[name][: int(len(arch[name]) * 0.6)])
        if "part" in pre:
            with open(os.path.join(base, name + ".part"), "wb") as f:
                f.write(arch[name][: len(arch[name]) // 2] + b"stale")
        if "wholepart" in pre:
            # the transfer ended, the process died before the rename
            with open(os.path.join(base, name + ".part"), "wb") as f:
                f.write(arch[name])


def usable(scn, root, arch):
    """The archives of which the root holds a whole copy."""
    out = set()
    for name, data in arch.items():
        try:
            with open(os.path.join(base_dir(scn["spec"]["kind"], root), name), "rb") as f:
                if f.read() == data:
                    out.add(name)
        except OSError:
            pass
    return out


class Checker:
    def __init__(self, out, scn, c, root):
        self.o = out
        self.scn = scn
        self.c = c
        self.root = root
        self.kind = scn["spec"]["kind"]

    def tree_complete(self, unit, where):
        want = self.c["archives"][unit]
        d = base_dir(self.kind, self.root)
        for rel, data in want.items():
            p = os.path.join(d, rel)
            try:
                with open(p, "rb") as f:
                    got = f.read()
            except OSError as exc:
                self.o.violate("opened-incomplete-corpus",
                               f"{where}: constructor returned while {unit}/{rel} is missing ({type(exc).__name__})")
                return False
            if got != data:
                self.o.violate("opened-incomplete-corpus",
                               f"{where}: constructor returned while {unit}/{rel} has {len(got)} bytes "
                               f"of {len(data)} or different content")
                return False
        return True

    def reads(self, cfg, res, faulted):
        """Compare one node's view with the model. True if it opened."""
        unit, spk = cfg["unit"], cfg.get("speaker")
        t = self.c["truth"][unit]
        want = t["sentences"]
        if spk is not None:
            want = [s for s in want if s[2] == spk]
        name = cfg["name"]
        if "read" in res and not faulted:
            self.o.violate("read-failed", f"{name}: reading an opened corpus raised {res['read']['exc']}: "
                                          f"{res['read']['msg']} at {res['read']['frames'][-3:]}")
            return
        for k in ("index", "index2", "sentences"):
            if k in res:
                w = want if k != "sentences" or self.kind != "cmu" else None
                if k == "sentences":
                    missing = [s for s in t["sentences"] if s not in res[k]]
                    if missing:
                        self.o.violate("wrong-index", f"{name}: sentences() lacks {missing[:2]}")
                    continue
                got = res[k]
                if self.kind == "cmu":
                    ok = got == w
                else:
                    ok = sorted(got) == sorted(w)
                if not ok:
                    self.o.violate("wrong-index",
                                   f"{name}: {k} of {unit} speaker={spk} has {len(got)} entries, model has "
                                   f"{len(w)}; got {got[:3]} want {w[:3]}")
        if "index" in res and "index2" in res and res["index"] != res["index2"]:
            self.o.violate("index-not-stable", f"{name}: two scans of {unit} differ: {res['index'][:4]} / {res['index2'][:4]}")
        if "len" in res and res["len"] != len(want):
            self.o.violate("wrong-index", f"{name}: len()={res['len']}, model {len(want)}")
        if "speakers" in res and self.kind == "libri":
            w = [spk] if spk is not None else t["speakers"]
            if res["speakers"] != w:
                self.o.violate("wrong-speakers", f"{name}: {res['speakers']} != {w}")
        for utt, (sha, fs, shape) in res.get("audio", {}).items():
            if sha != t["audio"].get(utt) or fs != t["fs"]:
                self.o.violate("wrong-audio", f"{name}: {utt} of {unit}: samples or rate differ from the published "
                                              f"file (fs {fs} want {t['fs']}, shape {shape}, want {len(t['samples'].get(utt, []))})")
        if "items" in res:
            by = {s[0]: s for s in want}
            seen = []
            for utt, text, sha, fs, speaker in res["items"]:
                seen.append(utt)
                if utt not in by or by[utt][1] != text or sha != t["audio"][utt] or fs != t["fs"]:
                    self.o.violate("wrong-item", f"{name}: item {utt} of {unit} does not match the published utterance")
            if sorted(seen) != sorted(by):
                self.o.violate("wrong-item", f"{name}: items cover {len(seen)} utterances, model {len(by)}")
            if "index" in res and seen != [s[0] for s in res["index"]]:
                self.o.violate("index-not-stable", f"{name}: items are in another order than the index")


class CorpusProp:
    """Phased corpus workload with a shared world."""

    acts_all = ["index", "audio", "speakers", "len", "items", "sentences"]

    def __init__(self, pid):
        self.pid = pid

    # subclasses: gen(), judge hooks
    def run(self, scn, decider, ctx):
        out = engine.RunOut()
        run_root = ctx.fresh()
        root = os.path.join(run_root, *scn.get("rootpath", ["data"]))
        real_root = root
        if scn.get("rootlink"):
            real_root = os.path.join(run_root, "store")
            os.makedirs(real_root)
            os.symlink(real_root, root)
        c = corpora.make(scn["spec"])
        arch = archives(scn)
        setup_pre(scn, root, c, arch)
        self.prepare(scn, run_root, root, c, arch)
        if scn.get("other"):
            oc = corpora.make(scn["other"])
            for u in scn["other"]["units"]:
                corpora.install(base_dir(scn["other"]["kind"], os.path.join(run_root, "other")), oc["archives"][u])
        net = NetModel(decider, dict(arch), **scn.get("net", {}))
        self.net_setup(scn, net, arch)
        w = World(run_root, decider, faults=scn.get("faults"), sched=scn.get("sched"), net=net,
                  max_steps=scn.get("max_steps", 30000), seed=scn["spec"]["seed"],
                  machines=scn.get("machines"))
        chk = Checker(out, scn, c, real_root)
        st = {"w": w, "net": net, "chk": chk, "c": c, "root": root, "scn": scn, "out": out, "run_root": run_root,
              "arch": arch, "results": {}}
        self.st = st

        def hook(kind, node, text):
            if text.startswith("constructed:"):
                out.probe("opened")
                self.on_open(st, node, text.split(":", 1)[1])
        w.hook = hook
        w.watch = lambda *a: self.watch(st, *a)
        try:
            for pi, phase in enumerate(scn["phases"]):
                w.faults_on = bool(phase.get("faults"))
                net.faults_on = w.faults_on
                w.readonly = bool(phase.get("readonly"))
                st["phase"] = phase
                st["net0"] = w.net_used
                st["log0"] = len(net.log)
                st["usable"] = usable(scn, root, arch)
                st["mut"] = []
                w.current = None
                from sim import work
                for n in phase["nodes"]:
                    net.reqs.setdefault(n["name"], 0)
                    if n.get("job") == "assemble":
                        w.spawn(n["name"], work.assemble, scn["spec"]["kind"], w.path(n["name"], root), n["unit"], n["k"],
                                n["duration"], n["rng"], n["download"], n.get("calls", 1), self.before(n, run_root),
                                n.get("keep"))
                    else:
                        w.spawn(n["name"], work.use_corpus, scn["spec"]["kind"], w.path(n["name"], root), n["unit"],
                                n.get("speaker"), n["download"], n.get("acts", self.acts_all),
                                n.get("rootstyle", "path"), self.before(n, run_root))
                w.run()
                for n in phase["nodes"]:
                    node = w.nodes[n["name"]]
                    st["results"][n["name"]] = self.result_of(node)
                self.judge_phase(st, pi, phase)
        except Stuck as exc:
            out.violate("no-progress", f"{exc}; live: {[(n.name, n.req[:1]) for n in w.nodes.values() if n.req]}")
        for e in w.escapes:
            out.violate("outside-mutation", f"{e}")
        self.judge(st)
        out.digest = w.digest()
        out.sig = w.sched_sig.hexdigest()[:16] if w.switches > 1 else out.digest
        out.trace = w.trace
        out.sim_ns = w.now
        out.steps = w.steps
        out.add_stats(w.stats)
        out.stats["switches"] = w.switches
        out.nontrivial = self.is_nontrivial(st)
        self.st = None
        return out

    def before(self, n, run_root):
        if n.get("before"):
            self.st["out"].probe("earlier_use")
        return [[how, os.path.join(run_root, "other"), acts, s] for how, acts, s in n.get("before", [])]

    def result_of(self, node):
        if node.crashed:
            return {"crashed": True}
        r = node.result
        if r is None:
            return {"crashed": True}
        if r.get("hang"):
            return {"hang": True}
        if not r["ok"]:
            return {"construct": r, "toplevel": True}
        return r["value"]

    def prepare(self, scn, run_root, root, c, arch):
        pass

    def net_setup(self, scn, net, arch):
        pass

    def on_open(self, st, node, unit):
        st["chk"].tree_complete(unit, node.name)

    def watch(self, st, node, name, rel1, rel2, a, b, action):
        pass

    def judge_phase(self, st, pi, phase):
        pass

    def judge(self, st):
        pass

    def is_nontrivial(self, st):
        return any(k.startswith("fault.") for k in st["w"].stats)

    # ---- common oracles -----------------------------------------------------
    def judge_node(self, st, cfg, must_open):
        """must_open: the constructor has to succeed."""
        out = st["out"]
        res = st["results"][cfg["name"]]
        node = st["w"].nodes[cfg["name"]]
        if res.get("crashed"):
            return None
        if res.get("hang"):
            out.violate("no-progress", f"{cfg['name']}: used its whole CPU allowance without finishing")
            return None
        ex = res.get("construct")
        if ex is not None:
            if must_open:
                out.violate("open-failed", f"{cfg['name']} ({cfg['unit']}, download={cfg['download']}, faults {node.faulted}): "
                                           f"{ex['exc']}: {ex['msg']} at {ex['frames'][-4:]}")
            elif cfg["download"] and ex["exc"] == "FileNotFoundError" and "dataset not found" in ex["msg"] :
                out.violate("failure-hidden", f"{cfg['name']}: a failed download (faults {node.faulted}) was reported "
                                              f"as: {ex['msg']}")
            out.probe("raised." + ex["exc"])
            return False
        st["chk"].reads(cfg, res, bool(node.faulted))
        return True

    def check_requests(self, st, limit=4):
        per = {}
        for name, full, fate in st["net"].log:
            if "/mirror/" in full:
                continue
            per[name] = per.get(name, 0) + 1
        for name, n in per.items():
            if n > limit:
                st["out"].violate("too-many-requests", f"{name} made {n} requests in one constructor")

    def machine_names(self, scn):
        return [n["name"] for ph in scn["phases"] for n in ph["nodes"]]

    # ---- shrinking ------------------------------------------------------------
    def shrinks(self, scn):
        s = scn
        yield from engine.shrink_machines(s)
        for pi, ph in enumerate(s["phases"]):
            if len(s["phases"]) > 1:
                c = copy.deepcopy(s)
                del c["phases"][pi]
                yield c
            for ni in range(len(ph["nodes"])):
                if len(ph["nodes"]) > 1:
                    c = copy.deepcopy(s)
                    del c["phases"][pi]["nodes"][ni]
                    yield c
        for k, v in (("n", 1), ("nspk", 1), ("nchap", 1), ("missing", 0), ("big", 0)):
            if s["spec"].get(k) not in (None, v):
                c = copy.deepcopy(s)
                c["spec"][k] = v
                yield c
        if len(s["spec"]["units"]) > 1:
            used = {n["unit"] for ph in s["phases"] for n in ph["nodes"]}
            c = copy.deepcopy(s)
            c["spec"]["units"] = [u for u in s["spec"]["units"] if u in used]
            if c["spec"]["units"] != s["spec"]["units"]:
                yield c
        for u, p in s.get("pre", {}).items():
            if p:
                c = copy.deepcopy(s)
                c["pre"][u] = []
                yield c
        for ph in s["phases"]:
            for n in ph["nodes"]:
                if n.get("acts") and n["acts"] != ["index", "audio"] and not n.get("job"):
                    c = copy.deepcopy(s)
                    for ph2 in c["phases"]:
                        for n2 in ph2["nodes"]:
                            if n2["name"] == n["name"]:
                                n2["acts"] = ["index", "audio"]
                    yield c
                    break


def fault_mix(rng, tier):
    """One of several fault climates (swarm testing)."""
    r = rng.random()
    f = {"max": rng.choice([1, 1, 2, 3]), "perm": True}
    net = {"fault_p": 0.0, "soft_p": rng.choice([0.0, 0.3, 0.6]), "budget": rng.choice([1, 2, 3])}
    if r < 0.35:
        f["crash"] = rng.choice([0.002, 0.005, 0.01])
    elif r < 0.6:
        f["err"] = rng.choice([0.003, 0.01])
    elif r < 0.8:
        net["fault_p"] = rng.choice([0.4, 0.8])
    else:
        f["crash"] = 0.003
        f["err"] = 0.004
        net["fault_p"] = 0.3
    if rng.random() < 0.4:
        f["short"] = rng.choice([0.02, 0.2])
    if rng.random() < 0.3:
        net["kinds"] = rng.sample(FATES_HARD, 3)
    return f, net


def node(name, unit, download, acts=None, speaker=None, **kw):
    d = {"name": name, "unit": unit, "download": download,
         "acts": acts or ["index", "audio"]}
    if speaker is not None:
        d["speaker"] = speaker
    d.update(kw)
    return d


def pick_pre(rng, allow_dataset=True):
    r = rng.random()
    if r < 0.55:
        return []
    if r < 0.65:
        return [rng.choice(["part", "part", "wholepart"])]
    if r < 0.78:
        return ["archive"]
    if r < 0.88:
        return ["truncated"]
    if allow_dataset and r < 0.94:
        return ["dataset"]
    if allow_dataset:
        return ["dataset", "archive"]
    return []


class Complete(CorpusProp):
    META = {
        "level": "exploration", "count": {"quick": 3200, "thorough": 60000},
        "wall": {"quick": 60, "thorough": 780}, "chunk": 8, "min_runs": 100,
        "rule": "seeded scenario (corpus kind, tiny corpus, archive layout, leftovers on disk, fault climate) with 1-3 "
                "successive opens under faults and then one without; non-trivial = at least one fault was injected "
                "(counted by distinct execution digest)",
        "measure": MEASURE, "components": COMPONENTS, "assumptions": ASSUME,
        "required_probes": ["opened", "after_fault_open", "crash_then_open", "raised.FileNotFoundError"],
    }

    def gen(self, rng, tier, seed):
        kind = rng.choice(["cmu", "libri"])
        spec = gen_spec(rng, kind)
        f, net = fault_mix(rng, tier)
        u = spec["units"][0]
        phases = []
        for i in range(rng.randrange(1, 4)):
            dl = rng.random() < 0.8
            phases.append({"faults": True, "nodes": [node(f"f{i}", u, dl)]})
            if rng.random() < 0.4:
                phases.append({"faults": False, "nodes": [node(f"g{i}", u, False, self.acts_all)]})
        # a last look without downloading: whatever is there must be complete
        phases.append({"faults": False, "nodes": [node("look", u, False, self.acts_all)]})
        phases.append({"faults": False, "nodes": [node("final", u, True, self.acts_all)]})
        return {"spec": spec, "arch": gen_arch(rng), "pre": {u: pick_pre(rng)}, "phases": phases,
                "faults": f, "net": net, "rootpath": rng.choice([["data"], ["a", "b c", "data"]]),
                }

    def prepare(self, scn, run_root, root, c, arch):
        if any(scn.get("pre", {}).values()):
            os.makedirs(root, exist_ok=True)

    def judge_phase(self, st, pi, phase):
        for n in phase["nodes"]:
            if self.judge_node(st, n, False):
                if st.get("had_fault"):
                    st["out"].probe("after_fault_open")
                if st.get("had_crash"):
                    st["out"].probe("crash_then_open")
            nd = st["w"].nodes[n["name"]]
            if nd.faulted:
                st["had_fault"] = True
            if nd.crashed:
                st["had_crash"] = True


class Recovery(CorpusProp):
    META = {
        "level": "exploration", "count": {"quick": 3200, "thorough": 60000},
        "wall": {"quick": 60, "thorough": 780}, "chunk": 8, "min_runs": 100,
        "rule": "seeded fault phase(s) (crashes, disk errors, full disk, network failures), then faults stop: the next "
                "download=True open must succeed and be complete, then download=False without network; or one transient "
                "transfer failure inside a call, which the call must absorb; non-trivial = a fault was injected",
        "measure": MEASURE, "components": COMPONENTS, "assumptions": ASSUME,
        "required_probes": ["recovered_after_crash", "recovered_after_error", "absorbed", "exhausted", "usable_archive"],
    }

    def gen(self, rng, tier, seed):
        kind = rng.choice(["cmu", "libri"])
        spec = gen_spec(rng, kind)
        u = spec["units"][0]
        mode = rng.choice(["fault", "fault", "single", "exhaust"])
        f, net = fault_mix(rng, tier)
        phases = []
        pre = pick_pre(rng, allow_dataset=False)
        if mode == "fault":
            for i in range(rng.randrange(1, 4)):
                phases.append({"faults": True, "nodes": [node(f"f{i}", u, True)]})
        elif mode == "single":
            f = {"max": 0, "perm": True, "short": rng.choice([0, 0.1])}
            net = {"fault_p": 1.0, "soft_p": net["soft_p"], "budget": 1}
            if "truncated" in pre:
                pre = []
            phases.append({"faults": True, "nodes": [node("f0", u, True)]})
        else:
            f = {"max": 0, "perm": True}
            net = {"fault_p": 1.0, "soft_p": 0.2, "budget": 50,
                   "kinds": [k for k in FATES_HARD if k not in ("swap", "stall", "corrupt")]}
            pre = []
            phases.append({"faults": True, "nodes": [node("f0", u, True)]})
        phases.append({"faults": False, "recover": True, "nodes": [node("r0", u, True, self.acts_all)]})
        phases.append({"faults": False, "offline": True, "nodes": [node("r1", u, False, self.acts_all)]})
        if rng.random() < 0.3:
            phases.append({"faults": False, "recover": True, "nodes": [node("r2", u, True)]})
        return {"mode": mode, "spec": spec, "arch": gen_arch(rng), "pre": {u: pre}, "phases": phases,
                "faults": f, "net": net}

    def prepare(self, scn, run_root, root, c, arch):
        if any(scn.get("pre", {}).values()):
            os.makedirs(root, exist_ok=True)

    def judge_phase(self, st, pi, phase):
        scn, out = st["scn"], st["out"]
        if not any(st["w"].nodes[n["name"]].faulted for n in phase["nodes"]):
            if st["usable"]:
                out.probe("usable_archive")
            for name, full, _ in st["net"].log[st["log0"]:]:
                if full.rsplit("/", 1)[-1] in st["usable"]:
                    out.violate("usable-archive-refetched", f"{name} requested {full} although a whole copy was there")
        for n in phase["nodes"]:
            nd = st["w"].nodes[n["name"]]
            if phase.get("recover") or phase.get("offline"):
                ok = self.judge_node(st, n, phase.get("recover") or st.get("recovered"))
                if phase.get("recover") and ok:
                    st["recovered"] = True
                    if st.get("crash"):
                        out.probe("recovered_after_crash")
                    elif st.get("err"):
                        out.probe("recovered_after_error")
                if phase.get("offline") and st["w"].net_used != st["net0"]:
                    out.violate("network-used-offline", f"{n['name']} used the network with download=False")
                continue
            single = scn["mode"] == "single"
            ok = self.judge_node(st, n, single or not nd.faulted)
            if single and ok and nd.faulted:
                out.probe("absorbed")
            if scn["mode"] == "exhaust" and ok is False:
                out.probe("exhausted")
            if nd.crashed:
                st["crash"] = True
            elif nd.faulted:
                st["err"] = True

    def judge(self, st):
        self.check_requests(st)


class Concurrent(CorpusProp):
    META = {
        "level": "exploration", "count": {"quick": 2400, "thorough": 40000},
        "wall": {"quick": 60, "thorough": 800}, "chunk": 6, "min_runs": 80,
        "rule": "2-4 processes open the same or different units of one root at once under seeded preemption at every "
                "file operation, with crashes and transfer failures of some of them, then a recovery open; non-trivial = "
                "at least 3 context switches while two processes were inside their constructors",
        "measure": MEASURE, "components": COMPONENTS, "assumptions": ASSUME,
        "required_probes": ["opened", "both_open", "crash_peer_open"],
    }

    def gen(self, rng, tier, seed):
        kind = rng.choice(["cmu", "libri"])
        nunits = rng.choice([1, 1, 2, 2, 3])
        spec = gen_spec(rng, kind, nunits)
        spec["n"] = min(spec["n"], 3)
        spec.pop("big", None)
        k = rng.choice([2, 2, 2, 3, 3, 4])
        nodes = []
        for i in range(k):
            u = rng.choice(spec["units"])
            dl = rng.random() < 0.85
            spk = None
            nodes.append(node(f"p{i}", u, dl, ["index", "audio"], speaker=spk))
        if not any(n["download"] for n in nodes):
            nodes[0]["download"] = True
        f = {"max": 2, "perm": True}
        net = {"fault_p": 0.0, "soft_p": rng.choice([0, 0.2]), "budget": 2}
        r = rng.random()
        if r < 0.3:
            f["crash"] = rng.choice([0.002, 0.006])
        elif r < 0.45:
            net["fault_p"] = 0.3
        elif r < 0.55:
            f["err"] = 0.003
        elif r < 0.7:
            net["refuse_first"] = rng.choice([1, 2, 2, 2, 3, 4])
        if rng.random() < 0.2:
            f["short"] = 0.05
        p = rng.choice([0.02, 0.1, 0.3])
        sched = {"p": p, "p_hot": rng.choice([p, 0.5, 0.8]), "p_stat": rng.choice([p, 0.3])}
        phases = [{"faults": True, "nodes": nodes}]
        if rng.random() < 0.25:
            k2 = rng.choice([2, 3])
            phases.append({"faults": True, "nodes": [node(f"q{i}", rng.choice(spec["units"]), True) for i in range(k2)]})
        phases.append({"faults": False, "final": True,
                       "nodes": [node(f"r{i}", u, True) for i, u in enumerate(spec["units"])]})
        return {"spec": spec, "arch": gen_arch(rng),
                "pre": {u: pick_pre(rng) for u in spec["units"]},
                "phases": phases, "faults": f, "net": net, "sched": sched}

    def prepare(self, scn, run_root, root, c, arch):
        if any(scn.get("pre", {}).values()):
            os.makedirs(root, exist_ok=True)

    def judge_phase(self, st, pi, phase):
        opened = 0
        crash = False
        nodes = [st["w"].nodes[n["name"]] for n in phase["nodes"]]
        if not any(nd.faulted or nd.crashed for nd in nodes):
            asked = {}
            for name, full, _ in st["net"].log[st["log0"]:]:
                asked.setdefault(full, []).append(name)
            for full, names in asked.items():
                if len(names) > 1:
                    st["out"].violate("transfer-disturbed", f"without any fault {full} was requested {len(names)} times, by {names}")
        for n in phase["nodes"]:
            nd = st["w"].nodes[n["name"]]
            crash = crash or nd.crashed
            ok = self.judge_node(st, n, n["download"] and not nd.faulted)
            opened += bool(ok)
        if opened > 1:
            st["out"].probe("both_open")
        if opened and crash:
            st["out"].probe("crash_peer_open")

    def is_nontrivial(self, st):
        return st["w"].switches >= 3


# -- hostile archives -----------------------------------------------------------
EVIL = ["dotdot", "abs", "nested", "symlink", "hardlink", "linkwrite", "prefix", "symlink_in", "dirlink",
        "hard_abs", "deep", "paxpath", "longname", "dotdotdir", "linkwrite_dup", "symdir_abs", "fifo"]
# members that stay inside the root but belong to another corpus kept there
FOREIGN = ["foreign", "foreign_new", "foreign_archive", "foreign_part", "foreign_file", "foreign_dir"]


def evil_archive(kind, files, unit, how, arch, outside, other=None, ofiles=None):
    """The unit's archive plus hostile member(s)."""
    top = f"cmu_us_{unit}_arctic" if kind == "cmu" else f"LibriSpeech/{unit}"
    raw = io.BytesIO()
    fmt = tarfile.PAX_FORMAT if how["how"] == "paxpath" or arch["fmt"] == "pax" else tarfile.GNU_FORMAT
    tar = tarfile.open(fileobj=raw, mode="w", format=fmt)
    names = sorted(files)
    pos = int(how["pos"] * (len(names) + 1))

    def add(name, data=b"EVIL", type_=tarfile.REGTYPE, link=""):
        ti = tarfile.TarInfo(name)
        ti.type = type_
        ti.linkname = link
        ti.mode = 0o755 if type_ == tarfile.DIRTYPE else 0o644
        ti.mtime = 1000000000
        if type_ == tarfile.REGTYPE:
            ti.size = len(data)
            tar.addfile(ti, io.BytesIO(data))
        else:
            tar.addfile(ti)

    def evil():
        h = how["how"]
        if h == "dotdot":
            add("../evil.txt") if kind == "cmu" else add("../evil.txt")
        elif h == "abs":
            add(outside + "/evil.txt")
        elif h == "nested":
            add(f"{top}/wav/../../../../evil.txt")
        elif h == "symlink":
            add(f"{top}/wav/link.wav", type_=tarfile.SYMTYPE, link="../../../../outside/secret.txt")
        elif h == "hardlink":
            add(f"{top}/etc/hard", type_=tarfile.LNKTYPE, link="../outside/secret.txt")
        elif h == "linkwrite":
            add(f"{top}/esc", type_=tarfile.SYMTYPE, link=outside)
            add(f"{top}/esc/evil.txt")
        elif h == "linkwrite_dup":
            add(f"{top}/esc", type_=tarfile.SYMTYPE, link=outside + "/secret.txt")
            add(f"{top}/esc", data=b"EVIL overwrite")
        elif h == "dirlink":
            add(f"{top}/d", type_=tarfile.DIRTYPE)
            add(f"{top}/d/../../../x", type_=tarfile.DIRTYPE)
            add(f"{top}/s", type_=tarfile.SYMTYPE, link=".")
        elif h == "symdir_abs":
            add(f"{top}x", type_=tarfile.SYMTYPE, link=outside)
        elif h == "prefix":
            # a sibling whose name starts with the destination's name
            add("../" + ("ARCTIC" if kind == "cmu" else "data") + "_evil/x.txt")
        elif h == "symlink_in":
            add(f"{top}/wav/inner.wav", type_=tarfile.SYMTYPE, link="arctic_a0001.wav")
        elif h == "hard_abs":
            add(f"{top}/etc/hard", type_=tarfile.LNKTYPE, link=outside + "/secret.txt")
        elif h == "deep":
            add("/".join(["a"] * 30) + "/" + "/".join([".."] * 33) + "/evil.txt")
        elif h == "paxpath":
            ti = tarfile.TarInfo(f"{top}/etc/ok.txt")
            ti.size = 4
            ti.pax_headers = {"path": "../outside/evil.txt" if kind != "cmu" else "../../outside/evil.txt"}
            tar.addfile(ti, io.BytesIO(b"EVIL"))
        elif h == "longname":
            add(("../" * 4) + "outside/" + "n" * 140 + "/evil.txt")
        elif h == "dotdotdir":
            add("../../evildir", type_=tarfile.DIRTYPE)
        elif h == "fifo":
            # a special file is no way around the rule either
            add(f"{top}/" + "../" * (2 + top.count("/") + int(how["pos"] * 3)) + "evil.fifo", type_=tarfile.FIFOTYPE)
        elif h in FOREIGN:
            otop = f"cmu_us_{other}_arctic" if kind == "cmu" else f"LibriSpeech/{other}"
            name = corpora.archive_name(kind, other)
            if h == "foreign":
                # replace some of the other corpus' files, and add one
                for x in sorted(ofiles)[:: 1 + int(how["pos"] * 3)]:
                    if x.startswith(otop + "/"):
                        add(x)
                add(f"{otop}/EXTRA")
            elif h == "foreign_new":
                add(f"{otop}/README")
            elif h == "foreign_archive":
                add(name, data=corpora.archive_bytes(kind, {k: v + b"EVIL" for k, v in ofiles.items()}, **arch))
            elif h == "foreign_part":
                add(name + ".part")
                add(f".{otop.split('/')[-1]}.extracting/x")
            elif h == "foreign_file":
                add(otop)
            elif h == "foreign_dir":
                add(name, type_=tarfile.DIRTYPE)

    for i, n in enumerate(names):
        if i == pos:
            evil()
        add(n, files[n])
    if pos >= len(names):
        evil()
    tar.close()
    return corpora.compress(kind, raw.getvalue())


class Hostile(CorpusProp):
    META = {
        "level": "exploration", "count": {"quick": 2400, "thorough": 40000},
        "wall": {"quick": 60, "thorough": 700}, "chunk": 8, "min_runs": 100,
        "rule": "archives with one of %d hostile member kinds at a seeded position, served on seeded requests (also only "
                "after a first corrupt transfer) or found on disk, 1-2 processes, crashes and errors during extraction; "
                "non-trivial = a hostile archive was delivered or found" % len(EVIL),
        "measure": MEASURE, "components": COMPONENTS,
        "assumptions": ASSUME + ["device nodes as members are not covered (making one needs privileges); named pipes are"],
        "required_probes": ["rejected", "evil_delivered", "evil_second", "recovered_good", "foreign_ignored",
                            "other_opened"],
    }

    def gen(self, rng, tier, seed):
        kind = rng.choice(["cmu", "libri"])
        spec = gen_spec(rng, kind)
        spec.pop("big", None)
        u = spec["units"][0]
        how = {"how": rng.choice(EVIL), "pos": rng.random()}
        mode = rng.choice(["served", "served", "second", "disk", "mixed"])
        if rng.random() < 0.25:
            how["how"] = rng.choice(FOREIGN)
            spec["units"].append(rng.choice([x for x in (CMU if kind == "cmu" else SUBSETS) if x != u]))
        f = {"max": 2, "perm": True}
        net = {"fault_p": 0.0, "soft_p": 0.2, "budget": 2}
        evil_at = []
        pre = []
        if mode == "served":
            evil_at = [0, 1, 2, 3, 4, 5, 6, 7]
        elif mode == "second":
            # the first transfer is damaged, the repeat delivers the hostile one
            evil_at = [1, 2, 3, 4, 5, 6, 7]
            net.update(fault_p=1.0, budget=1, kinds=["corrupt", "eof_nolen", "garbage", "eof"])
        elif mode == "disk":
            pre = ["evil"]
        else:
            evil_at = [0, 2, 4]
            pre = rng.choice([[], ["truncated"], ["part"]])
            net.update(fault_p=0.3)
        if rng.random() < 0.3:
            f["crash"] = rng.choice([0.004, 0.01])
        elif rng.random() < 0.2:
            f["err"] = 0.005
        k = rng.choice([1, 1, 1, 2])
        phases = [{"faults": True, "nodes": [node(f"p{i}", u, True) for i in range(k)]},
                  {"faults": False, "nodes": [node("look", u, False)]},
                  {"faults": False, "nodes": [node("again", u, True)]}]
        pre = {u: pre}
        if len(spec["units"]) > 1:
            v = spec["units"][1]
            pre[v] = rng.choice([["dataset"], ["dataset", "archive"], []]) if how["how"] != "foreign" else ["dataset"]
            if rng.random() < 0.4:
                phases[0]["nodes"].append(node("other", v, not pre[v]))
            phases.append({"faults": False, "nodes": [node("theirs", v, True)]})
        return {"spec": spec, "arch": gen_arch(rng), "pre": pre, "phases": phases, "faults": f, "net": net,
                "evil": how, "evil_at": evil_at, "mode": mode, "sched": {"p": 0.2, "p_hot": 0.5},
                "rootlink": rng.random() < 0.2}

    def prepare(self, scn, run_root, root, c, arch):
        out = os.path.join(run_root, "outside")
        os.makedirs(out)
        with open(os.path.join(out, "secret.txt"), "wb") as f:
            f.write(b"secret")
        if any(scn.get("pre", {}).values()):
            os.makedirs(base_dir(scn["spec"]["kind"], root), exist_ok=True)
        kind, u = scn["spec"]["kind"], scn["spec"]["units"][0]
        v = scn["spec"]["units"][-1]
        self.evil = evil_archive(kind, c["archives"][u], u, scn["evil"], scn["arch"], "/proc/self/cwd/outside",
                                 v, c["archives"][v])
        if "evil" in scn["pre"][u]:
            with open(os.path.join(base_dir(kind, root), corpora.archive_name(kind, u)), "wb") as f:
                f.write(self.evil)

    def net_setup(self, scn, net, arch):
        good = dict(arch)
        kind, u = scn["spec"]["kind"], scn["spec"]["units"][0]
        name = corpora.archive_name(kind, u)
        evil = self.evil
        count = [0]

        class R(dict):
            def get(self, k, d=None):
                if k != name:
                    return good.get(k, d)
                i = count[0]
                count[0] += 1
                if i in scn["evil_at"]:
                    net.evil_served += 1
                    if i > 0 and 0 not in scn["evil_at"]:
                        net.evil_second += 1
                    return evil
                return good[name]
        net.evil_served = 0
        net.evil_second = 0
        net.resources = R()

    def on_open(self, st, node, unit):
        # an open is legitimate only with the genuine contents
        st["chk"].tree_complete(unit, node.name)

    def watch(self, st, node, name, rel1, rel2, a, b, action):
        mut = name in MUTATING or (name == "open" and a & O_WR) or name in ("chmod", "utime", "chown")
        if not mut:
            return
        for rel in ((rel1, rel2) if name in ("rename", "link") else (rel1,)):
            if rel and not (rel == "data" or rel.startswith("data/") or rel.startswith("store") or rel.startswith("tmp")):
                if name != "write" or True:
                    st["out"].violate("outside-mutation", f"{node.name}: {name} {rel1} {rel2} outside the dataset root")
        if name in ("symlink", "link"):
            st["out"].violate("link-created", f"{node.name}: {name} {rel1} {rel2}")

    def judge_phase(self, st, pi, phase):
        out = st["out"]
        scn = st["scn"]
        for n in phase["nodes"]:
            nd = st["w"].nodes[n["name"]]
            res = st["results"][n["name"]]
            foreign = len(scn["spec"]["units"]) > 1
            theirs = foreign and n["unit"] == scn["spec"]["units"][1]
            ok = self.judge_node(st, n, theirs and not phase.get("faults"))
            if theirs:
                out.probe("other_opened" if ok else "other_failed")
                continue
            if foreign and res.get("construct") is None:
                out.probe("foreign_ignored")
                continue
            if ok is False and n["download"]:
                ex = res["construct"]
                out.probe("rejected" if "ValueError" in ex["mro"] else "other_error")
                clean = not nd.faulted and scn["mode"] in ("served", "disk") and len(scn["phases"][0]["nodes"]) == 1 \
                    and not any(x.faulted for x in st["w"].nodes.values())
                if clean and not foreign and "ValueError" not in ex["mro"]:
                    out.violate("wrong-rejection", f"{n['name']}: hostile archive ({scn['evil']['how']}) gave {ex['exc']}: "
                                                   f"{ex['msg']} instead of ValueError")
            if ok and scn["mode"] in ("served",):
                out.violate("hostile-accepted", f"{n['name']}: opened from an archive with a {scn['evil']['how']} member")
            if ok and scn["mode"] == "disk" and not st["net"].log:
                out.violate("hostile-accepted", f"{n['name']}: opened from an archive with a {scn['evil']['how']} member")
            if ok and scn["mode"] in ("mixed", "second"):
                out.probe("recovered_good")

    def judge(self, st):
        out, rr = st["out"], st["run_root"]
        top = sorted(os.listdir(rr))
        allowed = {"data", "tmp", "outside", "store"} | ({"alias"} if os.path.islink(os.path.join(rr, "alias")) and os.readlink(os.path.join(rr, "alias")) == "." else set())
        for x in top:
            if x not in allowed:
                out.violate("outside-mutation", f"{x} appeared next to the dataset root")
        if sorted(os.listdir(os.path.join(rr, "outside"))) != ["secret.txt"] or \
                open(os.path.join(rr, "outside", "secret.txt"), "rb").read() != b"secret" or \
                os.stat(os.path.join(rr, "outside", "secret.txt")).st_nlink != 1:
            out.violate("outside-mutation", "the directory next to the dataset root was changed")
        for base in ("data", "store"):
            for dp, dns, fns in os.walk(os.path.join(rr, base)):
                for x in dns + fns:
                    p = os.path.join(dp, x)
                    if os.path.islink(p) and dp != rr:
                        out.violate("link-created", f"{os.path.relpath(p, rr)} is a link")
                    elif os.path.isfile(p) and os.stat(p).st_size < 100:
                        with open(p, "rb") as f:
                            if f.read(4) == b"EVIL" and not (len(st["scn"]["spec"]["units"]) > 1 and ".extracting" in p):
                                out.violate("hostile-member-extracted", os.path.relpath(p, rr))
        self.others_kept(st)
        if st["net"].evil_served:
            out.probe("evil_delivered")
        if st["net"].evil_second:
            out.probe("evil_second")

    def others_kept(self, st):
        """A corpus that was there before is as it was, file by file."""
        scn, c = st["scn"], st["c"]
        kind = scn["spec"]["kind"]
        for v in scn["spec"]["units"][1:]:
            if "dataset" not in scn["pre"][v]:
                continue
            d = unit_dir(kind, st["chk"].root, v)
            want = {k: hashlib.sha256(x).hexdigest()[:16] for k, x in unit_files(kind, c["archives"][v], v).items()}
            got = corpora.tree(d)
            if got != want:
                diff = sorted(k for k in set(got) | set(want) if got.get(k) != want.get(k))
                st["out"].violate("other-corpus-altered", f"{v}: {diff[:5]} after opening {scn['spec']['units'][0]}")

    def is_nontrivial(self, st):
        return st["net"].evil_served > 0 or st["scn"]["mode"] == "disk"


class Offline(CorpusProp):
    META = {
        "level": "exploration", "count": {"quick": 2000, "thorough": 30000},
        "wall": {"quick": 60, "thorough": 500}, "chunk": 8, "min_runs": 100,
        "rule": "seeded on-disk states (nothing, leftovers, a complete copy, another unit only), read-only storage in part "
                "of the runs, opens with download=False (and download=True over a complete copy) while the network is a "
                "live peer; non-trivial = the open ran against a non-empty root",
        "measure": MEASURE, "components": COMPONENTS, "assumptions": ASSUME,
        "required_probes": ["opened", "refused", "cached_open"],
    }

    def gen(self, rng, tier, seed):
        kind = rng.choice(["cmu", "libri"])
        spec = gen_spec(rng, kind, 2)
        a, b = spec["units"]
        pre = {a: rng.choice([[], ["dataset"], ["dataset", "archive"], ["archive"], ["part"], ["wholepart"], ["truncated"],
                              ["dataset", "part"]]),
               b: rng.choice([[], ["dataset"], ["archive"]])}
        ph = []
        for i in range(rng.randrange(1, 4)):
            u = rng.choice([a, a, b])
            spk = None
            if kind == "libri" and rng.random() < 0.4:
                spk = rng.choice(["19", "26", "103", "1034", "1040", "84", "174", "251"])
            full = "dataset" in pre[u] and "archive" in pre[u]
            dl = full and rng.random() < 0.5
            ph.append({"readonly": rng.random() < 0.3, "faults": False, "offline": True,
                       "nodes": [node(f"o{i}", u, dl, self.acts_all, speaker=spk,
                                      rootstyle=rng.choice(["path", "str"]))]})
            if rng.random() < 0.2:
                ph[-1]["nodes"].append(node(f"o{i}b", u, False, self.acts_all, speaker=spk))
        return {"spec": spec, "arch": gen_arch(rng), "pre": pre, "phases": ph,
                "faults": {"perm": True, "short": rng.choice([0, 0.1])}, "net": {"soft_p": 0.0},
                "sched": {"p": 0.1}, "noroot": rng.random() < 0.15}

    def prepare(self, scn, run_root, root, c, arch):
        if not scn["noroot"] or any(scn["pre"].values()):
            os.makedirs(root, exist_ok=True)

    def watch(self, st, node, name, rel1, rel2, a, b, action):
        if name in MUTATING or (name == "open" and a & O_WR) or name in ("chmod", "utime", "chown"):
            if rel1.startswith("tmp"):
                return
            st["mut"].append([node.name, name, rel1])

    def judge_phase(self, st, pi, phase):
        out = st["out"]
        kind = st["scn"]["spec"]["kind"]
        for n in phase["nodes"]:
            pre = st["scn"]["pre"][n["unit"]]
            have = "dataset" in pre
            spk = n.get("speaker")
            if spk is not None and spk not in (st["c"]["truth"][n["unit"]]["speakers"] or []):
                have = False
            ok = self.judge_node(st, n, have)
            if ok is False:
                ex = st["results"][n["name"]]["construct"]
                out.probe("refused")
                if not have and ex["exc"] != "FileNotFoundError":
                    out.violate("wrong-error", f"{n['name']}: {ex['exc']}: {ex['msg']} for a missing corpus")
            elif ok:
                if not have:
                    out.violate("opened-missing", f"{n['name']}: opened {n['unit']} which is not there")
                if n["download"]:
                    out.probe("cached_open")
        if st["w"].net_used != st["net0"]:
            out.violate("network-used-offline", f"{[n['name'] for n in phase['nodes']]} used the network: {st['net'].log[-2:]}")
        muts = [m for m in st["mut"] if not next(
            n["download"] for n in phase["nodes"] if n["name"] == m[0])]
        if muts:
            out.violate("mutated-offline", f"download=False changed the file system: {muts[:3]}")

    def is_nontrivial(self, st):
        return any(st["scn"]["pre"].values())


def gen_before(rng, spec, nodes):
    """Let some processes have used a corpus with other content under the same names."""
    if rng.random() > 0.35:
        return None
    for n in nodes:
        if rng.random() < 0.6:
            n["before"] = [[rng.choice(["there", "here"]), rng.choice([["index"], ["index", "items", "speakers", "len"], "assemble"]),
                            rng.randrange(1 << 20)] for _ in range(rng.choice([1, 1, 2]))]
    return dict(spec, seed=spec["seed"] + 1, n=max(1, spec["n"] + rng.choice([-1, 0, 0, 1])))


class Index(CorpusProp):
    META = {
        "level": "exploration", "count": {"quick": 2400, "thorough": 30000},
        "wall": {"quick": 60, "thorough": 500}, "chunk": 8, "min_runs": 100,
        "rule": "one complete corpus, 2-4 processes that see its directories in different seeded listing orders (and, in "
                "twin runs, different string-hash seeds); all must report one index, item order and speaker list; "
                "non-trivial = at least two listing orders were permuted",
        "measure": "digest of the listing permutations and resulting executions", "components": COMPONENTS,
        "assumptions": ASSUME,
        "required_probes": ["compared", "earlier_use"],
    }

    def gen(self, rng, tier, seed):
        kind = rng.choice(["cmu", "libri", "libri"])
        spec = gen_spec(rng, kind)
        spec["missing"] = rng.choice([0, 0, 1, 2])
        if kind == "libri":
            spec["nspk"] = rng.randrange(2, 5)
            spec["nchap"] = rng.randrange(1, 4)
        else:
            spec["n"] = rng.randrange(2, 8)
        u = spec["units"][0]
        k = rng.choice([2, 2, 3, 4])
        acts = ["index", "index2", "len", "items", "speakers", "audio"][: rng.choice([5, 6])]
        if rng.random() < 0.5:
            acts.append("own")
        ph = [{"faults": False, "nodes": [node(f"n{i}", u, False, acts)]} for i in range(k)]
        if kind == "libri" and rng.random() < 0.5:
            for i in range(2):
                ph.append({"faults": False, "nodes": [node(f"s{i}", u, False, acts, speaker="?")]})
        other = gen_before(rng, spec, [n for p in ph for n in p["nodes"]])
        return {"other": other, "spec": spec, "arch": gen_arch(rng), "pre": {u: ["dataset"]}, "phases": ph,
                "faults": {"perm": True}, "net": {}, "spk": rng.randrange(100)}

    def prepare(self, scn, run_root, root, c, arch):
        u = scn["spec"]["units"][0]
        spks = c["truth"][u].get("speakers")
        for ph in scn["phases"]:
            for n in ph["nodes"]:
                if n.get("speaker") == "?":
                    n["speaker"] = spks[scn["spk"] % len(spks)]

    def judge_phase(self, st, pi, phase):
        for n in phase["nodes"]:
            self.judge_node(st, n, True)

    def judge(self, st):
        seen = {}
        for ph in st["scn"]["phases"]:
            for n in ph["nodes"]:
                r = st["results"].get(n["name"])
                if not r or r.get("construct") is not None or "read" in r or r.get("crashed"):
                    continue
                v = {k: r.get(k) for k in ("index", "items", "speakers", "len")}
                key = n.get("speaker")
                if key in seen:
                    st["out"].probe("compared")
                    for k in v:
                        if v[k] is not None and seen[key][1][k] is not None and v[k] != seen[key][1][k]:
                            st["out"].violate("index-differs-between-processes",
                                              f"{k} of {n['unit']}: {seen[key][0]} sees {str(seen[key][1][k])[:300]} "
                                              f"and {n['name']} sees {str(v[k])[:300]}")
                            break
                else:
                    seen[key] = (n["name"], v)
        st["out"].outcome = hashlib.sha256(json.dumps(
            {str(k): v[1] for k, v in seen.items()}, sort_keys=True).encode()).hexdigest()[:16]

    def is_nontrivial(self, st):
        return st["w"].stats.get("benign.listing_order", 0) >= 2

    def shrinks(self, scn):
        for s in super().shrinks(scn):
            yield s


class Assemble(CorpusProp):
    META = {
        "level": "exploration", "count": {"quick": 2000, "thorough": 30000},
        "wall": {"quick": 60, "thorough": 600}, "chunk": 6, "min_runs": 60,
        "rule": "seeded corpora (lengths down to zero samples, mixed rates, one utterance), 2-3 processes assemble "
                "fixed-length sources with the same rng seed under different listing orders, some with read errors; "
                "non-trivial = at least one multi-utterance source was assembled or a fault was injected",
        "measure": "digest of executions (listing orders, faults, results)", "components": COMPONENTS,
        "assumptions": ASSUME,
        "required_probes": ["assembled", "reused", "compared", "mismatch_raised", "empty_raised", "earlier_use", "kept_open"],
    }

    def gen(self, rng, tier, seed):
        kind = rng.choice(["cmu", "libri", "libri"])
        mode = rng.choice(["plain", "plain", "plain", "empty", "allempty", "rates", "fault"])
        if kind == "cmu":
            allspk = ["aew", "ahw", "aup", "awb", "axb", "bdl", "clb", "eey", "fem", "gka", "jmk", "ksp", "ljm",
                      "lnh", "rms", "rxr", "slp", "slt"]
            spec = {"kind": "cmu", "seed": rng.randrange(1 << 30), "units": allspk, "n": rng.randrange(1, 4),
                    "len": [40, rng.choice([60, 200])], "fs": 16000}
            if mode == "rates":
                spec["fs"] = {s: rng.choice([16000, 8000]) for s in allspk}
            if mode == "empty":
                spec["empty"] = 2
            if mode == "allempty":
                spec["len"] = [0, 0]
            unit = rng.choice(allspk)
            k = rng.choice([1, 2, 3])
        else:
            if mode in ("rates", "empty", "allempty"):
                mode = "plain"
            spec = {"kind": "libri", "seed": rng.randrange(1 << 30), "units": [rng.choice(SUBSETS)],
                    "n": rng.randrange(1, 4), "nspk": rng.randrange(1, 5), "nchap": rng.randrange(1, 3),
                    "len": [40, rng.choice([60, 200])]}
            unit = spec["units"][0]
            k = rng.randrange(1, spec["nspk"] + 1)
        dur = rng.choice([0.002, 0.01, 0.02, 0.05, rng.uniform(0.001, 0.06)])
        f = {"perm": True}
        if mode == "fault":
            f.update({"err": 0.01, "max": 1, "short": 0.1})
        seedv = rng.randrange(1 << 20)
        ph = []
        calls = rng.choice([1, 1, 2])
        for i in range(rng.choice([2, 2, 3])):
            ph.append({"faults": mode == "fault", "nodes": [
                {"name": f"a{i}", "job": "assemble", "unit": unit, "k": k, "duration": dur, "rng": seedv,
                 "download": False, "calls": calls, "keep": rng.choice([None, None, "open", "memory"]) if mode != "fault" else None}]})
        other = None
        if mode != "fault":
            other = gen_before(rng, spec, [n for p in ph for n in p["nodes"]])
        return {"other": other, "mode": mode, "spec": spec, "arch": gen_arch(rng), "pre": {u: ["dataset"] for u in spec["units"]},
                "phases": ph, "faults": f, "net": {}, "max_steps": 60000}

    def shrinks(self, scn):
        yield from engine.shrink_machines(scn)
        for pi in range(len(scn["phases"])):
            if len(scn["phases"]) > 1:
                c = copy.deepcopy(scn)
                del c["phases"][pi]
                yield c
        for k, v in (("n", 1), ("nspk", 1), ("nchap", 1)):
            if scn["spec"].get(k) not in (None, v):
                c = copy.deepcopy(scn)
                c["spec"][k] = v
                yield c

    def result_of(self, node):
        if node.crashed or node.result is None:
            return {"crashed": True}
        if node.result.get("hang"):
            return {"hang": True}
        if not node.result["ok"]:
            return {"exc": node.result}
        return {"calls": node.result["value"]}

    def judge_phase(self, st, pi, phase):
        import numpy as np
        out = st["out"]
        for n in phase["nodes"]:
            res = st["results"][n["name"]]
            nd = st["w"].nodes[n["name"]]
            if res.get("hang"):
                out.violate("no-progress", f"{n['name']}: used its whole CPU allowance")
                continue
            if "calls" not in res:
                out.violate("assemble-crashed", str(res)[:300])
                continue
            for r in res["calls"]:
                self.judge_call(st, n, nd, r, np)

    def truth(self, st, spk):
        kind = st["scn"]["spec"]["kind"]
        if kind == "cmu":
            t = st["c"]["truth"][spk]
            return [s[0] for s in t["sentences"]], t["samples"], t["fs"]
        u = st["scn"]["spec"]["units"][0]
        t = st["c"]["truth"][u]
        return [s[0] for s in t["sentences"] if s[2] == spk], t["samples"], t["fs"]

    def judge_call(self, st, n, nd, r, np):
        out, mode = st["out"], st["scn"]["mode"]
        if "exc" in r:
            ex = r["exc"]
            if nd.faulted:
                out.probe("fault_raised")
                return
            if mode == "rates" and ex["exc"] == "ValueError":
                out.probe("mismatch_raised")
                return
            if mode in ("empty", "allempty"):
                # legal only if some speaker has no audio at all
                if self.some_silent(st):
                    out.probe("empty_raised")
                    return
            out.violate("assemble-raised", f"{n['name']}: {ex['exc']}: {ex['msg']} at {ex['frames'][-3:]}")
            return
        if "changed" in r:
            out.probe("kept_open")
            if r["changed"]:
                out.violate("dataset-changed", f"{n['name']}: assembling changed the data set it read from: {str(r['changed'])[:300]}")
        spks = [s for s, _ in r["info"]]
        if len(set(spks)) != len(spks) or len(spks) != n["k"]:
            out.violate("speakers-not-unique", f"{spks}")
        fs = r["fs"]
        target = int(n["duration"] * fs)
        if r["shape"] != [n["k"], target]:
            out.violate("wrong-shape", f"{r['shape']} want {[n['k'], target]}")
            return
        for row, (spk, utts) in enumerate(r["info"]):
            try:
                avail, samples, tfs = self.truth(st, spk)
            except KeyError:
                out.violate("unknown-speaker", spk)
                return
            if tfs != fs:
                out.violate("rate-mixed", f"{spk} has rate {tfs}, result says {fs}")
                return
            bad = [u for u in utts if u not in avail]
            if bad:
                out.violate("unknown-utterance", f"{spk}: {bad}")
                return
            cat = [x for u in utts for x in samples[u]]
            a = (np.asarray(cat[:target], dtype=np.float32) / np.float32(32768)).astype(np.float32)
            import hashlib as H
            if H.sha256(a.tobytes()).hexdigest()[:16] != r["rows"][row] or len(cat) < target:
                out.violate("wrong-assembly", f"{n['name']}: source {row} ({spk}) is not the concatenation of {utts} cut to {target}")
            before = sum(len(samples[u]) for u in utts[:-1])
            if target > 0 and before >= target:
                out.violate("extra-utterance", f"{spk}: {utts} lists more than needed for {target} samples")
            # no utterance is repeated before every other one was used
            m = len(avail)
            for b in range(0, len(utts), m):
                blk = utts[b:b + m]
                if len(set(blk)) != len(blk):
                    out.violate("reused-early", f"{spk}: {utts} repeats an utterance before using all {m}")
            if len(utts) > m:
                out.probe("reused")
            if len(utts) > 1:
                st["multi"] = True
        out.probe("assembled")

    def some_silent(self, st):
        kind = st["scn"]["spec"]["kind"]
        units = st["scn"]["spec"]["units"]
        for u in units:
            t = st["c"]["truth"][u]
            if kind == "cmu":
                if not any(t["samples"].values()):
                    return True
            else:
                for s in t["speakers"]:
                    if not any(v for k, v in t["samples"].items() if k.startswith(s + "-")):
                        return True
        return False

    def judge(self, st):
        vals = []
        for name, r in st["results"].items():
            if "calls" not in r or st["w"].nodes[name].faulted:
                continue
            vals.append((name, r["calls"]))
        for name, v in vals[1:]:
            st["out"].probe("compared")
            a = [{k: x.get(k) for k in ("info", "rows", "fs", "shape")} for x in vals[0][1]]
            b = [{k: x.get(k) for k in ("info", "rows", "fs", "shape")} for x in v]
            if a != b:
                st["out"].violate("not-reproducible", f"same rng seed, {vals[0][0]} chose {[x['info'] for x in a]} and "
                                                      f"{name} chose {[x['info'] for x in b]}")
        if vals:
            st["out"].outcome = hashlib.sha256(json.dumps(
                [[x.get(k) for k in ("info", "rows", "fs", "shape")] for x in vals[0][1]]).encode()).hexdigest()[:16]

    def is_nontrivial(self, st):
        return bool(st.get("multi")) or any(k.startswith("fault.") for k in st["w"].stats)

"""Audio and metadata files: C15."""
from __future__ import annotations

import copy
import hashlib
import io
import json
import os
import zlib

from sim import engine, work_io
from sim.procworld import Stuck, World

LSB = {"PCM_16": 1 / 32768, "PCM_24": 1 / 8388608, "PCM_32": 2e-7, "PCM_U8": 1 / 128, "PCM_S8": 1 / 128,
       "FLOAT": 1e-7, "DOUBLE": 1e-7}
EXTS = {"wav": ["PCM_16", "PCM_24", "PCM_32", "PCM_U8", "FLOAT", "DOUBLE"], "flac": ["PCM_16", "PCM_24", "PCM_S8"],
        "aiff": ["PCM_16", "PCM_24", "FLOAT"], "au": ["PCM_16", "FLOAT"], "caf": ["PCM_16", "PCM_24", "FLOAT"],
        "ogg": ["VORBIS"], "w64": ["PCM_16", "FLOAT"]}
DEFSUB = {"wav": "PCM_16", "flac": "PCM_16", "aiff": "PCM_16", "au": "PCM_16", "caf": "PCM_16", "ogg": "VORBIS", "w64": "PCM_16"}


def prefile(spec):
    """Bytes of an audio file that exists before the run, and what it holds."""
    import numpy as np
    import soundfile as sf
    r = np.random.RandomState(spec["seed"])
    x = r.uniform(-0.9, 0.9, (spec["n"], spec["ch"]))
    b = io.BytesIO()
    sf.write(b, x, spec["fs"], format=spec["fmt"], subtype=spec["sub"])
    return b.getvalue()


def decode(data):
    import soundfile as sf
    with sf.SoundFile(io.BytesIO(data)) as f:
        x = f.read(dtype="float32", always_2d=True)
        return x, f.samplerate, f.format, f.subtype


def expected_frames(op):
    """(frames x channels float64 the file should hold, normalised)"""
    import numpy as np
    x = work_io.tensor(op["x"]).detach().to(__import__("torch").float32).numpy().astype(np.float64)
    norm = op.get("normalize", True)
    peak = op.get("peak", 1.0)
    if norm and x.size:
        m = np.abs(x).max()
        if m > 0:
            x = x / m * peak
    if x.ndim == 2 and x.shape[0] <= 8:
        x = x.T
    return x[:, None] if x.ndim == 1 else x


def badkw(op):
    return op.get("backend") == "nosuch" or op.get("format") == "flac"


def selectors(rng, op):
    """Now and then name the audio backend or the format in the call."""
    if op["fn"].startswith("io.") and op["fn"] != "io.load_audio_data" and rng.random() < 0.3:
        op["backend"] = "soundfile" if rng.random() < 0.9 else "nosuch"
    if op["fn"] in ("io.save_wav", "io.save", "io.load_wav", "io.load", "io.info_wav", "io.info") and op["path"].lower().endswith("wav") \
            and rng.random() < 0.25:
        op["format"] = rng.choice(["wav", "WAV", "wave"]) if rng.random() < 0.9 else "flac"


def invalid(op):
    """True when the arguments themselves must be refused."""
    ext = op["path"].rsplit(".", 1)[-1].lower()
    sub = op.get("subtype") or op.get("dsub")
    wavonly = op["fn"] in ("io.save_wav", "io.save", "audio.save", "scene")
    if (wavonly and ext != "wav" and not op.get("format")) or badkw(op):
        return True
    if op.get("normalize", True) and op.get("peak", 1.0) <= 0:
        return True
    return bool(sub) and sub not in EXTS[ext]


class Files:
    """C15"""
    META = {
        "level": "exploration", "count": {"quick": 2500, "thorough": 60000}, "wall": {"quick": 40, "thorough": 780},
        "chunk": 12, "min_runs": 100,
        "rule": "seeded list of saves and loads over several formats run by one or two processes under disk faults, short reads "
                "and writes and crashes; every save that returned is read back by an independent reader, every load compared "
                "with the bytes on disk; non-trivial = a fault, short count or crash hit a run",
        "measure": "digest of the sequence of operations with fault positions",
        "components": {"real": ["torchrir.io", "soundfile/libsndfile", "json", "the kernel's tmpfs"],
                       "stub": ["clock, pid, getrandom (virtual)"]},
        "assumptions": ["crash = SIGKILL at an intercepted libc operation; the page cache survives",
                        "one process runs at a time; interleaving granularity is one libc call"],
        "required_probes": ["saved", "save_failed", "loaded", "load_failed", "crashed", "saved_json", "saved_attr", "invalid", "read_back",
                            "copied"],
    }

    def __init__(self, pid):
        self.pid = pid

    def gen(self, rng, tier, seed):
        pre = []
        for i in range(rng.choice([1, 2])):
            ext = rng.choice(["wav", "wav", "flac", "aiff", "ogg", "au", "caf"])
            pre.append({"path": f"data/in{i}.{ext}", "seed": rng.randrange(1000), "n": rng.choice([0, 1, 30, 700, 3000, 40000]),
                        "ch": rng.choice([1, 1, 2, 3, 8]), "fs": rng.choice([8000, 16000, 44100]),
                        "fmt": {"aiff": "AIFF"}.get(ext, ext.upper()), "sub": rng.choice(EXTS[ext])})
            if ext in ("flac", "ogg") and pre[-1]["n"] < 700:
                pre[-1]["n"] = 700
        nodes = []
        fns5 = ["io.load_audio", "audio.load_audio", "audio.load_audio_data", "io.load_audio_data", "io.info_audio"]
        writers = rng.random() < 0.2        # several processes saving into one directory
        for k in range(rng.choice([2, 3]) if writers else rng.choice([1, 1, 2])):
            ops = []
            for j in range(rng.choice([1, 2, 3, 4])):
                q = rng.random() if not writers else rng.choice([0.1, 0.9, 0.9])
                if q < 0.45:
                    ext = rng.choice(["wav", "wav", "wav", "flac", "aiff", "au", "caf", "ogg", "w64"])
                    fns = ["io.save_wav", "io.save", "audio.save", "scene", "io.save_audio", "audio.save_audio", "data"]
                    fn = rng.choice(fns if ext == "wav" or rng.random() < 0.05 else fns[4:])
                    n = rng.choice([1, 50, 300, 5000, 30000])
                    shape = rng.choice([[n], [n], [1, n], [2, n], [n, 2] if n > 8 else [n], [3, n],
                                        rng.choice([[8, n], [6, n], [n, 9] if n > 8 and ext in ("wav", "w64", "caf") else [8, n]])])
                    op = {"k": "save", "fn": fn, "path": f"out/n{k}o{j}.{ext}", "fs": rng.choice([8000, 16000, 22050]),
                          "x": {"seed": rng.randrange(1000), "shape": shape,
                                "dtype": rng.choice(["float32", "float32", "float64"]), "amp": rng.choice([0.3, 0.99])}}
                    if ext in ("wav", "aiff", "au", "caf") and rng.random() < 0.05:
                        op["x"]["shape"] = [0]
                    for f, p in (("strided", 0.2), ("grad", 0.15), ("zero", 0.05)):
                        if rng.random() < p:
                            op["x"][f] = True
                    if ext == "ogg":
                        op["x"]["tone"] = True
                        op["x"]["shape"] = [3000]
                    if fn != "scene":
                        if rng.random() < 0.5:
                            op["normalize"] = rng.random() < 0.5
                        if op.get("normalize", True) and rng.random() < 0.4:
                            op["peak"] = rng.choice([0.5, 0.9, 0.9, 0.0]) if rng.random() < 0.3 else 0.7
                        if rng.random() < 0.4:
                            op["subtype"] = rng.choice(EXTS[ext]) if rng.random() < 0.93 else "NOSUCH"
                        if fn == "data" and rng.random() < 0.6:
                            op["dsub"] = rng.choice(EXTS[ext])
                    selectors(rng, op)
                    if op.get("normalize") is False and (op.get("subtype") or op.get("dsub") or DEFSUB[ext]) in ("FLOAT", "DOUBLE") \
                            and rng.random() < 0.5:
                        op["x"]["amp"] = 3.0
                elif q < 0.72:
                    f = rng.choice(pre)
                    fns = list(fns5)
                    if f["path"].endswith("wav") or rng.random() < 0.05:
                        fns += ["io.load_wav", "io.load", "audio.load", "io.info_wav", "io.info"]
                    op = {"k": "load", "fn": rng.choice(fns), "path": f["path"]}
                    selectors(rng, op)
                elif q < 0.80:
                    f = rng.choice(pre)
                    op = {"k": "copy", "path": f["path"], "to": f"out/n{k}o{j}." + f["path"].rsplit(".", 1)[1]}
                else:
                    kind = rng.choice(["meta", "meta", "scenemeta", "attr"])
                    op = {"k": kind, "path": f"out/sub{rng.randrange(2)}/n{k}o{j}." + ("txt" if kind == "attr" else "json"),
                          "x": {"seed": rng.randrange(1000), "n": rng.choice([3, 40]), "map": rng.random() < 0.5}}
                if ops and op["k"] in ("save", "meta") and rng.random() < 0.15:
                    # write the same file again
                    same = [o for o in ops if o["k"] == op["k"] and o["path"].rsplit(".", 1)[1] == op["path"].rsplit(".", 1)[1]]
                    if same:
                        op["path"] = rng.choice(same)["path"]
                ops.append(op)
                if op["k"] in ("save", "copy") and rng.random() < 0.3:
                    # read it back, possibly once more after it is written anew
                    back = {"k": "load", "fn": rng.choice(fns5), "path": op.get("to", op["path"]), "own": op["k"]}
                    ops.append(back)
                    if op["k"] == "save" and rng.random() < 0.5:
                        again = copy.deepcopy(op)
                        again["x"]["seed"] += 1
                        again["x"].pop("zero", None)
                        ops += [again, dict(back)]
            nodes.append(ops)
        # extensions in capitals
        up = {f["path"] for f in pre if rng.random() < 0.15}
        for f in [*pre, *(o for ops in nodes for o in ops)]:
            if f["path"] in up or "save" in (f.get("k"), f.get("own")) and zlib.crc32(f["path"].encode()) % 7 == 0:
                f["path"] = f["path"].rsplit(".", 1)[0] + "." + f["path"].rsplit(".", 1)[1].upper()
        r = rng.random()
        f = {"max": rng.choice([1, 1, 2, 3])}
        if r < 0.25:
            f["crash"] = rng.choice([0.02, 0.1])
        elif r < 0.85:
            f["err"] = rng.choice([0.02, 0.08, 0.3])
        else:
            f.update(crash=0.02, err=0.04)
        if rng.random() < 0.6:
            f["short"] = rng.choice([0.1, 0.5])
        if writers and rng.random() < 0.6:
            f = {"max": 0}
        return {"pre": pre, "nodes": nodes, "faults": f, "old": rng.choice([0, 0, 10, 100000]),
                "sched": {"p": rng.choice([0.0, 0.3, 0.3]) if not writers else 0.5}, "seed": rng.randrange(1 << 20)}

    def machine_names(self, scn):
        return [f"n{k}" for k in range(len(scn["nodes"]))]

    spellings = ["abs"]

    def run(self, scn, d, ctx):
        out = engine.RunOut()
        root = ctx.fresh()
        files = {}
        for f in scn["pre"]:
            files[f["path"]] = prefile(f)
            os.makedirs(os.path.dirname(os.path.join(root, f["path"])), exist_ok=True)
            with open(os.path.join(root, f["path"]), "wb") as h:
                h.write(files[f["path"]])
        os.makedirs(os.path.join(root, "out"))
        if scn.get("old"):
            for ops in scn["nodes"]:
                for op in ops:
                    if op["k"] == "save":
                        with open(os.path.join(root, op["path"]), "wb") as h:
                            h.write(b"\xAA" * scn["old"])
        w = World(root, d, faults=scn["faults"], sched=scn["sched"], max_steps=60000, seed=scn["seed"],
                  machines=scn.get("machines"))
        state = {}
        rewr = {}
        own = {}

        def hook(kind, node, text):
            what, i = text.split(":")
            state[(node.name, int(i))] = what
            if what == "start":
                rewr[node.name] = len(node.faulted)
                op = scn["nodes"][int(node.name[1:])][int(i)]
                if op.get("own"):
                    # what is there to be read
                    try:
                        with open(os.path.join(root, op["path"]), "rb") as h:
                            own[(node.name, int(i))] = h.read()
                    except OSError:
                        own[(node.name, int(i))] = None
            else:
                # (a disk that filled up during an earlier operation stays full)
                rewr[(node.name, int(i))] = node.faulted[rewr[node.name]:] or (["disk full"] if node.full else [])

        w.hook = hook
        try:
            for k, ops in enumerate(scn["nodes"]):
                w.spawn(f"n{k}", work_io.io_ops, ops)
            w.run()
        except Stuck as exc:
            out.violate("no-progress", str(exc))
        for e in w.escapes:
            out.violate("outside-mutation", str(e))
        own["states"] = {f"n{k}": [state.get((f"n{k}", i)) for i in range(len(ops))] for k, ops in enumerate(scn["nodes"])}
        for k, ops in enumerate(scn["nodes"]):
            node = w.nodes[f"n{k}"]
            res = None
            if node.crashed:
                out.probe("crashed")
            elif node.result is not None and node.result.get("ok"):
                res = node.result["value"]
            else:
                out.violate("no-progress", f"client n{k} ended with {node.result}")
            for i, op in enumerate(ops):
                self.judge_op(scn, root, files, own, f"n{k}", ops, i, op, state.get((f"n{k}", i)), None if res is None else res[i],
                              rewr.get((f"n{k}", i), []), out)
        for p, b in files.items():
            with open(os.path.join(root, p), "rb") as h:
                if h.read() != b:
                    out.violate("input-altered", f"{p} changed on disk")
        out.digest = w.digest()
        out.sig = w.sched_sig.hexdigest()[:16] if w.switches > 1 else out.digest
        out.trace, out.sim_ns, out.steps = w.trace, w.now, w.steps
        out.add_stats(w.stats)
        out.nontrivial = bool(w.stats)
        out.outcome = hashlib.sha256(json.dumps([sorted(map(str, state.items()))]).encode()).hexdigest()[:12]
        return out

    def judge_op(self, scn, root, files, own, name, ops, i, op, st, res, faulted, out):
        import numpy as np
        who = f"{name} op{i} {json.dumps(op)} (faults in it: {faulted})"
        k = op["k"]
        if st is None or st == "start":
            return      # never ran, or the process died in it
        exc = res.get("exc") if res else None
        if k == "load":
            data = own.get((name, i)) if op.get("own") else files[op["path"]]
            if op.get("own"):
                before = [s for o, s in zip(ops[:i], own["states"][name]) if o.get("to", o["path"]) == op["path"] and o["k"] != "load"]
                if not before or before[-1] != "done":
                    return      # nothing was saved there, or not completely
                out.probe("read_back")
            if st == "failed":
                out.probe("load_failed")
                bad = not op["path"].lower().endswith("wav") and op["fn"] in ("io.load_wav", "io.load", "audio.load", "io.info_wav", "io.info") \
                    or badkw(op)
                if exc and not faulted and not bad:
                    out.violate("load-failed", f"{who} raised {exc['exc']}: {exc['msg']}")
                return
            out.probe("loaded")
            if badkw(op):
                out.violate("accepted-invalid", f"{who} did not raise")
                return
            if res is None:
                return
            x, fs, fmt, sub = decode(data)
            v = res["val"]
            if op["fn"].split(".")[1].startswith("info"):
                want = [fs, x.shape[0], x.shape[1], fmt, sub]
                if v[:5] != want or abs(v[5] - x.shape[0] / fs) > 1e-6:
                    out.violate("wrong-info", f"{who} gave {v}, the file has {want}")
                return
            m = x[:, 0]
            want = [hashlib.sha256(np.ascontiguousarray(m).tobytes()).hexdigest()[:16], [m.shape[0]], "torch.float32", fs]
            if op["fn"].endswith("load_audio_data"):
                want += [fmt, sub]
            if v != want:
                out.violate("wrong-load", f"{who} gave {v}, the file holds {want}")
            return
        later = [o for o in ops[i + 1:] if o["k"] != "load" and o.get("path" if o["k"] != "copy" else "to") == op.get("path" if k != "copy" else "to")]
        if k == "save" and invalid(op):
            out.probe("invalid")
            if st == "done":
                out.violate("accepted-invalid", f"{who} returned")
            return
        if st == "failed":
            out.probe("save_failed")
            if exc and not faulted:
                out.violate("save-failed", f"{who} raised {exc['exc']}: {exc['msg']} at {exc['frames'][-3:]}")
            return
        if later:
            return      # the file was written again afterwards
        path = os.path.join(root, op["to"] if k == "copy" else op["path"])
        try:
            with open(path, "rb") as h:
                data = h.read()
        except OSError as e:
            out.violate("save-lost", f"{who} returned but {e}")
            return
        if k in ("meta", "scenemeta"):
            out.probe("saved_json")
            try:
                got = json.loads(data.decode("utf-8"))
            except ValueError as e:
                out.violate("save-damaged", f"{who} returned but the file does not parse: {e}")
                return
            want = work_io.metadata(op["x"]) if k == "meta" else (res["val"] if res else None)
            if want is not None and got != want:
                out.violate("save-damaged", f"{who} returned but the file holds something else")
            return
        if k == "attr":
            out.probe("saved_attr")
            a, notes = work_io.attribution(op["x"])
            a = a if isinstance(a, dict) else a.to_dict()
            text = data.decode("utf-8", "replace")
            need = [a["dataset"], a["source"], a["license_name"], a["license_url"], a["required_attribution"]] + notes
            if a.get("subset"):
                need.append(a["subset"])
            miss = [s for s in need if str(s) not in text]
            if miss or not text.endswith("THIRD_PARTY_DATASETS.md\n"):
                out.violate("save-damaged", f"{who} returned but the file lacks {miss or 'its end'}")
            return
        try:
            x, fs, fmt, sub = decode(data)
        except Exception as e:  # noqa: BLE001
            out.violate("save-damaged", f"{who} returned but the file cannot be read: {e}")
            return
        if k == "copy":
            out.probe("copied")
            y, fs0, fmt0, sub0 = decode(files[op["path"]])
            if fs != fs0 or sub != sub0 or x.shape != (y.shape[0], 1):
                out.violate("save-damaged", f"{who}: copy has {x.shape} {fs} {sub}, original {y.shape} {fs0} {sub0}")
            elif sub != "VORBIS" and y.size and np.abs(x[:, 0] - y[:, 0]).max() > LSB[sub] * 1.01:
                out.violate("save-damaged", f"{who}: the copy holds other samples")
            return
        out.probe("saved")
        ext = op["path"].rsplit(".", 1)[1].lower()
        wsub = op.get("subtype") or op.get("dsub") or DEFSUB[ext]
        want = expected_frames(op)
        if fs != op["fs"] or sub != wsub:
            out.violate("save-damaged", f"{who} wrote rate {fs} subtype {sub}, expected {op['fs']} {wsub}")
        if want.shape != x.shape:
            if want.size or x.size:
                out.violate("save-damaged", f"{who} wrote {x.shape} samples, expected {want.shape}")
            return
        if not want.size:
            return
        if sub == "VORBIS":
            c = np.corrcoef(x[:, 0], want[:, 0])[0, 1] if np.abs(want).max() > 0 else 1.0
            if not c > 0.95:
                out.violate("save-damaged", f"{who}: written audio correlates {c:.3f} with the saved one")
            return
        if sub.startswith("PCM"):
            want = np.clip(want, -1.0, 1.0)
        dev = float(np.abs(x - want).max())
        if not dev <= LSB[sub] * 1.51 + 2e-7 * float(np.abs(want).max()):
            out.violate("save-damaged", f"{who}: written samples deviate by {dev} ({sub})")

    def shrinks(self, scn):
        yield from engine.shrink_machines(scn)
        for k in range(len(scn["nodes"])):
            if len(scn["nodes"]) > 1:
                s = copy.deepcopy(scn)
                del s["nodes"][k]
                yield s
            for i in range(len(scn["nodes"][k])):
                if len(scn["nodes"][k]) > 1:
                    s = copy.deepcopy(scn)
                    del s["nodes"][k][i]
                    yield s
        if scn.get("old"):
            yield dict(copy.deepcopy(scn), old=0)
        if len(scn["pre"]) > 1:
            used = {o["path"] for ops in scn["nodes"] for o in ops}
            s = copy.deepcopy(scn)
            s["pre"] = [p for p in s["pre"] if p["path"] in used]
            if len(s["pre"]) < len(scn["pre"]):
                yield s

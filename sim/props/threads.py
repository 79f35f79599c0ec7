"""Thread-world properties: simulation calls, aborts, logging, randomness and
shared dataset objects."""
from __future__ import annotations

import hashlib
import json
import os
import random

from sim import calls, corpora
from sim import threadworld as tw
from sim.engine import RunOut

SIZES = [[4.0, 3.0, 2.5], [5.0, 4.2, 3.1], [3.2, 6.1, 2.7]]
SIZES2 = [[4.0, 3.0], [5.3, 4.4]]


def gen_policy(rng, n):
    if n == 1:
        return {"p": 0.0}
    p = rng.choice([0.002, 0.01, 0.05, 0.2, 0.5])
    return {"p": p, "hot": rng.randrange(1000), "php": rng.choice([p, 0.3, 0.6]), "op": rng.random() < 0.2}


def gen_objs(rng):
    dim = 3 if rng.random() < 0.8 else 2
    size = lambda: rng.choice(SIZES if dim == 3 else SIZES2)
    objs = {"room": [], "src": [], "mic": [], "cfg": [], "traj": [], "sig": [], "rir": [], "conv": [], "ism": [],
            "scene": []}
    for _ in range(rng.choice([1, 1, 2])):
        s = {"size": size(), "fs": rng.choice([8000.0, 16000.0, 4000.0])}
        q = rng.random()
        if q < 0.45:
            s["beta"] = [round(rng.uniform(0.1, 0.95), 3) for _ in range(2 * dim)]
        elif q < 0.85:
            s["t60"] = round(rng.uniform(0.1, 0.6), 3)
        if rng.random() < 0.2:
            s["dt"] = "f64"
        if rng.random() < 0.2:
            s["c"] = 340.0
        objs["room"].append(s)

    def pos(n):
        return [[round(rng.uniform(0.4, 2.2), 3) for _ in range(dim)] for _ in range(n)]

    def ori(n):
        q = rng.random()
        if q < 0.5:
            return None
        if q < 0.8:
            return [round(rng.uniform(-1, 1), 3) for _ in range(dim)]
        return [[round(rng.uniform(-1, 1), 3) for _ in range(dim)] for _ in range(n)]

    for kind in ("src", "mic"):
        for _ in range(rng.choice([1, 1, 2])):
            n = rng.choice([1, 1, 2])
            s = {"pos": pos(n), "ori": ori(n)}
            if rng.random() < 0.15:
                s["dt"] = "f64"
            objs[kind].append(s)
    for _ in range(rng.choice([1, 2, 3])):
        c = {}
        if rng.random() < 0.6:
            c["frac_delay_length"] = rng.choice([81, 41, 9])
        if rng.random() < 0.4:
            c["sinc_lut_granularity"] = rng.choice([20, 7])
        if rng.random() < 0.3:
            c["use_lut"] = False
        if rng.random() < 0.3:
            c["image_chunk_size"] = rng.choice([3, 10])
        if rng.random() < 0.3:
            c["accumulate_chunk_size"] = rng.choice([4, 9])
        if rng.random() < 0.5:
            c["rir_hpf_enable"] = rng.random() < 0.4
        if rng.random() < 0.3:
            c["hpf"] = rng.choice([{"n": 2, "type": "butter"}, {"n": 3, "ftype": "cheby1", "rp": 4.0},
                                   {"n": 4, "rp": 5.0, "rs": 50.0, "type": "ellip"}])
            if rng.random() < 0.5:
                c["rir_hpf_fc"] = rng.choice([20.0, 50.0])
        if rng.random() < 0.4:
            c["seed"] = rng.randrange(5)
        if rng.random() < 0.15:
            c["device"] = rng.choice(["cpu", "auto"])
        objs["cfg"].append(c)
    T = rng.choice([1, 2, 3])
    for i in range(2):
        n = 1 if rng.random() < 0.7 else 2
        objs["traj"].append({"a": pos(n), "b": pos(n), "T": T, **({"dt": "f64"} if rng.random() < 0.1 else {})})
    for _ in range(rng.choice([1, 2])):
        objs["sig"].append({"seed": rng.randrange(1000), "shape": rng.choice([[50], [1, 80], [2, 64]]),
                            **({"dt": "f64"} if rng.random() < 0.2 else {})})
    objs["rir"].append({"seed": rng.randrange(1000), "shape": rng.choice([[20], [2, 20], [1, 2, 16], [2, 2, 16]])})
    objs["rir"].append({"seed": rng.randrange(1000), "shape": rng.choice([[3, 20], [3, 2, 16], [3, 1, 2, 16], [4, 2, 1, 9]])})
    if rng.random() < 0.3:
        objs["rir"][1]["dt"] = "f64"
    for _ in range(rng.choice([1, 2])):
        m = rng.choice(["trajectory", "trajectory", "hop"])
        c = {"mode": m}
        if m == "hop":
            c["hop"] = rng.choice([16, 30])
        elif rng.random() < 0.5:
            n = objs["rir"][1]["shape"][0]
            c["ts"] = [round(0.002 * i, 4) for i in range(n)]
            c["fs"] = 8000.0
        objs["conv"].append(c)
    for _ in range(rng.choice([1, 2])):
        c = {"max_order": rng.choice([0, 1, 2]), "nsample": rng.choice([48, 96])}
        if rng.random() < 0.3:
            c["tmax"] = 0.01
        if rng.random() < 0.3:
            c["directivity"] = rng.choice(["cardioid", ["omni", "cardioid"], ["bidir", "omni"]])
        objs["ism"].append(c)
    objs["scene"].append({"k": rng.choice(["static", "static", "dynamic", "legacy"]), "room": 0, "src": 0, "mic": 0,
                          "st": 0, "mt": 1})
    sc = objs["scene"][0]
    if sc["k"] != "static":
        # trajectories must fit the entities
        objs["traj"][0].update(a=pos(len(objs["src"][0]["pos"])), b=pos(len(objs["src"][0]["pos"])))
        objs["traj"][1].update(a=pos(len(objs["mic"][0]["pos"])), b=pos(len(objs["mic"][0]["pos"])))
    return objs, dim


def pick(rng, lst):
    return rng.randrange(len(lst))


def gen_op(rng, objs, dim):
    q = rng.random()
    if q < 0.36:
        op = {"k": "static", "room": pick(rng, objs["room"]), "src": pick(rng, objs["src"]),
              "mic": pick(rng, objs["mic"]), "order": rng.choice([0, 1, 1, 2, 3])}
        if rng.random() < 0.8:
            op["cfg"] = pick(rng, objs["cfg"])
        if rng.random() < 0.6:
            op["ns"] = rng.choice([32, 64, 100])
        if "ns" not in op or rng.random() < 0.4:
            op["tmax"] = rng.choice([0.008, 0.012])
            if rng.random() < 0.5:
                op["tdiff"] = rng.choice([0.002, 0.004])
        if rng.random() < 0.25:
            op["dir"] = rng.choice(["cardioid", ["omni", "cardioid"], ["subcardioid", "omni"], "bidir"])
            if rng.random() < 0.7:
                o = [round(rng.uniform(-1, 1), 3) for _ in range(dim)]
                op["ori"] = o if rng.random() < 0.5 else [o, [0.5] * dim]
        if rng.random() < 0.1:
            op["nb"] = [rng.choice([0, 1]) for _ in range(dim)]
        if rng.random() < 0.2:
            op["dt"] = rng.choice(["f32", "f64"])
        if rng.random() < 0.2:
            op["raw"] = True
        m = rng.random()
        if m < 0.12:
            op["mode"] = "infer"
        elif m < 0.2:
            op["mode"] = "nograd"
        elif m < 0.35:
            op["mode"] = "grad"
    elif q < 0.5:
        op = {"k": "dynamic", "room": pick(rng, objs["room"]), "st": 0, "mt": 1, "order": rng.choice([0, 1, 2]),
              "ns": rng.choice([32, 64])}
        if rng.random() < 0.8:
            op["cfg"] = pick(rng, objs["cfg"])
        if rng.random() < 0.2:
            op["dir"] = rng.choice(["cardioid", ["omni", "cardioid"]])
            op["ori"] = [0.3] * dim
        if rng.random() < 0.2:
            op["dt"] = rng.choice(["f32", "f64"])
        m = rng.random()
        if m < 0.12:
            op["mode"] = "infer"
        elif m < 0.3:
            op["mode"] = "grad"
    elif q < 0.62:
        op = {"k": "ism", "ism": pick(rng, objs["ism"]), "scene": 0}
        if rng.random() < 0.7:
            op["cfg"] = pick(rng, objs["cfg"])
    elif q < 0.70:
        op = {"k": "conv", "sig": pick(rng, objs["sig"]), "rir": 0}
    elif q < 0.73:
        op = {"k": "fft", "sig": pick(rng, objs["sig"]), "rir": 0}
    elif q < 0.86:
        op = {"k": "dyn", "conv": pick(rng, objs["conv"]), "sig": pick(rng, objs["sig"]), "rir": 1}
        if rng.random() < 0.3:
            op["call"] = True
    elif q < 0.89:
        op = {"k": "meta", "room": 0, "src": 0, "mic": 0, "rir": 0, "len": 100}
    elif q < 0.92:
        op = {"k": "acoustics", "room": pick(rng, objs["room"]), "t60": 0.3, "tmax": 0.05}
    elif q < 0.97:
        op = {"k": "array", "f": rng.choice(["linear", "circular", "binaural", "em32", "em64", "poly"]),
              "kind": rng.choice(["tetrahedron", "octahedron"]),
              "c": [1.0, 1.5, round(rng.uniform(1, 2), 2)], "n": rng.choice([2, 4])}
    else:
        op = {"k": "room", "size": rng.choice(SIZES), "fs": 8000.0, "t60": 0.3}
    if rng.random() < 0.12:
        op = gen_tool(rng, objs, dim)
    return op


def gen_tool(rng, objs, dim):
    u = lambda n: [round(rng.uniform(-1, 1), 3) for _ in range(n)]
    f = rng.choice(["ori", "clamp", "gain", "tensor", "device", "att", "attr", "attr", "speakers", "config", "entity",
                    "wav", "wav", "traj", "traj"])
    if f == "wav":
        return {"k": "wav", "sig": pick(rng, objs["sig"]), "fs": rng.choice([8000, 16000]), "norm": rng.random() < 0.7,
                "sub": rng.choice([None, "PCM_16", "PCM_24", "FLOAT"])}
    if f == "traj":
        return {"k": "trajfn", "a": u(dim), "b": u(dim), "n": rng.choice([1, 3, 5])}
    op = {"k": "tool", "f": f}
    if f == "ori":
        op.update(dim=dim, o=rng.choice([u(dim), [u(dim), u(dim)]]))
    elif f == "clamp":
        op.update(room=0, src=0, margin=rng.choice([0.1, 1.2]))
    elif f == "gain":
        op.update(p=rng.choice(["omni", "cardioid", "subcardioid", "hypercardioid", "bidir", "homni"]), cos=u(3))
    elif f == "tensor":
        op.update(x=u(3), dt=rng.choice([None, "f32", "f64"]))
    elif f == "device":
        op.update(d=rng.choice([None, "cpu", "auto", "cuda"]), dt=rng.choice(["f32", "f64"]), dt2=rng.choice([None, "f64"]))
    elif f == "att":
        op.update(db=rng.choice([13.0, 60.0]), t60=rng.choice([0.2, 0.5]))
    elif f == "attr":
        op.update(name=rng.choice(["cmu_arctic", "librispeech"]), subset=rng.choice([None, "dev-clean"]), dyn=rng.random() < 0.5)
    elif f == "config":
        op.update(cfg=pick(rng, objs["cfg"]) if rng.random() < 0.8 else None, seed=rng.randrange(9))
    elif f == "entity":
        op.update(room=0, src=0, mic=0, c=rng.choice([330.0, 350.0]))
    return op


# ---------------------------------------------------------------------------
# inside the simulated processes
# ---------------------------------------------------------------------------
_REFS = {}


def ref_child(objs, op):
    """One call alone in a fresh process."""
    seed_globals(0)
    prepare_process(objs)
    w = calls.World(objs, "data")
    w.build_all()
    v = calls.outcome(w, op)
    s = calls.summary(v)
    return {"fp": s[0], "brief": s[1], "exc": isinstance(v, BaseException),
            "n": v.numel() if hasattr(v, "numel") else None}


def unextract():
    import glob
    import shutil
    for p in glob.glob("dl/ARCTIC/cmu_us_*_arctic") + ["dl/LibriSpeech"]:
        shutil.rmtree(p, ignore_errors=True)


def count_child(objs, op, where):
    """How many points of a call an abort can be planned at."""
    prepare_process(objs)
    if op["k"] == "open":
        unextract()
    w = calls.World(objs, "data")
    w.build_all()
    if where == "torch":
        m = calls.TorchAborter(None, None, [])
        with m:
            calls.outcome(w, op)
        return m.n, list(m.first.values()), [k for at, k in m.first.items() if at and tw.keeps_state(at[0])]
    return tw.count_points(lambda: calls.outcome(w, op))


def cached(kind, key, fn, *args, cwd=None):
    k = hashlib.sha256((kind + key).encode()).digest()
    r = _REFS.get(k)
    if r is None:
        if len(_REFS) > 20000:
            _REFS.clear()
        r = _REFS[k] = tw.forked(fn, *args, cwd=cwd)
    return r


def reference(objs, op, cwd):
    o = {k: v for k, v in op.items() if k != "abort"}
    r = dict(cached("ref", calls.ref_key(op, objs), ref_child, objs, o, cwd=cwd))
    if op["k"] == "plot" and op.get("abort"):
        r["unstyled"] = [cached("ref", how + calls.ref_key(op, objs), ref_child, dict(objs, nostyle=how), o, cwd=cwd)["fp"]
                         for how in ("all", "first")]
    if op.get("abort"):
        wh = op["abort"]["where"]
        r["points"] = cached("count" + wh, calls.ref_key(op, objs), count_child, objs, o, wh, cwd=cwd)
    return r


def prepare_process(objs):
    """What a process of this scenario needs besides the library."""
    tw.patch_flock()
    small_figures()
    if objs.get("style"):
        fake_style()
    if objs.get("nostyle"):
        no_style(objs["nostyle"])
    if objs.get("corpora"):
        local_network(objs["corpora"])


def small_figures():
    """Figures are saved at a low resolution, to save time."""
    from matplotlib.figure import Figure
    real = Figure.savefig
    if getattr(real, "small", False):
        return

    def savefig(self, *a, **k):
        k["dpi"] = 25
        return real(self, *a, **k)

    savefig.small = True
    Figure.savefig = savefig


def fake_style():
    """Stands in for the optional style package, which is not installed here."""
    import sys
    import types
    import matplotlib
    import matplotlib.style.core as sc
    sys.modules["scienceplots"] = types.ModuleType("scienceplots")
    lib = {"science": {"axes.facecolor": "#eeeeff", "lines.linewidth": 2.5}, "grid": {"axes.grid": True},
           "no-latex": {"text.usetex": False}}
    for k, v in lib.items():
        sc.library[k] = matplotlib.RcParams(v)


def no_style(how):
    """The style package cannot be imported (by the first who tries, or at all)."""
    import sys

    class Finder:
        left = 1 if how == "first" else 1 << 30

        def find_spec(self, name, path=None, target=None):
            if name == "scienceplots" and self.left:
                self.left -= 1
                sys.modules.update(kept)
                raise ImportError("simulated: no style package")
            return None

    kept = {k: sys.modules.pop(k) for k in list(sys.modules) if k == "scienceplots"}
    if how != "first":
        kept = {}
    sys.meta_path.insert(0, Finder())


def local_network(specs):
    """Serves the archives of the corpora to urlopen."""
    import io
    import urllib.error
    import urllib.request

    def urlopen(url, *a, **k):
        url = url if isinstance(url, str) else url.full_url
        name = url.rsplit("/", 1)[-1]
        for c in specs:
            for u in c["units"]:
                if name == corpora.archive_name(c["kind"], u):
                    b = io.BytesIO(archive(c, u))
                    b.length = len(b.getvalue())
                    b.headers = {"Content-Length": str(b.length)}
                    b.status = 200
                    return b
        raise urllib.error.HTTPError(url, 404, "Not Found", {}, None)

    urllib.request.urlopen = urlopen


_ARCH = {}


def archive(spec, unit):
    k = json.dumps([spec, unit], sort_keys=True)
    if k not in _ARCH:
        if len(_ARCH) > 50:
            _ARCH.clear()
        _ARCH[k] = corpora.archive_bytes(spec["kind"], corpora.make(spec)["archives"][unit], seed=spec["seed"])
    return _ARCH[k]


def install_corpora(cwd, specs):
    for c in specs:
        made = corpora.make(c)
        base = os.path.join(cwd, "data", "ARCTIC") if c["kind"] == "cmu" else os.path.join(cwd, "data")
        dl = os.path.join(cwd, "dl", "ARCTIC") if c["kind"] == "cmu" else os.path.join(cwd, "dl")
        os.makedirs(dl, exist_ok=True)
        for u in c["units"]:
            corpora.install(base, made["archives"][u])
            if c.get("local", True):
                with open(os.path.join(dl, corpora.archive_name(c["kind"], u)), "wb") as f:
                    f.write(archive(c, u))


def seed_globals(s):
    import numpy as np
    import torch
    random.seed(s)
    np.random.seed(s % (1 << 32))
    torch.manual_seed(s)


def make_exc(kind):
    import torch
    if kind == "interrupt":
        return KeyboardInterrupt("simulated interrupt")
    if kind == "exit":
        return SystemExit(7)
    if kind == "memory":
        return MemoryError("simulated allocation failure")
    if kind == "oom":
        return torch.OutOfMemoryError("simulated: out of memory")
    if kind == "os":
        return OSError(5, "simulated input/output error")
    return RuntimeError("[enforce fail at alloc_cpu.cpp:117] simulated: can't allocate memory")


def run_child(scn, objs, d, refs):
    """The concurrent part of a scenario; returns everything observed."""
    prepare_process(objs)
    seed_globals(scn.get("globseed", 0) + 77)
    w = calls.World(objs, "data")
    w.build_all()
    w.args = []
    before = w.prints()
    s = tw.Sched(d, scn["policy"])
    progs = scn["threads"]
    res = [[None] * len(p) for p in progs]
    vals = [[None] * len(p) for p in progs]
    log = []
    state = {"gen": scn.get("rngs")}

    def body(ti):
        def f(t):
            rng = random.Random(scn["rngs"][ti]) if scn.get("rngs") else None
            for oi, op in enumerate(progs[ti]):
                if op["k"] == "scribble":
                    j = op["of"]
                    log.append([ti, oi, "scribble"])
                    if j < oi and vals[ti][j] is not None:
                        scribble(vals[ti][j])
                        vals[ti][j] = None
                    continue
                if op["k"] == "glob":
                    res[ti][oi] = calls.summary(draw_globals(op["n"])) + [None]
                    continue
                ab = op.get("abort")
                hit = []
                start = s.steps
                log.append([ti, oi, "call"])
                if ab is None:
                    v = calls.outcome(w, op, rng, s.arm)
                else:
                    v = run_aborted(s, t, w, op, ab, refs[ti][oi], hit, rng)
                res[ti][oi] = calls.summary(v) + [bool(hit)]
                if hit:
                    e = hit[0]
                    chain, seen = v, 0
                    reached = False
                    while isinstance(chain, BaseException) and seen < 10:
                        if chain is e:
                            reached = True
                        chain = chain.__cause__ or chain.__context__
                        seen += 1
                    res[ti][oi].append(reached)
                    res[ti][oi].append(isinstance(v, BaseException))
                log.append([ti, oi, "return", start])
                vals[ti][oi] = v if not isinstance(v, BaseException) else None
        return f

    s.run([body(i) for i in range(len(progs))])
    after = w.prints()
    again = [[None if v is None else calls.fingerprint(v) for v in vs] for vs in vals]
    rep = s.report()
    rep.update(res=res, again=again, before=before, after=after, log=log, args=sorted(w.changed_args()))
    if scn.get("watch_globals"):
        rep["glob"] = calls.summary(global_states())
    return rep


def run_aborted(s, t, w, op, ab, ref, hit, rng):
    """Run a call with an abort planned in it."""
    kind, where = ab["exc"], ab["where"]
    total, first, state = ref["points"]
    if ab.get("site") == 2 and state:
        n = state[int(ab["at"] * len(state))]
    elif ab.get("site") and first:
        n = first[int(ab["at"] * len(first))]       # the first time at some instruction
    else:
        n = 1 + int(ab["at"] * max(1, total))
    if where == "torch":
        m = calls.TorchAborter(n, lambda: make_exc(kind), hit)
        try:
            with m:
                v = calls.outcome(w, op, rng, s.arm)
        except BaseException as exc:  # noqa: BLE001
            v = exc
        if hit:
            s.hash.update(f"{t.idx}!torch{kind};".encode())
            s.trace.append([f"t{t.idx}", t.steps, f"library call {n}", "abort " + kind])
    else:
        t.abort = [n, lambda: make_exc(kind)]
        t.aborted = None
        try:
            v = calls.outcome(w, op, rng, s.arm)
        except BaseException as exc:  # noqa: BLE001
            if isinstance(exc, tw.SimDeadlock):
                raise
            v = exc
        t.abort = None
        if t.aborted is not None:
            hit.append(t.aborted)
    s.arm()
    return v


def scribble(v):
    import torch
    if torch.is_tensor(v):
        if v.is_inference() or not v.numel():
            return
        with torch.no_grad():
            try:
                v.detach().zero_().sub_(3 if not v.is_floating_point() else 3.5)
            except RuntimeError:
                pass
    elif isinstance(v, (list, tuple)):
        for x in v:
            scribble(x)
        if isinstance(v, list):
            v.clear()
    elif isinstance(v, dict):
        for x in v.values():
            scribble(x)
        v.clear()


def draw_globals(n):
    import numpy as np
    import torch
    out = []
    for _ in range(n):
        out += [random.random(), float(np.random.rand()), torch.rand(2)]
    return out


def global_states():
    import numpy as np
    import torch
    st = np.random.get_state()
    return [repr(random.getstate()), st[0], st[1], repr(st[2:]), torch.get_rng_state()]


def merge(out, rep, d, salt=""):
    tw.merge_decider(d, salt, rep)
    out.steps += rep["steps"]
    out.stats["switches"] = out.stats.get("switches", 0) + rep["switches"]
    for a in rep["aborts"]:
        k = "fault.abort_" + a[2]
        out.stats[k] = out.stats.get(k, 0) + 1
    out.trace += rep["trace"]


class ThreadProp:
    def __init__(self, pid):
        self.pid = pid

    # hooks ------------------------------------------------------------------
    def objects(self, scn):
        return scn["objs"]

    def refs_for(self, scn, objs, cwd):
        rs = []
        for ti, prog in enumerate(scn["threads"]):
            row = []
            for op in prog:
                row.append(None if op["k"] in ("scribble", "glob") else reference(objs, op, cwd))
            rs.append(row)
        return rs

    def setup(self, objs, ctx):
        cwd = ctx.fresh()
        if objs.get("corpora"):
            install_corpora(cwd, objs["corpora"])
            if objs.get("other"):       # the same names, other content, another root
                o = objs["other"]
                made = corpora.make(o)
                for u in o["units"]:
                    corpora.install(os.path.join(cwd, "data2", *(["ARCTIC"] if o["kind"] == "cmu" else [])), made["archives"][u])
        return cwd

    def run(self, scn, d, ctx):
        out = RunOut()
        objs = self.objects(scn)
        cwd = self.setup(objs, ctx)
        refs = self.refs_for(scn, objs, cwd)
        if any(op["k"] in ("open", "build") for p in scn["threads"] for op in p):
            cwd = self.setup(objs, ctx)
        c = tw.child_decider(d, "")
        rep = tw.forked(run_child, scn, objs, c, refs, cwd=cwd)
        merge(out, rep, d)
        self.judge(scn, objs, refs, rep, out)
        h = hashlib.sha256(rep["digest"].encode())
        h.update(json.dumps([rep["res"], rep["after"]], sort_keys=True, default=str).encode())
        out.digest = h.hexdigest()[:24]
        out.sig = rep["digest"]
        out.outcome = None
        out.nontrivial = rep["switches"] > 0 or bool(rep["aborts"]) or sum(map(len, scn["threads"])) > 1
        return out

    def judge(self, scn, objs, refs, rep, out):
        if rep["deadlock"]:
            out.violate("deadlock", "all threads wait for one another: " + str(rep["trace"][-4:]))
            return
        if rep["stalled"]:
            out.probe("stalled")
            return
        for k, v in rep["before"].items():
            if rep["after"].get(k) != v:
                out.violate("input-changed", f"{k} was modified by the calls of this run")
        for what in rep["args"]:
            out.violate("input-changed", f"the {what} was modified by the call")
        for ti, prog in enumerate(scn["threads"]):
            for oi, op in enumerate(prog):
                r = rep["res"][ti][oi]
                if r is None or op["k"] == "glob":
                    continue
                ref = refs[ti][oi]
                if r[2]:
                    out.probe("aborted_call")
                    out.stats["fault.abort_" + op["abort"]["exc"] + "_" + op["abort"]["where"]] = \
                        out.stats.get("fault.abort_" + op["abort"]["exc"] + "_" + op["abort"]["where"], 0) + 1
                    # a call may cope with a failure, and plots do without the optional style
                    coped = op["abort"]["exc"] not in ("interrupt", "exit") and (
                        r[0] == ref["fp"] or r[0] in ref.get("unstyled", ()))
                    if not r[3] and not coped:
                        out.violate("abort-lost", f"t{ti} op{oi} {op['k']}: the exception injected into the call did not "
                                    f"reach the caller, which got {r[1]}; without it: {ref['brief']}")
                    continue
                out.probe("call_" + op["k"])
                if ref["exc"]:
                    out.probe("call_raises")
                if r[0] != ref["fp"]:
                    out.violate("result-differs", f"t{ti} op{oi} {json.dumps(op)}: got {r[1]}; alone in a fresh "
                                f"process: {ref['brief']}")
                if rep["again"][ti][oi] is not None and rep["again"][ti][oi] != r[0]:
                    out.violate("result-changed", f"t{ti} op{oi} {json.dumps(op)}: its result changed after it was "
                                "returned")

    def shrinks(self, scn):
        n = len(scn["threads"])
        if n > 1:
            for i in range(n):
                s = json.loads(json.dumps(scn))
                s["threads"][i] = []
                yield s
        for ti, prog in enumerate(scn["threads"]):
            for oi in range(len(prog)):
                if any(o["k"] == "scribble" and o["of"] >= oi for o in prog[oi:]) and prog[oi]["k"] != "scribble":
                    continue
                s = json.loads(json.dumps(scn))
                del s["threads"][ti][oi]
                yield s
        for ti, prog in enumerate(scn["threads"]):
            for oi, op in enumerate(prog):
                for k in ("tdiff", "dir", "ori", "nb", "dt", "raw", "mode", "abort", "call"):
                    if k in op:
                        s = json.loads(json.dumps(scn))
                        del s["threads"][ti][oi][k]
                        yield s
        for i, c in enumerate(scn.get("objs", {}).get("cfg", [])):
            for k in list(c):
                s = json.loads(json.dumps(scn))
                del s["objs"]["cfg"][i][k]
                yield s


COMPONENTS = {
    "real": ["the library calls named in the statement", "torch CPU kernels, numpy, scipy", "CPython threads"],
    "simulated": ["thread scheduler (one thread runs at a time; switches at library source lines or bytecodes)",
                  "locks created by the library"],
    "stub": [],
}
ASSUME = ["threads interleave at source lines or bytecodes of the library, not inside torch, numpy or scipy calls",
          "one intra-op thread; the reference is the same call alone in a process forked before any library call",
          "CPU only: no CUDA or MPS device is present"]


def herd(rng, objs, dim):
    """Twins of the objects (same shapes and precisions, other contents) and a
    generator of calls that differ from one another only in which twin they use."""
    def other(v, lo=0.4, hi=2.2):
        if isinstance(v, list):
            return [other(x, lo, hi) for x in v]
        return round(rng.uniform(lo, hi), 3)

    for kind in ("src", "mic"):
        objs[kind] = objs[kind][:1]
        a = objs[kind][0]
        objs[kind].append(dict(a, pos=other(a["pos"])))
    objs["traj"] = objs["traj"][:2]
    for i in (0, 1):
        t = objs["traj"][i]
        objs["traj"].append(dict(t, a=other(t["a"]), b=other(t["b"])))
    for kind in ("sig", "rir"):
        for a in list(objs[kind])[:1 if kind == "sig" else 2]:
            objs[kind].append(dict(a, seed=rng.randrange(1000, 2000)))
    objs["sig"] = [objs["sig"][0], objs["sig"][-1]]
    r = objs["room"][0]
    twin = dict(r)
    if rng.random() < 0.5:
        twin["size"] = rng.choice(SIZES if dim == 3 else SIZES2)
    elif "beta" in twin:
        twin["beta"] = other(twin["beta"], 0.1, 0.95)
    elif "t60" in twin:
        twin["t60"] = round(rng.uniform(0.1, 0.6), 3)
    else:
        twin["fs"] = 12000.0
    objs["room"] = [r, twin]
    sc = objs["scene"][0]
    objs["scene"].append(dict(sc, src=1, mic=1, room=1, st=2, mt=3))
    base = gen_op(rng, objs, dim)
    while base["k"] not in ("static", "dynamic", "ism", "conv", "dyn", "acoustics", "array") or \
            (base["k"] == "array" and rng.random() < 0.7):
        base = gen_op(rng, objs, dim)
    two = lambda: rng.randrange(2)

    def make():
        op = dict(base)
        for f in ("room", "src", "mic", "sig", "scene"):
            if f in op:
                op[f] = two()
        if "st" in op:
            op["st"], op["mt"] = 2 * two(), 1 + 2 * two()
        if op["k"] == "conv":
            op["rir"] = 2 * two()
        if op["k"] == "dyn":
            op["rir"] = 1 + 2 * two()
        if "cfg" in op and rng.random() < 0.3:
            op["cfg"] = pick(rng, objs["cfg"])
        for f in ("mode", "ns", "order"):
            if f in op and rng.random() < 0.1 and f == "mode":
                del op[f]
        if op["k"] == "array":
            op["c"] = [1.0, 1.5, round(rng.uniform(1, 2), 2)]
        return op
    return [make() for _ in range(8)]


class Independent(ThreadProp):
    META = {
        "level": "exploration", "count": {"quick": 2500, "thorough": 60000}, "wall": {"quick": 45, "thorough": 780},
        "chunk": 6, "min_runs": 60, "world": "thread",
        "rule": "a run is nontrivial when threads were switched inside library calls or a call followed another; runs with "
                "the same schedule, results and inputs count once",
        "measure": "distinct sequences of thread switches (from thread, source line, to thread)",
        "components": COMPONENTS, "assumptions": ASSUME,
        "required_probes": ["call_static", "call_dynamic", "call_ism", "call_conv", "call_dyn", "call_array", "call_raises"],
    }

    def gen(self, rng, tier, seed):
        # successive runs share their objects and calls, so that the references
        # are made once for many schedules
        g = random.Random(seed >> 32)
        objs, dim = gen_objs(g)
        n = rng.choice([1, 2, 2, 3, 3, 4])
        m = rng.choice([2, 3, 6]) if n == 1 else rng.choice([1, 2, 3])
        if g.random() < 0.4:
            pool = herd(g, objs, dim)
            make = lambda: json.loads(json.dumps(rng.choice(pool)))
            n = rng.choice([1, 2, 2, 2, 3])
            m = rng.choice([2, 3, 4]) if n == 1 else rng.choice([1, 1, 2, 3])
            threads = []
            for t in range(n):
                prog = [make() for _ in range(m)]
                if rng.random() < 0.15:
                    prog.append({"k": "scribble", "of": len(prog) - 1})
                threads.append(prog)
            return {"objs": objs, "threads": threads, "policy": gen_policy(rng, n), "globseed": rng.randrange(1000)}
        pool = [gen_op(g, objs, dim) for _ in range(12)]
        gen_op_ = lambda *a: dict(rng.choice(pool))
        first = gen_op_()
        threads = []
        for t in range(n):
            prog = []
            for j in range(m):
                if j == 0 and rng.random() < 0.5:
                    op = dict(first)
                    if rng.random() < 0.4 and "cfg" in op:
                        op["cfg"] = pick(rng, objs["cfg"])
                elif prog and rng.random() < 0.15:
                    op = dict(rng.choice([o for o in prog if o["k"] != "scribble"]))
                else:
                    op = gen_op_()
                prog.append(op)
                if rng.random() < 0.12:
                    prog.append({"k": "scribble", "of": len(prog) - 1})
            threads.append(prog)
        return {"objs": objs, "threads": threads, "policy": gen_policy(rng, n), "globseed": rng.randrange(1000)}


# ---------------------------------------------------------------------------
# dataset objects
# ---------------------------------------------------------------------------
CMU_UNITS = ["bdl", "slt", "aew", "clb"]
LIBRI_UNITS = ["dev-clean", "test-other"]


def gen_corpora(rng, both=0.4, nspk=2):
    kinds = ["cmu", "libri"] if rng.random() < both else [rng.choice(["cmu", "libri"])]
    specs = []
    for k in kinds:
        sp = {"kind": k, "seed": rng.randrange(1000), "len": rng.choice([[20, 60], [1, 40], [30, 200]]),
              "n": rng.choice([1, 2, 3, 5]), "missing": rng.choice([0, 0, 1])}
        if k == "cmu":
            sp["units"] = rng.sample(CMU_UNITS, nspk)
        else:
            sp["units"] = rng.sample(LIBRI_UNITS, rng.choice([1, 2]))
            sp["nspk"] = rng.choice([1, 2, 3])
            sp["nchap"] = rng.choice([1, 2])
        sp["blank"] = rng.random() < 0.3
        sp["stray"] = rng.random() < 0.3
        if sp["missing"] >= sp["n"]:
            sp["missing"] = 0
        specs.append(sp)
    return specs


def gen_ds(rng, specs, n):
    out = []
    for _ in range(n):
        c = rng.choice(specs)
        d = {"kind": c["kind"], "unit": rng.choice(c["units"])}
        if c["kind"] == "libri" and rng.random() < 0.3:
            d["speaker"] = rng.choice(corpora.make(c)["truth"][d["unit"]]["speakers"])
        out.append(d)
    return out


def add_other(rng, objs):
    """Some of the data sets lie under a second root, with the same names."""
    c = rng.choice(objs["corpora"])
    objs["other"] = dict(c, seed=c["seed"] + 1)
    for d in [d for d in objs["ds"] if d["kind"] == c["kind"]]:
        q = rng.random()
        e = dict(d, root="data2")
        e.pop("speaker", None)
        if q < 0.3:
            d.clear()
            d.update(e)
        elif q < 0.9:
            objs["ds"].append(e)


def spec_of(objs, kind, unit, root=None):
    if root:
        return objs["other"]
    return next(c for c in objs["corpora"] if c["kind"] == kind and unit in c["units"])


def truth_of(objs, kind, unit, speaker=None, root=None):
    t = corpora.make(spec_of(objs, kind, unit, root))["truth"][unit]
    if speaker is None:
        return t
    return dict(t, sentences=[s for s in t["sentences"] if s[2] == speaker])


def gen_ds_op(rng, objs, opens=True):
    i = pick(rng, objs["ds"])
    ds = objs["ds"][i]
    t = truth_of(objs, ds["kind"], ds["unit"], ds.get("speaker"), ds.get("root"))
    n = len(t["sentences"])
    q = rng.random()
    if q < 0.34:
        return {"k": "item", "ds": i, "i": rng.randrange(n) if rng.random() < 0.9 and n else rng.choice([-1, n, n + 3])}
    if q < 0.44:
        return {"k": "len", "ds": i}
    if q < 0.54:
        return {"k": "sentences", "ds": i, **({"mut": True} if rng.random() < 0.3 else {})}
    if q < 0.64:
        return {"k": "load", "ds": i, "utt": rng.choice(t["sentences"])[0] if n and rng.random() < 0.9 else "1-2-nope"}
    if q < 0.70:
        return {"k": "iter", "ds": i}
    if q < 0.82 and n:
        return {"k": "batch", "ds": i, "ix": [rng.randrange(n) for _ in range(rng.choice([1, 2, 3]))],
                "pad": rng.choice([0.0, 0.0, -2.0]), "gen": rng.random() < 0.5}
    if q < 0.86:
        return {"k": "speakers", "ds": i}
    if q < 0.88:
        return {"k": "attr", "ds": i}
    if q < 0.93 and n:
        return {"k": "clone", "ds": i, "i": rng.randrange(n)}
    if opens:
        c = rng.choice(objs["corpora"])
        return {"k": "open", "kind": c["kind"], "unit": rng.choice(c["units"]), "read": rng.randrange(5)}
    return {"k": "len", "ds": i}


def check_truth(objs, op, value, out, where):
    """Compare a reference value with the published corpus."""
    import numpy as np
    k = op["k"]
    if k not in ("item", "len", "sentences", "load", "iter", "batch", "clone", "open", "speakers"):
        return
    if k == "open":
        kind, unit, spk, root = op["kind"], op["unit"], None, None
    else:
        d = objs["ds"][op["ds"]]
        kind, unit, spk, root = d["kind"], d["unit"], d.get("speaker"), d.get("root")
    t = truth_of(objs, kind, unit, spk, root)
    text = {s[0]: s[1] for s in t["sentences"]}
    who = unit if kind == "cmu" else spk

    def bad(msg):
        out.violate("wrong-content", f"{where} {json.dumps(op)}: {msg}")

    def sample(utt):
        return np.asarray(t["samples"][utt], dtype=np.float32) / np.float32(32768.0)

    def item(v):
        a, fs, utt, txt, sp = v
        if utt not in text or txt != text[utt] or sp != who or fs != t["fs"]:
            bad(f"item {utt!r} text {txt!r} speaker {sp!r} rate {fs}: not as published")
        elif a.dtype != np.float32 or a.shape != sample(utt).shape or not np.array_equal(a, sample(utt)):
            bad(f"item {utt!r} has wrong samples")

    n = len(t["sentences"])
    if isinstance(value, str):
        valid = k not in ("item", "clone", "load") or (k == "load" and op["utt"] in text) or \
            (k in ("item", "clone") and -n <= op["i"] < n)
        if valid:
            bad(f"raised {value}")
        return
    if k in ("item", "clone"):
        if not -n <= op["i"] < n:
            bad("an index outside the dataset was answered")
        else:
            item(value)
    elif k == "len" and value != n:
        bad(f"length {value}, published {n}")
    elif k == "sentences":
        if sorted(map(repr, value)) != sorted(repr(s + [None] * (4 - len(s))) for s in t["sentences"]):
            bad(f"index {value}")
    elif k == "load":
        if op["utt"] not in text or value[1] != t["fs"] or not np.array_equal(value[0], sample(op["utt"])):
            bad("wrong samples or rate")
    elif k == "iter":
        if sorted([v[0], v[1]] for v in value) != sorted([u, x] for u, x in text.items()):
            bad(f"iteration gave {[v[0] for v in value]}")
    elif k == "batch":
        audio, lengths, fs, utts, texts, spks = value
        want = [sample(u) for u in utts if u in text]
        if len(want) != len(op["ix"]) or fs != t["fs"] or texts != [text[u] for u in utts] or \
                spks != [who] * len(utts) or list(lengths) != [w.size for w in want]:
            bad(f"batch of {utts} lengths {list(lengths)}")
            return
        m = max(w.size for w in want)
        for r, w in zip(audio, want):
            if r.size != m or not np.array_equal(r[:w.size], w) or not (r[w.size:] == np.float32(op["pad"])).all():
                bad("padded audio differs from the items")
                return
    elif k == "open":
        if sorted(map(repr, value[0])) != sorted(repr(s + [None] * (4 - len(s))) for s in t["sentences"]) or value[1] != n:
            bad(f"index {value[0]}")
        elif len(value) > 2:
            item(value[2:])


def ds_child(objs, op):
    """Reference value of a dataset call as plain data, and the index order."""
    import torch
    prepare_process(objs)
    if op["k"] == "open":
        unextract()
    w = calls.World(objs, "data")
    v = calls.outcome(w, op)
    if isinstance(v, BaseException):
        return f"{type(v).__name__}: {v}"[:300], None

    def plain(x):
        if torch.is_tensor(x):
            return x.detach().numpy()
        if isinstance(x, (list, tuple)):
            return [plain(y) for y in x]
        return x

    order = None
    if op["k"] in ("item", "batch", "clone", "iter"):
        order = [s.utterance_id for s in w.get("ds", op["ds"]).available_sentences()]
    return plain(v), order


def judge_truth(objs, refs, scn, cwd, out):
    seen = set()
    for ti, prog in enumerate(scn["threads"]):
        for oi, op in enumerate(prog):
            if op["k"] not in calls.NEEDS_CORPUS or op["k"] in ("build", "choose", "sources", "attr"):
                continue
            o = {k: v for k, v in op.items() if k != "abort"}
            key = calls.ref_key(op, objs)
            if key in seen:
                continue
            seen.add(key)
            v, order = cached("truth", key, ds_child, objs, o, cwd=cwd)
            check_truth(objs, o, v, out, f"t{ti} op{oi}")
            if order is None or isinstance(v, str):
                continue
            if op["k"] in ("item", "clone"):
                got, want = [v[2]], [order[op["i"]]]
            elif op["k"] == "batch":
                got, want = v[3], [order[i] for i in op["ix"]]
            else:
                got, want = [x[0] for x in v], order
            if got != want:
                out.violate("wrong-order", f"t{ti} op{oi} {json.dumps(op)}: gave {got}, the index has {want}")


class Shared(ThreadProp):
    META = {
        "level": "exploration", "count": {"quick": 2500, "thorough": 60000}, "wall": {"quick": 45, "thorough": 780},
        "chunk": 6, "min_runs": 60, "world": "thread",
        "rule": "a run is nontrivial when threads were switched inside library calls or a call followed another; runs with "
                "the same schedule and results count once",
        "measure": "distinct sequences of thread switches (from thread, source line, to thread)",
        "components": {"real": ["dataset classes, collate, archive extraction and file locks", "soundfile, tarfile",
                                "CPython threads", "kernel file system in a scratch directory"],
                       "simulated": ["thread scheduler (switches at source lines or bytecodes of the library and, when an "
                                     "archive is extracted, of tarfile)", "waiting on locks and file locks"],
                       "stub": ["the archive server"]},
        "assumptions": ["threads interleave at source lines or bytecodes of the library, not inside C calls",
                        "synthetic corpora with the published layout"],
        "required_probes": ["call_item", "call_len", "call_sentences", "call_batch", "call_open", "call_clone", "call_raises"],
    }

    def gen(self, rng, tier, seed):
        g = random.Random(seed >> 32)
        specs = gen_corpora(g)
        objs = {"corpora": specs, "ds": gen_ds(g, specs, g.choice([1, 1, 2]))}
        if g.random() < 0.3:
            add_other(g, objs)
        for c in specs:
            if g.random() < 0.3:
                c["local"] = False
        pool = [gen_ds_op(g, objs) for _ in range(12)]
        n = rng.choice([1, 2, 2, 3, 3, 4])
        threads = []
        allopen = rng.random() < 0.15
        for _ in range(n):
            prog = []
            for j in range(rng.choice([1, 2, 3]) if n > 1 else rng.choice([2, 4])):
                op = dict(rng.choice(pool))
                if allopen and j == 0:
                    c = specs[0]
                    op = {"k": "open", "kind": c["kind"], "unit": c["units"][0] if rng.random() < 0.7 else
                          rng.choice(c["units"]), "read": rng.randrange(5)}
                prog.append(op)
                if op["k"] != "open" and rng.random() < 0.2:
                    prog.append({"k": "scribble", "of": len(prog) - 1})
            threads.append(prog)
        pol = gen_policy(rng, n)
        if any(o["k"] == "open" for p in threads for o in p):
            pol["extra"] = "tarfile.py"
            pol["op"] = False
        return {"objs": objs, "threads": threads, "policy": pol, "globseed": rng.randrange(1000)}

    def judge(self, scn, objs, refs, rep, out):
        super().judge(scn, objs, refs, rep, out)
        judge_truth(objs, refs, scn, self.cwd, out)

    def setup(self, objs, ctx):
        self.cwd = super().setup(objs, ctx)
        return self.cwd


# ---------------------------------------------------------------------------
# aborts
# ---------------------------------------------------------------------------
EXCS = ["interrupt", "interrupt", "memory", "oom", "os", "runtime", "exit"]
BUILD = {"n_scenes": 1, "n_sources": 2, "n_moving_sources": 1, "duration_sec": 0.005, "trajectory_steps": 4,
         "rir_samples": 48, "max_order": 1}


def gen_build(rng, specs, out):
    c = next(c for c in specs if c["kind"] == "cmu")
    return {"k": "build", "out": out, "args": dict(BUILD, speakers=c["units"], seed=rng.randrange(5),
                                                   n_scenes=rng.choice([1, 1, 2]))}


def gen_plot(rng, objs):
    f = rng.choice(["static", "static", "dynamic", "files"])
    op = {"k": "plot", "f": f, "room": 0, "src": 0, "mic": 0}
    if f == "dynamic":
        op.update(st=0, mt=1)
    if rng.random() < 0.3:
        op["title"] = "scene"
    if rng.random() < 0.3:
        op["lines"] = ["a", "b"]
    if rng.random() < 0.3:
        op["ann"] = False
    return op


class AbortSafe(ThreadProp):
    META = {
        "level": "exploration", "count": {"quick": 2500, "thorough": 60000}, "wall": {"quick": 45, "thorough": 780},
        "chunk": 6, "min_runs": 60, "world": "thread",
        "rule": "a run is nontrivial when an exception was injected into a call and later calls ran; runs with the same "
                "schedule, aborts and results count once",
        "measure": "distinct sequences of thread switches and aborts (thread, source line, exception)",
        "components": {"real": COMPONENTS["real"] + ["dataset classes, archive extraction, plotting, logging"],
                       "simulated": COMPONENTS["simulated"] + ["aborts: an exception raised by a chosen instruction of the "
                                                               "library or by a chosen torch call"],
                       "stub": ["the archive server", "the optional plot style package"]},
        "assumptions": ASSUME + ["an abort strikes an instruction that can raise; instructions that release something "
                                 "(close, unlink, lock release, leaving a with block) are taken as atomic"],
        "required_probes": ["aborted_call", "call_static", "call_dynamic", "call_plot", "call_open", "call_item", "abort_torch",
                            "abort_op"],
    }

    def gen(self, rng, tier, seed):
        # successive runs share their objects and calls, so that the references
        # are made once for many aborts
        g = random.Random(seed >> 32)
        objs, dim = gen_objs(g)
        objs["style"] = g.random() < 0.5
        builds = g.random() < 0.2
        objs["corpora"] = [{"kind": "cmu", "seed": g.randrange(20), "len": [40, 80], "n": 2, "units": ["bdl", "slt"]}] \
            if builds else gen_corpora(g, both=0.0)
        objs["ds"] = gen_ds(g, objs["corpora"], 1)
        if g.random() < 0.3:
            add_other(g, objs)
        pools = {"sim": [gen_op(g, objs, dim) for _ in range(10)], "plot": [gen_plot(g, objs) for _ in range(3)],
                 "ds": [gen_ds_op(g, objs) for _ in range(6)], "build": [gen_build(g, objs["corpora"], "b") for _ in range(2)] if builds else []}
        for _ in range(2):
            c = objs["corpora"][0]
            pools["ds"].append({"k": "open", "kind": c["kind"], "unit": g.choice(c["units"]), "read": g.randrange(5)})
        fam = rng.choices(["sim", "ds", "plot"], [0.68, 0.26, 0.06])[0]
        if builds and rng.random() < 0.25:
            fam = "build"
        if fam in ("sim", "plot"):
            del objs["corpora"], objs["ds"]

        def fresh(t):
            if fam == "plot" and rng.random() < 0.15:
                return dict(rng.choice(pools["sim"]))
            if fam == "build":
                if rng.random() < 0.4:
                    return dict(rng.choice(pools["sim"]))
                return dict(rng.choice(pools["build"]), out=f"b{t}")
            return dict(rng.choice(pools[fam]))

        n = 1 if fam in ("plot",) or rng.random() < 0.6 else rng.choice([2, 3])
        threads = []
        for t in range(n):
            prog = []
            for j in range(rng.choice([1, 1, 2])):
                if rng.random() < 0.25:
                    prog.append(fresh(t))
                op = dict(fresh(t))
                if t == 0 or rng.random() < 0.3:
                    where = "op" if fam != "sim" or rng.random() < 0.6 or op.get("mode") else "torch"
                    op["abort"] = {"exc": rng.choice(EXCS), "at": round(rng.random(), 4), "where": where,
                                   "site": rng.choice([0, 1, 1, 2, 2])}
                    if op["k"] == "array":
                        del op["abort"]
                prog.append(op)
                for _ in range(rng.choice([1, 2])):
                    if rng.random() < 0.5:
                        o = {k: v for k, v in op.items() if k != "abort"}
                        if "cfg" in o and rng.random() < 0.3:
                            o["cfg"] = pick(rng, objs["cfg"])
                    else:
                        o = fresh(t)
                    prog.append(o)
            threads.append(prog)
        return {"objs": objs, "threads": threads, "policy": gen_policy(rng, n), "globseed": rng.randrange(1000)}

    def judge(self, scn, objs, refs, rep, out):
        super().judge(scn, objs, refs, rep, out)
        for ti, prog in enumerate(scn["threads"]):
            for oi, op in enumerate(prog):
                r = rep["res"][ti][oi]
                if r is not None and r[2]:
                    out.probe("abort_" + op["abort"]["where"])

    def run(self, scn, d, ctx):
        out = super().run(scn, d, ctx)
        out.nontrivial = out.probes.get("aborted_call", 0) > 0
        return out


# ---------------------------------------------------------------------------
# randomness
# ---------------------------------------------------------------------------
def solo_child(scn, objs, ti, globseed):
    """The program of one thread alone in a fresh process."""
    prepare_process(objs)
    seed_globals(globseed)
    draw_globals(globseed % 3)
    w = calls.World(objs, "data")
    w.build_all()
    rng = random.Random(scn["rngs"][ti])
    out = []
    for op in scn["threads"][ti]:
        if op["k"] in ("scribble", "glob"):
            out.append(None)
            continue
        v = calls.outcome(w, op, rng)
        s = calls.summary(v)
        out.append({"fp": s[0], "brief": s[1], "exc": isinstance(v, BaseException)})
        if op["k"] == "spread" and not isinstance(v, BaseException):
            out[-1]["parts"] = v[0]
    return out


def glob_child(globseed, counts):
    seed_globals(globseed)
    out = [calls.summary(draw_globals(n)) for n in counts]
    return out, calls.summary(global_states())


def seeded_tail(op):
    return op["k"] == "static" and op.get("tdiff") is not None and op.get("tmax") is not None and \
        0.0005 <= op["tdiff"] < op["tmax"] - 0.001 and "ns" not in op


def gen_spread(rng, objs, out):
    q = rng.random()
    a = rng.randrange(1000)
    near = lambda n: list(range(a, a + n))
    if q < 0.25:
        return {"k": "spread", "seeds": near(8), "of": {"k": "sample", "room": 0, "f": rng.choice(["plain", "z", "far"]), "n": 2}}
    if q < 0.45:
        return {"k": "spread", "seeds": near(30), "of": {"k": "choose", "ds": pick(rng, objs["ds"]), "n": rng.choice([1, 2])}}
    if q < 0.65:
        return {"k": "spread", "seeds": near(24), "of": {"k": "sources", "ds": 0, "n": 2, "dur": 0.005}}
    if q < 0.75:
        return {"k": "spread", "seeds": [a, a + 1, a + rng.choice([256, 1 << 16])], "of": gen_build(rng, objs["corpora"], out)}
    return {"k": "spread", "seeds": [a, a + 1, a + rng.choice([256, 1000, 1 << 16, 1 << 31])],
            "of": {"k": "static", "room": 0, "src": 0, "mic": 0, "order": 1, "tmax": 0.012, "tdiff": 0.002, "cfg": 0}}


class Seeded(ThreadProp):
    META = {
        "level": "exploration", "count": {"quick": 2500, "thorough": 60000}, "wall": {"quick": 45, "thorough": 780},
        "chunk": 6, "min_runs": 60, "world": "thread",
        "rule": "a run is nontrivial when it made at least one call that draws random numbers; runs with the same schedule "
                "and results count once",
        "measure": "distinct sequences of thread switches (from thread, source line, to thread)",
        "components": {"real": COMPONENTS["real"] + ["samplers, speaker and source choice, dataset builder"],
                       "simulated": COMPONENTS["simulated"] + ["entropy: every generator and global seed is chosen by the run"],
                       "stub": ["the archive server"]},
        "assumptions": ASSUME + ["seeds below 2**32: torch's CPU generator ignores higher bits"],
        "required_probes": ["call_sample", "call_choose", "call_sources", "call_static", "call_dynamic", "call_build", "tails",
                            "seed_pairs", "app_draws"],
    }

    def gen(self, rng, tier, seed):
        objs, dim = gen_objs(rng)
        objs["room"] = [dict(r, fs=8000.0, **({} if r.get("beta") or r.get("t60") else {"t60": 0.3})) for r in objs["room"]]
        base = {k: v for k, v in objs["cfg"][0].items() if k != "seed"}
        a = rng.randrange(1000)
        far = a + rng.choice([1, 2, 3, 256, 1000, 1 << 16, 1 << 31])
        objs["cfg"] = [dict(base, seed=a), dict(base, seed=far), dict(base)]
        objs["corpora"] = [{"kind": "cmu", "seed": rng.randrange(20), "len": [40, 80], "n": 3, "units": ["bdl", "slt", "clb"]}]
        if rng.random() < 0.4:
            objs["corpora"].append({"kind": "libri", "seed": rng.randrange(20), "len": [30, 90], "n": 2, "nspk": 3,
                                    "units": ["dev-clean"]})
        objs["ds"] = [{"kind": c["kind"], "unit": c["units"][0]} for c in objs["corpora"]]
        n = rng.choice([1, 2, 2, 3, 3])
        threads, rngs = [], []
        first = None
        nb = 0
        for t in range(n):
            prog = []
            for j in range(rng.choice([1, 2, 3])):
                q = rng.random()
                if q < 0.28:
                    op = {"k": "static", "room": pick(rng, objs["room"]), "src": 0, "mic": 0, "order": rng.choice([0, 1]),
                          "tmax": rng.choice([0.006, 0.012]), "tdiff": rng.choice([0.001, 0.003]), "cfg": pick(rng, objs["cfg"])}
                    if rng.random() < 0.3:
                        op["dt"] = rng.choice(["f32", "f64"])
                elif q < 0.48:
                    op = {"k": "sample", "room": 0, "f": rng.choice(["plain", "z", "far"]), "n": rng.choice([1, 2, 4])}
                elif q < 0.58:
                    op = {"k": "choose", "ds": pick(rng, objs["ds"]), "n": rng.choice([1, 2])}
                elif q < 0.70:
                    op = {"k": "sources", "ds": pick(rng, objs["ds"]), "n": rng.choice([1, 2]),
                          "dur": rng.choice([0.005, 0.01])}
                elif q < 0.74:
                    nb += 1
                    op = gen_build(rng, objs["corpora"], f"b{t}x{j}")
                elif q < 0.77:
                    op = gen_spread(rng, objs, f"s{t}x{j}")
                elif q < 0.81:
                    op = gen_ds_op(rng, objs, opens=False)
                else:
                    op = gen_op(rng, objs, dim)
                if j == 0:
                    if first is not None and rng.random() < 0.5:
                        op = json.loads(json.dumps(first))
                        if op["k"] == "build":
                            op["out"] = f"b{t}x{j}"
                        if op["k"] == "spread" and op["of"]["k"] == "build":
                            op["of"]["out"] = f"s{t}x{j}"
                        if seeded_tail(op):
                            op["cfg"] = pick(rng, objs["cfg"])
                    first = op
                prog.append(op)
            threads.append(prog)
            rngs.append(rng.choice([rngs[-1] if rngs else 5, rng.randrange(1 << 30)]))
        app = None
        if rng.random() < 0.7:
            app = rng.randrange(n + 1)
            if app == n:
                threads.append([])
                rngs.append(1)
            p = threads[app]
            for _ in range(rng.choice([1, 2, 3])):
                p.insert(rng.randrange(len(p) + 1), {"k": "glob", "n": rng.choice([1, 2])})
        return {"objs": objs, "threads": threads, "policy": gen_policy(rng, len(threads)), "globseed": rng.randrange(1000),
                "rngs": rngs, "watch_globals": True}

    def refs_for(self, scn, objs, cwd):
        rs = []
        for ti in range(len(scn["threads"])):
            key = json.dumps([scn["threads"][ti], objs, scn["rngs"][ti]], sort_keys=True)
            rs.append(cached("solo", key, solo_child, scn, objs, ti, 1000 + scn["globseed"] * 7 + ti, cwd=cwd))
        return rs

    def judge(self, scn, objs, refs, rep, out):
        super().judge(scn, objs, refs, rep, out)
        if rep["deadlock"] or rep["stalled"]:
            return
        counts, where = [], []
        for ti, prog in enumerate(scn["threads"]):
            for oi, op in enumerate(prog):
                if op["k"] == "glob":
                    counts.append(op["n"])
                    where.append((ti, oi))
        want, state = tw.forked(glob_child, scn["globseed"] + 77, counts)
        for (ti, oi), w in zip(where, want):
            out.probe("app_draws")
            r = rep["res"][ti][oi]
            if r is not None and r[0] != w[0]:
                out.violate("global-disturbed", f"t{ti} op{oi}: the application's own draws from the global generators "
                            f"gave {r[1]} instead of {w[1]}")
        if rep["glob"][0] != state[0]:
            out.violate("global-state", "the library left the global random generators in another state")
        # equal calls with different seeds differ
        seen = {}
        for ti, prog in enumerate(scn["threads"]):
            for oi, op in enumerate(prog):
                r = rep["res"][ti][oi]
                if r is None:
                    continue
                if op["k"] == "spread" and "parts" in refs[ti][oi]:
                    out.probe("spreads")
                    every = op["of"]["k"] in ("sample", "static", "build")
                    for name, n, distinct in refs[ti][oi]["parts"]:
                        if (every and distinct < n) or (n >= 6 and distinct < 2):
                            out.violate("seed-ignored", f"t{ti} op{oi} {json.dumps(op['of'])} under {n} seeds {op['seeds']}: "
                                        f"only {distinct} different values of: {name}")
                if seeded_tail(op) and not refs[ti][oi]["exc"]:
                    out.probe("tails")
                    o = {k: v for k, v in op.items() if k != "cfg"}
                    cfg = dict(objs["cfg"][op["cfg"]]) if "cfg" in op else {}
                    sd = cfg.pop("seed", 0)
                    key = json.dumps([o, cfg], sort_keys=True)
                    for sd2, fp2, w2 in seen.get(key, []):
                        if sd2 != sd:
                            out.probe("seed_pairs")
                        if (sd2 == sd) != (fp2 == r[0]):
                            out.violate("seed-ignored", f"t{ti} op{oi} seed {sd} and {w2} seed {sd2}: "
                                        f"{'equal' if fp2 == r[0] else 'different'} results")
                    seen.setdefault(key, []).append((sd, r[0], f"t{ti} op{oi}"))
                elif op["k"] == "sample" and oi == 0 and not refs[ti][oi]["exc"]:
                    key = json.dumps(op, sort_keys=True)
                    sd = scn["rngs"][ti]
                    for sd2, fp2, w2 in seen.get(key, []):
                        if sd2 != sd:
                            out.probe("seed_pairs")
                        if (sd2 == sd) != (fp2 == r[0]):
                            out.violate("seed-ignored", f"t{ti} op{oi} generator {sd} and {w2} generator {sd2}: "
                                        f"{'equal' if fp2 == r[0] else 'different'} positions")
                    seen.setdefault(key, []).append((sd, r[0], f"t{ti} op{oi}"))

    def shrinks(self, scn):
        n = len(scn["threads"])
        for i in range(n):
            if n > 1 and scn["threads"][i]:
                s = json.loads(json.dumps(scn))
                s["threads"][i] = []
                yield s
        yield from list(super().shrinks(scn))[n if n > 1 else 0:]

    def run(self, scn, d, ctx):
        out = super().run(scn, d, ctx)
        out.nontrivial = any(op["k"] in ("sample", "choose", "sources", "build") or "tdiff" in op
                             for p in scn["threads"] for op in p)
        return out

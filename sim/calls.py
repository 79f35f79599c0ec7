"""Client programs of the thread world: shared objects and library calls."""
from __future__ import annotations

import random

from sim.threadworld import brief, fingerprint

DT = {"f32": "float32", "f64": "float64", None: None}


def dt(name):
    import torch
    return None if name is None else getattr(torch, DT[name])


def rnd(seed, shape, dtype="f32"):
    import torch
    g = torch.Generator()
    g.manual_seed(int(seed))
    return torch.randn(tuple(shape), generator=g, dtype=dt(dtype))


class World:
    """The objects of a scenario, built on demand from their specs."""

    def __init__(self, objs, root=None):
        self.objs = objs
        self.root = root
        self.made = {}
        self.args = None        # tensors handed to single calls: [what, tensor, fingerprint]

    def arg(self, what, x):
        """Hand a tensor to a call, and remember it as an input of that call."""
        if self.args is not None and hasattr(x, "detach"):
            self.args.append([what, x, fingerprint(x)])
        elif isinstance(x, tuple):
            for y in x:
                self.arg(what, y)
        return x

    def changed_args(self):
        return [w for w, x, f in self.args or () if fingerprint(x) != f]

    def get(self, kind, i):
        if i is None:
            return None
        k = (kind, i)
        if k not in self.made:
            self.made[k] = getattr(self, "make_" + kind)(self.objs[kind][i])
        return self.made[k]

    def build_all(self):
        for kind in sorted(self.objs):
            if hasattr(self, "make_" + kind):
                for i in range(len(self.objs[kind])):
                    self.get(kind, i)

    def prints(self):
        return {f"{k}{i}": fingerprint(v) for (k, i), v in sorted(self.made.items()) if k in INPUTS}

    # -- makers ------------------------------------------------------------------
    def make_room(self, s):
        import torchrir
        kw = {}
        if s.get("beta") is not None:
            kw["beta"] = s["beta"]
        if s.get("t60") is not None:
            kw["t60"] = s["t60"]
        return torchrir.Room.shoebox(size=s["size"], fs=s["fs"], c=s.get("c", 343.0), dtype=dt(s.get("dt", "f32")), **kw)

    def make_src(self, s):
        import torchrir
        return torchrir.Source.from_positions(s["pos"], orientation=s.get("ori"), dtype=dt(s.get("dt", "f32")))

    def make_mic(self, s):
        import torchrir
        return torchrir.MicrophoneArray.from_positions(s["pos"], orientation=s.get("ori"), dtype=dt(s.get("dt", "f32")))

    def make_cfg(self, s):
        from torchrir.config import SimulationConfig
        s = dict(s)
        if "hpf" in s:
            s["rir_hpf_kwargs"] = dict(s.pop("hpf"))
        return SimulationConfig(**s)

    def make_traj(self, s):
        import torch
        a = torch.tensor(s["a"], dtype=dt(s.get("dt", "f32")))
        b = torch.tensor(s["b"], dtype=dt(s.get("dt", "f32")))
        w = torch.linspace(0, 1, s["T"], dtype=a.dtype)[:, None, None]
        return a[None] * (1 - w) + b[None] * w

    def make_sig(self, s):
        return rnd(s["seed"], s["shape"], s.get("dt", "f32"))

    def make_rir(self, s):
        return rnd(s["seed"], s["shape"], s.get("dt", "f32")) * 0.1

    def make_conv(self, s):
        import torch
        from torchrir.signal import DynamicConvolver
        ts = s.get("ts")
        return DynamicConvolver(mode=s["mode"], hop=s.get("hop"), fs=s.get("fs"),
                                timestamps=None if ts is None else torch.tensor(ts, dtype=torch.float64))

    def make_ism(self, s):
        from torchrir.sim import ISMSimulator
        s = dict(s)
        d = s.get("directivity")
        if isinstance(d, list):
            s["directivity"] = tuple(d)
        return ISMSimulator(**s)

    def make_scene(self, s):
        from torchrir.models import DynamicScene, Scene, StaticScene
        kw = dict(room=self.get("room", s["room"]), sources=self.get("src", s["src"]), mics=self.get("mic", s["mic"]))
        if s["k"] == "static":
            return StaticScene(**kw)
        kw.update(src_traj=self.get("traj", s["st"]), mic_traj=self.get("traj", s["mt"]))
        return (Scene if s["k"] == "legacy" else DynamicScene)(**kw)

    def make_ds(self, s):
        from sim.work import make_dataset
        return make_dataset(s["kind"], s.get("root", self.root), s["unit"], s.get("speaker"), False)


INPUTS = {"room", "src", "mic", "cfg", "traj", "sig", "rir", "conv", "ism", "scene"}
REFS = {
    "static": (("room", "room"), ("src", "src"), ("mic", "mic"), ("cfg", "cfg")),
    "dynamic": (("room", "room"), ("st", "traj"), ("mt", "traj"), ("cfg", "cfg")),
    "ism": (("ism", "ism"), ("scene", "scene"), ("cfg", "cfg")),
    "conv": (("sig", "sig"), ("rir", "rir")),
    "fft": (("sig", "sig"), ("rir", "rir")),
    "dyn": (("conv", "conv"), ("sig", "sig"), ("rir", "rir")),
    "meta": (("room", "room"), ("src", "src"), ("mic", "mic"), ("rir", "rir")),
    "acoustics": (("room", "room"),),
    "array": (), "tool": (("room", "room"), ("src", "src"), ("mic", "mic"), ("cfg", "cfg")), "wav": (("sig", "sig"),),
    "trajfn": (), "room": (), "log": (), "scribble": (), "glob": (),
    "len": (("ds", "ds"),), "item": (("ds", "ds"),), "sentences": (("ds", "ds"),), "load": (("ds", "ds"),),
    "batch": (("ds", "ds"),), "speakers": (("ds", "ds"),), "iter": (("ds", "ds"),),
    "plot": (("room", "room"), ("src", "src"), ("mic", "mic"), ("st", "traj"), ("mt", "traj")),
    "sample": (("room", "room"),), "choose": (("ds", "ds"),), "sources": (("ds", "ds"),),
    "save": (), "attr": (("ds", "ds"),), "open": (), "clone": (("ds", "ds"),), "build": (), "emit": (), "spread": (),
}


NEEDS_CORPUS = {"len", "item", "sentences", "load", "speakers", "iter", "batch", "clone", "open", "choose", "sources",
                "build", "attr"}


def ref_key(op, objs):
    """Everything the outcome of an op may depend on."""
    import json
    used = {}

    def add(kind, i):
        if i is None:
            return
        s = objs[kind][i]
        used[f"{kind}{i}"] = s
        if kind == "scene":
            add("room", s["room"])
            add("src", s["src"])
            add("mic", s["mic"])
            add("traj", s.get("st"))
            add("traj", s.get("mt"))

    for f, kind in REFS[op["k"]]:
        add(kind, op.get(f))
    o = {k: v for k, v in op.items() if k not in ("abort",)}
    return json.dumps([o, used, [objs.get("corpora"), objs.get("other")] if op["k"] in NEEDS_CORPUS else None, objs.get("style")],
                      sort_keys=True)


def call(w, op, rng=None, results=None):
    """Run one library call and return its value."""
    import torch
    import torchrir
    k = op["k"]
    if k == "static":
        from torchrir.sim import simulate_rir
        src, mic = w.get("src", op["src"]), w.get("mic", op["mic"])
        leaf = None
        if op.get("mode") == "grad":
            leaf = src.positions.detach().clone().requires_grad_(True)
            src = leaf
        elif op.get("raw"):
            src, mic = src.positions, mic.positions
        y = simulate_rir(room=w.get("room", op["room"]), sources=src, mics=mic, max_order=op["order"],
                         nsample=op.get("ns"), tmax=op.get("tmax"), tdiff=op.get("tdiff"),
                         directivity=_dir(op.get("dir", "omni")), orientation=w.arg("orientation of simulate_rir", _ori(op.get("ori"))),
                         nb_img=tuple(op["nb"]) if op.get("nb") else None,
                         config=w.get("cfg", op.get("cfg")), dtype=dt(op.get("dt")))
        return _grad(y, leaf)
    if k == "dynamic":
        from torchrir.sim import simulate_dynamic_rir
        st = w.get("traj", op["st"])
        leaf = None
        if op.get("mode") == "grad":
            st = leaf = st.detach().clone().requires_grad_(True)
        y = simulate_dynamic_rir(room=w.get("room", op["room"]), src_traj=st, mic_traj=w.get("traj", op["mt"]),
                                 max_order=op["order"], nsample=op.get("ns"), tmax=op.get("tmax"),
                                 directivity=_dir(op.get("dir", "omni")),
                                 orientation=w.arg("orientation of simulate_dynamic_rir", _ori(op.get("ori"))),
                                 config=w.get("cfg", op.get("cfg")), dtype=dt(op.get("dt")))
        return _grad(y, leaf)
    if k == "ism":
        r = w.get("ism", op["ism"]).simulate(w.get("scene", op["scene"]), w.get("cfg", op.get("cfg")))
        return [r.rirs, r.seed, r.timestamps]
    if k == "conv":
        from torchrir.signal import convolve_rir
        return convolve_rir(w.get("sig", op["sig"]), w.get("rir", op["rir"]))
    if k == "fft":
        from torchrir.signal import fft_convolve
        return fft_convolve(w.get("sig", op["sig"]).reshape(-1), w.get("rir", op["rir"]).reshape(-1))
    if k == "dyn":
        c = w.get("conv", op["conv"])
        f = c if op.get("call") else c.convolve
        return f(w.get("sig", op["sig"]), w.get("rir", op["rir"]))
    if k == "meta":
        from torchrir.io import build_metadata
        return build_metadata(room=w.get("room", op["room"]), sources=w.get("src", op["src"]),
                              mics=w.get("mic", op["mic"]), rirs=w.get("rir", op["rir"]), signal_len=op.get("len"))
    if k == "acoustics":
        from torchrir.util import acoustics
        room = w.get("room", op["room"])
        b = acoustics.estimate_beta_from_t60(room.size, op["t60"])
        return [b, acoustics.estimate_t60_from_beta(room.size, b),
                acoustics.estimate_image_counts_from_tmax(op["tmax"], room.size, room.c)]
    if k == "array":
        from torchrir.geometry import arrays
        center = w.arg("center of an array", torch.tensor(op["c"]))
        f = op["f"]
        if f == "poly":
            return arrays.polyhedron_array(center, kind=op["kind"], radius=0.1)
        if f == "linear":
            return arrays.linear_array(center, num=op["n"], spacing=0.05)
        if f == "circular":
            return arrays.circular_array(center, num=op["n"], radius=0.1)
        if f == "binaural":
            return arrays.binaural_array(center)
        if f == "em32":
            return arrays.eigenmike_em32(center)
        return arrays.eigenmike_em64(center)
    if k == "trajfn":
        from torchrir.geometry.arrays import linear_trajectory
        return linear_trajectory(w.arg("start of a trajectory", torch.tensor(op["a"])),
                                 w.arg("end of a trajectory", torch.tensor(op["b"])), op["n"])
    if k == "tool":
        return _tool(w, op)
    if k == "wav":
        return _wav(w, op)
    if k == "room":
        r = torchrir.Room.shoebox(size=op["size"], fs=op["fs"], t60=op.get("t60"))
        return [r.size, r.fs, r.c, r.beta, r.t60]
    if k == "sample":
        from torchrir.geometry import sampling
        room = w.get("room", op["room"])
        f = op["f"]
        kw = dict(num=op["n"], room_size=room.size, rng=rng, margin=0.3)
        if f == "plain":
            return sampling.sample_positions(**kw)
        if f == "z":
            return sampling.sample_positions_with_z_range(z_range=(1.0, 1.8), **kw)
        return sampling.sample_positions_min_distance(center=room.size / 2, min_distance=0.4, **kw)
    if k == "choose":
        from torchrir.datasets import choose_speakers
        return choose_speakers(w.get("ds", op["ds"]), op["n"], rng)
    if k == "sources":
        from torchrir.datasets import load_dataset_sources
        s = w.objs["ds"][op["ds"]]
        from sim.work import make_dataset

        def factory(spk):
            if s["kind"] == "cmu":
                ds = make_dataset("cmu", w.root, spk or s["unit"], None, False)
                units = [c["units"] for c in w.objs["corpora"] if c["kind"] == "cmu"][0]
                ds.list_speakers = lambda: sorted(units)    # only what is installed
                return ds
            return make_dataset("libri", w.root, s["unit"], spk, False)

        return list(load_dataset_sources(dataset_factory=factory, num_sources=op["n"],
                                         duration_s=op["dur"], rng=rng))
    if k == "len":
        return len(w.get("ds", op["ds"]))
    if k == "item":
        it = w.get("ds", op["ds"])[op["i"]]
        return [it.audio, it.sample_rate, it.utterance_id, it.text, it.speaker]
    if k == "sentences":
        got = w.get("ds", op["ds"]).available_sentences()
        out = [_sent(s) for s in got]
        if op.get("mut") and isinstance(got, list):
            got.clear()     # the caller goes on with its own list
        return out
    if k == "load":
        a, fs = w.get("ds", op["ds"]).load_audio(op["utt"])
        return [a, fs]
    if k == "speakers":
        return list(w.get("ds", op["ds"]).list_speakers())
    if k == "attr":
        return w.get("ds", op["ds"]).attribution_info()
    if k == "iter":
        ds = w.get("ds", op["ds"])
        return [[it.utterance_id, it.text, fingerprint(it.audio)] for it in (ds[i] for i in range(len(ds)))]
    if k == "clone":
        import pickle
        ds = pickle.loads(pickle.dumps(w.get("ds", op["ds"])))
        it = ds[op["i"]]
        return [it.audio, it.sample_rate, it.utterance_id, it.text, it.speaker]
    if k == "open":
        from sim.work import make_dataset
        ds = make_dataset(op["kind"], "dl", op["unit"], None, True)
        out = [[_sent(s) for s in ds.available_sentences()], len(ds)]
        if op.get("read") and out[1]:
            it = ds[op["read"] % out[1]]
            out += [it.audio, it.sample_rate, it.utterance_id, it.text, it.speaker]
        return out
    if k == "build":
        return _build(w, op)
    if k == "spread":
        return _spread(w, op)
    if k == "batch":
        from torchrir.datasets import collate_dataset_items
        ds = w.get("ds", op["ds"])
        items = [ds[i] for i in op["ix"]]
        b = collate_dataset_items(iter(items) if op.get("gen") else items, pad_value=op.get("pad", 0.0))
        return [b.audio, b.lengths, b.sample_rate, b.utterance_ids, b.texts, b.speakers]
    if k == "log":
        from torchrir.logging import LoggingConfig, get_logger, setup_logging
        if op["f"] == "setup":
            return setup_logging(LoggingConfig(level=op["level"], propagate=op.get("prop", False)),
                                 name=op.get("name", "torchrir")).name
        return get_logger(op.get("name")).name
    if k == "plot":
        return _plot(w, op)
    raise ValueError(k)


def _tool(w, op):
    """The small helpers: conversions, directivity, tables and texts."""
    import torch
    f = op["f"]
    if f == "ori":
        from torchrir.util import normalize_orientation, orientation_to_unit
        o = w.arg("orientation of orientation_to_unit", torch.tensor(op["o"]))
        return [orientation_to_unit(o, op["dim"]), normalize_orientation(o)]
    if f == "clamp":
        from torchrir.geometry import clamp_positions
        room, src = w.get("room", op["room"]), w.get("src", op["src"])
        return clamp_positions(src.positions, room.size, op["margin"])
    if f == "gain":
        from torchrir.sim.directivity import directivity_gain
        return fingerprint(directivity_gain(op["p"], w.arg("cosine of directivity_gain", torch.tensor(op["cos"]))))
    if f == "tensor":
        from torchrir.util import as_tensor, extend_size
        x = w.arg("argument of as_tensor", torch.tensor(op["x"]))
        return [fingerprint(as_tensor(x, dtype=dt(op.get("dt")))), fingerprint(extend_size(x[:2], 3))]
    if f == "device":
        from torchrir.util import DeviceSpec, infer_device_dtype, resolve_device
        x = rnd(0, [2], op.get("dt") or "f32")
        return [str(resolve_device(op["d"])), str(DeviceSpec(device=op["d"]).resolve(x)),
                str(infer_device_dtype(x, device=op["d"], dtype=dt(op.get("dt2"))))]
    if f == "att":
        from torchrir.util import attenuation_db_to_time_sabine
        return attenuation_db_to_time_sabine(op["db"], op["t60"])
    if f == "attr":
        from torchrir.datasets import attribution_for, default_modification_notes
        a = attribution_for(op["name"], subset=op.get("subset"))
        return [a.to_dict(), default_modification_notes(dynamic=op["dyn"])]
    if f == "speakers":
        from torchrir.datasets import cmu_arctic_speakers
        return cmu_arctic_speakers()
    if f == "config":
        from torchrir.config import default_config
        cfg = w.get("cfg", op.get("cfg")) or default_config()
        new = cfg.replace(seed=op["seed"])
        return [new.seed, cfg.seed, sorted(new.rir_hpf_kwargs.items()), default_config().rir_hpf_kwargs]
    if f == "entity":
        room, src, mic = w.get("room", op["room"]), w.get("src", op["src"]), w.get("mic", op["mic"])
        return fingerprint([room.replace(c=op["c"]), src.replace(orientation=None), mic.replace(orientation=None),
                            room.c, src.orientation, mic.orientation])
    raise ValueError(f)


def _wav(w, op):
    """Save a signal, look at the file and load it again."""
    import os
    import threading
    from pathlib import Path
    from torchrir import io
    p = Path(f"w{threading.get_ident()}.wav")
    try:
        io.save_wav(p, w.get("sig", op["sig"]), op["fs"], normalize=op["norm"], subtype=op.get("sub"))
        i = io.info_wav(p)
        a, fs = io.load_wav(p)
        d = io.load_audio_data(p)
        raw = p.read_bytes() if op.get("sub") != "FLOAT" else b""     # float files carry the time of day
        return [fingerprint(raw), i.num_frames, i.num_channels, i.subtype, a, fs, d.audio, d.subtype]
    finally:
        if p.exists():
            os.unlink(p)


def _plot(w, op):
    import io
    import matplotlib.pyplot as plt
    from torchrir.viz import plot_scene_dynamic, plot_scene_static
    room, src, mic = w.get("room", op["room"]), w.get("src", op["src"]), w.get("mic", op["mic"])
    before = set(plt.get_fignums())
    kw = dict(annotate_sources=op.get("ann", True), annotation_lines=op.get("lines"), title=op.get("title"))
    try:
        if op["f"] == "static":
            ax = plot_scene_static(room=room, sources=src, mics=mic, **kw)
        elif op["f"] == "dynamic":
            ax = plot_scene_dynamic(room=room, src_traj=w.get("traj", op["st"]), mic_traj=w.get("traj", op["mt"]), **kw)
        else:
            import logging
            import tempfile
            from pathlib import Path
            from torchrir.viz import render_scene_plots
            with tempfile.TemporaryDirectory(dir=".") as td:
                render_scene_plots(out_dir=Path(td), room=room.size, sources=src, mics=mic, prefix="p",
                                   annotate_sources=op.get("ann", True))
                return [[p.name, fingerprint(p.read_bytes())] for p in sorted(Path(td).iterdir())]
        fig = ax.figure
        b = io.BytesIO()
        fig.savefig(b, format="png", dpi=30)
    finally:
        for n in set(plt.get_fignums()) - before:
            plt.close(n)
    return fingerprint(b.getvalue())


def _build(w, op):
    """A small dataset build; returns digests of the files of the scene."""
    import hashlib
    import shutil
    from pathlib import Path
    from torchrir.datasets.dynamic_cmu_arctic import build_dynamic_cmu_arctic_dataset
    out = Path(op["out"])
    shutil.rmtree(out, ignore_errors=True)
    r = build_dynamic_cmu_arctic_dataset(
        cmu_root=Path("data"), dataset_root=out, save_layout_mp4=False, save_layout_mp4_3d=False,
        save_layout_images=False, save_layout_images_3d=False, **op["args"])
    return [list(r)] + [[str(p.relative_to(out)), hashlib.sha256(p.read_bytes()).hexdigest()[:16]]
                        for p in sorted(out.rglob("*")) if p.is_file()]


def _spread(w, op):
    """The same random call under several seeds: how many values each of its
    random parts took, and all results."""
    of = op["of"]
    got = []
    for sd in op["seeds"]:
        if of["k"] == "static":
            mine = World(w.objs, w.root)
            mine.made = dict(w.made)
            mine.made[("cfg", of["cfg"])] = w.make_cfg(dict(w.objs["cfg"][of["cfg"]], seed=sd))
            got.append(call(mine, of))
        elif of["k"] == "build":
            got.append(call(w, dict(of, args=dict(of["args"], seed=sd))))
        else:
            got.append(call(w, of, random.Random(sd)))
    parts = {}
    for v in got:
        if of["k"] == "sample":
            for i in range(v.shape[1]):
                parts.setdefault(f"coordinate {i}", []).append(v[0, i].item())
        elif of["k"] == "sources":
            parts.setdefault("speakers", []).append([s for s, _ in v[2]])
            for s, utts in v[2]:
                parts.setdefault(f"utterances of {s}", []).append(utts)
        elif of["k"] == "build":
            parts.setdefault("metadata", []).append([x for x in v[1:] if x[0].endswith("metadata.json")])
        else:
            parts.setdefault("result", []).append(fingerprint(v))
    return [[[n, len(vs), len({repr(x) for x in vs})] for n, vs in sorted(parts.items())], got]


def _sent(s):
    return [s.utterance_id, s.text, getattr(s, "speaker_id", None), getattr(s, "chapter_id", None)]


def _dir(d):
    return tuple(d) if isinstance(d, list) else d


def _ori(o):
    import torch
    if o is None:
        return None
    if isinstance(o[0], list):
        return (torch.tensor(o[0]), torch.tensor(o[1]))
    return torch.tensor(o)


def _grad(y, leaf):
    if leaf is None:
        return y
    if not y.requires_grad:
        return [y.detach(), None]
    (y * y).sum().backward()
    return [y.detach(), leaf.grad]


def outcome(w, op, rng=None, arm=None):
    """(value or exception, fingerprint, brief) of one call."""
    import contextlib
    import torch
    mode = op.get("mode", "plain")
    cm = {"plain": contextlib.nullcontext, "grad": contextlib.nullcontext, "nograd": torch.no_grad,
          "infer": torch.inference_mode}[mode]
    try:
        if arm is not None:
            arm()
        with cm():
            v = call(w, op, rng)
    except Exception as exc:  # noqa: BLE001 - exceptions are outcomes
        exc.__traceback__ = None
        v = exc
    return v


def summary(v):
    return [fingerprint(v), brief(v)]


class TorchAborter:
    """Fails the n-th library (torch) call of the current thread."""

    def __new__(cls, n, exc, hit):
        from torch.overrides import TorchFunctionMode

        class Mode(TorchFunctionMode):
            def __init__(self):
                super().__init__()
                self.n = 0
                self.first = {}

            def site(self):
                import sys
                from sim import threadworld
                f = sys._getframe(2)
                while f is not None and not f.f_code.co_filename.startswith(threadworld.SRC):
                    f = f.f_back
                return None if f is None else (f.f_code, f.f_lasti)

            def __torch_function__(self, func, types, args=(), kwargs=None):
                name = getattr(func, "__name__", "")
                if name not in ("__get__", "__set__", "item", "tolist", "numel", "dim", "size", "is_complex",
                                "__bool__", "__float__", "__int__", "stride", "__len__", "manual_seed"):
                    self.n += 1
                    if n is None:
                        self.first.setdefault(self.site(), self.n)
                    if n is not None and self.n == n:
                        e = exc()
                        hit.append(e)
                        raise e
                return func(*args, **(kwargs or {}))

        return Mode()

"""Client programs run inside simulated nodes (audio and metadata files)."""
from __future__ import annotations

import warnings

from sim.procworld import describe_exc, mark
from sim.work import tsha


def tensor(spec):
    """The audio a client saves; the checker rebuilds it from the same spec."""
    import numpy as np
    import torch
    n = 1
    for s in spec["shape"]:
        n *= s
    r = np.random.RandomState(spec["seed"])
    if spec.get("tone"):
        x = np.sin(np.arange(n) * 0.03) * 0.6
    else:
        x = r.uniform(-1, 1, n) * spec.get("amp", 0.8)
    if spec.get("zero"):
        x = x * 0
    t = torch.from_numpy(x.astype(np.float64).reshape(spec["shape"])).to(getattr(torch, spec.get("dtype", "float32")))
    if spec.get("strided") and t.ndim >= 1 and t.shape[-1] > 0:
        big = torch.zeros(*t.shape[:-1], t.shape[-1] * 2, dtype=t.dtype)
        big[..., ::2] = t
        t = big[..., ::2]
    if spec.get("grad") and t.is_floating_point():
        t = t.requires_grad_(True)
    return t


def metadata(spec):
    import random
    r = random.Random(spec["seed"])

    def val(d):
        q = r.random()
        if d < 3 and q < 0.25:
            return {f"k{i}é": val(d + 1) for i in range(r.randrange(4))}
        if d < 3 and q < 0.5:
            return [val(d + 1) for _ in range(r.randrange(spec.get("n", 5)))]
        return r.choice([None, True, 1, -3, r.random(), 1e-30, "text", "ünï\n\"q\"", r.uniform(-1e6, 1e6), float("inf")])

    return {f"f{i}": val(0) for i in range(4)}


def scene(spec):
    import torch
    import torchrir
    room = torchrir.Room.shoebox(size=[5.0, 4.0, 3.0], fs=16000.0, t60=0.3)
    src = torchrir.Source.from_positions([[1.0, 1.0 + spec["seed"] % 2, 1.5]])
    mic = torchrir.MicrophoneArray.from_positions([[2.0, 2.0, 1.5], [2.1, 2.0, 1.5]])
    g = torch.Generator()
    g.manual_seed(spec["seed"])
    return dict(room=room, sources=src, mics=mic, rirs=torch.zeros(1, 2, 8), signal_len=10,
                source_info=[{"speaker": "bdl", "n": spec["seed"]}], extra={"id": spec["seed"]})


def attribution(spec):
    from torchrir.datasets import attribution_for, default_modification_notes
    a = attribution_for("librispeech", subset="dev-clean") if spec["seed"] % 2 else attribution_for("cmu_arctic")
    if spec.get("map"):
        a = a.to_dict()
    return a, default_modification_notes(dynamic=spec["seed"] % 3 == 0) + [f"note {spec['seed']}"]


def one(op):
    import torchrir.io as tio
    import torchrir.io.audio as ta
    from pathlib import Path
    p = Path(op["path"])
    k = op["k"]
    if k == "save":
        x = tensor(op["x"])
        fn = op["fn"]
        kw = {x: op[x] for x in ("normalize", "peak", "subtype", "backend", "format") if x in op}
        if fn == "scene":
            return str(tio.save_scene_audio(out_dir=p.parent, audio=x, fs=op["fs"], audio_name=p.name))
        if fn == "data":
            ta.save_audio_data(p, ta.AudioData(audio=x, sample_rate=op["fs"], format="WAV", subtype=op.get("dsub")), **kw)
        else:
            mod, name = fn.split(".")
            getattr(tio if mod == "io" else ta, name)(p, x, op["fs"], **kw)
        return None
    if k == "load":
        mod, name = op["fn"].split(".")
        r = getattr(tio if mod == "io" else ta, name)(p, **{x: op[x] for x in ("backend", "format") if x in op})
        if name == "load_audio_data":
            return [tsha(r.audio), list(r.audio.shape), str(r.audio.dtype), int(r.sample_rate), r.format, r.subtype]
        if name.startswith("info"):
            return [int(r.sample_rate), int(r.num_frames), int(r.num_channels), r.format, r.subtype, float(r.duration)]
        return [tsha(r[0]), list(r[0].shape), str(r[0].dtype), int(r[1])]
    if k == "copy":
        d = ta.load_audio_data(p)
        ta.save_audio_data(Path(op["to"]), d, normalize=False)
        return None
    if k == "meta":
        tio.save_metadata_json(p, metadata(op["x"]))
        return None
    if k == "scenemeta":
        import json
        m = tio.save_scene_metadata(out_dir=p.parent, metadata_name=p.name, **scene(op["x"]))
        return json.loads(json.dumps(m))
    if k == "attr":
        a, notes = attribution(op["x"])
        tio.save_attribution_file(out_dir=p.parent, dataset_attribution=a, modifications=notes, attribution_name=p.name)
        return None
    raise ValueError(k)


def io_ops(ops):
    warnings.simplefilter("ignore")
    out = []
    for i, op in enumerate(ops):
        mark(f"start:{i}")
        try:
            v = one(op)
        except BaseException as exc:  # noqa: BLE001
            out.append({"exc": describe_exc(exc)})
            exc.__traceback__ = None
            mark(f"failed:{i}")
            continue
        out.append({"val": v})
        mark(f"done:{i}")
    return out

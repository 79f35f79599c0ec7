"""Client programs run inside simulated nodes (dataset builder and rendering)."""
from __future__ import annotations

import json
import logging
import os

from sim.procworld import describe_exc, mark


class Collect(logging.Handler):
    def __init__(self):
        super().__init__(logging.DEBUG)
        self.recs = []

    def emit(self, record):
        self.recs.append([record.levelname, record.name, record.getMessage()[:300]])


def collector(custom):
    h = Collect()
    base = logging.getLogger("torchrir")
    base.addHandler(h)
    base.setLevel(logging.INFO)
    if custom:
        lg = logging.getLogger("simclient")
        lg.addHandler(h)
        lg.setLevel(logging.INFO)
        return h, lg
    return h, None


def perturb(n, dtype=True):
    """Put the process-wide random state and the library's caches in another state."""
    import random

    import numpy as np
    import torch
    random.seed(n)
    np.random.seed(n % (1 << 31))
    torch.manual_seed(n)
    random.random(), np.random.rand(), torch.rand(1)
    if n % 3 == 0:
        import torchrir
        room = torchrir.Room.shoebox(size=[3.0, 4.0, 2.5], fs=8000.0, beta=[0.5] * 6)
        dt = torch.float32 if n % 2 else torch.float64
        src = torchrir.Source.from_positions([[1.0, 1.0, 1.0]], dtype=dt)
        mic = torchrir.MicrophoneArray.from_positions([[2.0, 2.0, 1.2]], dtype=dt)
        torchrir.sim.simulate_rir(room=room, sources=src, mics=mic, max_order=1, nsample=64)
    for how in ([], ["dtype"], ["no_grad"], ["inference"], ["print", "decimal"], ["debug"], ["dtype", "debug", "decimal"])[n // 7 % 7]:
        if dtype or how != "dtype":
            settle(how)


def settle(how):
    """Settings of the process that say nothing about the data."""
    import decimal

    import numpy as np
    import torch
    if how == "dtype":
        torch.set_default_dtype(torch.float64)
    elif how == "no_grad":
        torch.set_grad_enabled(False)
    elif how == "inference":
        torch.inference_mode().__enter__()
    elif how == "print":
        torch.set_printoptions(precision=2, threshold=4)
        np.set_printoptions(precision=2, threshold=4)
    elif how == "decimal":
        decimal.getcontext().prec = 4
    elif how == "debug":
        logging.getLogger().setLevel(logging.DEBUG)
        logging.getLogger("torchrir").setLevel(logging.DEBUG)
        logging.getLogger("torchrir").addHandler(logging.NullHandler())


class Faulty:
    """Make the k-th call of one plotting-library entry point fail."""

    EXC = {"RuntimeError": RuntimeError, "ValueError": ValueError, "OSError": OSError,
           "MemoryError": MemoryError, "TypeError": TypeError}

    def __init__(self, spec):
        self.spec = spec
        self.fired = []

    def install(self, low_res=True):
        import matplotlib.animation as ani
        import matplotlib.backend_bases as bb
        import matplotlib.figure as mf
        import matplotlib.ticker as mt
        # plain tick labels instead of parsed math text
        mt.ScalarFormatter.__call__ = lambda self, x, pos=None: f"{x:g}"
        # nobody looks at the canvas between frames
        bb.FigureCanvasBase.draw_idle = lambda self, *a, **k: None

        def wrap(owner, attr, name, cap=None, real=None, counter=None):
            real = real or getattr(owner, attr)
            counter = counter or [0]

            def repl(*a, **k):
                counter[0] += 1
                if cap:
                    k["dpi"] = min(k["dpi"], cap) if isinstance(k.get("dpi"), (int, float)) else cap
                for s in self.spec:
                    if s[0] == name and s[1] == counter[0]:
                        self.fired.append([name, counter[0], s[2]])
                        if s[3]:
                            real(*a, **k)
                        raise self.EXC[s[2]](f"simulated failure in {name}")
                return real(*a, **k)
            setattr(owner, attr, repl)

        wrap(mf.Figure, "savefig", "savefig", 30 if low_res else None)
        wrap(mf.Figure, "tight_layout", "tight_layout", real=lambda self, *a, **k: None)
        wrap(ani.Animation, "save", "anim.save", 12 if low_res else None)
        for s in self.spec:
            if not s[0].startswith("draw."):
                continue
            from matplotlib.axes import Axes
            from mpl_toolkits.mplot3d import Axes3D
            attr, counter = s[0][5:], [0]
            for owner in (mf.Figure,) if attr == "add_subplot" else (ani.FuncAnimation,) if attr == "__init__" else (Axes, Axes3D):
                if attr in vars(owner) or owner is mf.Figure:
                    wrap(owner, attr, s[0], counter=counter)


def command_line(kw, cmu_root, out_root):
    """The arguments that make the builder's command line do the same build."""
    a = ["--cmu-root", cmu_root, "--dataset-root", out_root, "--log-level", "WARNING"]
    for k, v in kw.items():
        flag = "--" + {"overwrite": "overwrite_dataset"}.get(k, k).replace("_", "-")
        if k == "speakers":
            a += [flag, *v]
        elif k in ("room_size", "mic_center", "source_margin"):
            a.append(flag + "=" + ",".join(map(repr, v)))
        elif k in ("layout_video_mux_audio", "annotate_source_indices"):
            if not v:
                a.append({"l": "--layout-video-no-audio", "a": "--no-annotate-source-indices"}[k[0]])
        elif k == "overwrite":
            a += [flag] if v else []
        elif isinstance(v, bool):
            a.append(flag if v else "--no-" + flag[2:])
        elif v is not None:
            a.append(f"{flag}={v!r}")
    return a


def earlier(jobs):
    """What the process did before: builds of other data sets, some of which fail."""
    from pathlib import Path

    from torchrir.datasets.dynamic_cmu_arctic import build_dynamic_cmu_arctic_dataset
    for j in jobs:
        try:
            build_dynamic_cmu_arctic_dataset(cmu_root=Path(j["cmu"]), dataset_root=Path(j["out"]), **j["cfg"])
        except (ValueError, RuntimeError, OSError) as exc:
            mark(f"earlier-failed:{type(exc).__name__}")


def build(cfg, cmu_root, out_root, opts):
    """One dataset build; reports the outcome, the log and the open figures."""
    from pathlib import Path

    import matplotlib.pyplot as plt
    from torchrir.datasets.dynamic_cmu_arctic import build_dynamic_cmu_arctic_dataset
    h, lg = collector(opts.get("logger"))
    faulty = Faulty(opts.get("viz_faults", []))
    faulty.install()
    if opts.get("perturb"):
        perturb(opts["perturb"])
    if opts.get("before"):
        earlier(opts["before"])
    kw = dict(cfg)
    kw.update(opts.get("kw", {}))
    figs0 = sorted(plt.get_fignums())
    mark("build")
    try:
        if opts.get("cli"):
            import sys

            from torchrir.datasets import dynamic_cmu_arctic
            sys.argv = ["dynamic_cmu_arctic", *command_line(kw, cmu_root, out_root)]
            dynamic_cmu_arctic.main()
            out = {"ret": None}
        else:
            ret = build_dynamic_cmu_arctic_dataset(
                cmu_root=Path(cmu_root), dataset_root=Path(out_root), logger=lg, **kw)
            out = {"ret": [int(x) for x in ret]}
    except BaseException as exc:  # noqa: BLE001
        out = {"exc": describe_exc(exc)}
        exc.__traceback__ = None
    mark("built")
    out["log"] = h.recs
    out["figs"] = [figs0, sorted(plt.get_fignums())]
    out["fired"] = faulty.fired
    return out


def verify(cfg, out_root, truth):
    """Independent check of a finished dataset; returns a list of problems."""
    import numpy as np
    import soundfile as sf
    import torch
    import torchrir
    from torchrir.signal import DynamicConvolver
    from torchrir.sim import simulate_dynamic_rir
    probs = []
    want = [f"scene_{i:04d}" for i in range(cfg["n_scenes"])]
    have = sorted(d for d in os.listdir(out_root) if os.path.isdir(os.path.join(out_root, d)))
    if have != want:
        return [f"scene directories {have} instead of {want}"]
    nsrc, rl = cfg["n_sources"], cfg["rir_samples"]
    for sid in want:
        d = os.path.join(out_root, sid)
        with open(os.path.join(d, "metadata.json"), encoding="utf-8") as f:
            meta = json.load(f)
        with open(os.path.join(d, "source_info.json"), encoding="utf-8") as f:
            info = json.load(f)
        if meta.get("source_info") != info:
            probs.append(f"{sid}: the metadata and the source list disagree")
        if len(info) != nsrc or len({i["speaker"] for i in info}) != nsrc:
            probs.append(f"{sid}: {len(info)} sources, speakers {[i['speaker'] for i in info]}")
            continue
        fs = truth[info[0]["speaker"]]["fs"]
        target = int(float(cfg["duration_sec"]) * fs)
        stems = []
        for k in range(nsrc):
            x, r = sf.read(os.path.join(d, f"source_{k:02d}.wav"), dtype="int16", always_2d=True)
            if r != fs:
                probs.append(f"{sid}: stem {k} has rate {r}")
            stems.append(x.astype(np.int64))
        extra = [n for n in os.listdir(d) if n.startswith("source_") and n.endswith(".wav")]
        if len(extra) != nsrc:
            probs.append(f"{sid}: {len(extra)} stem files for {nsrc} sources")
        mix, r = sf.read(os.path.join(d, "mixture.wav"), dtype="int16", always_2d=True)
        mix = mix.astype(np.int64)
        shapes = {s.shape for s in stems} | {mix.shape}
        nm = len(meta["mics"]["positions"])
        if shapes != {(target + rl - 1, nm)} or r != fs:
            probs.append(f"{sid}: audio shapes {shapes} rate {r}, expected {(target + rl - 1, nm)} at {fs}")
            continue
        err = int(np.abs(mix - sum(stems)).max())
        if err > nsrc + 1:
            probs.append(f"{sid}: the mixture differs from the sum of its stems by {err} quantisation steps")
        dry = np.zeros((nsrc, target))
        ok = True
        for k, item in enumerate(info):
            t = truth[item["speaker"]]
            parts = []
            for u in item["utterance_ids"]:
                if u not in t["samples"]:
                    probs.append(f"{sid}: source {k} names unknown utterance {u}")
                    ok = False
                    break
                parts.append(np.asarray(t["samples"][u], dtype=np.float64) / 32768.0)
            if not ok:
                break
            cat = np.concatenate(parts) if parts else np.zeros(0)
            if cat.size < target or cat.size - parts[-1].size >= target:
                probs.append(f"{sid}: source {k} needs {target} samples, its utterances have {cat.size}")
                ok = False
                break
            dry[k] = cat[:target]
        if not ok:
            continue
        steps = cfg["trajectory_steps"]
        tr = meta["trajectories"]
        src = torch.tensor(tr["sources"] if tr["sources"] is not None else [meta["sources"]["positions"]], dtype=torch.float64)
        mic = torch.tensor(tr["mics"] if tr["mics"] is not None else [meta["mics"]["positions"]] * src.shape[0], dtype=torch.float64)
        if src.shape[0] != steps or mic.shape[0] != steps:
            probs.append(f"{sid}: {src.shape[0]} trajectory steps in the metadata, {steps} requested")
            continue
        for k, item in enumerate(info):
            moves = bool((src[:, k] - src[:1, k]).abs().max() > 1e-12)
            if moves and not item["is_moving"]:
                probs.append(f"{sid}: source {k} moves but is listed as static")
            if item["is_moving"] != (item["velocity_mps"] > 0):
                probs.append(f"{sid}: source {k} moving={item['is_moving']} with speed {item['velocity_mps']}")
        room = torchrir.Room.shoebox(size=meta["room"]["size"], fs=meta["room"]["fs"], c=meta["room"]["c"],
                                     t60=meta["room"]["t60"], dtype=torch.float64)
        rirs = simulate_dynamic_rir(room=room, src_traj=src, mic_traj=mic, max_order=cfg["max_order"],
                                    nsample=meta["time_axis"]["nsample"])
        if list(rirs.shape) != meta["rirs_shape"]:
            probs.append(f"{sid}: metadata gives response shape {meta['rirs_shape']}, recomputed {list(rirs.shape)}")
        conv = DynamicConvolver(mode="trajectory")
        exp = []
        dryt = torch.tensor(dry, dtype=torch.float64)
        for k in range(nsrc):
            y = conv.convolve(dryt[k:k + 1], rirs[:, k:k + 1]).numpy()
            exp.append(np.atleast_2d(y).T)
        obs = np.stack(stems) / 32768.0
        ex = np.stack(exp)
        den = float((ex * ex).sum())
        scale = float((obs * ex).sum() / den) if den > 0 else 1.0
        peak = float(np.abs(ex).max())
        dev = float(np.abs(obs - scale * ex).max()) * 32768.0
        if dev > 2.0:
            worst = int(np.abs(obs - scale * ex).reshape(nsrc, -1).max(axis=1).argmax())
            probs.append(f"{sid}: stem {worst} is not the source and path its metadata describes "
                         f"(off by {dev:.0f} quantisation steps)")
        if peak > 0.02 and scale > 1.02:
            probs.append(f"{sid}: stems are scaled by {scale:.3f} although the peak is {peak:.3f}")
        ex_meta = meta.get("extra") or {}
        if ex_meta.get("scene_id") != sid:
            probs.append(f"{sid}: metadata names scene {ex_meta.get('scene_id')}")
        probs += [f"{sid}: {p}" for p in describes(cfg, meta, info, src.numpy(), mic.numpy(), fs, target)]
    return probs


def describes(cfg, meta, info, src, mic, fs, target):
    """Do the figures in the metadata state the scene that its trajectories give?"""
    import numpy as np
    probs = []

    def same(what, a, b, tol=1e-6):
        a, b = np.asarray(a, dtype=np.float64), np.asarray(b, dtype=np.float64)
        if a.shape != b.shape or (a.size and not np.abs(a - b).max() <= tol * max(1.0, float(np.abs(b).max()))):
            probs.append(f"metadata: {what} is {a.ravel()[:4].tolist()}, the scene has {b.ravel()[:4].tolist()}")

    ex, room = meta["extra"], meta["room"]
    nsrc, steps = cfg["n_sources"], src.shape[0]
    dur = float(cfg["duration_sec"])
    start, end = cfg.get("move_start_ratio", 0.35), cfg.get("move_end_ratio", 0.65)
    same("room size", room["size"], cfg["room_size"])
    same("rate", room["fs"], fs)
    same("time axis rate", meta["time_axis"]["fs"], fs)
    same("reverberation time", room["t60"], cfg["rt60"])
    if "sound_speed" in cfg:
        same("speed of sound", room["c"], cfg["sound_speed"])
    same("response length", meta["time_axis"]["nsample"], cfg["rir_samples"])
    same("response times", meta["time_axis"]["t"], np.arange(cfg["rir_samples"]) / fs)
    same("source positions", meta["sources"]["positions"], src[0])
    same("microphone positions", meta["mics"]["positions"], mic[0])
    same("microphone trajectory", mic, np.repeat(mic[:1], steps, axis=0))
    centre = mic[0].mean(axis=0)
    same("array centre", meta["array"]["center"], centre)
    same("microphone centre", ex["mic_center_xyz_m"], centre)
    if not cfg["randomize_mic_center"] and "mic_center" in cfg:
        same("microphone centre", centre, cfg["mic_center"])
    gaps = np.linalg.norm(mic[0][:, None] - mic[0][None], axis=-1)
    same("array edge", ex["octa_edge_m"], gaps[gaps > 1e-9].min())
    same("requested array edge", ex["octa_edge_m"], cfg["octa_edge_m"])
    same("dynamic flag", meta["dynamic"], steps > 1)
    vec = src[:, :, None, :] - mic[:, None, :, :]
    same("azimuth of arrival", meta["doa"]["azimuth"], np.arctan2(vec[..., 1], vec[..., 0]))
    same("elevation of arrival", meta["doa"]["elevation"], np.arctan2(vec[..., 2], np.hypot(vec[..., 0], vec[..., 1])))
    if steps > 1:
        same("time stamps", meta["timestamps"], np.linspace(0.0, (target - 1.0) / fs, steps))
    moving = [k for k, i in enumerate(info) if i["is_moving"]]
    same("number of moving sources", len(moving), cfg["n_moving_sources"])
    same("number of moving sources", ex["n_moving_sources"], cfg["n_moving_sources"])
    same("number of sources", ex["n_sources"], nsrc)
    same("moving sources", ex["moving_source_indices"], moving)
    same("source index", [i["source_index"] for i in info], range(nsrc))
    for key in ("velocity_mps", "angular_velocity_rad_s", "turn_direction"):
        same(key, [i[key] for i in info], ex["source_velocity_mps" if key[0] == "v" else key])
    if [i["motion_type"] for i in info] != ["arc" if i["is_moving"] else "static" for i in info]:
        probs.append("metadata: motion types do not follow is_moving")
    rel = src - centre
    azi = np.arctan2(rel[..., 1], rel[..., 0])
    rad = np.hypot(rel[..., 0], rel[..., 1])
    turn = np.array([i["angular_velocity_rad_s"] for i in info])
    for t in (ex["motion_time_sec"], *({"total": dur, "move_start": i["move_start_sec"], "move_end": i["move_end_sec"]} for i in info)):
        same("motion times", [t["total"], t["move_start"], t["move_end"]], [dur, dur * start, dur * end])
    same("motion profile", [ex["motion_profile"][k + "_ratio"] for k in ("pre_static", "move", "post_static")],
         [start, end - start, 1.0 - end])
    same("speed", [i["velocity_mps"] for i in info], np.abs(turn) * rad[0])
    same("turn direction", [i["turn_direction"] for i in info], np.sign(turn))
    lo, hi = cfg.get("moving_speed_min"), cfg.get("moving_speed_max")
    if lo is not None and not all(lo - 1e-9 <= info[k]["velocity_mps"] <= hi + 1e-9 for k in moving):
        probs.append(f"metadata: speeds {[i['velocity_mps'] for i in info]} outside {lo}..{hi}")

    def angle(what, a, b):
        same(what, np.cos(a), np.cos(b))
        same(what, np.sin(a), np.sin(b))
    angle("start azimuth", np.deg2rad(ex["start_azimuth_deg"]), azi[0])
    angle("end azimuth", np.deg2rad(ex["end_azimuth_deg"]), azi[0] + turn * dur * (end - start))
    same("height", rel[..., 2], np.repeat(rel[:1, :, 2], steps, axis=0))
    same("distance from the array", rad, np.repeat(rad[:1], steps, axis=0))
    if steps > 1:
        when = np.clip((np.linspace(0.0, 1.0, steps) - start) / (end - start), 0.0, 1.0)
        angle("azimuth over time", azi, azi[:1] + when[:, None] * (turn * dur * (end - start))[None])
    same("smallest distance", ex["min_source_distance_from_array_center_m"] <= rad.min() + 1e-9, True)
    m = np.asarray(cfg.get("source_margin", [0.0, 0.0, 0.0]))
    if (src < m - 1e-9).any() or (src > np.asarray(cfg["room_size"]) - m + 1e-9).any():
        probs.append("metadata: a source lies outside the room or its margin")
    return probs

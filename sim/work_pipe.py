"""Client programs of the scripted-scene world: the shipped example programs, run
as their user runs them, and an independent check of what they wrote."""
from __future__ import annotations

import json
import os
import sys

from sim.procworld import describe_exc, mark
from sim.work_build import Faulty, collector, perturb


def repo():
    return os.environ.get("VERIF_REPO", "/repo")


def launch(script, argv):
    import runpy
    sys.argv = [script, *argv]
    if script.startswith("-m "):
        sys.modules.pop(script[3:], None)
        runpy.run_module(script[3:], run_name="__main__", alter_sys=False)
    else:
        runpy.run_path(os.path.join(repo(), "examples", script), run_name="__main__")


def program(script, argv, opts):
    """One run of an example program (or of a module with a command line)."""
    import matplotlib.pyplot as plt
    h, _ = collector(False)
    faulty = Faulty(opts.get("viz_faults", []))
    faulty.install()
    if opts.get("perturb"):
        perturb(opts["perturb"], dtype=False)
    for s, a in opts.get("before", []):
        # what the same process ran before
        try:
            launch(s, a)
        except (SystemExit, ValueError, RuntimeError, OSError) as exc:
            mark(f"earlier-failed:{type(exc).__name__}")
    del h.recs[:]
    figs0 = sorted(plt.get_fignums())
    mark("program")
    try:
        launch(script, argv)
        out = {"ret": [0]}
    except SystemExit as exc:
        if exc.code in (None, 0):
            out = {"ret": [0]}
        else:
            out = {"exc": describe_exc(exc)}
    except BaseException as exc:  # noqa: BLE001
        out = {"exc": describe_exc(exc)}
        exc.__traceback__ = None
    mark("programmed")
    out["log"] = h.recs
    out["figs"] = [figs0, sorted(plt.get_fignums())]
    out["fired"] = faulty.fired
    return out


def check(scenes, out_dir, truth, duration):
    """Recompute every scene from its own metadata; returns a list of problems."""
    import numpy as np
    import soundfile as sf
    import torch
    import torchrir
    from torchrir.signal import DynamicConvolver, convolve_rir
    from torchrir.sim import simulate_dynamic_rir, simulate_rir
    probs = []
    for sc in scenes:
        with open(os.path.join(out_dir, sc["meta"]), encoding="utf-8") as f:
            meta = json.load(f)
        who = sc["meta"]
        info = meta["source_info"]
        fs = int(meta["room"]["fs"])
        target = int(duration * fs)
        dry = np.zeros((len(info), target))
        if len({s for s, _ in info}) != len(info) or len(info) != sc["k"]:
            probs.append(f"{who}: {sc['k']} sources asked for, speakers {[s for s, _ in info]}")
            continue
        bad = False
        for k, (spk, utts) in enumerate(info):
            t = truth.get(spk)
            if t is None or any(u not in t["samples"] for u in utts) or t["fs"] != fs:
                probs.append(f"{who}: source {k} names {spk} {utts}, unknown to the corpus (or another rate)")
                bad = True
                break
            cat = np.concatenate([np.asarray(t["samples"][u], dtype=np.float64) / 32768.0 for u in utts])
            last = len(t["samples"][utts[-1]])
            if cat.size < target or (cat.size - last >= target and len(utts) > 1 and k > 0):
                probs.append(f"{who}: source {k} needs {target} samples, its utterances have {cat.size}")
                bad = True
                break
            dry[k] = cat[:target]
        if bad:
            continue
        room = torchrir.Room.shoebox(size=meta["room"]["size"], fs=meta["room"]["fs"], c=meta["room"]["c"],
                                     beta=meta["room"]["beta"])
        n = meta["time_axis"]["nsample"]
        sig = torch.tensor(dry, dtype=torch.float32)
        if meta["dynamic"]:
            st = torch.tensor(meta["trajectories"]["sources"])
            mt = torch.tensor(meta["trajectories"]["mics"])
            rirs = simulate_dynamic_rir(room=room, src_traj=st, mic_traj=mt, max_order=sc["order"], nsample=n)
            conv = DynamicConvolver(mode="trajectory")
            exp = {sc["mix"]: conv.convolve(sig, rirs)}
            for k, r in enumerate(sc["refs"]):
                exp[r] = conv.convolve(sig[k], rirs[:, k:k + 1])
        else:
            src = torchrir.Source.from_positions(meta["sources"]["positions"])
            mic = torchrir.MicrophoneArray.from_positions(meta["mics"]["positions"])
            rirs = simulate_rir(room=room, sources=src, mics=mic, max_order=sc["order"], nsample=n)
            exp = {sc["mix"]: convolve_rir(sig, rirs)}
            for k, r in enumerate(sc["refs"]):
                exp[r] = convolve_rir(sig[k], rirs[k:k + 1])
        if list(rirs.shape) != meta["rirs_shape"]:
            probs.append(f"{who}: metadata gives response shape {meta['rirs_shape']}, recomputed {list(rirs.shape)}")
            continue
        for name, y in exp.items():
            e = np.atleast_2d(y.to(torch.float64).numpy())
            x, r = sf.read(os.path.join(out_dir, name), dtype="float64", always_2d=True)
            x = x.T
            if r != fs or x.shape != e.shape:
                probs.append(f"{who}: {name} has rate {r} and shape {x.shape}, expected {fs} and {e.shape}")
                continue
            den = float((e * e).sum())
            s = float((x * e).sum() / den) if den > 0 else 1.0
            dev = float(np.abs(x - s * e).max()) * 32768.0
            if dev > 2.0:
                probs.append(f"{who}: {name} is not the sound its metadata describes (off by {dev:.0f} quantisation steps)")
        for item in (meta.get("extra") or {}).get("reference_audio", []):
            if not os.path.exists(os.path.join(out_dir, item["filename"])) or [item["speaker"], item["utterances"]] != info[item["index"]]:
                probs.append(f"{who}: the reference list names {item}, sources are {info}")
        att = (meta.get("extra") or {}).get("attribution_file")
        if not att or not os.path.exists(os.path.join(out_dir, att)):
            probs.append(f"{who}: attribution file {att} is not there")
    return probs

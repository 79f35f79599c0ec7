"""Simulation worker: imports the code under test once, then runs jobs.

Started by check.py with the shim preloaded.  Reads one JSON job per line on
stdin and writes one JSON result per line on the descriptor given by
SIM_OUT_FD.  Every simulated node is forked from this process.
"""
from __future__ import annotations

import gc
import json
import os
import resource
import sys
import time
import traceback


def warm():
    src = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src")
    sys.path.insert(0, src)
    import torch
    torch.set_num_threads(1)
    try:
        torch.set_num_interop_threads(1)
    except RuntimeError:
        pass
    import numpy as np  # noqa: F401
    import soundfile as sf
    import http.client  # noqa: F401
    import urllib.request  # noqa: F401
    import urllib.error  # noqa: F401
    import tarfile, bz2, gzip, lzma, zipfile, shutil, tempfile, hashlib, fcntl  # noqa: F401,E401
    import encodings.idna, encodings.utf_8_sig, encodings.latin_1, stringprep  # noqa: F401,E401
    import ssl  # noqa: F401
    from sim import threadworld
    threadworld.SRC = os.path.join(os.path.abspath(src), "torchrir") + os.sep
    threadworld.patch_locks()
    import uuid, secrets, glob, fnmatch, concurrent.futures, queue  # noqa: F401,E401
    import concurrent.futures.thread, concurrent.futures.process, multiprocessing  # noqa: F401,E401
    import matplotlib
    matplotlib.use("Agg", force=True)
    import matplotlib.pyplot as plt
    import matplotlib.animation  # noqa: F401
    from mpl_toolkits.mplot3d import Axes3D  # noqa: F401
    import torchrir
    import torchrir.datasets
    import torchrir.datasets.dynamic_cmu_arctic
    import torchrir.io
    import torchrir.viz
    import torchrir.sim
    import torchrir.signal
    import torchrir.logging
    import torchrir.util
    import torchrir.experimental
    for pkg in ("torchrir",):
        import importlib
        import pkgutil
        for m in pkgutil.walk_packages(sys.modules[pkg].__path__, pkg + "."):
            try:
                importlib.import_module(m.name)
            except Exception:
                pass
    if not os.path.abspath(torchrir.__file__).startswith(os.path.abspath(src)):
        raise SystemExit(f"torchrir imported from {torchrir.__file__}, expected {src}")
    # warm the lazily imported parts of the libraries, so that nodes touch only
    # files of the simulated world
    import io
    b = io.BytesIO()
    sf.write(b, np.zeros(8, dtype=np.float32), 16000, format="WAV")
    b.seek(0)
    sf.read(b)
    b = io.BytesIO()
    sf.write(b, np.zeros(800, dtype=np.int16), 16000, format="FLAC")
    fig = plt.figure()
    ax = fig.add_subplot(111, projection="3d")
    ax.plot([0, 1], [0, 1], [0, 1], label="a")
    ax.set_title("x")
    ax.legend()
    fig.savefig(io.BytesIO(), format="png")
    plt.close(fig)
    fig, ax = plt.subplots()
    ax.plot([0, 1])
    fig.savefig(io.BytesIO(), format="png")
    plt.close(fig)
    try:
        from PIL import Image, GifImagePlugin, PngImagePlugin, JpegImagePlugin  # noqa: F401
        Image.init()
        im = Image.new("RGB", (4, 4))
        im.save(io.BytesIO(), format="GIF", save_all=True, append_images=[im, im])
    except ImportError:
        pass
    x = torch.randn(2, 64)
    torch.fft.irfft(torch.fft.rfft(x))
    torch.manual_seed(1)
    try:
        raise ValueError("warm")
    except ValueError:
        traceback.format_exc()
    import scipy.signal
    scipy.signal.lfilter([1.0, 0.5], [1.0, 0.1], np.zeros((2, 8)), axis=-1)
    for name in lazily_imported():
        try:
            importlib.import_module(name)
        except Exception:
            pass


def lazily_imported():
    """Modules that the code under test imports on demand, found by running it
    in a forked child, so that no state of its own is left behind here."""
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        names = []
        before = set(sys.modules)
        try:
            _exercise()
        except BaseException:
            if os.environ.get("SIM_DEBUG"):
                traceback.print_exc()
        try:
            names = sorted(n for n in set(sys.modules) - before if not n.startswith("torchrir"))
            os.write(wr, json.dumps(names).encode()[:60000])
        finally:
            os._exit(0)
    os.close(wr)
    blob = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        blob += b
    os.close(r)
    os.waitpid(pid, 0)
    try:
        return json.loads(blob)
    except ValueError:
        return []


def _exercise():
    import torchrir
    from torchrir.signal import DynamicConvolver
    kw = dict(dtype=__import__("torch").float32)
    room = torchrir.Room.shoebox(size=[5.0, 4.0, 3.0], fs=8000.0, t60=0.2)
    src = torchrir.Source.from_positions([[1.0, 1.0, 1.0]], **kw)
    mic = torchrir.MicrophoneArray.from_positions([[2.0, 2.0, 1.2]], **kw)
    import torch
    torchrir.sim.simulate_rir(room=room, sources=src, mics=mic, max_order=1, nsample=64, tdiff=0.002)
    st = torch.rand(2, 1, 3) + 1
    mt = torch.rand(2, 1, 3) + 2
    rirs = torchrir.sim.simulate_dynamic_rir(room=room, src_traj=st, mic_traj=mt, max_order=1, nsample=64)
    DynamicConvolver(mode="trajectory").convolve(torch.rand(1, 200), rirs)


def main():
    out = os.fdopen(int(os.environ.pop("SIM_OUT_FD")), "w")
    mem = 24 << 30
    resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    warm()
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from sim import engine
    base = os.environ["SIM_SCRATCH"]
    os.makedirs(base, exist_ok=True)
    ctx = engine.Ctx(base)
    gc.collect()
    gc.freeze()
    hs = os.environ.get("PYTHONHASHSEED")
    print(json.dumps({"ready": True, "hashseed": hs}), file=out, flush=True)
    for line in sys.stdin:
        job = json.loads(line)
        t0 = time.monotonic()
        try:
            res = handle(engine, job, ctx)
        except Exception:
            res = {"error": traceback.format_exc()[-3000:]}
        res["job"] = job["id"]
        res["wall"] = time.monotonic() - t0
        print(json.dumps(res), file=out, flush=True)
    try:
        ctx.clean()
    except OSError:
        pass


def pack(o, trace):
    d = {"digest": o.digest, "sig": o.sig, "violations": o.violations, "stats": o.stats,
         "probes": o.probes, "sim_ns": o.sim_ns, "steps": o.steps, "nontrivial": bool(o.nontrivial),
         "outcome": o.outcome}
    if trace:
        d["trace"] = o.trace
        d["plan"] = o.plan
    return d


def handle(engine, job, ctx):
    prop = engine.load(job["prop"])
    kind = job["kind"]
    if kind == "seeds":
        outs = []
        for i in job["idx"]:
            seed = engine.seed_int(job["vseed"], job["prop"], i)
            t0 = time.monotonic()
            try:
                scn, o = engine.run_seed(prop, seed, ctx, job["tier"])
            except Exception:
                outs.append({"i": i, "error": traceback.format_exc()[-3000:]})
                continue
            d = pack(o, False)
            d["i"] = i
            d["seed"] = seed
            d["wall"] = time.monotonic() - t0
            if o.violations:
                d["scn"] = scn
                d["plan"] = o.plan
            outs.append(d)
            if job.get("deadline") and time.time() > job["deadline"]:
                break
        return {"runs": outs}
    if kind == "plan":
        o = engine.run_plan(prop, job["scn"], job["plan"], ctx)
        return pack(o, True)
    if kind == "seedtrace":
        scn, o = engine.run_seed(prop, job["seed"], ctx, job["tier"])
        d = pack(o, True)
        d["scn"] = scn
        return d
    if kind == "minimise":
        scn, plan, n, ok = engine.minimise(prop, job["scn"], job["plan"], job["cls"], ctx,
                                           job.get("budget", 120), job.get("deadline"))
        o = engine.run_plan(prop, scn, plan, ctx)
        d = pack(o, True)
        d.update(scn=scn, plan=plan, tests=n, reproduced=ok)
        return d
    raise ValueError(kind)


if __name__ == "__main__":
    main()

"""Client programs that render scenes inside simulated nodes."""
from __future__ import annotations

import os
import random

from sim.procworld import describe_exc, mark
from sim.work_build import Faulty, collector


def scene(seed, dim, steps, n_src, n_mic):
    import torch
    r = random.Random(seed)
    size = [round(r.uniform(4, 9), 2) for _ in range(dim)]

    def pts(n):
        return [[round(r.uniform(0.3, s - 0.3), 3) for s in size] for _ in range(n)]
    src, mic = pts(n_src), pts(n_mic)
    st = torch.tensor([pts(n_src) for _ in range(steps)])
    mt = torch.tensor([mic for _ in range(steps)])
    return size, torch.tensor(src), torch.tensor(mic), st, mt


def render(job, out_dir):
    """One rendering call; reports outcome, log, open figures and whether its inputs survived."""
    from pathlib import Path

    import matplotlib.pyplot as plt
    import torch
    from torchrir import viz
    from torchrir.viz import io as vio
    h, lg = collector(True)
    faulty = Faulty(job.get("viz_faults", []))
    faulty.install()
    if job.get("open_fig"):
        plt.figure()
    size, src, mic, st, mt = scene(job["scene"], job["dim"], job["steps"], job["n_src"], job["n_mic"])
    room = torch.tensor(size)
    keep = [x.clone() for x in (room, src, mic, st, mt)]
    figs0 = sorted(plt.get_fignums())
    out = Path(out_dir)
    base = dict(room=room, sources=src, mics=mic, annotate_sources=job.get("annotate", True),
                annotation_lines=job.get("lines"))
    traj = dict(src_traj=st, mic_traj=mt)
    kind = job["kind"]
    mark("render")
    try:
        if kind == "mp4":
            ret = viz.animate_scene_mp4(
                out_path=out / job["name"], plot_2d=not job["threed"], plot_3d=job["threed"], signal_len=800, fs=16000,
                mixture_path=Path(job["mixture"]) if job.get("mixture") else None, mux_audio=job["mux"],
                audio_channels=tuple(job["channels"]), **base, **traj)
            ret = [os.path.basename(ret)]
        elif kind == "gif":
            ret = viz.animate_scene_gif(out_path=out / job["name"], plot_2d=not job["threed"], plot_3d=job["threed"],
                                        signal_len=800, fs=16000, **base, **traj)
            ret = [os.path.basename(ret)]
        elif kind == "render":
            a, b = viz.render_scene_plots(out_dir=out, prefix=job["name"], **base, **(traj if job["moving"] else {}))
            ret = [os.path.basename(p) for p in a + b]
        elif kind == "plots":
            ret = vio.save_scene_plots(out_dir=out, prefix=job["name"], show=False, logger=lg, **base,
                                       **(traj if job["moving"] else {}))
        elif kind == "gifs":
            ret = vio.save_scene_gifs(out_dir=out, prefix=job["name"], signal_len=800, fs=16000, gif_fps=-1, logger=lg,
                                      **base, **traj)
        elif kind == "images":
            ret = vio.save_scene_layout_images(out_dir=out, logger=lg, **base, **(traj if job["moving"] else {}))
        elif kind == "videos":
            ret = vio.save_scene_videos(
                out_dir=out, signal_len=800, fs=16000, logger=lg, save_3d=job["threed"],
                mixture_path=Path(job["mixture"]) if job.get("mixture") else None, mux_audio=job["mux"], **base, **traj)
        else:
            raise AssertionError(kind)
        res = {"ret": ret}
    except BaseException as exc:  # noqa: BLE001
        res = {"exc": describe_exc(exc)}
        exc.__traceback__ = None
    mark("rendered")
    res["log"] = h.recs
    res["figs"] = [figs0, sorted(plt.get_fignums())]
    res["fired"] = faulty.fired
    res["inputs_ok"] = all(torch.equal(a, b) for a, b in zip(keep, (room, src, mic, st, mt)))
    return res

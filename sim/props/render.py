"""Rendering and muxing: C11 (isolation from audio and metadata) and C12 (all-or-nothing mux, no residue)."""
from __future__ import annotations

import copy
import hashlib
import io
import os
import re

from sim import engine
from sim.netmodel import NetModel
from sim.procworld import Stuck, World
from sim.props.builder import (ASSUME, COMPONENTS, MEASURE, BuilderProp, diff, essential, gen_cfg, gen_corpus)

TMP = re.compile(r"_tmp_(audio\.wav|mux\.mp4)$")
EXCS = ["RuntimeError", "ValueError", "OSError", "MemoryError", "TypeError"]


def complete(path):
    """True when a rendered file is a whole PNG, GIF or (fake) MP4."""
    try:
        with open(path, "rb") as f:
            blob = f.read()
    except OSError:
        return False
    if path.endswith(".mp4"):
        return blob.startswith(b"FAKEMP4:") and blob.endswith(b":END")
    from PIL import Image
    try:
        im = Image.open(io.BytesIO(blob))
        for k in range(getattr(im, "n_frames", 1)):
            im.seek(k)
            im.load()
        return True
    except Exception:  # noqa: BLE001
        return False


def gen_viz_faults(rng, p=0.5):
    if rng.random() >= p:
        return []
    name = rng.choice(["savefig", "savefig", "tight_layout", "anim.save"])
    if rng.random() < 0.4:      # while the picture is being drawn
        name = "draw." + rng.choice(["scatter", "plot", "text", "legend", "set_title", "set_xlim", "set_xlabel", "add_subplot",
                                     "__init__"])
        return [[name, rng.choice([1, 1, 1, 2, 3, 5]), rng.choice(EXCS), rng.random() < 0.3]]
    return [[name, rng.choice([1, 1, 2, 2, 3, 4, 6]), rng.choice(EXCS), rng.random() < 0.3]]


def gen_faults(rng):
    r = rng.random()
    f = {"perm": False, "max": rng.choice([1, 1, 2, 3])}
    if r < 0.6:
        f["err"] = rng.choice([0.02, 0.08, 0.3])
    if rng.random() < 0.4:
        f["short"] = rng.choice([0.05, 0.4])
    return f


def gen_net(rng):
    return {"ffmpeg_present": rng.random() < 0.85, "ffmpeg_p": rng.choice([0.0, 0.2, 0.5])}


class Isolated(BuilderProp):
    """C11"""
    META = {
        "level": "exploration", "count": {"quick": 400, "thorough": 16000}, "wall": {"quick": 50, "thorough": 780},
        "chunk": 3, "min_runs": 40,
        "rule": "seeded build configuration with random rendering options; one build without rendering, then builds with "
                "rendering in which the encoder, the files being rendered, the mixture being read for muxing or the plotting "
                "library fail; plus direct calls of the save_scene_* helpers; non-trivial = at least one rendering failure hit",
        "measure": MEASURE, "components": COMPONENTS, "assumptions": ASSUME + [
            "ffmpeg either works, is missing, cannot start, exits with an error (with or without partial output) or closes its pipe"],
        "required_probes": ["build_ok_after_failure", "warned", "saved_checked", "helper_ok_after_failure", "unwritable_target"],
    }
    ONLY = [r"(^|/)room_layout_", r"(^|/)room_layout_", r"mixture\.wav$", r"_tmp_"]

    def gen(self, rng, tier, seed):
        spec = gen_corpus(rng, rng.randrange(1, 3))
        for k in ("missing", "empty"):
            spec.pop(k, None)
        cfg = gen_cfg(rng, spec["units"])
        cfg["n_scenes"] = rng.choice([1, 1, 2])
        cfg["trajectory_steps"] = rng.randrange(1, 4)
        scn = {"spec": spec, "cfg": cfg, "faults": gen_faults(rng), "net": gen_net(rng), "sched": {},
               "phases": [{"keep": True, "nodes": [{"name": "ref", "out": "ref", "opts": {}}]}]}
        only = rng.choice(self.ONLY)
        if only == r"mixture\.wav$":
            scn["faults"] = {"perm": False, "max": 1, "err.read": 0.2, "err.open_r": 0.3}
        scn["faults"]["only"] = only
        kw = {"save_layout_images": rng.random() < 0.6, "save_layout_images_3d": rng.random() < 0.5,
              "save_layout_mp4": rng.random() < 0.7, "save_layout_mp4_3d": rng.random() < 0.4,
              "layout_video_mux_audio": rng.random() < 0.8, "annotate_source_indices": rng.random() < 0.5,
              "layout_video_fps": rng.choice([None, 2.0, 0.0])}
        vf = gen_viz_faults(rng, 0.4)
        nodes = [{"name": "b", "out": "b", "opts": {"kw": kw, "viz_faults": vf, "logger": rng.random() < 0.5}, "cfg": {}}]
        if rng.random() < 0.4:
            nodes.append({"name": "h", "out": "h", "job": "render", "render": gen_job(rng, barrier=True),
                          "where": rng.choice(["exists", "exists", "new", "new", "file", "below_file", "dangling"])})
        scn["phases"].append({"keep": True, "faults": True, "nodes": nodes})
        return scn

    def spawn_other(self, w, n, target, st):
        from sim import work_render
        where = n.get("where", "exists")
        if where == "exists":
            os.makedirs(target, exist_ok=True)
        elif where in ("file", "below_file"):
            with open(target, "wb") as f:
                f.write(b"not a directory")
            target = target if where == "file" else os.path.join(target, "x")
        elif where == "dangling":
            os.symlink(os.path.join(st["run_root"], "nowhere", "x"), target)
        job = dict(n["render"])
        if job.get("mixture"):
            job["mixture"] = w.path(n["name"], os.path.join(st["run_root"], "work", "mix.wav"))
        w.spawn(n["name"], work_render.render, job, w.path(n["name"], target))

    def prepare(self, scn, run_root):
        write_mix(os.path.join(run_root, "work", "mix.wav"), scn["spec"]["seed"], 6)

    def judge(self, st):
        out = st["out"]
        ref, b = st["results"].get("ref"), st["results"].get("b")
        if ref is None or ref.get("crashed"):
            return
        if "h" in st["results"]:
            self.judge_helper(st)
        if b is None or b.get("crashed"):
            return
        node = st["w"].nodes["b"]
        hit = bool(node.faulted or b.get("fired"))
        st["hit"] = st.get("hit") or hit
        if "exc" in ref or "exc" in b:
            if "exc" in b and "exc" not in ref:
                out.violate("rendering-broke-build", f"the build raised {b['exc']['exc']}: {b['exc']['msg']} at "
                                                     f"{b['exc']['frames'][-3:]} (faults {node.faulted}, {b.get('fired')})")
            return
        rs, bs = essential(self.snap(st, "ref")), essential(self.snap(st, "b"))
        if any("unlink" in x for x in node.faulted):     # a temporary sound file could not be removed
            bs = {k: v for k, v in bs.items() if k in rs}
        if rs != bs or b["ret"] != ref["ret"]:
            out.violate("rendering-changed-data", f"faults {node.faulted} {b.get('fired')}: {diff(rs, bs)}")
        if hit:
            out.probe("build_ok_after_failure")
        kw = [n for ph in st["scn"]["phases"] for n in ph["nodes"] if n["name"] == "b"][0]["opts"]["kw"]
        base = os.path.join(st["run_root"], "work", "b")
        lost = []
        want_mux = kw["save_layout_mp4"] and kw["layout_video_mux_audio"] and st["net"].ffmpeg_present
        for i in range(st["scn"]["cfg"]["n_scenes"]):
            d = os.path.join(base, f"scene_{i:04d}")
            groups = []
            if kw["save_layout_images"]:
                groups.append(["room_layout_2d.png"] + (["room_layout_3d.png"] if kw["save_layout_images_3d"] else []))
            if kw["save_layout_mp4"]:
                groups.append(["room_layout_2d.mp4"] + (["room_layout_3d.mp4"] if kw["save_layout_mp4_3d"] else []))
            for g in groups:
                bad = [f for f in g if not complete(os.path.join(d, f))]
                if want_mux and not bad and g[0].endswith("mp4"):
                    for f in g:
                        with open(os.path.join(d, f), "rb") as fh:
                            if b"MUXED" not in fh.read(20):
                                bad.append(f + " (no sound)")
                if bad:
                    lost.append((i, bad))
        warns = [r for r in b["log"] if r[0] in ("WARNING", "ERROR", "CRITICAL")]
        if warns:
            out.probe("warned")
        if len(warns) < len(lost):
            out.violate("rendering-loss-unreported", f"{lost} missing or incomplete but {len(warns)} warnings (faults {node.faulted} "
                                                     f"{b.get('fired')})")
        if lost and not hit and st["net"].ffmpeg_present:
            out.violate("rendering-lost-without-cause", f"{lost} missing without any fault: {warns[:3]}")
        self.check_saved(out, b["log"])

    def check_saved(self, out, log):
        for lev, name, msg in log:
            m = re.match(r"saved: (.*\.(png|mp4|gif))$", msg)
            if m:
                out.probe("saved_checked")
                if not complete(os.path.join(self.run_root, m.group(1))):
                    out.violate("saved-but-incomplete", f"the log says '{msg}' but the file is missing or incomplete")

    def judge_helper(self, st):
        out = st["out"]
        r = st["results"]["h"]
        if r.get("crashed"):
            return
        node = st["w"].nodes["h"]
        job = [n for ph in st["scn"]["phases"] for n in ph["nodes"] if n["name"] == "h"][0]["render"]
        where = [n for ph in st["scn"]["phases"] for n in ph["nodes"] if n["name"] == "h"][0].get("where", "exists")
        if where in ("file", "below_file", "dangling"):
            out.probe("unwritable_target")
        hit = bool(node.faulted or r.get("fired"))
        st["hit"] = st.get("hit") or hit
        if "exc" in r:
            out.violate("rendering-helper-raised", f"{job['kind']} raised {r['exc']['exc']}: {r['exc']['msg']} "
                                                   f"(faults {node.faulted} {r.get('fired')})")
            return
        if hit:
            out.probe("helper_ok_after_failure")
        self.check_saved(out, r["log"])
        if not r["inputs_ok"]:
            out.violate("rendering-changed-data", f"{job['kind']} modified the positions or trajectories passed to it")
        saved = [m[2] for m in r["log"] if m[2].startswith("saved: ")]
        warns = [m for m in r["log"] if m[0] == "WARNING"]
        if not saved and not warns:
            out.violate("rendering-loss-unreported", f"{job['kind']} neither saved anything nor warned")

    def is_nontrivial(self, st):
        return bool(st.get("hit")) or not st["net"].ffmpeg_present


def write_mix(path, seed, ch, n=600):
    import numpy as np
    import soundfile as sf
    x = np.random.default_rng(seed % (1 << 31)).integers(-20000, 20000, size=(n, ch)).astype(np.int16)
    sf.write(path, x, 16000)


def gen_job(rng, barrier=False):
    kind = rng.choice(["plots", "gifs", "images", "videos"] if barrier else
                      ["mp4"] * 9 + ["gif"] * 2 + ["videos", "render", "plots", "gifs", "images"])
    dim = rng.choice([2, 3, 3])
    return {"kind": kind, "scene": rng.randrange(1 << 20), "dim": dim, "steps": rng.randrange(1, 4),
            "n_src": rng.randrange(1, 4), "n_mic": rng.randrange(1, 4), "name": {"mp4": "clip.mp4", "gif": "clip.gif"}.get(kind, "pic"),
            "threed": rng.random() < 0.4, "moving": rng.random() < 0.7, "mux": rng.random() < 0.85,
            "mixture": rng.random() < 0.9, "channels": rng.choice([[0, 1], [0, 1], [1, 0], [3, 2], [9, 0], [-1, 0]]),
            "annotate": rng.random() < 0.6, "lines": rng.choice([None, ["a", "b"]]),
            "viz_faults": gen_viz_faults(rng), "open_fig": rng.random() < 0.2}


class MuxAtomic(BuilderProp):
    """C12"""
    META = {
        "level": "exploration", "count": {"quick": 400, "thorough": 50000}, "wall": {"quick": 50, "thorough": 780},
        "chunk": 6, "min_runs": 80,
        "rule": "seeded scene, mixture and rendering call; reference calls without faults (silent and with sound), then the same "
                "call with encoder, disk, plotting-library faults or a crash, sometimes together with a second rendering call in "
                "the same directory, then a clean repetition; non-trivial = a fault hit the rendering",
        "measure": MEASURE, "components": COMPONENTS, "assumptions": ASSUME + [
            "ffmpeg either works, is missing, cannot start, exits with an error (with or without partial output), closes its pipe, or is cut short by Ctrl-C"],
        "required_probes": ["mux_failed", "mux_ok", "crashed", "raised", "repeated"],
    }

    def gen(self, rng, tier, seed):
        job = gen_job(rng)
        ch = rng.choice([1, 2, 4, 6])
        f = gen_faults(rng)
        if rng.random() < 0.3:
            f["crash"] = rng.choice([0.02, 0.06, 0.2])
        if rng.random() < 0.4:
            f["only"] = rng.choice([r"_tmp_", r"\.mp4$", r"mix\.wav$", r"_tmp_audio"])
            for k in ("err", "crash"):
                if f.get(k):
                    f[k] = max(f[k], 0.15)
        jobs = [job]
        if rng.random() < 0.35:
            other = gen_job(rng)
            if job["kind"] == "mp4" and job["mux"] and rng.random() < 0.6:
                # two sound tracks added at the same time
                other.update(kind="mp4", name="clip.mp4", mux=True, mixture=job["mixture"], viz_faults=[], threed=False)
                if rng.random() < 0.5:
                    f = {"perm": False, "max": 1}
            other["name"] = "other." + other["name"].split(".")[-1] if "." in other["name"] else "other"
            if not (job["kind"] in ("images", "videos") and other["kind"] == job["kind"]):
                jobs.append(other)
        return {"jobs": jobs, "ch": ch, "mseed": rng.randrange(1 << 30), "faults": f, "net": dict(gen_net(rng), interrupts=rng.random() < 0.35),
                "sched": {"p": rng.choice([0.05, 0.3, 0.6])}, "again": rng.random() < 0.5, "before": rng.random() < 0.2}

    def run(self, scn, decider, ctx):
        from sim import work_render
        out = engine.RunOut()
        run_root = self.run_root = ctx.fresh()
        work = os.path.join(run_root, "work")
        os.makedirs(work)
        mix = os.path.join(work, "mix.wav")
        write_mix(mix, scn["mseed"], scn["ch"])
        with open(mix, "rb") as f:
            mix0 = f.read()
        net = NetModel(decider, {}, **scn["net"])
        w = World(run_root, decider, faults=scn["faults"], sched=scn["sched"], net=net, max_steps=40000, seed=scn["mseed"],
                  cpu_limit=60, machines=scn.get("machines"))
        silent_done = set()

        def spawn(name, job, d):
            os.makedirs(d, exist_ok=True)
            job = dict(job, mixture=w.path(name, mix) if job["mixture"] else None)
            w.spawn(name, work_render.render, job, w.path(name, d))

        def hook(kind, node, text):
            if text.startswith("ffmpeg-done:"):
                _, rc, n_in, path = text.split(":", 3)
                if rc == "0" and n_in == "1":
                    silent_done.add((node.name, os.path.basename(path)))
        w.hook = hook
        crashed_any = False
        try:
            w.faults_on = net.faults_on = False
            present = net.ffmpeg_present
            net.ffmpeg_present = True
            ref = []
            for i, job in enumerate(scn["jobs"]):
                a, b = os.path.join(work, f"silent{i}"), os.path.join(work, f"full{i}")
                video = self.wants_sound(job)
                if video:
                    spawn(f"silent{i}", dict(job, viz_faults=[], mux=False), a)
                spawn(f"full{i}", dict(job, viz_faults=[]), b)
                w.run()
                full = read_dir(b)
                ref.append((read_dir(a) if video else full, full))
                for nm, j in ((f"silent{i}", dict(job, mux=False)), (f"full{i}", job)):
                    if nm not in w.nodes:
                        continue
                    r = self.result_of({"out": out}, w.nodes[nm])
                    if "exc" in r:
                        out.violate("rendering-failed", f"{job['kind']} without faults raised {r['exc']['exc']}: {r['exc']['msg']}")
                    else:
                        self.residue(out, nm, j, r, w.nodes[nm])
                        self.expect_mux(out, scn, j, ref[i][0], ref[i][1] if nm.startswith("full") else None, r)
            net.ffmpeg_present = present
            dest = os.path.join(work, "dest")
            os.makedirs(dest)
            if scn["before"]:
                for i, job in enumerate(scn["jobs"]):
                    for k, v in ref[i][1].items():
                        with open(os.path.join(dest, k), "wb") as f:
                            f.write(v)
            rounds = [(True, "t")] + ([(False, "again")] if scn["again"] else [])
            for faulty, tag in rounds:
                w.faults_on = net.faults_on = faulty
                if not faulty:
                    w.full = None
                w.current = None
                names = []
                for i, job in enumerate(scn["jobs"]):
                    j = job if faulty else dict(job, viz_faults=[])
                    spawn(f"{tag}{i}", j, dest)
                    names.append((f"{tag}{i}", i, j))
                w.run()
                have = read_dir(dest)
                if not os.path.isfile(mix) or open(mix, "rb").read() != mix0:
                    out.violate("mixture-altered", f"{[j['kind'] for j in scn['jobs']]} changed the mixture file")
                    with open(mix, "wb") as f:
                        f.write(mix0)
                expected = set()
                for i in range(len(scn["jobs"])):
                    expected |= set(ref[i][1])
                for nm, i, j in names:
                    node = w.nodes[nm]
                    r = self.result_of({"out": out}, node)
                    if r.get("crashed"):
                        crashed_any = True
                        out.probe("crashed")
                    else:
                        if "exc" in r:
                            out.probe("raised")
                            if not node.faulted and not r.get("fired") and present:
                                out.violate("rendering-failed", f"{nm} {j['kind']} raised without a fault: {r['exc']['exc']}: "
                                                                f"{r['exc']['msg']}")
                        self.residue(out, nm, j, r, node)
                    self.video(out, scn, nm, i, j, r, node, ref[i], have, silent_done)
                    if tag == "again":
                        out.probe("repeated")
                        if present and not r.get("crashed") and "exc" not in r:
                            bad = [k for k in ref[i][1] if have.get(k) != ref[i][1][k]]
                            if bad:
                                out.violate("repetition-differs", f"{j['kind']} repeated without faults left {bad} different from "
                                                                  f"a first rendering")
                # leftovers
                extra = sorted(set(have) - expected)
                dead = [nm for nm, _, _ in names if w.nodes[nm].crashed]
                unl = [nm for nm, _, _ in names if any("unlink" in x for x in w.nodes[nm].faulted)]
                if extra and not dead and not unl and not (crashed_any and not present):
                    tmp = [k for k in extra if TMP.search(k)]
                    out.violate("temporary-files-left", f"{[(nm, j['kind'], w.nodes[nm].faulted) for nm, _, j in names]} left {extra}"
                                if tmp or extra else "")
        except Stuck as exc:
            out.violate("no-progress", str(exc))
        for e in w.escapes:
            out.violate("outside-mutation", f"{e}")
        out.digest = w.digest()
        out.sig = w.sched_sig.hexdigest()[:16] if w.switches > 1 else out.digest
        out.trace = w.trace
        out.sim_ns = w.now
        out.steps = w.steps
        out.add_stats(w.stats)
        out.nontrivial = any(k.startswith("fault.") for k in w.stats) or any(j["viz_faults"] for j in scn["jobs"]) or not present
        return out

    def residue(self, out, nm, job, r, node):
        if "figs" not in r:
            return
        if r["figs"][0] != r["figs"][1]:
            out.violate("figure-left-open", f"{job['kind']} ({'raised' if 'exc' in r else 'returned'}, faults {node.faulted} "
                                            f"{r.get('fired')}) went from figures {r['figs'][0]} to {r['figs'][1]}")
        if not r.get("inputs_ok", True):
            out.violate("inputs-altered", f"{job['kind']} modified the positions or trajectories passed to it")

    def wants_sound(self, job):
        return job["kind"] in ("mp4", "videos") and job["mux"] and job["mixture"]

    def expect_mux(self, out, scn, job, silent, full, r):
        """The sound track holds exactly the requested channels of the mixture."""
        if full is None or not self.wants_sound(job):
            return
        import numpy as np
        import soundfile as sf
        x = np.random.default_rng(scn["mseed"] % (1 << 31)).integers(-20000, 20000, size=(600, scn["ch"])).astype(np.int16)
        ch = job["channels"] if job["kind"] == "mp4" else [0, 1]
        if scn["ch"] == 1:
            st = np.repeat(x[:, :1], 2, axis=1)
        elif min(ch) < 0 or max(ch) >= scn["ch"]:
            st = x[:, :2]
        else:
            st = x[:, ch]
        b = io.BytesIO()
        sf.write(b, st, 16000, format="WAV", subtype="PCM_16")
        for k, v in full.items():
            if not k.endswith(".mp4") or k not in silent:
                continue
            h = hashlib.sha256(hashlib.sha256(silent[k]).digest())
            h.update(hashlib.sha256(b.getvalue()).digest())
            if b"MUXED:" + h.hexdigest().encode() not in v:
                out.violate("wrong-sound", f"{job['kind']} {k}: the encoder was not given the silent video and channels {ch} of the "
                                           f"{scn['ch']}-channel mixture")

    def video(self, out, scn, nm, i, job, r, node, ref, have, silent_done):
        if job["kind"] not in ("mp4", "videos") or job["viz_faults"]:
            return
        silent, full = ref
        for k in full:
            if not k.endswith(".mp4"):
                continue
            if (nm, k) not in silent_done:
                continue
            v = have.get(k)
            state = "muxed" if v == full[k] and full[k] != silent[k] else "silent" if v == silent[k] else "missing" if v is None else "damaged"
            if state in ("missing", "damaged"):
                out.violate("video-lost", f"{nm}: {k} was rendered, but after adding sound ({'crash' if r.get('crashed') else 'return'}, "
                                          f"faults {node.faulted}) it is {state}")
            elif self.wants_sound(job):
                out.probe("mux_ok" if state == "muxed" else "mux_failed")
                if state == "silent" and not r.get("crashed") and not node.faulted and not r.get("fired") and scn["net"]["ffmpeg_present"]:
                    out.violate("sound-missing", f"{nm}: {k} has no sound although nothing failed")
                if state == "silent" and not r.get("crashed") and "exc" not in r and not any(m[0] == "WARNING" for m in r["log"]):
                    out.violate("sound-loss-unreported", f"{nm}: {k} has no sound and nothing was logged (faults {node.faulted})")
            elif state == "muxed" and not self.wants_sound(job):
                out.violate("video-lost", f"{nm}: {k} got sound nobody asked for")

    def machine_names(self, scn):
        return ["*"]

    def shrinks(self, scn):
        yield from engine.shrink_machines(scn)
        if len(scn["jobs"]) > 1:
            for i in range(len(scn["jobs"])):
                c = copy.deepcopy(scn)
                del c["jobs"][i]
                yield c
        for k in ("again", "before"):
            if scn[k]:
                c = copy.deepcopy(scn)
                c[k] = False
                yield c
        for i, j in enumerate(scn["jobs"]):
            for k, v in (("steps", 1), ("n_src", 1), ("n_mic", 1), ("open_fig", False), ("viz_faults", []), ("lines", None),
                         ("annotate", False), ("threed", False)):
                if j[k] != v:
                    c = copy.deepcopy(scn)
                    c["jobs"][i][k] = v
                    yield c


def read_dir(d):
    res = {}
    for n in sorted(os.listdir(d)):
        with open(os.path.join(d, n), "rb") as f:
            res[n] = f.read()
    return res

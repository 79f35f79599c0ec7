"""Runs one seeded simulation of one property and minimises failures."""
from __future__ import annotations

import hashlib
import importlib
import json
import os
import random
import shutil
import time

PROPS = {}


def load(prop_id):
    if prop_id not in PROPS:
        from sim.props import REGISTRY
        modname, cls = REGISTRY[prop_id]
        mod = importlib.import_module("sim.props." + modname)
        PROPS[prop_id] = getattr(mod, cls)(prop_id)
    return PROPS[prop_id]


class RunOut:
    def __init__(self):
        self.violations = []
        self.stats = {}
        self.digest = ""
        self.sig = ""
        self.trace = []
        self.sim_ns = 0
        self.steps = 0
        self.nontrivial = False
        self.plan = {}
        self.used = []
        self.probes = {}
        self.outcome = None

    def violate(self, cls, detail):
        self.violations.append({"cls": cls, "detail": str(detail)[:1500]})

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def add_stats(self, st):
        for k, v in st.items():
            self.stats[k] = self.stats.get(k, 0) + v


class Ctx:
    def __init__(self, base):
        self.base = base
        self.n = 0

    def fresh(self):
        root = os.path.join(self.base, "run")
        if os.path.lexists(root):
            _force_rmtree(root)
        os.makedirs(root)
        os.makedirs(os.path.join(root, "tmp"))
        return root

    def clean(self):
        root = os.path.join(self.base, "run")
        if os.path.lexists(root):
            _force_rmtree(root)


def _force_rmtree(path):
    for dp, dns, _ in os.walk(path):
        for d in dns:
            p = os.path.join(dp, d)
            if not os.path.islink(p):
                try:
                    os.chmod(p, 0o755)
                except OSError:
                    pass
    shutil.rmtree(path)


GROUP = 24


def seed_int(verif_seed, prop_id, i):
    """The seed of run i.  Its upper half is common to GROUP successive runs, which
    lets a property generate them around one set of objects."""
    h = hashlib.sha256(f"{verif_seed}:{prop_id}:{i}".encode()).digest()
    g = hashlib.sha256(f"{verif_seed}:{prop_id}:group{i // GROUP}".encode()).digest()
    return int.from_bytes(h[:4] + g[:4], "little")


SPELLINGS = ["abs", "abs", "abs", "rel", "dots", "link"]


def gen_machines(rng, names, spellings):
    """What differs between the machines (or shells) the nodes run on: the locale
    that decides the default text encoding, the umask, and how the user spells
    the same directory."""
    out = {}
    if rng.random() < 0.5:
        return out
    for n in names:
        m = {}
        if rng.random() < 0.35:
            m["locale"] = "C"
        if rng.random() < 0.25:
            m["umask"] = rng.choice([0o077, 0o002, 0])
        s = rng.choice(spellings)
        if s != "abs":
            m["path"] = s
        if m:
            out[n] = m
    return out


def shrink_machines(scn):
    for n, m in scn.get("machines", {}).items():
        c = json.loads(json.dumps(scn))
        del c["machines"][n]
        yield c
        for k in m:
            if len(m) > 1:
                c = json.loads(json.dumps(scn))
                del c["machines"][n][k]
                yield c


def run_seed(prop, seed, ctx, tier):
    from sim.procworld import Decider
    rng = random.Random(seed)
    scn = prop.gen(rng, tier, seed)
    names = getattr(prop, "machine_names", None)
    if names is not None:
        m = gen_machines(random.Random(seed ^ 0x3A7C15), names(scn), getattr(prop, "spellings", SPELLINGS))
        if m:
            scn["machines"] = m
    d = Decider(rng=random.Random(seed ^ 0x5DEECE66D))
    out = prop.run(scn, d, ctx)
    out.plan = d.plan
    out.used = d.used
    return scn, out


def run_plan(prop, scn, plan, ctx):
    from sim.procworld import Decider
    d = Decider(plan=plan)
    out = prop.run(json.loads(json.dumps(scn)), d, ctx)
    out.plan = d.plan
    out.used = d.used
    return out


def same_class(out, cls):
    return any(v["cls"] == cls for v in out.violations)


def minimise(prop, scn, plan, cls, ctx, budget=160, deadline=None):
    """Greedy delta debugging over decisions and scenario; returns (scn, plan, n)."""
    n = 0

    def test(s, p):
        nonlocal n
        if n >= budget or (deadline is not None and n > 0 and time.time() > deadline):
            n = budget
            return None
        n += 1
        try:
            o = run_plan(prop, s, p, ctx)
        except Exception:
            return None
        return o if same_class(o, cls) else None

    o = test(scn, plan)
    if o is None:
        return scn, plan, n, False
    plan = {k: v for k, v in plan.items() if k in set(o.used)}
    progress = True
    while progress and n < budget:
        progress = False
        # decisions: try dropping halves, then singles
        keys = list(plan)
        size = max(1, len(keys) // 2)
        while size >= 1 and n < budget:
            i = 0
            while i < len(keys) and n < budget:
                drop = set(keys[i:i + size])
                cand = {k: v for k, v in plan.items() if k not in drop}
                o = test(scn, cand) if drop else None
                if o is not None:
                    plan = {k: v for k, v in cand.items()}
                    keys = list(plan)
                    progress = True
                else:
                    i += size
            if size == 1:
                break
            size //= 2
        for cand in prop.shrinks(scn):
            if n >= budget:
                break
            o = test(cand, plan)
            if o is not None:
                scn = cand
                used = set(o.used)
                plan = {k: v for k, v in plan.items() if k in used}
                progress = True
                break
    return scn, plan, n, True

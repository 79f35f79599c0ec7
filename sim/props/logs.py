"""Logging set-up under threads."""
from __future__ import annotations

import hashlib
import json
import random

from sim import threadworld as tw
from sim.engine import RunOut
from sim.props.threads import gen_policy, merge

NAMES = ["torchrir", "torchrir.examples", "torchrir.examples.deep", "other"]
LEVELS = ["DEBUG", "INFO", "WARNING", "ERROR", "info", 10, 15, 30, "CRITICAL"]
NUM = {"DEBUG": 10, "INFO": 20, "WARNING": 30, "ERROR": 40, "CRITICAL": 50}


def num(x):
    return x if isinstance(x, int) else NUM[x.upper()]


class Out:
    """A stderr that keeps the lines."""

    def __init__(self):
        self.parts = []

    def write(self, s):
        self.parts.append(s)

    def flush(self):
        pass

    def take(self):
        s = "".join(self.parts)
        self.parts = []
        return [x for x in s.split("\n") if x]


def child(scn, d):
    import logging
    import sys
    import torchrir.logging as tl
    logging._lock = tw.SimLock(True)
    logging.raiseExceptions = True
    sys.stderr = out = Out()
    pre = scn.get("pre")
    own = None
    if pre:
        # the application already put its own handler on a logger
        own = Out()
        h = logging.StreamHandler(own)
        h.setFormatter(logging.Formatter("own:%(message)s"))
        logging.getLogger(pre).addHandler(h)
    s = tw.Sched(d, scn["policy"])
    log = []
    progs = scn["threads"]

    def one(ti, oi, op):
        k = op["k"]
        if k == "setup":
            cfg = tl.LoggingConfig(level=op["level"], propagate=op["prop"], **({"format": op["fmt"]} if op.get("fmt") else {}))
            kw = {} if op["name"] is None else {"name": op["name"]}
            return tl.setup_logging(cfg, **kw).name
        if k == "get":
            return tl.get_logger(op["name"]).name
        if k == "replace":
            c = tl.LoggingConfig(level=op["level"])
            c2 = c.replace(propagate=True)
            return [c.propagate, c2.propagate, c2.resolve_level()]
        lg = tl.get_logger(op["name"])
        lg.log(50, f"m{ti}.{oi}")
        return lg.name

    def body(ti):
        def f(t):
            for oi, op in enumerate(progs[ti]):
                log.append([ti, oi, "call"])
                try:
                    s.arm()
                    r = one(ti, oi, op)
                except Exception as exc:  # noqa: BLE001
                    r = f"{type(exc).__name__}: {exc}"
                log.append([ti, oi, "return", r])
        return f

    s.run([body(i) for i in range(len(progs))])
    lines = out.take()
    ownlines = own.take() if own else []
    final = {}
    for name in NAMES:
        if name not in logging.Logger.manager.loggerDict:
            continue
        lg = logging.getLogger(name)
        final[name] = {"level": lg.level, "prop": lg.propagate, "handlers": [type(h).__name__ for h in lg.handlers],
                       "probe": {}}
    root = logging.getLogger()
    rootstate = [root.level, len(root.handlers)]
    for name in list(final):
        lg = logging.getLogger(name)
        for lv in (10, 15, 20, 30, 40, 50):
            lg.log(lv, f"probe{lv}")
            got = out.take()
            o = own.take() if own else []
            final[name]["probe"][str(lv)] = [len(got), got[:3], len(o)]
    rep = s.report()
    rep.update(log=log, lines=lines, own=ownlines, final=final, root=rootstate)
    return rep


def chain(name, conf, prop):
    """Configured loggers a record of `name` passes, given propagation flags."""
    out, n = [], name
    while n:
        if n in conf:
            out.append(n)
        if not prop.get(n, True):
            break
        n = n.rpartition(".")[0]
    return out


class SetupRace:
    META = {
        "level": "exploration", "count": {"quick": 6000, "thorough": 300000}, "wall": {"quick": 40, "thorough": 780},
        "chunk": 20, "min_runs": 100, "world": "thread",
        "rule": "a run is nontrivial when at least two set-up calls ran; runs with the same schedule and results count once",
        "measure": "distinct sequences of thread switches (from thread, source line, to thread)",
        "components": {"real": ["torchrir.logging", "the standard logging module", "CPython threads"],
                       "simulated": ["thread scheduler (switches at source lines or bytecodes of the library and of the "
                                     "logging module)", "locks created by the library, the logging module's lock"],
                       "stub": ["standard error (captured)"]},
        "assumptions": ["threads interleave at source lines or bytecodes of torchrir/logging.py"],
        "required_probes": ["setup", "get", "emit", "setup_raises", "raced", "repeat"],
    }

    def __init__(self, pid):
        self.pid = pid

    def gen(self, rng, tier, seed):
        n = rng.choice([1, 2, 2, 3, 4])
        names = ["torchrir"] if rng.random() < 0.5 else rng.sample(NAMES, rng.choice([1, 2, 3]))
        threads = []
        for _ in range(n):
            prog = []
            for _ in range(rng.choice([1, 2, 3])):
                q = rng.random()
                nm = rng.choice(names)
                if q < 0.6:
                    op = {"k": "setup", "name": None if nm == "torchrir" and rng.random() < 0.5 else nm,
                          "level": rng.choice(LEVELS), "prop": rng.random() < 0.4}
                    if rng.random() < 0.08:
                        op["level"] = rng.choice(["LOUD", ""])
                    if rng.random() < 0.15:
                        op["fmt"] = "%(name)s|%(message)s"
                elif q < 0.75:
                    op = {"k": "get", "name": rng.choice([None, "", nm, "examples", "examples.deep", "torchrir.examples"])}
                elif q < 0.8:
                    op = {"k": "replace", "level": rng.choice(LEVELS)}
                else:
                    op = {"k": "emit", "name": nm if nm != "other" else "torchrir"}
                prog.append(op)
            threads.append(prog)
        return {"threads": threads, "policy": gen_policy(rng, n),
                "pre": rng.choice(names) if rng.random() < 0.12 else None}

    def run(self, scn, d, ctx):
        out = RunOut()
        c = tw.child_decider(d, "")
        rep = tw.forked(child, scn, c)
        merge(out, rep, d)
        self.judge(scn, rep, out)
        h = hashlib.sha256(rep["digest"].encode())
        h.update(json.dumps([rep["log"], rep["final"], rep["lines"], rep["own"]], sort_keys=True).encode())
        out.digest = h.hexdigest()[:24]
        out.sig = rep["digest"]
        out.nontrivial = sum(1 for p in scn["threads"] for o in p if o["k"] == "setup") > 1
        return out

    def judge(self, scn, rep, out):
        if rep["deadlock"]:
            out.violate("deadlock", str(rep["trace"][-4:]))
            return
        if rep["stalled"]:
            out.probe("stalled")
            return
        calls, pos = {}, 0
        for e in rep["log"]:
            k = (e[0], e[1])
            if e[2] == "call":
                calls[k] = {"start": pos, "op": scn["threads"][e[0]][e[1]]}
            else:
                calls[k].update(end=pos, ret=e[3])
            pos += 1
        setups = {}
        for k, c in calls.items():
            op = c["op"]
            out.probe(op["k"])
            nm = op.get("name") or "torchrir"
            if op["k"] == "setup":
                bad = op["level"] in ("LOUD", "")
                if bad != (str(c["ret"]) != nm):
                    out.violate("wrong-return", f"{op} returned {c['ret']}")
                if bad:
                    out.probe("setup_raises")
                    if not str(c["ret"]).startswith("ValueError"):
                        out.violate("wrong-return", f"{op} returned {c['ret']}")
                    continue
                setups.setdefault(nm, []).append((k, c))
            elif op["k"] in ("get", "emit"):
                want = nm if nm.startswith("torchrir") else "torchrir." + nm
                if c["ret"] != want:
                    out.violate("wrong-return", f"{op} returned {c['ret']}")
            elif op["k"] == "replace":
                if c["ret"] != [False, True, num(op["level"])]:
                    out.violate("wrong-return", f"{op} returned {c['ret']}")
        pre = scn.get("pre")
        for nm, lst in setups.items():
            f = rep["final"][nm]
            if len(lst) > 1:
                out.probe("repeat")
            last = [c for _, c in lst if not any(c2["start"] > c["end"] for _, c2 in lst)]
            if len(last) > 1:
                out.probe("raced")
            want = {(num(c["op"]["level"]), c["op"]["prop"]) for c in last}
            if (f["level"], f["prop"]) not in want:
                out.violate("mixed-state", f"logger {nm} ended with level {f['level']} propagate {f['prop']}; the last set-up "
                            f"calls asked for {sorted(want)}")
            # (an application's own handler on this logger may stand in for ours)
            if len(f["handlers"]) != 1 and not (nm == pre and len(f["handlers"]) == 2):
                out.violate("handlers", f"logger {nm} has handlers {f['handlers']}")
        for nm, f in rep["final"].items():
            if nm not in setups and (f["level"] != 0 or not f["prop"] or len(f["handlers"]) != (nm == pre)):
                out.violate("changed", f"logger {nm} was never set up but is now {f}")
        if rep["root"] != [30, 0]:
            out.violate("changed", f"the root logger is now {rep['root']}")
        # probes: exactly once per configured logger on the way up, when enabled
        prop = {nm: f["prop"] for nm, f in rep["final"].items()}
        for nm, f in rep["final"].items():
            way = chain(nm, set(setups) | ({pre} if pre else set()), prop)
            if not any(w in setups for w in way):
                continue
            eff, n = 0, nm
            while n and not eff:
                eff = rep["final"].get(n, {}).get("level", 0)
                n = n.rpartition(".")[0]
            eff = eff or 30
            for lv in (10, 15, 20, 30, 40, 50):
                got, texts, own = f["probe"][str(lv)]
                if lv < eff:
                    if got or own:
                        out.violate("level", f"a level-{lv} message of {nm} (effective level {eff}) was emitted")
                    continue
                # handlers of the loggers above have their own level
                want = sum(1 for w in way if w in setups and (w == nm or lv >= rep["final"][w]["level"]) and w != pre)
                if pre in way and nm != pre:
                    continue
                if nm == pre:
                    if own != 1:
                        out.violate("count", f"the application's handler of {nm} got a message {own} times")
                    continue
                free = [w for w in way if w in setups and w != nm and lv < rep["final"][w]["level"]]
                if not want <= got <= want + len(free):
                    out.violate("count", f"a level-{lv} message of {nm} (level {eff}) appeared {got} times, expected {want}: "
                                f"{texts}")
        # messages sent during the run, after the thread's own set-up of that logger
        for k, c in calls.items():
            if c["op"]["k"] != "emit":
                continue
            nm = c["ret"]
            text = f"m{k[0]}.{k[1]}"
            got = sum(1 for x in rep["lines"] if x.endswith(text))
            on = [w for w in chain(nm, set(setups), {}) if w != pre]
            mine = any(k2[0] == k[0] and c2["end"] < c["start"] for k2, c2 in setups.get(nm, []))
            if pre is None and got > max(1, len(on)):
                out.violate("duplicate", f"message {text} on {nm} appeared {got} times")
            if pre is None and mine and got < 1:
                out.violate("lost", f"message {text} on {nm} did not appear after the logger was set up")

    def shrinks(self, scn):
        for i in range(len(scn["threads"])):
            if scn["threads"][i]:
                s = json.loads(json.dumps(scn))
                s["threads"][i] = []
                yield s
        for i, p in enumerate(scn["threads"]):
            for j in range(len(p)):
                s = json.loads(json.dumps(scn))
                del s["threads"][i][j]
                yield s
        if scn.get("pre"):
            yield dict(scn, pre=None)
        for i, p in enumerate(scn["threads"]):
            for j, o in enumerate(p):
                if o.get("prop"):
                    s = json.loads(json.dumps(scn))
                    s["threads"][i][j]["prop"] = False
                    yield s

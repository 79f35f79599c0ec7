"""Thread world: one process whose threads run one at a time under a seeded
scheduler.

Every line (or bytecode) of the library's own source executed by a simulated
thread is a scheduling point: `sys.settrace` hands control to the scheduler,
which decides whether the thread goes on or another one runs.  Locks the
library creates are replaced by locks the scheduler knows (`patch_locks`, before
the library is imported), so a blocked thread never blocks the simulation and a
deadlock is seen as such.  Aborts (interrupts, failed allocations, failing
library operations) are raised at a chosen scheduling point or library call.

Each run happens in a process forked from the warm worker, so the library's
process state is that of a fresh process.
"""
from __future__ import annotations

import _thread
import gc
import hashlib
import linecache
import os
import pickle
import random
import re
import resource
import select
import signal
import sys
import threading
import time
import traceback
import zlib

SRC = None
_SCHED = None


# ---------------------------------------------------------------------------
# locks
# ---------------------------------------------------------------------------
class SimLock:
    """Lock / RLock whose waiting is visible to the scheduler."""

    def __init__(self, reentrant=False):
        self.reentrant = reentrant
        self.real = _thread.RLock() if reentrant else _thread.allocate_lock()
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        s = _SCHED
        me = s.me() if s is not None else None
        if me is None:
            return self.real.acquire(blocking, timeout)
        s.point(None, "lock")
        while True:
            if self.owner is None or (self.reentrant and self.owner == me.idx):
                self.owner = me.idx
                self.count += 1
                return True
            if not blocking or (timeout is not None and 0 <= timeout):
                return False
            s.block(me, self)

    def release(self):
        s = _SCHED
        me = s.me() if s is not None else None
        if me is None:
            if self.owner is not None:
                self.owner = None
                self.count = 0
                return
            return self.real.release()
        if self.owner is None or (self.reentrant and self.owner != me.idx):
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None
            s.wake(self)

    def locked(self):
        return self.owner is not None or (not self.reentrant and self.real.locked())

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        s = _SCHED
        me = s.me() if s is not None else None
        return self.owner is not None and (me is None or self.owner == me.idx)


def _from_library():
    f = sys._getframe(2)
    for _ in range(3):
        if f is None:
            return False
        if str(f.f_globals.get("__name__", "")).split(".")[0] == "torchrir":
            return True
        f = f.f_back
    return False


def patch_locks():
    """Give the library simulated locks; everybody else keeps real ones."""
    import functools
    lock, rlock = threading.Lock, threading.RLock

    def Lock():
        return SimLock() if _from_library() else lock()

    def RLock(*a, **k):
        return SimLock(True) if _from_library() else rlock(*a, **k)

    threading.Lock = Lock
    threading.RLock = RLock
    functools.RLock = RLock


def patch_flock():
    """File locks wait in the scheduler (called inside a simulated process)."""
    import fcntl
    real = fcntl.flock

    def flock(fd, op):
        s = _SCHED
        me = s.me() if s is not None else None
        if me is None or s.free or op & fcntl.LOCK_NB or not op & (fcntl.LOCK_EX | fcntl.LOCK_SH):
            return real(fd, op)
        while True:
            try:
                return real(fd, op | fcntl.LOCK_NB)
            except BlockingIOError:
                s.spin(me, "flock")

    fcntl.flock = flock


# ---------------------------------------------------------------------------
# abort points: instructions that can raise, except the release of something
# ---------------------------------------------------------------------------
_RAISING = {"CALL", "CALL_FUNCTION_EX", "BINARY_OP", "BINARY_SUBSCR", "STORE_SUBSCR", "COMPARE_OP", "FOR_ITER",
            "IMPORT_NAME", "UNARY_NEGATIVE", "GET_ITER"}
_CLEANUP = re.compile(r"\.(release|close|unlink|rmtree|remove|restore|discard|pop|clear|__exit__|shutdown|cleanup)\w*\(")
_POINTS = {}


def abort_points(co):
    import dis
    pts = set()
    ins = list(dis.get_instructions(co))
    line = None
    for i, x in enumerate(ins):
        if x.starts_line is not None:
            line = x.starts_line
        if x.opname not in _RAISING:
            continue
        if line is not None and _CLEANUP.search(linecache.getline(co.co_filename, line)):
            continue
        if x.opname == "CALL":
            j = i - 1
            if j >= 0 and ins[j].opname == "PRECALL":
                j -= 1
            if j >= 2 and all(q.opname == "LOAD_CONST" and q.argval is None for q in ins[j - 2:j + 1]):
                continue        # leaving a with block
        pts.add(x.offset)
    return pts


def can_raise(frame):
    p = _POINTS.get(frame.f_code)
    if p is None:
        p = _POINTS[frame.f_code] = abort_points(frame.f_code)
    return frame.f_lasti in p


def count_points(fn):
    """Abort points fn() passes in library code: how many, and where each
    distinct instruction comes first."""
    n = [0]
    first = {}

    def lt(frame, event, arg):
        if event == "opcode" and can_raise(frame):
            n[0] += 1
            first.setdefault((frame.f_code, frame.f_lasti), n[0])
        return lt

    def gt(frame, event, arg):
        if not frame.f_code.co_filename.startswith(SRC):
            return None
        frame.f_trace_opcodes = True
        return lt

    sys.settrace(gt)
    try:
        fn()
    finally:
        sys.settrace(None)
    return n[0], list(first.values()), [k for (co, _), k in first.items() if keeps_state(co)]


_STATEFUL = {}


def keeps_state(co):
    """Whether a function may leave something behind in its module (a bias of the
    search only)."""
    r = _STATEFUL.get(co)
    if r is None:
        import dis
        ops = [i.opname for i in dis.get_instructions(co)]
        r = _STATEFUL[co] = "STORE_GLOBAL" in ops or ("STORE_SUBSCR" in ops and "LOAD_GLOBAL" in ops) or "STORE_ATTR" in ops
    return r


# ---------------------------------------------------------------------------
# scheduler
# ---------------------------------------------------------------------------
class SimDeadlock(BaseException):
    pass


class T:
    def __init__(self, idx, body):
        self.idx = idx
        self.body = body
        self.go = _thread.allocate_lock()
        self.go.acquire()
        self.state = "ready"
        self.steps = 0
        self.waiting = None
        self.abort = None       # (countdown, exception factory)
        self.aborted = None


class Sched:
    """policy: {"p": float, "hot": int, "php": float, "op": bool}"""

    def __init__(self, d, policy, limit=400000):
        self.d = d
        self.policy = policy
        self.ts = []
        self.by_ident = {}
        self.cur = None
        self.steps = 0
        self.switches = 0
        self.trace = []
        self.hash = hashlib.sha256()
        self.deadlock = False
        self.free = False
        self.limit = limit
        self.done = threading.Event()
        self.codes = {}
        self.hot = {}
        self.plan = d.plan
        self.replay = d.rng is None
        self.maxsw = policy.get("max", 4000)
        self.p = policy.get("p", 0.0)
        self.php = policy.get("php", self.p)
        self.aborts = []
        self.extra = policy.get("extra")    # also schedule inside this library file

    def me(self):
        return self.by_ident.get(_thread.get_ident())

    # -- scheduling --------------------------------------------------------------
    def others(self, me):
        return [t for t in self.ts if t is not me and t.state == "ready"]

    def point(self, frame, what=None):
        me = self.by_ident.get(_thread.get_ident())
        if me is None or self.free:
            return
        self.steps += 1
        me.steps += 1
        if self.steps > self.limit:
            self.free = True
            return
        key = f"t{me.idx}:{me.steps}"
        if self.replay:
            to = self.plan.get(key)
            if to is None:
                return
            self.d.used.append(key)
        else:
            if self.switches >= self.maxsw:
                return
            p = self.p
            if frame is not None:
                h = self.hot.get(frame.f_code)
                if h is None:
                    name = frame.f_code.co_name + os.path.basename(frame.f_code.co_filename)
                    h = zlib.crc32(f"{self.policy.get('hot', 0)}{name}".encode()) % 6 == 0
                    self.hot[frame.f_code] = h
                if h:
                    p = self.php
            r = self.d.rng
            if r.random() >= p:
                return
            ready = self.others(me)
            if not ready:
                return
            to = r.choice(ready).idx
            self.plan[key] = to
            self.d.used.append(key)
        ready = [t for t in self.others(me) if t.idx == to]
        if not ready:
            return
        where = what or f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_code.co_name}:{frame.f_lineno}"
        self.note(me, where, ready[0])
        self.switch(me, ready[0])

    def note(self, me, where, to):
        self.switches += 1
        self.hash.update(f"{me.idx}@{where}>{to.idx};".encode())
        if len(self.trace) < 3000:
            self.trace.append([f"t{me.idx}", me.steps, where, f"t{to.idx}"])

    def switch(self, me, to):
        self.cur = to
        to.go.release()
        me.go.acquire()
        if self.deadlock:
            raise SimDeadlock()

    def pick_forced(self, me, why):
        ready = self.others(me)
        if not ready:
            return None
        key = f"t{me.idx}:{me.steps}:{why}"
        default = ready[0].idx
        if self.replay:
            to = self.plan.get(key, default)
            if key in self.plan:
                self.d.used.append(key)
        else:
            to = self.d.rng.choice(ready).idx
            if to != default:
                self.plan[key] = to
                self.d.used.append(key)
        for t in ready:
            if t.idx == to:
                return t
        return ready[0]

    def block(self, me, lock):
        if self.free:
            time.sleep(0.001)
            return
        me.state = "blocked"
        me.waiting = lock
        me.steps += 1
        nxt = self.pick_forced(me, "block")
        if nxt is None:
            self.deadlock = True
            self.trace.append([f"t{me.idx}", me.steps, "deadlock", ""])
            for t in self.ts:
                if t is not me and t.state == "blocked":
                    t.state = "ready"
                    t.go.release()
            me.state = "ready"
            raise SimDeadlock()
        self.note(me, "blocked", nxt)
        self.switch(me, nxt)

    def spin(self, me, why):
        """Give way to another thread while waiting for something unseen."""
        me.steps += 1
        me.spins = getattr(me, "spins", 0) + 1
        nxt = None if me.spins > 5000 else self.pick_forced(me, "block")
        if nxt is None:
            self.deadlock = True
            self.trace.append([f"t{me.idx}", me.steps, "deadlock", why])
            for t in self.ts:
                if t is not me and t.state == "blocked":
                    t.state = "ready"
                    t.go.release()
            raise SimDeadlock()
        self.note(me, why, nxt)
        self.switch(me, nxt)

    def wake(self, lock):
        for t in self.ts:
            if t.state == "blocked" and t.waiting is lock:
                t.state = "ready"
                t.waiting = None

    def finish(self, me):
        me.state = "done"
        if all(t.state == "done" for t in self.ts):
            self.done.set()
            return
        if self.deadlock or self.free:
            return
        nxt = self.pick_forced(me, "end")
        if nxt is None:
            self.deadlock = True
            for t in self.ts:
                if t.state == "blocked":
                    t.state = "ready"
                    t.go.release()
            return
        self.cur = nxt
        self.hash.update(f"{me.idx}@end>{nxt.idx};".encode())
        nxt.go.release()

    # -- tracing -----------------------------------------------------------------
    def gtrace(self, frame, event, arg):
        co = frame.f_code
        ok = self.codes.get(co)
        if ok is None:
            ok = self.codes[co] = co.co_filename.startswith(SRC) or (
                self.extra is not None and co.co_filename.endswith(self.extra))
        if not ok:
            return None
        if self.policy.get("op"):
            frame.f_trace_opcodes = True
        else:
            me = self.by_ident.get(_thread.get_ident())
            if me is not None and me.abort is not None and co.co_filename.startswith(SRC):
                frame.f_trace_opcodes = True
        return self.ltrace

    def ltrace(self, frame, event, arg):
        if event == "opcode":
            me = self.by_ident.get(_thread.get_ident())
            if me is not None and me.abort is not None and can_raise(frame):
                me.abort[0] -= 1
                if me.abort[0] <= 0:
                    exc = me.abort[1]()
                    me.abort = None
                    me.aborted = exc
                    where = f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_code.co_name}:{frame.f_lineno}"
                    self.trace.append([f"t{me.idx}", me.steps, where, "abort " + type(exc).__name__])
                    self.hash.update(f"{me.idx}@{where}!{type(exc).__name__};".encode())
                    self.aborts.append([me.idx, where, type(exc).__name__])
                    raise exc
            if self.policy.get("op"):
                self.point(frame)
        elif event == "line":
            self.point(frame)
        return self.ltrace

    def arm(self):
        """(Re)install tracing in the calling thread."""
        sys.settrace(self.gtrace)

    # -- running -----------------------------------------------------------------
    def run(self, bodies, timeout=60.0):
        global _SCHED
        _SCHED = self
        self.ts = [T(i, b) for i, b in enumerate(bodies)]

        def main(t):
            t.go.acquire()
            self.by_ident[_thread.get_ident()] = t
            try:
                self.arm()
                t.body(t)
            except SimDeadlock:
                pass
            finally:
                sys.settrace(None)
                self.by_ident.pop(_thread.get_ident(), None)
                self.finish(t)

        threads = [threading.Thread(target=main, args=(t,), daemon=True) for t in self.ts]
        for th in threads:
            th.start()
        key = "start"
        first = self.plan.get(key, 0) if self.replay else self.d.rng.randrange(len(self.ts))
        if first >= len(self.ts):
            first = 0
        if first:
            self.plan[key] = first
            self.d.used.append(key)
        self.cur = self.ts[first]
        self.ts[first].go.release()
        end = time.monotonic() + timeout
        last = -1
        while not self.done.wait(10.0):
            if self.steps == last or time.monotonic() > end:
                # a thread waits for something the scheduler does not know
                self.free = True
                for t in self.ts:
                    if t.state != "done":
                        try:
                            t.go.release()
                        except RuntimeError:
                            pass
                self.done.wait(20.0)
                break
            last = self.steps
        for th in threads:
            th.join(5.0)
        _SCHED = None
        return self

    def report(self):
        return {"steps": self.steps, "switches": self.switches, "trace": self.trace,
                "digest": self.hash.hexdigest()[:24], "deadlock": self.deadlock, "stalled": self.free,
                "plan": self.plan, "used": self.d.used, "aborts": self.aborts}


# ---------------------------------------------------------------------------
# processes
# ---------------------------------------------------------------------------
class Died(Exception):
    pass


def forked(fn, *args, timeout=120.0, cwd=None):
    """Run fn in a fresh fork of the warm worker and return its value."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if not os.environ.get("SIM_DEBUG"):
                null = os.open("/dev/null", os.O_RDWR)
                os.dup2(null, 1)
                os.dup2(null, 2)
            if cwd:
                os.chdir(cwd)
            import warnings
            warnings.simplefilter("ignore")
            gc.disable()
            try:
                out = (True, fn(*args))
            except BaseException:  # noqa: BLE001
                out = (False, traceback.format_exc()[-3000:])
            data = pickle.dumps(out, protocol=4)
            off = 0
            while off < len(data):
                off += os.write(w, data[off:off + 65536])
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    end = time.monotonic() + timeout
    try:
        while True:
            left = end - time.monotonic()
            if left <= 0 or not select.select([r], [], [], left)[0]:
                os.kill(pid, signal.SIGKILL)
                raise Died("simulated process did not finish")
            b = os.read(r, 1 << 20)
            if not b:
                break
            chunks.append(b)
    finally:
        os.close(r)
        _, st = os.waitpid(pid, 0)
    if not chunks:
        raise Died(f"simulated process ended with status {st}")
    ok, val = pickle.loads(b"".join(chunks))
    if not ok:
        raise RuntimeError("harness error in simulated process:\n" + val)
    return val


def child_decider(d, salt):
    """A decider for use inside a forked process, filled from / merged into d."""
    from sim.procworld import Decider
    if d.rng is None:
        c = Decider(plan={k[len(salt):]: v for k, v in d.plan.items() if k.startswith(salt)})
    else:
        c = Decider(rng=random.Random(d.rng.getrandbits(64)))
    return c


def merge_decider(d, salt, rep):
    for k in rep["used"]:
        d.used.append(salt + k)
    if d.rng is not None:
        for k, v in rep["plan"].items():
            d.plan[salt + k] = v


# ---------------------------------------------------------------------------
# fingerprints
# ---------------------------------------------------------------------------
def fingerprint(x, depth=0):
    """Digest of a value, bit for bit."""
    h = hashlib.sha256()
    _fp(x, h, 0)
    return h.hexdigest()[:20]


def _fp(x, h, depth):
    import dataclasses
    import numpy as np
    import torch
    if depth > 12:
        h.update(b"deep")
        return
    if torch.is_tensor(x):
        y = x.detach()
        if y.is_conj() or y.is_neg():
            y = y.resolve_conj().resolve_neg()
        a = y.contiguous().view(-1)
        h.update(f"T{x.dtype}{tuple(x.shape)}{x.device}".encode())
        if a.numel():
            h.update(a.view(torch.uint8).numpy().tobytes() if a.dtype != torch.bool
                     else a.numpy().tobytes())
    elif isinstance(x, np.ndarray):
        h.update(f"N{x.dtype}{x.shape}".encode() + np.ascontiguousarray(x).tobytes())
    elif dataclasses.is_dataclass(x) and not isinstance(x, type):
        h.update(b"D" + type(x).__name__.encode())
        for f in dataclasses.fields(x):
            h.update(f.name.encode())
            _fp(getattr(x, f.name, None), h, depth + 1)
    elif isinstance(x, dict):
        h.update(b"{")
        for k in x:
            h.update(repr(k).encode() + b":")
            _fp(x[k], h, depth + 1)
        h.update(b"}")
    elif isinstance(x, (list, tuple)):
        h.update(b"[" if isinstance(x, list) else b"(")
        for v in x:
            _fp(v, h, depth + 1)
            h.update(b",")
        h.update(b"]")
    elif isinstance(x, BaseException):
        h.update(f"E{type(x).__name__}:{x}".encode())
    else:
        h.update(f"{type(x).__name__}={x!r}".encode())


def brief(x):
    import dataclasses
    import torch
    if torch.is_tensor(x):
        v = x.detach().reshape(-1)
        if not v.numel():
            return f"{x.dtype}{tuple(x.shape)} empty"
        s = float(v.to(torch.float64).abs().sum()) if not v.is_complex() else 0.0
        return f"{x.dtype}{tuple(x.shape)} |sum|={s!r} head={[float(q) for q in v[:3]] if not v.is_complex() else ''}"
    if isinstance(x, BaseException):
        return f"{type(x).__name__}: {str(x)[:200]}"
    if isinstance(x, (list, tuple)):
        return "[" + "; ".join(brief(v) for v in x[:4]) + "]"
    if dataclasses.is_dataclass(x) and not isinstance(x, type):
        return type(x).__name__
    return repr(x)[:200]

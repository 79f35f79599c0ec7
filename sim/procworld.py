"""Process world: simulated nodes are forked processes whose every file-system,
network, clock and randomness operation is granted by this controller.

Exactly one node runs at any instant; a node runs only between the reply to
its pending operation and its next operation.  Which node is granted next, and
what the operation does (proceed, fail, short count, crash before / in the
middle of it), is decided by a `Decider`; the same decisions give the same
execution.
"""
from __future__ import annotations

import ctypes
import errno
import hashlib
import json
import locale
import os
import re
import resource
import select
import signal
import socket
import struct
import sys
import time
import traceback

OPS = {
    1: "open", 2: "read", 3: "write", 4: "close", 5: "lseek", 6: "ftruncate",
    7: "rename", 8: "unlink", 9: "rmdir", 10: "mkdir", 11: "link", 12: "symlink",
    13: "mknod", 14: "chmod", 15: "chown", 16: "utime", 17: "stat", 18: "opendir",
    19: "lock", 20: "fsync", 21: "truncate", 22: "readlink", 23: "escape",
    24: "sleep", 25: "copy", 26: "misc", 100: "exit", 101: "net", 102: "mark",
}
MUTATING = {"write", "ftruncate", "rename", "unlink", "rmdir", "mkdir", "link",
            "symlink", "mknod", "truncate"}
A_PROCEED, A_FAIL, A_SHORT, A_CRASH, A_TORN, A_SEED = range(6)
REQ = struct.Struct("=IiqqqqII")
REP = struct.Struct("=IIqq")
O_WR = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND

# errno choices per operation class
ERRNOS = {
    "open_w": ["ENOSPC", "EACCES", "EIO", "EMFILE"],
    "open_r": ["EIO", "EMFILE"],
    "read": ["EIO"],
    "write": ["ENOSPC", "EIO", "EDQUOT"],
    "close": ["EIO"],
    "fsync": ["EIO"],
    "mkdir": ["ENOSPC", "EACCES", "EIO"],
    "rename": ["EIO", "ENOSPC", "EACCES"],
    "unlink": ["EIO", "EACCES"],
    "rmdir": ["EIO", "EACCES"],
    "ftruncate": ["EIO"],
    "opendir": ["EIO"],
    "link": ["EIO"], "symlink": ["EIO"], "mknod": ["EIO"],
    "chmod": ["EIO"], "utime": ["EIO"], "chown": ["EIO"],
    "stat": ["EIO"],
}


class HarnessError(Exception):
    pass


class Decider:
    """Source of every non-default choice of one run.

    Generating: choices come from `rng` and the non-default ones are recorded
    in `plan`.  Replaying: the plan is the only source and rng is unused.
    """

    def __init__(self, rng=None, plan=None):
        self.rng = rng
        self.replay = plan is not None
        self.plan = dict(plan) if plan is not None else {}
        self.used = []

    def choose(self, key, default, gen):
        if self.replay:
            v = self.plan.get(key, default)
            if v != default:
                self.used.append(key)
            return v
        v = gen(self.rng)
        if v != default:
            self.plan[key] = v
            self.used.append(key)
        return v


class Node:
    __slots__ = ("name", "pid", "sock", "pipe", "idx", "req", "state", "result",
                 "wake", "crashed", "lasttrace", "tries", "reads", "full", "opsleft",
                 "exit_signal", "faulted", "rewrites", "seen")

    def __init__(self, name):
        self.name = name
        self.idx = 0
        self.req = None
        self.state = "new"
        self.result = None
        self.wake = 0
        self.crashed = False
        self.lasttrace = None
        self.tries = 0
        self.full = None
        self.exit_signal = None
        self.rewrites = []
        self.faulted = []
        self.seen = -1


class Stuck(Exception):
    """The run exceeded its step bound or every live node is blocked."""


class World:
    def __init__(self, root, decider, *, faults=None, sched=None, net=None,
                 max_steps=20000, trace_limit=4000, hook=None, cpu_limit=40,
                 seed=0, forbid_net=False, machines=None):
        self.root = root
        self.rlen = len(root)
        self.d = decider
        self.faults = dict(faults or {})
        self.sched = dict(sched or {})
        self.net = net
        self.max_steps = max_steps
        self.steps = 0
        self.now = 0
        self.nodes = {}
        self.order = []
        self.trace = []
        self.trace_limit = trace_limit
        self.hash = hashlib.sha256()
        self.stats = {}
        self.escapes = []
        self.fault_budget = self.faults.get("max", 3)
        self.faults_on = True
        self.hook = hook
        self.cpu_limit = cpu_limit
        self.seed = seed
        self.current = None
        self.opcounts = {}
        self.sched_sig = hashlib.sha256()
        self.switches = 0
        self.watch = None
        self.net_used = 0
        self.readonly = False
        self.only = re.compile(self.faults["only"]) if self.faults.get("only") else None
        self.releases = 0
        self.forced = False
        self.machines = machines or {}
        if any(m.get("path") == "link" for m in self.machines.values()):
            os.symlink(".", os.path.join(root, "alias"))

    def machine(self, name):
        return self.machines.get(name) or self.machines.get("*") or {}

    def path(self, name, p):
        """`p` (below the run's root, absolute) as this node's user spells it."""
        how = self.machine(name).get("path")
        rel = os.path.relpath(p, self.root)
        if how == "rel":
            return rel
        if how == "dots":
            return os.path.join(self.root, "tmp", "..", ".", rel)
        if how == "link":
            return os.path.join(self.root, "alias", rel)
        return p

    # -- process management -------------------------------------------------
    def spawn(self, name, fn, *args):
        if name in self.nodes:
            raise HarnessError("duplicate node " + name)
        a, b = socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        pr, pw = os.pipe()
        node = Node(name)
        vpid = 40000 + len(self.nodes)
        seed = int.from_bytes(hashlib.sha256(f"{self.seed}:{name}".encode()).digest()[:8], "little") | 1
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 98
            try:
                os.close(pr)
                a.close()
                for n in self.nodes.values():
                    if n.sock is not None:
                        n.sock.close()
                    if n.pipe is not None:
                        os.close(n.pipe)
                _child(self, b, pw, vpid, seed, name, fn, args)
                code = 0
            except BaseException:
                try:
                    traceback.print_exc()
                    sys.stderr.flush()
                except BaseException:
                    pass
            finally:
                os._exit(code)
        b.close()
        os.close(pw)
        node.pid = pid
        node.sock = a
        node.pipe = pr
        self.nodes[name] = node
        self.order.append(name)
        self._recv(node)
        return node

    def _reap(self, node):
        if node.sock is None:
            return
        node.sock.close()
        node.sock = None
        data = b""
        while True:
            chunk = os.read(node.pipe, 1 << 16)
            if not chunk:
                break
            data += chunk
        os.close(node.pipe)
        node.pipe = None
        _, status = os.waitpid(node.pid, 0)
        if os.WIFSIGNALED(status):
            node.exit_signal = os.WTERMSIG(status)
        elif os.WEXITSTATUS(status) not in (0,):
            raise HarnessError(f"node {node.name} exited with {os.WEXITSTATUS(status)}")
        if data:
            node.result = json.loads(data)
        node.state = "done"
        self.releases += 1
        if self.net is not None:
            self.net.node_gone(node.name)

    def _recv(self, node):
        node.sock.settimeout(self.cpu_limit * 4)
        try:
            data = node.sock.recv(1 << 19)
        except socket.timeout:
            os.kill(node.pid, signal.SIGKILL)
            self._reap(node)
            raise HarnessError(f"node {node.name}: no operation within the wall limit")
        except OSError:
            data = b""
        if not data:
            self._reap(node)
            if not node.crashed:
                if node.exit_signal == signal.SIGXCPU:
                    node.result = {"hang": True}
                    return
                raise HarnessError(
                    f"node {node.name} died unexpectedly (signal {node.exit_signal})")
            return
        op, lerr, lret, a, b, c, l1, l2 = REQ.unpack_from(data)
        body = data[REQ.size:]
        name = OPS[op]
        p1 = body[:l1]
        p2 = body[l1:l1 + l2]
        if node.lasttrace is not None:
            node.lasttrace[-1] = lerr if lerr else lret
            self._log(node.lasttrace)
            node.lasttrace = None
        if name == "exit":
            self._reap(node)
            return
        node.req = (name, a, b, c, p1, p2)
        node.state = "parked"

    def _log(self, rec):
        s = repr(rec)
        self.hash.update(s.encode())
        if len(self.trace) < self.trace_limit:
            self.trace.append(s)

    def rel(self, p):
        p = p.decode("utf-8", "surrogateescape")
        if p.startswith(self.root):
            return p[self.rlen + 1:]
        return p

    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    # -- scheduling -----------------------------------------------------------
    def _runnable(self):
        return [n for n in (self.nodes[x] for x in self.order) if n.state == "parked"]

    def run(self):
        """Run until every spawned node is done."""
        while True:
            live = self._runnable()
            if not live:
                return
            ready = [n for n in live if n.wake <= self.now]
            if not ready:
                self.now = min(n.wake for n in live)
                continue
            if self.steps >= self.max_steps:
                self.kill_all()
                raise Stuck(f"no completion within {self.max_steps} operations")
            free = [n for n in ready if not (
                n.req[0] == "lock" and n.req[2] > 0 and n.seen == self.releases)]
            if not free:
                # everyone awake waits for a lock nobody has released since they last tried
                asleep = [n.wake for n in live if n.wake > self.now]
                if asleep:
                    self.now = min(asleep)
                    continue
                if self.forced:
                    self.kill_all()
                    raise Stuck("every live process is waiting for a lock")
                self.forced = True
                self.releases += 1
                continue
            ready = free
            cur = self._pick(ready)
            self.grant(cur)

    def _pick(self, ready):
        cur = self.current
        if cur is not None and (cur.state != "parked" or cur.wake > self.now):
            cur = None
        if len(ready) == 1:
            cur = ready[0]
            if cur is not self.current:
                self.switches += 1
                self.sched_sig.update(f"{cur.name}:{cur.idx}:{cur.req[0]};".encode())
            self.current = cur
            return cur
        names = [n.name for n in ready]
        if cur is not None:
            default = cur.name
            if cur not in ready:
                pos = self.order.index(cur.name)
                default = min(names, key=lambda x: (self.order.index(x) - pos - 1) % len(self.order))
            key = f"{cur.name}:{cur.idx}:switch"
            p = self.sched.get("p", 0.0)
            if cur.req[0] in ("rename", "unlink", "mkdir", "rmdir", "lock") or (
                    cur.req[0] == "open" and cur.req[1] & O_WR):
                p = max(p, self.sched.get("p_hot", p))
            elif cur.req[0] == "stat":
                p = max(p, self.sched.get("p_stat", p))
            choice = self.d.choose(
                key, default,
                lambda r: r.choice(names) if r.random() < p else default)
            if choice not in names:
                choice = default
        else:
            default = names[0]
            key = f"s{self.steps}:start"
            choice = self.d.choose(key, default, lambda r: r.choice(names))
            if choice not in names:
                choice = default
        node = self.nodes[choice]
        if node is not self.current:
            self.switches += 1
            self.sched_sig.update(f"{node.name}:{node.idx}:{node.req[0]};".encode())
        self.current = node
        return node

    def kill_all(self):
        for n in self.nodes.values():
            if n.state == "parked":
                n.crashed = True
                os.kill(n.pid, signal.SIGKILL)
                self._reap(n)

    # -- one operation ----------------------------------------------------------
    def _reply(self, node, action, arg):
        self.steps += 1
        self.now += 50_000
        node.sock.send(REP.pack(action, 0, arg, self.now))

    def grant(self, node):
        name, a, b, c, p1, p2 = node.req
        node.idx += 1
        idx = node.idx
        self.opcounts[name] = self.opcounts.get(name, 0) + 1
        if name != "lock":
            self.forced = False
        if name == "close" or (name == "lock" and b == 0):
            self.releases += 1
        if name == "lock":
            node.seen = self.releases
        if name == "net":
            self._grant_net(node, p1 + p2)
            return
        if name == "mark":
            if self.hook is not None:
                self.hook("mark", node, p1.decode())
            self._reply(node, A_PROCEED, 0)
            node.lasttrace = [node.name, idx, "mark", p1.decode(), None]
            self._recv(node)
            return
        if name == "escape":
            p = p1.decode("utf-8", "surrogateescape")
            self.escapes.append([node.name, OPS.get(a, str(a)), p])
            self._reply(node, A_PROCEED, 0)
            node.lasttrace = [node.name, idx, "escape", OPS.get(a, str(a)), p, None]
            self._recv(node)
            return
        if name == "sleep":
            node.wake = self.now + max(0, a)
            self.steps += 1
            # park the node until the virtual clock reaches its wake-up time
            others = [n for n in self._runnable() if n is not node]
            if not others:
                self.now = max(self.now, node.wake)
            node.req = ("wake", a, 0, 0, b"", b"")
            self.current = None
            return
        if name == "wake":
            self.now = max(self.now, node.wake)
            self._reply(node, A_PROCEED, 0)
            node.lasttrace = [node.name, idx, "sleep", a, None]
            self._recv(node)
            return
        action, arg, tag = A_PROCEED, 0, None
        act = self._decide(node, idx, name, a, b, p1, c)
        if act is not None:
            action, arg, tag = act
        rel1 = self.rel(p1)
        rel2 = self.rel(p2) if p2 else ""
        rec = [node.name, idx, name, rel1, rel2, a if name != "close" else 0, b if name in ("read", "write", "lock", "open") else 0, tag, None]
        if name in ("read", "write", "lock"):
            rec[5] = 0 if name != "lock" else a
        if self.watch is not None:
            self.watch(node, name, rel1, rel2, a, b, action)
        if action in (A_CRASH, A_TORN):
            node.crashed = True
            self._reply(node, action, arg)
            rec[-1] = "crash"
            self._log(rec)
            node.sock.settimeout(30)
            try:
                d = node.sock.recv(1 << 16)
            except OSError:
                d = b""
            if d:
                raise HarnessError("node survived its crash")
            self._reap(node)
            self.current = None
            return
        self._reply(node, action, arg)
        node.lasttrace = rec
        self._recv(node)

    def _decide(self, node, idx, name, a, b, p1, c=-1):
        """Return (action, arg, tag) or None for a plain proceed."""
        d = self.d
        f = self.faults
        if name == "opendir":
            if f.get("perm", True):
                v = d.choose(f"{node.name}:{idx}:perm", 0, lambda r: r.getrandbits(32))
                if v and v != 0:
                    self.count("benign.listing_order")
                    seedact = (A_SEED, int(v), f"perm{v}")
                else:
                    seedact = None
            else:
                seedact = None
        else:
            seedact = None
        if node.full is not None and name == "write" and not self._rewrites(p1, b, c) \
                and (self.only is None or self.only.search(self.rel(p1))):
            # the disk filled up while this node was writing and stays full
            return (A_FAIL, errno.ENOSPC, "full")
        if self.readonly and (name in MUTATING or name in ("chmod", "utime", "chown") or (
                name == "open" and a & O_WR)) and not self.rel(p1).startswith("tmp"):
            if name == "mkdir" and os.path.lexists(p1):
                return seedact
            return (A_FAIL, errno.EROFS, "readonly")
        if not self.faults_on:
            return seedact
        if self.only is not None and not self.only.search(self.rel(p1)):
            return seedact

        cls = name
        if name == "open":
            cls = "open_w" if a & O_WR else "open_r"

        def gen(r):
            if self.fault_budget > 0:
                pc = f.get("crash", 0.0)
                if pc:
                    if name in MUTATING or cls == "open_w":
                        pc *= 3.0
                    if r.random() < pc:
                        if name == "write" and b > 0 and r.random() < 0.5:
                            return ["torn", r.randrange(0, b)]
                        return ["crash"]
                pe = f.get("err." + cls, f.get("err", 0.0) if cls in ERRNOS and cls != "stat" else 0.0)
                if pe and r.random() < pe:
                    e = r.choice(ERRNOS[cls])
                    if cls == "write" and self._rewrites(p1, b, c):
                        # blocks that exist already need no space
                        return ["err", "EIO", "rewrite"]
                    if cls == "write" and e == "ENOSPC" and r.random() < 0.6:
                        return ["full", r.randrange(0, b) if b else 0]
                    return ["err", e]
            if name in ("read", "write") and b > 1 and not (name == "write" and p1.endswith(b".gif")):
                # (Pillow's C encoder does not look at the count of its GIF writes)
                ps = f.get("short", 0.0)
                if ps and r.random() < ps:
                    return ["short", r.randrange(1, b)]
            return 0

        v = d.choose(f"{node.name}:{idx}:{cls}", 0, gen)
        if not v:
            return seedact
        kind = v[0]
        if kind == "crash":
            self.fault_budget -= 1
            self.count("fault.crash")
            self.count("crash_at." + cls)
            node.faulted.append("crash")
            return (A_CRASH, 0, "crash")
        if kind == "torn":
            self.fault_budget -= 1
            self.count("fault.torn_write_crash")
            node.faulted.append("crash")
            return (A_TORN, int(v[1]), f"torn{v[1]}")
        if kind == "err":
            self.fault_budget -= 1
            self.count(f"fault.{v[1]}.{cls}")
            node.faulted.append(f"{v[1]}.{v[2] if len(v) > 2 else cls}")
            if len(v) > 2:
                node.rewrites.append(self.rel(p1))
            return (A_FAIL, getattr(errno, v[1]), v[1])
        if kind == "full":
            self.fault_budget -= 1
            self.count("fault.disk_full")
            node.faulted.append("ENOSPC.write")
            node.full = True
            if v[1] <= 0:
                return (A_FAIL, errno.ENOSPC, "full")
            return (A_SHORT, int(v[1]), f"full{v[1]}")
        if kind == "short":
            self.count("benign.short_" + name)
            return (A_SHORT, int(v[1]), f"short{v[1]}")
        raise HarnessError(f"unknown decision {v}")

    @staticmethod
    def _rewrites(p1, n, off):
        """True when a write stays inside what the file already holds."""
        if off < 0:
            return False
        try:
            return off + n <= os.stat(p1).st_size
        except OSError:
            return False

    def _grant_net(self, node, payload):
        msg = json.loads(payload)
        if msg["m"] not in ("which", "popen", "close"):
            self.net_used += 1
        self.steps += 1
        self.now += 200_000
        pc = self.faults.get("crash", 0.0)
        if self.faults_on and pc:
            v = self.d.choose(f"{node.name}:{node.idx}:net", 0,
                              lambda r: ["crash"] if self.fault_budget > 0 and r.random() < pc else 0)
            if v:
                self.fault_budget -= 1
                self.count("fault.crash")
                self.count("crash_at.net")
                node.faulted.append("crash")
                self._crash(node, ["net", msg.get("m")])
                return
        if self.net is None:
            out, note = {"err": "gaierror"}, "no network"
        else:
            out, note = self.net.handle(self, node, msg)
        if out.get("advance"):
            self.now += out["advance"]
        body = out.pop("_body", b"")
        head = json.dumps(out, sort_keys=True).encode()
        node.sock.send(struct.pack("=Iq", len(head), self.now) + head + body)
        node.lasttrace = [node.name, node.idx, "net", msg.get("m"), note, None]
        self._recv(node)

    def _crash(self, node, what):
        node.crashed = True
        os.kill(node.pid, signal.SIGKILL)
        self._log([node.name, node.idx, *what, "crash"])
        self._reap(node)
        self.current = None

    def digest(self):
        return self.hash.hexdigest()[:24]


# ---------------------------------------------------------------------------
# child side
# ---------------------------------------------------------------------------
_LIBC = None


def libc():
    global _LIBC
    if _LIBC is None:
        _LIBC = ctypes.CDLL(None)
        _LIBC.shim_activate.argtypes = [ctypes.c_int, ctypes.c_char_p, ctypes.c_int,
                                        ctypes.c_uint64, ctypes.c_int64]
        _LIBC.shim_present()
    return _LIBC


class Chan:
    """The child's Python-level channel to the controller."""

    def __init__(self, sock):
        self.sock = sock

    def rpc(self, msg):
        body = json.dumps(msg, sort_keys=True).encode()
        self.sock.sendall(REQ.pack(101, 0, 0, 0, 0, 0, len(body), 0) + body)
        data = self.sock.recv(1 << 19)
        if not data:
            os._exit(97)
        n, now = struct.unpack_from("=Iq", data)
        libc().shim_set_now(ctypes.c_int64(now))
        off = struct.calcsize("=Iq")
        out = json.loads(data[off:off + n])
        out["_body"] = data[off + n:]
        return out

    def mark(self, text):
        body = text.encode()
        self.sock.sendall(REQ.pack(102, 0, 0, 0, 0, 0, len(body), 0) + body)
        data = self.sock.recv(REP.size)
        if not data:
            os._exit(97)


CHAN = None


def mark(text):
    """Report a workload milestone to the controller (a scheduling point)."""
    if CHAN is not None:
        CHAN.mark(text)


def _child(world, sock, pw, vpid, seed, name, fn, args):
    global CHAN
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    devnull = os.open("/dev/null", os.O_RDWR)
    os.dup2(devnull, 0)
    if not os.environ.get("SIM_DEBUG"):
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
    resource.setrlimit(resource.RLIMIT_CPU, (world.cpu_limit, world.cpu_limit + 5))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    CHAN = Chan(sock)
    from sim import childenv
    childenv.install(CHAN, seed, world.root)
    os.chdir(world.root)
    m = world.machine(name)
    if "umask" in m:
        os.umask(m["umask"])
    if m.get("locale"):
        locale.setlocale(locale.LC_CTYPE, m["locale"])
    lib = libc()
    lib.shim_activate(sock.fileno(), os.fsencode(world.root), vpid, seed, world.now)
    try:
        try:
            value = fn(*args)
            out = {"ok": True, "value": value}
        except BaseException as exc:  # noqa: BLE001 - every outcome is recorded
            out = {"ok": False, **describe_exc(exc)}
            # drop the traceback so open files are released while still observed
            exc.__traceback__ = None
            del exc
    finally:
        lib.shim_deactivate()
    sock.sendall(REQ.pack(100, 0, 0, 0, 0, 0, 0, 0))
    data = json.dumps(out, default=str).encode()
    off = 0
    while off < len(data):
        off += os.write(pw, data[off:off + 65536])


def describe_exc(exc):
    import os as _os
    frames = []
    tb = exc.__traceback__
    while tb is not None:
        co = tb.tb_frame.f_code
        frames.append(f"{_os.path.basename(co.co_filename)}:{co.co_name}")
        tb = tb.tb_next
    return {
        "exc": type(exc).__name__,
        "mro": [k.__name__ for k in type(exc).__mro__],
        "msg": str(exc)[:300],
        "errno": getattr(exc, "errno", None) if isinstance(exc, OSError) else None,
        "frames": frames[-6:],
    }

"""Controller-side model of the archive servers and of ffmpeg.

Speaks HTTP/1.1 to the repository's real urllib client.  The fate of the k-th
request of a node is decided by the run's Decider.
"""
from __future__ import annotations

import base64
import zlib

FATES_SOFT = ["ok", "chunked", "nolen", "redirect", "trickle"]
FATES_HARD = ["gaierror", "refused", "unreach", "http404", "http500", "http503", "reset", "eof",
              "eof_nolen", "corrupt", "garbage", "empty", "stall", "swap", "midcut", "resethdr"]


def corrupt_bytes(data, seed, n=1):
    b = bytearray(data)
    h = zlib.crc32(b"corrupt%d" % seed)
    for i in range(n):
        if not b:
            break
        pos = (h + i * 7919) % len(b)
        b[pos] ^= 1 << ((h >> 5) % 8)
        h = zlib.crc32(b"%d" % h)
    return bytes(b)


class NetModel:
    def __init__(self, decider, resources, *, fault_p=0.0, soft_p=0.3, budget=2,
                 kinds=None, ffmpeg="ok", ffmpeg_p=0.0, ffmpeg_present=True, forced=None,
                 allow_hosts=None, refuse_first=0, interrupts=False):
        self.d = decider
        self.resources = resources      # path suffix -> bytes
        self.fault_p = fault_p
        self.soft_p = soft_p
        self.budget = budget
        self.kinds = kinds or FATES_HARD
        self.conns = {}
        self.next = 1
        self.reqs = {}                  # node -> number of requests
        self.log = []                   # [node, path, fate]
        self.faults_on = True
        self.ffmpeg_p = ffmpeg_p
        self.ffmpeg_present = ffmpeg_present
        self.popens = {}
        self.forced = forced or {}
        self.unknown = []
        self.refuse_first = refuse_first    # the server turns down the first requests, whoever makes them
        self.interrupts = interrupts        # Ctrl-C may arrive while an encoder runs

    def node_gone(self, name):
        for cid in [c for c, v in self.conns.items() if v["node"] == name]:
            del self.conns[cid]

    def _fate(self, world, node, k):
        if self.faults_on and self.refuse_first > 0:
            self.refuse_first -= 1
            world.count("fault.net.http503")
            node.faulted.append("net.http503")
            return ["http503", 0.0, 0]
        key = f"net:{node.name}:{k}"

        def gen(r):
            if self.faults_on and self.budget > 0 and r.random() < self.fault_p:
                kind = r.choice(self.kinds)
                return [kind, r.random(), r.choice([0, 1448, 97, 8192])]
            if r.random() < self.soft_p:
                return [r.choice(FATES_SOFT), r.random(), r.choice([0, 1448, 97, 8192])]
            return 0
        v = self.d.choose(key, 0, gen)
        if not v:
            v = ["ok", 0.0, 0]
        if v[0] in FATES_HARD:
            self.budget -= 1
            world.count("fault.net." + v[0])
            node.faulted.append("net." + v[0])
        elif v[0] != "ok":
            world.count("benign.net." + v[0])
        return v

    def handle(self, world, node, msg):
        m = msg["m"]
        if m == "connect":
            k = self.reqs.get(node.name, 0)
            self.reqs[node.name] = k + 1
            fate = self._fate(world, node, k)
            if fate[0] in ("gaierror", "refused", "unreach"):
                self.log.append([node.name, "", fate[0]])
                return {"err": fate[0], "advance": 1_000_000_000}, fate[0]
            cid = self.next
            self.next += 1
            self.conns[cid] = {"node": node.name, "in": b"", "out": None, "fate": fate,
                               "pos": 0, "host": msg["host"], "port": msg["port"], "err_at": None}
            return {"cid": cid}, f"connect {msg['host']}:{msg['port']} {fate[0]}"
        if m == "send":
            c = self.conns[msg["cid"]]
            c["in"] += base64.b64decode(msg["d"])
            if b"\r\n\r\n" in c["in"] and c["out"] is None:
                self._respond(world, node, c)
            return {"ok": 1}, "send"
        if m == "recv":
            c = self.conns.get(msg["cid"])
            if c is None or c["out"] is None:
                return {"ok": 1, "_body": b""}, "recv none"
            adv = 0
            if c.get("stall") and c["pos"] >= c["stall_at"]:
                c["stall"] = False
                if msg.get("timeout") is not None:
                    return {"err": "timeout", "advance": int(msg["timeout"] * 1e9)}, "timeout"
                adv = 3600 * 10**9
            if c["err_at"] is not None and c["pos"] >= c["err_at"]:
                return {"err": "reset"}, "reset"
            n = min(int(msg["n"]), 32768)
            seg = c["fate"][2]
            if seg:
                n = min(n, seg)
            end = min(c["pos"] + n, len(c["out"]))
            if c["err_at"] is not None:
                end = min(end, c["err_at"])
            data = c["out"][c["pos"]:end]
            c["pos"] = end
            out = {"ok": 1, "_body": data}
            if adv:
                out["advance"] = adv
            return out, f"recv {len(data)}"
        if m == "close":
            self.conns.pop(msg["cid"], None)
            return {"ok": 1}, "close"
        if m == "which":
            if msg["cmd"] == "ffmpeg" and self.ffmpeg_present:
                return {"path": "/usr/bin/ffmpeg"}, "which ffmpeg"
            return {"path": None}, "which none"
        if m == "popen":
            return self._popen(world, node, msg)
        return {"err": "proto"}, "?"

    def _popen(self, world, node, msg):
        k = self.popens.get(node.name, 0)
        self.popens[node.name] = k + 1
        if not self.ffmpeg_present or not msg["argv"][0].endswith("ffmpeg"):
            return {"err": "enoent"}, "popen enoent"
        mux = sum(1 for x in msg["argv"] if x == "-i") > 1

        def gen(r):
            if self.faults_on and self.interrupts and r.random() < (0.6 if mux else 0.1):
                return ["interrupt", 0.0]
            if self.faults_on and r.random() < self.ffmpeg_p:
                return [r.choice(["rc1", "rc137", "rc1nopartial", "enoent", "eacces", "enomem", "pipe"]), r.random()]
            return 0
        v = self.d.choose(f"ffmpeg:{node.name}:{k}", 0, gen)
        if not v:
            return {"rc": 0}, "popen ok"
        kind = v[0]
        world.count("fault.ffmpeg." + kind)
        node.faulted.append("ffmpeg." + ("mux." if mux else "render.") + kind)
        if kind in ("enoent", "eacces", "enomem"):
            return {"err": kind}, "popen " + kind
        if kind == "rc1nopartial":
            return {"rc": 1, "partial": False}, "popen rc1"
        if kind == "pipe":
            return {"rc": 1, "pipe_after": int(v[1] * 4_000_000)}, "popen pipe"
        if kind == "interrupt":
            return {"rc": 255, "interrupt": True}, "popen interrupt"
        return {"rc": 1 if kind == "rc1" else 137}, "popen " + kind

    def _respond(self, world, node, c):
        req = c["in"].split(b"\r\n", 1)[0].decode("latin-1").split(" ")
        method, path = req[0], (req[1] if len(req) > 1 else "")
        fate, frac, seg = c["fate"]
        hdrs = c["in"].decode("latin-1").lower()
        base = path.rsplit("/", 1)[-1].split("?")[0]
        host = None
        for line in c["in"].decode("latin-1").split("\r\n")[1:]:
            if line.lower().startswith("host:"):
                host = line.split(":", 1)[1].strip()
        full = (host or c["host"]) + path
        self.log.append([node.name, full, fate])
        body = self.resources.get(base)
        if body is None:
            self.unknown.append(full)
            body = b"<html>404</html>"
            fate = "http404"
        redirected = path.startswith("/mirror")

        def resp(status, body, *, length=True, chunked=False, extra=""):
            h = f"HTTP/1.1 {status}\r\nServer: sim\r\nContent-Type: application/octet-stream\r\nConnection: close\r\n{extra}"
            if chunked:
                h += "Transfer-Encoding: chunked\r\n\r\n"
                out = h.encode()
                step = 4096
                for i in range(0, len(body), step):
                    part = body[i:i + step]
                    out += b"%x\r\n" % len(part) + part + b"\r\n"
                return out + b"0\r\n\r\n"
            if length:
                h += f"Content-Length: {len(body)}\r\n"
            return (h + "\r\n").encode() + body

        ok = "200 OK"
        cut = int(frac * len(body))
        if "range: bytes=" in hdrs and fate in ("ok", "trickle"):
            rng = hdrs.split("range: bytes=", 1)[1].split("\r\n")[0]
            lo = int(rng.split("-")[0] or 0)
            if lo >= len(body):
                c["out"] = resp("416 Range Not Satisfiable", b"", extra=f"Content-Range: bytes */{len(body)}\r\n")
                return
            extra = f"Content-Range: bytes {lo}-{len(body) - 1}/{len(body)}\r\n"
            c["out"] = resp("206 Partial Content", body[lo:], extra=extra)
            return
        if fate == "redirect" and not redirected:
            c["out"] = resp("302 Found", b"", extra=f"Location: http://mirror.example/mirror{path}\r\n")
            return
        if fate in ("ok", "redirect", "trickle", "swap"):
            if fate == "trickle":
                c["fate"] = [fate, frac, 31]
            c["out"] = resp(ok, body)
        elif fate == "chunked":
            c["out"] = resp(ok, body, chunked=True)
        elif fate == "nolen":
            c["out"] = resp(ok, body, length=False)
        elif fate == "http404":
            c["out"] = resp("404 Not Found", b"<html>not here</html>")
        elif fate == "http500":
            c["out"] = resp("500 Internal Server Error", b"oops")
        elif fate == "http503":
            c["out"] = resp("503 Service Unavailable", b"busy", extra="Retry-After: 1\r\n")
        elif fate == "resethdr":
            c["out"] = resp(ok, body)
            c["err_at"] = 10
        elif fate == "reset":
            c["out"] = resp(ok, body)
            c["err_at"] = len(c["out"]) - len(body) + cut
        elif fate == "eof":
            c["out"] = resp(ok, body)
            c["out"] = c["out"][:len(c["out"]) - len(body) + cut]
        elif fate == "eof_nolen":
            c["out"] = resp(ok, body[:cut], length=False)
        elif fate == "midcut":
            # chunked transfer aborted between chunks
            full_out = resp(ok, body, chunked=True)
            c["out"] = full_out[:max(60, int(frac * len(full_out)))]
        elif fate == "corrupt":
            c["out"] = resp(ok, corrupt_bytes(body, int(frac * 1e9), 1 + int(frac * 10) % 3))
        elif fate == "garbage":
            c["out"] = resp(ok, b"<html><body>captive portal</body></html>" * (1 + cut % 50))
        elif fate == "empty":
            c["out"] = resp(ok, b"")
        elif fate == "stall":
            c["out"] = resp(ok, body)
            c["stall"] = True
            c["stall_at"] = len(c["out"]) - len(body) + cut
        else:
            c["out"] = resp(ok, body)

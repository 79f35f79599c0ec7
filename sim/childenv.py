"""Seams installed inside a simulated node: sockets, TLS, subprocesses, names.

The repository's own urllib / http.client code runs unmodified on top of
`FakeSocket`, whose every connect / send / recv is a controller operation.
"""
from __future__ import annotations

import base64
import errno
import io
import os
import random
import shutil
import socket
import ssl
import subprocess
import tempfile
import threading
import urllib.request

_CHAN = None


def _raise_net(out):
    e = out["err"]
    if e == "gaierror":
        raise socket.gaierror(socket.EAI_NONAME, "Name or service not known (simulated)")
    if e == "refused":
        raise ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused (simulated)")
    if e == "reset":
        raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer (simulated)")
    if e == "timeout":
        raise socket.timeout("timed out (simulated)")
    if e == "unreach":
        raise OSError(errno.ENETUNREACH, "Network is unreachable (simulated)")
    if e == "sslerror":
        raise ssl.SSLError(1, "record layer failure (simulated)")
    raise OSError(errno.EIO, "simulated network error " + e)


class _Raw(io.RawIOBase):
    def __init__(self, sock):
        self._s = sock

    def readable(self):
        return True

    def writable(self):
        return True

    def readinto(self, b):
        return self._s.recv_into(b)

    def write(self, b):
        return self._s.send(bytes(b))

    def fileno(self):
        raise OSError("simulated socket has no descriptor")

    def close(self):
        if not self.closed:
            super().close()
            self._s._io_closed()


class FakeSocket:
    family = socket.AF_INET
    type = socket.SOCK_STREAM
    proto = 0

    def __init__(self, *a, **k):
        self.cid = None
        self.timeout = None
        self._refs = 0
        self._closed = False

    def connect(self, addr):
        out = _CHAN.rpc({"m": "connect", "host": str(addr[0]), "port": int(addr[1]),
                         "timeout": self.timeout})
        if "err" in out:
            _raise_net(out)
        self.cid = out["cid"]

    def connect_ex(self, addr):
        try:
            self.connect(addr)
        except OSError as exc:
            return exc.errno or 1
        return 0

    def settimeout(self, t):
        self.timeout = t

    def gettimeout(self):
        return self.timeout

    def setblocking(self, flag):
        self.timeout = None if flag else 0.0

    def setsockopt(self, *a):
        pass

    def getsockopt(self, *a):
        return 0

    def getpeername(self):
        return ("127.0.0.1", 80)

    getsockname = getpeername

    def send(self, data, flags=0):
        data = bytes(data)[:60000]
        out = _CHAN.rpc({"m": "send", "cid": self.cid,
                         "d": base64.b64encode(data).decode()})
        if "err" in out:
            _raise_net(out)
        return len(data)

    def sendall(self, data, flags=0):
        data = bytes(data)
        while data:
            n = self.send(data)
            data = data[n:]

    def recv(self, n, flags=0):
        out = _CHAN.rpc({"m": "recv", "cid": self.cid, "n": int(n), "timeout": self.timeout})
        if "err" in out:
            _raise_net(out)
        return out["_body"]

    def recv_into(self, b, nbytes=0, flags=0):
        n = nbytes or len(b)
        data = self.recv(n)
        b[:len(data)] = data
        return len(data)

    def makefile(self, mode="r", buffering=None, **kw):
        raw = _Raw(self)
        self._refs += 1
        if "b" in mode:
            if "w" in mode and "r" not in mode:
                return io.BufferedWriter(raw)
            return io.BufferedReader(raw, 8192)
        return io.TextIOWrapper(io.BufferedReader(raw, 8192), **kw)

    def shutdown(self, how):
        pass

    def close(self):
        # as with real sockets, files made from the socket keep it open
        self._closed = True
        if self._refs <= 0:
            self._real_close()

    def _io_closed(self):
        self._refs -= 1
        if self._closed and self._refs <= 0:
            self._real_close()

    def _real_close(self):
        if self.cid is not None:
            cid, self.cid = self.cid, None
            _CHAN.rpc({"m": "close", "cid": cid})

    def detach(self):
        return -1

    def fileno(self):
        return -1

    def unwrap(self):
        return self

    def do_handshake(self):
        pass

    def pending(self):
        return 0

    def version(self):
        return "TLSv1.3"

    def selected_alpn_protocol(self):
        return None

    def getpeercert(self, *a):
        return {}

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def _create_connection(address, timeout=socket._GLOBAL_DEFAULT_TIMEOUT, source_address=None, **kw):
    s = FakeSocket()
    if timeout is socket._GLOBAL_DEFAULT_TIMEOUT:
        timeout = socket.getdefaulttimeout()
    s.timeout = timeout
    s.connect(address)
    return s


def _getaddrinfo(host, port, *a, **k):
    return [(socket.AF_INET, socket.SOCK_STREAM, 6, "", (host, port or 80))]


class _GuardSocket(socket.socket):
    """Any other use of internet sockets becomes a simulated connection."""

    def __new__(cls, family=-1, type=-1, proto=-1, fileno=None):
        if fileno is None and family in (-1, socket.AF_INET, socket.AF_INET6):
            return FakeSocket()
        return socket.SocketType.__new__(cls)


class FakeFfmpegError(Exception):
    pass


# -- subprocess / ffmpeg ------------------------------------------------------
class FakePopen:
    """Stand-in for subprocess.Popen: only `ffmpeg` exists, and it is a model.

    The controller decides each invocation's fate (ok, non-zero exit, killed
    half-way leaving a partial output, missing binary).
    """

    def __init__(self, args, *a, stdin=None, stdout=None, stderr=None, text=None,
                 universal_newlines=None, encoding=None, **k):
        self.args = args
        argv = [os.fspath(x) for x in ([args] if isinstance(args, (str, bytes)) else args)]
        self.argv = argv
        self.textmode = bool(text or universal_newlines or encoding)
        self.returncode = None
        self.pid = 49999
        out = _CHAN.rpc({"m": "popen", "argv": argv})
        if out.get("err") == "enoent":
            raise FileNotFoundError(errno.ENOENT, "No such file or directory (simulated)", argv[0])
        if out.get("err") == "eacces":
            raise PermissionError(errno.EACCES, "Permission denied (simulated)", argv[0])
        if out.get("err") == "enomem":
            raise OSError(errno.ENOMEM, "Cannot allocate memory (simulated)")
        self.fate = out
        self._buf = io.BytesIO()
        self.stdin = _PipeIn(self) if stdin == subprocess.PIPE else None
        mk = io.StringIO if self.textmode else io.BytesIO
        self.stdout = mk() if stdout == subprocess.PIPE else None
        self.stderr = mk() if stderr == subprocess.PIPE else None
        self._done = False
        self.written = 0

    def _finish(self):
        if self._done:
            return
        self._done = True
        argv = self.argv
        outp = argv[-1]
        inputs = [argv[i + 1] for i, x in enumerate(argv[:-1]) if x == "-i"]
        fate = self.fate
        rc = int(fate.get("rc", 0))
        data = b""
        if "--version" in argv or "-version" in argv or len(argv) <= 2:
            self.returncode = rc
            return
        import hashlib
        h = hashlib.sha256()
        try:
            for p in inputs:
                if p in ("-", "pipe:", "pipe:0"):
                    h.update(b"frames:%d:" % self.written)
                    h.update(hashlib.sha256(self._buf.getvalue()).digest())
                else:
                    with open(p, "rb") as f:
                        blob = f.read()
                    if not blob:
                        raise ValueError("empty input")
                    h.update(hashlib.sha256(blob).digest())
            kind = b"MUXED:" if len(inputs) > 1 else b"SILENT:"
            data = b"FAKEMP4:" + kind + h.hexdigest().encode() + b":" + b"x" * 400 + b":END"
        except (OSError, ValueError):
            rc = rc or 1
        try:
            if rc == 0:
                with open(outp, "wb") as f:
                    f.write(data)
            elif fate.get("partial", True) and data:
                with open(outp, "wb") as f:
                    f.write(data[: len(data) // 3])
        except OSError:
            rc = rc or 1
        self.returncode = rc
        _CHAN.mark(f"ffmpeg-done:{rc}:{len(inputs)}:{os.path.basename(outp)}")
        if fate.get("interrupt"):
            raise KeyboardInterrupt

    def communicate(self, input=None, timeout=None):
        if input is not None and self.stdin is not None:
            try:
                self.stdin.write(input)
            except BrokenPipeError:
                pass
        self._finish()
        msg = "" if self.returncode == 0 else "ffmpeg: simulated failure"
        o = None if self.stdout is None else ("" if self.textmode else b"")
        e = None if self.stderr is None else (msg if self.textmode else msg.encode())
        return o, e

    def wait(self, timeout=None):
        self._finish()
        return self.returncode

    def poll(self):
        return self.returncode

    def kill(self):
        self.returncode = -9

    terminate = kill

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.wait()


class _PipeIn(io.RawIOBase):
    def __init__(self, proc):
        self.p = proc

    def writable(self):
        return True

    def write(self, b):
        n = len(b)
        self.p.written += n
        lim = self.p.fate.get("pipe_after")
        if lim is not None and self.p.written > lim:
            raise BrokenPipeError(errno.EPIPE, "Broken pipe (simulated)")
        # keep a digest-sized sample only
        if self.p._buf.tell() < (1 << 20):
            self.p._buf.write(bytes(b)[:4096])
        return n

    def close(self):
        super().close()


def _fake_which(cmd, *a, **k):
    out = _CHAN.rpc({"m": "which", "cmd": os.path.basename(os.fspath(cmd))})
    return out.get("path")


class _Names:
    def __init__(self, seed):
        self._r = random.Random(seed)
        self._lock = threading.Lock()

    def __iter__(self):
        return self

    def __next__(self):
        with self._lock:
            return "".join(self._r.choice("abcdefghijklmnopqrstuvwxyz0123456789_") for _ in range(8))


def install(chan, seed, root):
    global _CHAN
    _CHAN = chan
    for k in ("http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY", "all_proxy", "ALL_PROXY",
              "no_proxy", "NO_PROXY"):
        os.environ.pop(k, None)
    socket.create_connection = _create_connection
    socket.getaddrinfo = _getaddrinfo
    socket.gethostbyname = lambda h: h
    real_wrap = ssl.SSLContext.wrap_socket

    def wrap_socket(self, sock, *a, **k):
        if isinstance(sock, FakeSocket):
            return sock
        return real_wrap(self, sock, *a, **k)

    ssl.SSLContext.wrap_socket = wrap_socket
    ssl.SSLContext.load_default_certs = lambda self, *a, **k: None
    urllib.request._opener = None
    import http.client
    http.client.socket.create_connection = _create_connection
    tempfile._name_sequence = _Names(seed)
    tempfile._RandomNameSequence = lambda: _Names(~seed)
    tmp = os.path.join(root, "tmp")
    os.environ["TMPDIR"] = tmp
    tempfile.tempdir = tmp      # (found by probing otherwise, with a fallback to the real /tmp)
    subprocess.Popen = FakePopen
    shutil.which = _fake_which
    try:
        import matplotlib.animation as ani
        ani.subprocess.Popen = FakePopen
        ani.shutil.which = _fake_which
    except Exception:
        pass
    random.seed(seed)
    try:
        import torch
        torch.manual_seed(seed & 0x7FFFFFFF)
    except Exception:
        pass

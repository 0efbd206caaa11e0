"""Simulated disk: the real Python I/O stack (text, buffering, pickle, pandas, logging) over a raw device that the plan can break.

Only files below the given root are affected.  A plan is a list of faults:
  {"op": "open",  "at": k, "errno": E}      the k-th open fails
  {"op": "write", "at": n, "errno": E}      the device accepts n bytes in total, then every write fails (the last one is torn)
  {"op": "write1","at": k, "errno": E}      only the k-th device write fails
  {"op": "close", "at": k, "errno": E}      the k-th close of a written file reports an error
  {"op": "read",  "at": n, "errno": E}      reads fail after n bytes
  {"op": "mkdir", "at": k, "errno": E}
  {"op": "short", "max": m}                 device writes take at most m bytes each
A fault with "path": P concerns only the file of that name (byte offsets then count the bytes of that file).
"""
import builtins
import io
import os

from . import kernel


class Raw(io.FileIO):
    def __init__(self, fs, path, mode, opener=None):
        self.fs = fs
        self.count = any(c in mode for c in "wax+")
        self.base = os.path.basename(path)
        fs.hit("open", self.base)
        super().__init__(path, mode, opener=opener)
        fs.opened.append(self)
        fs.paths.append((path, mode))

    def write(self, b):
        n = len(b)
        fs = self.fs
        fs.hit("write1", self.base)
        for f in fs.plan:
            if f.get("path", self.base) != self.base:
                continue
            if f["op"] == "write":
                left = f["at"] - (fs.by_file.get(self.base, 0) if "path" in f else fs.written)
                if left <= 0:
                    fs.fire(f)
                if n > left:
                    n = left
                    fs.note("torn_write")
            elif f["op"] == "short" and n > f["max"]:
                n = f["max"]
                fs.note("short_write")
        r = super().write(bytes(memoryview(b)[:n]))
        fs.written += r
        fs.by_file[self.base] = fs.by_file.get(self.base, 0) + r
        return r

    def _chk_read(self, n):
        fs = self.fs
        for f in fs.plan:
            if f["op"] == "read" and fs.nread >= f["at"]:
                fs.fire(f)
        return n

    def readinto(self, b):
        self._chk_read(len(b))
        fs = self.fs
        m = len(b)
        for f in fs.plan:
            if f["op"] == "read":
                m = max(1, min(m, f["at"] - fs.nread))
        r = super().readinto(memoryview(b)[:m])
        fs.nread += r or 0
        return r

    def readall(self):
        out = b""
        while True:
            b = bytearray(65536)
            n = self.readinto(b)
            if not n:
                return out
            out += bytes(b[:n])

    def read(self, n=-1):
        if n is None or n < 0:
            return self.readall()
        b = bytearray(n)
        k = self.readinto(b)
        return bytes(b[:k or 0])

    def close(self):
        if self.closed:
            return
        super().close()
        if self.count:
            self.fs.hit("close", self.base)


class FS:
    def __init__(self, root, plan=()):
        self.root, self.plan = os.path.realpath(root), list(plan)
        self.opened, self.paths, self.written, self.nread = [], [], 0, 0
        self.counts, self.fired, self.by_file, self.seen = {}, [], {}, {}

    def note(self, what):
        if kernel.SIM is not None:
            kernel.SIM.fault("disk_" + what)
        self.fired.append(what)

    def fire(self, f):
        if kernel.SIM is not None:
            kernel.SIM.fault(f"disk_{f['op']}_errno_{f['errno']}")
        self.fired.append(f["op"])
        raise OSError(f["errno"], os.strerror(f["errno"]) + " (injected)")

    def hit(self, op, base=None):
        k0 = self.counts[op] = self.counts.get(op, 0) + 1
        k1 = self.seen[op, base] = self.seen.get((op, base), 0) + 1
        for f in self.plan:
            if f.get("path", base) != base:
                continue
            k = k1 if "path" in f else k0
            if f["op"] == op and (k == f["at"] or f.get("forever") and k >= f["at"]):
                self.fire(f)

    def errored(self):
        return [f for f in self.fired if f not in ("torn_write", "short_write")]

    def mine(self, file):
        if isinstance(file, int):
            return False
        try:
            p = os.path.realpath(os.fspath(file))
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return p.startswith(self.root + os.sep)

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if not self.mine(file):
            return self.real(file, mode, buffering, encoding, errors, newline, closefd, opener)
        binary = "b" in mode
        m = mode.replace("b", "").replace("t", "")
        raw = Raw(self, os.fspath(file), m, opener)
        if buffering == 0:
            return raw
        size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
        try:
            if "+" in m:
                buf = io.BufferedRandom(raw, size)
            elif m[0] in "wax":
                buf = io.BufferedWriter(raw, size)
            else:
                buf = io.BufferedReader(raw, size)
            if binary:
                return buf
            t = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering=buffering == 1)
            t.mode = mode
            return t
        except BaseException:
            raw.close()
            raise

    def _mkdir(self, path, *a, **k):
        if self.mine(path) or os.path.realpath(path) == self.root:
            self.hit("mkdir")
        return self.real_mkdir(path, *a, **k)

    def __enter__(self):
        self.real, self.real_io, self.real_mkdir = builtins.open, io.open, os.mkdir
        builtins.open = io.open = self.open
        os.mkdir = self._mkdir
        return self

    def __exit__(self, *a):
        builtins.open, io.open, os.mkdir = self.real, self.real_io, self.real_mkdir
        return False

    def leaked(self):
        return [str(r.name) for r in self.opened if not r.closed]

    def cleanup(self):
        self.plan = []
        for r in self.opened:
            if not r.closed:
                try:
                    r.close()
                except OSError:
                    pass

"""Disk seam: a scratch tree (the run's current directory) whose file opens and directory listings go through
the simulator.  Listings come back in a seeded order, opens can fail, reads can be short, torn or fail midway.

Files are real files of a scratch directory created for the run, so code that bypasses `open` still sees every
change the simulator makes to the tree (removal, truncation, replacement)."""
import builtins
import errno
import io
import os
import shutil

from .core import current_sim

DISRUPTIVE = ["eio_open", "eacces", "enoent", "emfile", "eio_read", "torn"]
BENIGN = ["short_reads", "slow_disk"]

_real_open = builtins.open
_real_scandir = os.scandir
_real_listdir = os.listdir

_ERR = {"eio_open": errno.EIO, "eacces": errno.EACCES, "enoent": errno.ENOENT, "emfile": errno.EMFILE}


class _Raw(io.RawIOBase):
    def __init__(self, path, fault, cut):
        super(_Raw, self).__init__()
        self._f = _real_open(path, "rb", buffering=0)
        self._fault, self._cut, self.name = fault, cut, path

    def readable(self):
        return True

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def readinto(self, b):
        n = len(b)
        pos = self._f.tell()
        if self._fault == "short_reads":
            n = min(n, 7)
        if self._cut is not None:
            if pos >= self._cut:
                if self._fault == "eio_read":
                    raise OSError(errno.EIO, "Input/output error (simulated)", self.name)
                return 0
            n = min(n, self._cut - pos)
        data = self._f.read(n)
        b[:len(data)] = data
        return len(data)

    def close(self):
        if not self.closed:
            self._f.close()
        super(_Raw, self).close()


def _relative(fs, path):
    try:
        p = os.fspath(path)
    except TypeError:
        return None
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    a = os.path.normpath(os.path.join(fs.root, p))
    if a == fs.root:
        return "."
    if a.startswith(fs.root + os.sep):
        return a[len(fs.root) + 1:]
    return None


def _active():
    sim = current_sim()
    fs = getattr(sim, "fs", None) if sim else None
    return (sim, fs) if fs is not None and not fs.bypass else (sim, None)


def _open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    sim, fs = _active()
    rel = None
    if fs is not None and not isinstance(file, int):
        rel = _relative(fs, file)
    if rel is None or rel.startswith(".sim") or not set(mode) <= set("rtb"):
        return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    fault = sim.io("fs")
    sim.log("open", path=rel, fault=fault or "")
    sim.pause()
    if fault in _ERR:
        sim.fired(fault)
        fs.hits.append((rel, fault))
        raise OSError(_ERR[fault], os.strerror(_ERR[fault]) + " (simulated)", rel)
    fs.opens += 1
    cut = None
    if fault in ("eio_read", "torn"):
        try:
            size = len(_real_open(file, "rb").read().rstrip())
        except OSError:
            size = 0
        if size >= 2:
            cut = sim.keyed("cut", rel, fs.opens).randrange(size)
            sim.fired(fault)
            fs.hits.append((rel, fault))
        else:
            fault = None
    elif fault == "short_reads":
        sim.fired(fault, disruptive=False)
    elif fault == "slow_disk":
        sim.fired(fault, disruptive=False)
        sim.pause(3.0)
    raw = _Raw(file, fault, cut)
    if buffering == 0 and "b" in mode:
        return raw
    buf = io.BufferedReader(raw, 4096 if fault != "short_reads" else 16)
    if "b" in mode:
        return buf
    # a file opened as text without saying how is decoded as the machine it runs on likes
    if encoding is None and fs.locale:
        sim.fault_count["locale_" + fs.locale] += fs.locale != "utf-8"
        encoding = fs.locale
    return io.TextIOWrapper(buf, encoding=encoding, errors=errors, newline=newline)


class _Scan(object):
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def _order(sim, fs, rel, names, key):
    names.sort(key=key)
    if fs.shuffle:
        fs.listings += 1
        sim.keyed("ls", rel, fs.shuffle).shuffle(names)
        sim.fault_count["listing_order"] += 1
    return names


def _scandir(path="."):
    sim, fs = _active()
    rel = _relative(fs, path) if fs is not None and not isinstance(path, int) else None
    if rel is None:
        return _real_scandir(path)
    with _real_scandir(path) as it:
        entries = list(it)
    return _Scan(_order(sim, fs, rel, entries, lambda e: os.fsencode(e.name)))


def _listdir(path="."):
    sim, fs = _active()
    rel = _relative(fs, path) if fs is not None and not isinstance(path, int) else None
    if rel is None:
        return _real_listdir(path)
    return _order(sim, fs, rel, list(_real_listdir(path)), os.fsencode)


class Fs(object):
    """The scratch tree of one run: the process's current directory."""

    def __init__(self, sim, shuffle=0):
        self.sim = sim
        self.root = os.path.realpath(os.getcwd())
        assert os.path.basename(self.root).startswith("verif-run-"), self.root
        self.shuffle = shuffle
        self.opens = 0
        self.listings = 0
        self.bypass = False
        self.locale = None
        self.hits = []
        sim.fs = self

    def _path(self, rel):
        p = os.path.normpath(os.path.join(self.root, rel))
        assert p.startswith(self.root + os.sep), rel
        return p

    def write(self, rel, text):
        p = self._path(rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        data = text if isinstance(text, bytes) else text.encode("utf-8")
        if os.path.lexists(p):
            os.remove(p)
        with _real_open(p, "wb") as f:
            f.write(data)

    def remove(self, rel):
        p = self._path(rel)
        if os.path.isfile(p):
            os.remove(p)

    def read(self, rel):
        with _real_open(self._path(rel), "rb") as f:
            return f.read()

    def snapshot(self):
        out = {}
        for d, _, names in os.walk(self.root):
            for n in names:
                p = os.path.join(d, n)
                with _real_open(p, "rb") as f:
                    out[os.path.relpath(p, self.root)] = f.read()
        return out

    def clear(self):
        for n in _real_listdir(self.root):
            shutil.rmtree(os.path.join(self.root, n))


def install():
    builtins.open = _open
    io.open = _open
    os.scandir = _scandir
    os.listdir = _listdir

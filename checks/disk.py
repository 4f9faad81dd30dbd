"""A scratch folder, and the runs of command line tools in it.

Files that vfbLib opens in binary mode keep their contents in streams of the engine (so
that contents can be symbolic); which files exist is decided by the real scratch folder.
Everything else in the folder are normal files."""
import os
import shutil
import sys
import tempfile
from pathlib import Path

from checks.common import *


class File:
    def __init__(self, stream):
        self.stream = stream

    def __enter__(self):
        return self.stream

    def __exit__(self, *a):
        return None

    def close(self):
        return None

    def __getattr__(self, k):
        return getattr(self.stream, k)


class Disk:
    def __init__(self, h):
        self.h = h
        self.root = Path(os.path.realpath(tempfile.mkdtemp(prefix="verif-disk-")))
        self.side = {}
        self.patched = []
        self.printed = []
        self.ufos = {}

    # -- files
    def path(self, name):
        return self.root / name

    def put(self, name, data):
        p = self.path(name)
        p.parent.mkdir(parents=True, exist_ok=True)
        p.write_bytes(b"")
        self.side[os.stat(p).st_ino] = self.h.stream(data)
        return p

    def get(self, name):
        """The content of a file, or None"""
        p = self.path(name)
        if not p.exists():
            return None
        if p.is_dir():
            return "folder"
        s = self.side.get(os.stat(p).st_ino)
        return p.read_bytes() if s is None or os.stat(p).st_size else s.getvalue()

    def names(self):
        return sorted(str(Path(d, f).relative_to(self.root)) for d, _, fs in os.walk(self.root) for f in fs)

    def open(self, file, mode="r", *a, **k):
        p = Path(os.path.abspath(file))
        if self.root not in p.parents:
            assert "r" in mode, "a file outside of the folder is written"
            return open(file, mode, *a, **k)
        if "b" not in mode:
            return open(file, mode, *a, **k)
        if "r" in mode:
            d = self.get(p)
            if d is None:
                raise FileNotFoundError(str(p))
            return File(self.h.stream(d))
        if "x" in mode and p.exists():
            raise FileExistsError(str(p))
        f = open(file, "ab" if "a" in mode else "wb")
        f.close()
        ino = os.stat(p).st_ino
        if "a" not in mode or ino not in self.side:
            self.side[ino] = self.h.stream()
        return File(self.side[ino])

    # -- stand-ins
    def patch(self, obj, name, value):
        self.patched.append((obj, name, obj.__dict__.get(name, self)))
        setattr(obj, name, value)

    def __enter__(self):
        self.argv, self.cwd = sys.argv, os.getcwd()
        os.chdir(self.root)
        return self

    def modules(self, *names):
        """has these modules use this disk"""
        for n in names:
            m = self.h.module(n)
            self.patch(m, "open", self.open)
            self.patch(m, "print", self._print)
        return m

    def _print(self, *a, **k):
        self.printed.append((a, k.get("file")))

    def __exit__(self, *a):
        for obj, name, old in reversed(self.patched):
            delattr(obj, name) if old is self else setattr(obj, name, old)
        sys.argv = self.argv
        os.chdir(self.cwd)
        shutil.rmtree(self.root, ignore_errors=True)
        return None

    def output(self):
        """What was printed to the standard output"""
        return [a for a, f in self.printed if f is None]

    def run(self, fn, *argv):
        """Runs a tool; returns None, or the error that ended it"""
        sys.argv = ["tool", *map(str, argv)]
        try:
            fn()
        except SystemExit as e:
            return e if e.code else None
        except Exception as e:
            return e
        return None

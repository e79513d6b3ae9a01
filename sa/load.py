"""Loads the dumped program of the current tree and offers interpreters over it."""
import os, sys
import extract, mir, interp
from interp import *

LIB, BIN = "doctor_syn.lib.json", "libmgen.bin.json"


class Prog:
    def __init__(self):
        self.dir = extract.dump()
        self.lib = mir.Crate(os.path.join(self.dir, LIB))
        self.bin = mir.Crate(os.path.join(self.dir, BIN))
        self.crates = [self.lib, self.bin]
        self.bodies = {}
        for c in self.crates:
            self.bodies.update(c.bodies)

    def interp(self, hooks=(), **kw):
        return Interp(self.crates, hooks=list(hooks), **kw)

    def find(self, pred):
        return [p for p in self.bodies if pred(p)]


_p = None


def prog():
    global _p
    if _p is None:
        _p = Prog()
    return _p

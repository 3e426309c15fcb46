"""What a scenario sees, identical in the symbolic and in the concrete world.  No solver import here."""
import numpy as np


class World:
    symbolic = False

    # ---- the code under test
    @property
    def H(self):
        return self.load("hpelm")

    def ELM(self, *a, **k):
        return self.H.ELM(*a, **k)

    def HPELM(self, *a, **k):
        return self.H.HPELM(*a, **k)

    def solver(self, kind):
        if kind == "basic":
            return self.load("hpelm.nnets.slfn").SLFN
        if kind == "python":
            return self.load("hpelm.nnets.slfn_python").SLFNPython
        return self.load("hpelm.nnets.slfn_skcuda").SLFNSkCUDA

    # ---- checks over arrays, expressed with eq / check of the concrete class
    def shape(self, a, shape, label):
        s = tuple(a.shape)
        return self.check(len(s) == len(shape) and all(bool(x == y) for x, y in zip(s, shape)), label + ": shape")

    def unchanged(self, a, snap, label):
        return self.eq(a, snap, label)

    def snap(self, a):
        return a.copy()

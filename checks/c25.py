"""C25: per-module random streams."""
import itertools

import numpy as np

from lib.harness import harness, patched
from sorcha.utilities import sorchaModuleRNG as M

BOUNDS = "every integer base seed in 0..2^40 (and negative ones down to -2^40); every interleaving of up to 4 requests over the five module names that draw random numbers and arbitrary other names; two instances per history"
OUTSIDE = "numpy's generator itself (assumed to be a function of its seed); names beyond the listed ones"
ASSUMPTIONS = ["numpy.random.default_rng(seed) is a deterministic function of its seed and accepts exactly non-negative integers"]

NAMES = ["sorcha.modules.PPRandomizeMeasurements", "sorcha.modules.PPDetectionEfficiency", "sorcha.modules.PPDropObservations",
         "sorcha.modules.PPApplyFOVFilter", "sorcha.modules.PPFadingFunctionFilter"]
OTHER = ["", "a", "module", "sorcha.modules.PPDropObservation", "sorcha.modules.PPDropObservations "]


class Log:
    def info(self, *a):
        pass

    warning = error = debug = info


class Gen:
    def __init__(self, seed):
        self.seed = seed


class Process:
    """one run of the program: generator construction is recorded, hash() and id() are arbitrary"""

    def __init__(self, c, tag):
        self.c, self.tag, self.made = c, tag, []

    def gen(self, seed=None, *a, **k):
        g = Gen(seed)
        self.made.append(g)
        return g

    def rnd(self, what):
        return lambda x: self.c.int("%s_%s_%s" % (what, self.tag, abs(len(str(x)))), 0, 2**61)

    def patches(self):
        return [(np.random, "default_rng", self.gen), (M, "hash", self.rnd("hash")), (M, "id", self.rnd("id"))]

    def run(self, base, names, log=False):
        with patched(*self.patches()):
            r = M.PerModuleRNG(base, Log()) if log else M.PerModuleRNG(base)
            return r, [r.getModuleRNG(n) for n in names]


def legal(c, s):
    return s is not None and c.And(s >= 0, s < 2**128)


def base(c, name, neg=False):
    return c.int(name, -(2**40) if neg else 0, 2**40)


@harness(cases=[dict(neg=False, log=False), dict(neg=True, log=True)])
def order(c, neg, log):
    """two runs, different sets and orders of modules: same module, same stream"""
    b = base(c, "base", neg)
    one = c.choose("one", [NAMES[:3], [NAMES[3], NAMES[0], NAMES[2]], [NAMES[4], OTHER[0], NAMES[1]]])
    two = c.choose("two", [NAMES[:3][::-1], [NAMES[1], NAMES[1], NAMES[3], NAMES[0]], [OTHER[1], NAMES[2], NAMES[4], NAMES[2]], [OTHER[0]]])
    p, q = Process(c, "p"), Process(c, "q")
    _, g1 = p.run(b, one, log)
    _, g2 = q.run(b, two)
    for names, gs in ((one, g1), (two, g2)):
        for n, g in zip(names, gs):
            c.prove(isinstance(g, Gen) and legal(c, g.seed), "legal-seed")
        for i, j in itertools.combinations(range(len(gs)), 2):
            c.prove((gs[i] is gs[j]) == (names[i] == names[j]), "same-module-continues-stream")
    for i, n in enumerate(one):
        for j, m in enumerate(two):
            if n == m:
                c.prove(c.eq(g1[i].seed, g2[j].seed), "stream-independent-of-history")


@harness()
def distinct(c):
    """different modules, different streams; different base seeds, different streams"""
    b, d = base(c, "base"), c.int("step", 1, 2**31 - 1)
    _, g = Process(c, "p").run(b, NAMES + OTHER)
    for i, j in itertools.combinations(range(len(g)), 2):
        c.prove(c.Not(c.eq(g[i].seed, g[j].seed)), "modules-have-own-stream")
    _, h = Process(c, "q").run(b + d, NAMES + OTHER)
    for i in range(len(g)):
        c.prove(c.Not(c.eq(g[i].seed, h[i].seed)), "base-seed-changes-stream")


@harness()
def instances(c):
    """generators are not shared between two runs in one process"""
    b = base(c, "base")
    p = Process(c, "p")
    n = c.choose("n", NAMES)
    with patched(*p.patches()):
        r, s = M.PerModuleRNG(b), M.PerModuleRNG(b)
        x, y, z = r.getModuleRNG(n), s.getModuleRNG(n), r.getModuleRNG(n)
    c.prove(x is not y and x is z, "own-generators")
    c.prove(c.eq(x.seed, y.seed), "same-seed")

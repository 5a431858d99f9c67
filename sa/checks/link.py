"""C16: every code path links."""
import os
from .. import lint
from .common import *
from . import sampling

ROOT = os.environ.get('SA_REPO', '/repo')


def ljob(mod):
    o = Outcome()
    p = lint.Package(ROOT)
    if mod not in p.mods:
        o.undecided.append('module %s is missing' % mod)
        return o
    l = lint.Lint(p, mod).run()
    o.sites, o.funcs = l.sites, l.funcs
    for f in l.out:
        o.find(*f)
    return o


def c16(tier):
    p = lint.Package(ROOT)
    js = [Job('names, attributes, calls and signatures of %s' % m, ljob, m) for m in sorted(p.mods)]
    k = ('uncaught',)
    js += sampling.base(k) + sampling.par(k, tier)
    return js

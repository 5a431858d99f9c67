"""C03, C04, C05, C06, C12, C13, C14, C22: Gibbs updates of factor entries, decided by abstract interpretation of the sampling
function that get_sampling_fct returns, for every layer architecture."""
from .common import *
from ..sampler import SamplerRun, Arch

ENTRY = 'lom/matrix_update_wrappers.py:get_sampling_fct'


def one(arch, kinds):
    o = Outcome()
    S = SamplerRun(arch, max_time=300)
    r = S.run()
    take(o, S.I, r)
    und = bool(r.undecided)
    fs = S.verify()
    if not r.oks and not r.alarms and not und:
        o.undecided.append('no abstract path reaches the end')
    for kind, msg, where, definite in fs:
        if kind not in kinds:
            if kind == 'uncaught' or not definite:
                o.undecided.append('%s: %s (%s)' % (kind, msg, where))
            continue
        if definite:
            o.find(kind, '%s [%s]' % (where_fn(where) or ENTRY, arch), msg, where or ENTRY)
        else:
            o.undecided.append('%s: %s (%s)' % (kind, msg, where))
    undec(o, r)
    return o


def job(model, k, axis, parents, kinds):
    o = one(Arch(model, k, axis, parents=parents), kinds)
    if o.findings or not o.undecided:
        return o
    # the parametric analysis has no answer: analyse fixed numbers of latent dimensions instead
    why = o.undecided
    o.undecided = []
    for L in CONC:
        for t in range(L):
            p = one(Arch(model, k, axis, parents=parents, conc=L, target=t), kinds)
            o.merge(p)
            if p.findings:
                return o
            if p.undecided:
                o.undecided = why + o.undecided
                return o
    o.bounded = 'L in %s (any number: %s)' % (list(CONC), why[0][:150])
    return o


def name(model, k, axis, parents):
    return str(Arch(model, k, axis, parents=parents))


def weight(m, k):
    return (10 if m.startswith('XOR-XOR') or m == 'XOR-NXOR' else 1) * (4 if k == 3 else 1)


def archs(kinds, parents=(), models=CANON, ks=(2, 3), axes=None):
    out = []
    for m in models:
        for k in ks:
            for ax in range(k) if axes is None else axes:
                for pa in parents:
                    out.append(Job(name(m, k, ax, pa), job, m, k, ax, tuple(pa), kinds, weight=weight(m, k) * (1 + len(pa)),
                                   limit=400))
    return out


def orphans(kinds, parents):
    return [Job(name(None, 2, 0, pa), job, None, 2, 0, tuple(pa), kinds, weight=len(pa)) for pa in parents]


ONE = [(m,) for m in CANON]
TWO = [('OR-AND', 'XOR-NAND'), ('XOR-XOR', 'OR-NAND'), ('NAND-XOR', 'XOR-AND'), ('OR-XOR', 'XOR-NXOR'), ('XOR-AND', 'OR-AND')]
ALL2 = [(a, b) for a in CANON for b in CANON]


# 3D matrices with several parents: the flip of the entry is paired with every parent; children of a 3D product are declared
# unsupported by the package (NotImplementedError), so two parents go with two-factor layers.


def base(kinds, **kw):
    return archs(kinds, parents=[()], **kw)


def par(kinds, tier):
    """architectures with parent layers, and matrices without a child"""
    if tier == 'quick':
        return (archs(kinds, parents=[('OR-AND',), ('XOR-NAND',)], models=['OR-AND', 'XOR-AND'], ks=(2,))
                + archs(kinds, parents=[('OR-NAND',)], models=['OR-AND'], ks=(3,))
                + archs(kinds, parents=[('OR-AND', 'XOR-NAND'), ('NAND-XOR', 'OR-XOR')], models=['OR-AND'], ks=(2,))
                + orphans(kinds, ONE + TWO))
    return (archs(kinds, parents=ONE) + archs(kinds, parents=TWO, ks=(2,)) + orphans(kinds, ONE + ALL2))


def c03(tier):
    return base(('inc', 'uncaught'))


def c04(tier):
    k = ('inc', 'logit', 'flip', 'redraw', 'uncaught')
    return base(k) + par(k, tier)


def c05(tier):
    from . import maxand
    k = ('fixed', 'redraw')
    return base(k) + par(k, tier) + maxand.few(k)


def others(k, tier):
    """products and noise updates, for the same side condition"""
    from . import products, lam, outputs, maxand
    return maxand.few(k) + products.effect_jobs(k, tier) + lam.effect_jobs(k, tier) + outputs.effect_jobs(k, tier)


def c06(tier):
    k = ('axis', 'uncaught')
    return base(k) + par(k, tier) + others(k, tier)


def races():
    from ..race import Races
    from .link import ROOT
    o = Outcome()
    R = Races(ROOT)
    R.run()
    for rule, construct, msg, where in R.out:
        o.find(rule, construct, msg, where)
    o.undecided += list(R.open)
    o.sites = len(R.loops)
    o.funcs |= {str(x) for x in R.loops}
    return o


def c12(tier):
    k = ('carried',)
    return [Job('every parallel loop of the package', races, limit=100)] + base(k) + par(k, tier)


def c13(tier):
    from . import pure
    k = ('write',)
    return pure.jobs() + base(k) + par(k, tier) + others(k, tier)


def c14(tier):
    from . import coding, maxand
    k = ('code',)
    return base(k) + par(k, tier) + coding.c14_jobs(tier) + maxand.few(k)


def c22(tier):
    k = ('narrow',)
    return base(k) + par(k, tier) + others(k, tier)

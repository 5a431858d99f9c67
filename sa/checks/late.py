"""C11: every update reads the settings of the machine as they are when it runs.

The update function is requested (and used once) on a machine with other settings; then all settings are replaced and the
update is analysed as usual.  An update that works with anything remembered from before deviates from the rule."""
import sys
from .. import alg
from ..alg import rc
from .common import *
from ..build import *
from ..sampler import SamplerRun, Arch
from . import lam, maxand, qland, sampling
from ..effects import Effects


def attrs(I, m):
    """every state and setting of a machine: (object, attribute)"""
    out, seen = [], set()
    mats, pars = [], []

    def mat(o):
        if id(o) not in seen:
            seen.add(id(o))
            mats.append(o)
    for lay in I.getattr(m, 'layers').v:
        for f in I.getattr(lay, 'factors').v:
            mat(f)
        mat(I.getattr(lay, 'child'))
        if 'q' in lay.attrs:
            mat(lay.attrs['q'])
        pars.append(I.getattr(lay, 'lbda'))
    for x in I.getattr(m, 'matrices').v:
        mat(x)
    for x in mats:
        out += [(x, a) for a in ('val', 'fixed_entries', 'bernoulli_prior')]
    for x in pars:
        out += [(x, 'val'), (x, 'beta_prior')]
    return out


def other(I, m, k):
    """replaces all settings by different ones of smallest size; returns the function that restores them"""
    saved = [(o, a, I.getattr(o, a)) for o, a in attrs(I, m)]
    for i, (o, a, v) in enumerate(saved):
        n = 'old%d' % i
        sh = getattr(v, 'shape', None)
        if a == 'fixed_entries':
            w = I.full((1,) * len(sh), 1, 'int8')
        elif a == 'bernoulli_prior':
            w = alg.expit(alg.sym((n,), None)).with_dt('pyfloat')
        elif a == 'beta_prior':
            w = (alg.sym((n, 0), '+').with_dt('pyfloat'), alg.sym((n, 1), '+').with_dt('pyfloat'))
        elif sh is None:
            w = alg.sym((n,), '+', 'lbda').with_dt('float64')
        elif len(sh) == 1:
            w = I.leafarr(n, (2,), ('atom', '+'), 'float64', tag=n)
        else:
            w = I.full((1,) * len(sh), 1, 'int8')
        I.setattr(o, a, w)

    def restore():
        for o, a, v in saved:
            I.setattr(o, a, v)
    return restore


class LateRun(SamplerRun):
    def scenario(self, I):
        m = self.setup(I)
        self.out = None
        self.phase = 'get'
        restore = other(I, m, self.arch.k)
        f = I.call(I.getfn('lom.matrix_update_wrappers.get_sampling_fct'), [self.mat], {}, None)
        I.call(f, [self.mat], {}, None)
        restore()
        I.mark()
        self.phase = 'run'
        self.before_call(I)
        I.call(f, [self.mat], {}, None)
        self.phase = 'end'
        self.finish(I)


KINDS = ('inc', 'logit', 'flip', 'fixed', 'redraw', 'uncaught')


def compare(late, plain):
    """violations that only the late use of the function shows"""
    o = late
    if o.findings:
        p = plain()
        rules = {f[0] for f in p.findings}
        fs, o.findings = o.findings, []
        for rule, c, msg, where in fs:
            if rule not in rules:
                o.find('stale', c, 'after the settings have been replaced, the update does not follow the new ones: %s' % msg, where)
    return o


def sjob(model, k, axis, parents):
    def go(cls):
        old, sampling.SamplerRun = sampling.SamplerRun, cls
        try:
            return sampling.job(model, k, axis, parents, KINDS)
        finally:
            sampling.SamplerRun = old
    return compare(go(LateRun), lambda: go(SamplerRun))


def ljob(model, k):
    return compare(lam.job(model, k, ('noise', 'uncaught'), late=other), lambda: lam.job(model, k, ('noise', 'uncaught')))


def mjob(spec, axis, target, D, construct, rule):
    ks = ('inc', 'flip', 'redraw', 'fixed', 'uncaught')
    late = maxand.update_job(spec, axis, target, D, ks, construct, rule, late=other)
    spec.prepare = 'lom._numba.max_machine_sampler.compute_lbda_ratios' if spec.model == 'MAX-AND' else None
    return compare(late, lambda: maxand.update_job(spec, axis, target, D, ks, construct, rule))


def c11(tier):
    from .driver import settings_jobs
    quick = tier == 'quick'
    js = []
    A = [(m, k, ax, ()) for m in sampling.CANON for k in (2, 3) for ax in range(k)]
    A += [(m, 2, ax, (p,)) for m in ('OR-AND', 'XOR-AND') for ax in (0, 1) for p in ('OR-AND', 'XOR-NAND')]
    A += [('OR-AND', 2, 0, ('OR-AND', 'XOR-NAND')), (None, 2, 0, ('OR-AND',)), (None, 2, 0, ('OR-AND', 'XOR-NAND'))]
    if not quick:
        A += [(None, 2, 0, p) for p in sampling.ONE] + [(m, 2, ax, p) for m in sampling.CANON for ax in (0, 1) for p in sampling.ONE]
    for m, k, ax, pa in A:
        js.append(Job('update of ' + sampling.name(m, k, ax, pa), sjob, m, k, ax, tuple(pa), weight=sampling.weight(m or '', k) * (1 + len(pa)), limit=400))
    for m in sampling.CANON:
        for k in (2, 3):
            js.append(Job('noise update of %s, %d factors' % (m, k), ljob, m, k, weight=sampling.weight(m, k)))
    for lv, axis, t in (((0, 1), 0, 0), ((1, 0), 1, 0)):
        js.append(Job('MAX-AND update, factor %d, %s' % (axis, maxand.order(lv)), mjob, maxand.MaxSpec(lv), axis, t, 1, maxand.MS + ':draw_MAX_AND_2D', maxand.RULE))
    for axis in (0, 1):
        js.append(Job('qL-AND update, factor %d' % axis, mjob, qland.QSpec(2, (1, 2)), axis, 1, 1, qland.MU + ':sample_qL_factors_%s' % 'ZU'[axis], qland.RULE))
    return js + settings_jobs(tier)

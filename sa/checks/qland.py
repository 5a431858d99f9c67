"""C21: quantised model."""
import itertools
from .. import alg
from ..alg import rc
from .common import *
from ..build import *
from ..effects import Effects, effects
from .maxand import sc_update, update_job, close

MU = 'lom/_numba/matrix_updates_numba.py'
QMAX = 5
LAMQ = ('lbda',)


class QSpec:
    model = 'qL-AND'
    prepare = None

    def __init__(self, L, q, xdom=(-1, 0, 1)):
        self.L, self.q, self.xdom = L, q, xdom

    def setup(self, I, lay, sides):
        I.setattr(I.getattr(lay, 'lbda'), 'val', alg.sym(LAMQ, '+', 'lbda').with_dt('float64'))
        I.setattr(I.getattr(lay, 'q'), 'val', I.leafarr('q', (1, sides[1]), ('enum', self.q), 'int8', tag='q'))

    def extra(self, I, axis, n, d):
        v = I.facts.get(('q', (0, d if axis == 0 else n)))
        return self.q if v is None else (v,)

    def cell(self, t, z, us, x, q):
        c = sum(1 for l in range(self.L) if l != t and z[l] == 1 and us[l] == 1)
        on = 1 if us[t] == 1 else 0
        diff = (1 if c + on >= q else -1) - (1 if c >= q else -1)
        return alg.mul(alg.sym(LAMQ, '+', 'lbda'), rc(diff * x // 2))

    def show(self):
        return '%d dimensions' % self.L


def sc_product(L, q):
    def sc(I):
        P = I.policy = MultiPolicy()
        E = Effects()
        P.handlers.append(E)
        u, z = I.leafarr('U', (L,), ('enum', (-1, 1)), 'int8', tag='U'), I.leafarr('Z', (L,), ('enum', (-1, 1)), 'int8', tag='Z')
        I.mark()
        v = I.call(I.getfn('lom._numba.lom_outputs.qL_AND_product'), [u, z, I.wrap(q, 'int8')], {}, None)
        E.on = False
        got = I.concrete(v) if I.isnum(v) else None
        lo = hi = 0
        for l in range(L):
            a, b = I.facts.get(('U', (l,))), I.facts.get(('Z', (l,)))
            lo += a == 1 and b == 1
            hi += a != -1 and b != -1
        want = {1 if c >= q else -1 for c in range(lo, hi + 1)}
        if want != {got}:
            I.alarm('product', 'with threshold %d, %s active dimensions are predicted as %s' % (
                q, lo if lo == hi else '%d to %d' % (lo, hi), got if got is not None else repr(v)))
    return sc


def product_job(L, q, kinds):
    o = Outcome()
    I = Engine(max_time=100)
    I.preload()
    r = I.explore(sc_product(L, q))
    return close(o, I, r, 'lom/_numba/lom_outputs.py:qL_AND_product', kinds, L)


def sc_threshold(L, fixed):
    def sc(I):
        P = I.policy = MultiPolicy()
        E = Effects()
        P.handlers.append(E)
        E.own = {'q'}
        P.opaque_max = P.round_edge = True
        n, d = I.dim('N', 'star'), I.dim('D', 'star')
        m = machine(I)
        X = I.leafarr('X', (psize(n), psize(d)), ('enum', (-1, 0, 1)), 'int8', tag='X')
        data = matrix(I, m, X)
        lay = layer(I, m, L, data, 'qL-AND')
        fs = factors(I, lay)
        for nm, t, f in zip(FAC, (n, d), fs):
            I.setattr(f, 'val', I.leafarr(nm, (psize(t), L), ('enum', (-1, 1)), 'int8', tag=nm))
        I.setattr(I.getattr(lay, 'lbda'), 'val', alg.sym(LAMQ, '+', 'lbda').with_dt('float64'))
        qm = I.getattr(lay, 'q')
        I.setattr(qm, 'val', I.leafarr('q', (1, psize(d)), ('enum', tuple(range(1, QMAX + 1))), 'int8', tag='q'))
        I.mark()
        f = I.call(I.getfn('lom.matrix_update_wrappers.get_sampling_fct'), [qm], {}, None)
        I.call(f, [qm], {}, None)
        E.on = False
        a = I.getattr(qm, 'val')
        if (0, d.star) not in a.st.cells and not a.st.bulk and type(a.st.base).__name__ == 'Leaf':
            I.alarm('redraw', 'the threshold of a column is not redrawn')
            return
        v = I.elem(a, (0, d.star))
        c = I.concrete(v) if I.isnum(v) else None
        if c is None:
            raise Undecided('a threshold becomes %s' % (alg.show(I.toR(v))[:80] if I.isnum(v) else repr(v)))
        I.collected.setdefault('range', set()).add(c)
        if not 1 <= c <= QMAX:
            I.alarm('range', 'a threshold of %s is drawn, outside the range 1..%d' % (c, QMAX))
    return sc


def threshold_job(L, kinds):
    o = Outcome()
    I = Engine(max_time=200)
    I.preload()
    r = I.explore(sc_threshold(L, False))
    close(o, I, r, MU + ':sample_qL_q', kinds, L)
    if not o.undecided and not r.alarms and 'range' in kinds:
        miss = set(range(1, QMAX + 1)) - I.collected.get('range', set())
        if miss:
            o.find('range', MU + ':sample_qL_q', 'thresholds %s are never drawn' % sorted(miss), MU)
    return o


KINDS = ('product', 'inc', 'flip', 'redraw', 'range', 'uncaught')
RULE = 'the entry is not drawn in the odds of the change of the prediction times the data, scaled by the dispersion'


def jobs(kinds, tier, product=True):
    quick = tier == 'quick'
    js = []
    for L in (1, 2, 3, 4) if quick else (1, 2, 3, 4, 5, 6):
        for q in range(1, QMAX + 1):
            js.append(Job('prediction of %d dimensions, threshold %d' % (L, q), product_job, L, q, kinds))
    for L, D in ((1, 1), (2, 1), (3, 1), (2, 2)) + (() if quick else ((4, 1), (3, 2))):
        for q in ((1, 2), (3, 4, 5)) if L < 3 else ((1,), (2,), (3,), (4, 5)):
            for axis in (0, 1):
                for t in range(L):
                    js.append(Job('factor %d, dimension %d of %d, %d cells, thresholds %s' % (axis, t, L, D, '/'.join(map(str, q))), update_job,
                                  QSpec(L, q), axis, t, D, kinds, MU + ':sample_qL_factors_%s' % 'ZU'[axis], RULE))
    for L, q, t in ((2, (1, 2), 1), (3, (1, 3), 0)) + (() if quick else ((3, (2, 3), 1), (3, (1, 2, 3), 2))):
        for axis in (0, 1):
            js.append(Job('factor %d, dimension %d of %d, columns with thresholds %s' % (axis, t, L, '/'.join(map(str, q))), update_job,
                          QSpec(L, q, (1,)), axis, t, 2, kinds, MU + ':sample_qL_factors_%s' % 'ZU'[axis], RULE))
    js.append(Job('threshold update', threshold_job, 1, kinds))
    return js


def c21(tier):
    return jobs(KINDS, tier)


FEW = ('prediction of 2 dimensions, threshold 2', 'factor 0, dimension 1 of 2, 1 cells, thresholds 1/2', 'factor 1, dimension 0 of 2, 1 cells, '
       'thresholds 1/2', 'threshold update')


def few(kinds):
    return [j for j in jobs(kinds, 'quick') if j.name in FEW]

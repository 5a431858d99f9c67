"""C27: dispersion update of the MAX-AND model, small data enumerated against the sequential rule."""
import itertools
from fractions import Fraction
from .. import alg
from ..alg import rc
from .common import *
from ..build import *
from ..effects import Effects, effects

MS = 'lom/_numba/max_machine_sampler.py'
CONSTRUCT = MS + ':lbda_MAX_AND'
KINDS = ('sequence', 'uncaught')


def results(L, cells):
    """all outcomes of the rule (ties may be broken either way); cells: [(data, active dimensions)]"""
    out = set()

    def rate(cs):
        tp = sum(1 for x, a in cs if x == 1)
        fp = sum(1 for x, a in cs if x == -1)
        return Fraction(tp + 1, tp + fp + 2)

    def rec(left, cs, done):
        if not left:
            p = rate(cs)
            v = [done[l] for l in range(L)]
            out.add(tuple(v) + (min(v + [p]),))
            return
        rates = {l: rate([c for c in cs if l in c[1]]) for l in left}
        best = max(rates.values())
        for l in left:
            if rates[l] == best:
                d = dict(done)
                d[l] = best
                rec([i for i in left if i != l], [c for c in cs if l not in c[1]], d)
    rec(list(range(L)), cells, {})
    return out


def sc_noise(N, D, L, xs, us, late):
    def sc(I):
        P = I.policy = MultiPolicy()
        P.zerodiv = []
        E = Effects()
        P.handlers.append(E)
        xd = lambda I, leaf, idx: pick(I, leaf, idx, (-1, 0, 1) if xs is None else (xs[idx[0] * D + idx[1]],))
        ud = lambda I, leaf, idx: pick(I, leaf, idx, (-1, 1) if us is None else (us[idx[0] * L + idx[1]],))
        m = machine(I)
        X = I.leafarr('X', (N, D), xd, 'int8', tag='X')
        data = matrix(I, m, X)
        lay = layer(I, m, L, data, 'MAX-AND')
        I.setattr(data, 'val', X)
        fs = factors(I, lay)
        I.setattr(fs[0], 'val', I.leafarr('Z', (N, L), ('enum', (-1, 1)), 'int8', tag='Z'))
        I.setattr(fs[1], 'val', I.leafarr('U', (D, L), ud, 'int8', tag='U'))
        lb = I.getattr(lay, 'lbda')
        E.own = {'lbda'}
        I.mark()
        f = I.call(I.getfn('lom.lambda_update_wrappers.get_update_fct'), [lb], {}, None)
        I.call(f, [lb], {}, None)
        E.on = False
        a = I.getattr(lb, 'val')
        got = []
        for i in range(L + 1):
            v = I.elem(a, (i,))
            c = I.toR(v).const() if I.isnum(v) else None
            if c is None:
                raise Undecided('a dispersion becomes %s' % (alg.show(I.toR(v))[:80] if I.isnum(v) else repr(v)))
            got.append(Fraction(c))
        opts = []
        for n in range(N):
            for d in range(D):
                x = I.facts.get(('X', (n, d)))
                per = []
                for l in range(L):
                    z, u = I.facts.get(('Z', (n, l))), I.facts.get(('U', (d, l)))
                    per.append(sorted({(z or s) == 1 and (u or t) == 1 for s in (-1, 1) for t in (-1, 1)}))
                opts.append([(xx, frozenset(l for l in range(L) if act[l])) for xx in ((-1, 0, 1) if x is None else (int(x),))
                             for act in itertools.product(*per)])
        for cells in itertools.islice(itertools.product(*opts), 64):
            want = results(L, list(cells))
            if not any(all(abs(g - w) < Fraction(1, 10 ** 9) for g, w in zip(got, r)) for r in want):
                I.alarm('sequence', 'the dispersions become %s where the sequential rule gives %s (cells: %s)' % (
                    show(got), ' or '.join(show(r) for r in sorted(want)), '; '.join('%d explained by %s' % (x, sorted(s)) for x, s in cells)))
                return
    return sc


def pick(I, leaf, idx, dom):
    k = (leaf.name, idx)
    if k not in I.facts:
        I.facts[k] = dom[I.choose(len(dom))] if len(dom) > 1 else dom[0]
    return I.wrap(I.facts[k], 'int8')


def show(v):
    return '(%s)' % ', '.join(str(x.limit_denominator(1000)) for x in v)


def job(N, D, L, xs, us, kinds):
    o = Outcome()
    I = Engine(max_time=250)
    I.preload()
    r = I.explore(sc_noise(N, D, L, xs, us, None))
    take(o, I, r)
    for (kind, msg), w in r.alarms.items():
        if kind in kinds:
            o.find(kind, CONSTRUCT, msg, w or CONSTRUCT)
        elif kind == 'uncaught':
            o.undecided.append('%s: %s (%s)' % (kind, msg, w))
    for kind, msg, w in effects(I):
        if kind in kinds:
            o.find(kind, where_fn(w) or CONSTRUCT, msg, w or CONSTRUCT)
    undec(o, r)
    o.bounded = '%dx%d cells, %d dimensions' % (N, D, L)
    return o


def c27(tier):
    cfg = [(1, 1, 1, None, None), (1, 1, 2, None, None), (2, 1, 1, None, None), (1, 2, 1, None, None), (2, 1, 2, None, None), (1, 2, 2, None, None),
           (4, 1, 2, (1, 1, -1, 0), (1, 1)), (4, 1, 2, (1, -1, -1, 1), (1, 1)), (3, 1, 3, (1, -1, 1), (1, 1, 1)),
           (2, 2, 2, (1, -1, 1, 1), None)]
    if tier != 'quick':
        cfg += [(2, 2, 2, None, (1, 1, 1, -1)), (4, 1, 3, (1, 1, -1, 0), (1, 1, 1)), (4, 1, 3, (1, -1, -1, 1), (1, 1, 1)), (2, 2, 3, (1, -1, 1, 1), (1, 1, 1, -1, 1, 1)),
                (5, 1, 2, (1, 1, 1, -1, -1), (1, 1))]
    return [Job('noise update of %d dimensions, %dx%d cells%s%s' % (L, N, D, '' if xs is None else ', data ' + ','.join(map(str, xs)),
                '' if us is None else ', second factor ' + ','.join(map(str, us))), job, N, D, L, xs, us, KINDS) for N, D, L, xs, us in cfg]

"""C07: noise updates."""
import itertools
from fractions import Fraction
from .. import alg
from ..alg import R, rc
from .common import *
from ..build import *
from ..effects import Effects, effects

FILE = 'lom/lambda_update_wrappers.py:get_update_fct'
ALPHA, BETA = ('alpha',), ('beta',)


class CellWorlds:
    """worlds of the loops over data cells: facts on the cell, possible predictions"""

    def __init__(self, axes, pred):
        self.axes, self.pred = axes, pred

    def __call__(self, I, kind, *a):
        if kind != 'sumiter':
            return
        name, dim, tok, inc, brk, part = a
        pos = {}
        for ax in self.axes:
            t = None
            for l in reversed(I.loops):
                if l.dim is I.dims[ax] and l.tok is not None:
                    t = l.tok
                    break
            if t is None and dim is I.dims[ax]:
                t = tok
            pos[ax] = t
        p = tuple(pos[ax] for ax in self.axes)
        w = {'inc': inc, 'brk': brk, 'part': part, 'where': I.where(), 'inexact': I.inexact, 'dim': dim.name,
             'facts': dict(I.facts), 'pos': p}
        if all(x is not None for x in p):
            x = I.facts.get(('X', p))
            w['x'] = (-1, 0, 1) if x is None else (int(x),)
            w['pred'] = self.pred(I, p)
        I.collected.setdefault('iters', {}).setdefault(name, []).append(w)


class Table(Exception):
    def __init__(self, kind, msg, where='', definite=True):
        self.kind, self.msg, self.where, self.definite = kind, msg, where, definite


CELLS = [(x, p) for x in (-1, 0, 1) for p in (-1, 1)]


def tabulate(I, r, axes, outer=None):
    """r as a sum over all data cells of a function of (data, prediction): dict (x, pred) -> set of values"""
    out = {c: {Fraction(0)} for c in CELLS}
    sizes = {a: next(iter(I.dims[a].size.atoms())) for a in axes}
    sig = [a for a in r.atoms() if a.kind in ('sigma', 'SUM')]
    li = alg.linear_in(r, lambda a: a in sig)
    if li is None:
        raise Undecided('count %s' % alg.show(r)[:120])
    co, rest = li
    # constant part: must be a multiple of the number of cells
    if not alg.is_zero(rest):
        c = rest
        for a in axes:
            c = alg.div(c, alg.ra(sizes[a]))
        c = c.const()
        if c is None:
            raise Table('noise', 'a count of data cells contains the term %s' % alg.show(rest))
        out = {k: {v + c for v in s} for k, s in out.items()}
    groups = {}
    for a, c in co.items():
        if a.kind == 'SUM':
            raise Undecided('sum %s' % (a.key,))
        groups.setdefault(a.key[1], {})[a.key[2]] = c
    for name, cs in groups.items():
        add = {c: set() for c in CELLS}
        ws = I.collected.get('iters', {}).get(name, [])
        if not ws:
            raise Undecided('sum without iterations')
        for w in ws:
            if outer is not None and not compatible(w['facts'], outer):
                continue
            if w['dim'] not in axes:
                raise Table('noise', 'a count runs twice over axis %s' % w['dim'], w['where'])
            if w['part']:
                raise Table('noise', 'a count covers only part of axis %s' % w['dim'], w['where'])
            if w['brk']:
                raise Table('noise', 'a count may end before all cells of axis %s are seen' % w['dim'], w['where'], not w['inexact'])
            tot = rc(0)
            for v, c in cs.items():
                if v in w['inc']:
                    tot = alg.add(tot, alg.mul(c, w['inc'][v]))
            left = [a for a in axes if a != w['dim']]
            if left:
                t = tabulate(I, tot, left, w['facts'])
                for k in CELLS:
                    add[k] |= t[k]
                continue
            c = tot.const()
            if c is None:
                raise Undecided('a cell contributes %s' % alg.show(tot)[:100])
            for x in w['x']:
                for p in w['pred']:
                    add[(x, p)].add(c)
        out = {k: {v + u for v in s for u in (add[k] or {Fraction(0)})} for k, s in out.items()}
    return out


def compatible(f, g):
    return all(f.get(k, v) == v for k, v in g.items())


def cell_preds(a, pol):
    def pred(I, p):
        d = I.dims['L']
        if d in I.members and any(p in I.tinfo[t].cls for t in I.members[d]):
            return {1 if outer(a, x, y) else -1 for x, y in pol.counts(I, d, p)}
        return {-1, 1}
    return pred


def sem(model):
    return 'OR-AND' if model == 'OR-AND-IBP' else model


class Sampled:
    """values of the opaque counts for evaluating path conditions"""


def job(model, k, kinds=('noise', 'uncaught'), late=None):
    o = Outcome()
    construct = '%s [%s, %d factors]' % (FILE, model, k)
    I = Engine(max_time=200)
    I.preload()
    axes = AX[:k]
    s = sem(model)

    def sc(I):
        P = I.policy = MultiPolicy()
        P.zerodiv = I.collected.setdefault('zerodiv', [])
        ds = [I.dim(x, 'star') for x in axes]
        Ld = I.dim('L', 'full')
        X = I.leafarr('X', tuple(psize(d) for d in ds), ('enum', (-1, 0, 1)), 'int8', tag='X')
        m = machine(I)
        data = matrix(I, m, X)
        lay = layer(I, m, psize(Ld), data, model)
        I.setattr(data, 'val', X)
        for nm, d, f in zip(FAC, ds, factors(I, lay)):
            I.setattr(f, 'val', I.leafarr(nm, (psize(d), psize(Ld)), ('enum', (-1, 1)), 'int8', tag=nm))
        pol = CellPolicy(s, FAC[:k], axes)
        P.add('L', pol)
        P.handlers.append(CellWorlds(axes, cell_preds(s, pol)))
        E = Effects()
        P.handlers.append(E)
        lb = I.getattr(lay, 'lbda')
        I.setattr(lb, 'beta_prior', (alg.sym(ALPHA, '+').with_dt('pyfloat'), alg.sym(BETA, '+').with_dt('pyfloat')))
        get = I.getfn('lom.lambda_update_wrappers.get_update_fct')
        if late:
            hs, P.handlers[:] = list(P.handlers), []
            restore = late(I, m, k)
            f = I.call(get, [lb], {}, None)
            I.call(f, [lb], {}, None)
            restore()
            P.handlers[:] = hs
            I.mark()
        else:
            I.mark()
            f = I.call(get, [lb], {}, None)
        I.call(f, [lb], {}, None)
        v = I.getattr(lb, 'val')
        if not I.isnum(v):
            raise Undecided('noise parameter is %r' % (v,))
        I.collected.setdefault('out', []).append(
            {'val': I.toR(v), 'signs': dict(I.signs), 'signq': {x: I.signq[x] for x in I.signs}, 'inexact': I.inexact,
             'weights': list(I.weights), 'skipped': I.aux.get('skipped')})
    r = I.explore(sc)
    take(o, I, r)
    for (kind, msg), w in r.alarms.items():
        if kind in kinds:
            o.find(kind, construct, msg, w or construct)
        elif kind == 'uncaught':
            o.undecided.append('%s: %s (%s)' % (kind, msg, w))
    for kind, msg, w in effects(I):
        if kind in kinds:
            o.find(kind, '%s [%s]' % (where_fn(w) or construct, construct), msg, w or construct)
    undec(o, r)
    if 'noise' not in kinds:
        return o
    if o.findings or o.undecided:
        return o
    try:
        verify(I, I.collected.get('out', []), axes)
        for d in I.collected.get('zerodiv', []):
            nonzero(I, d, axes)
    except Table as e:
        if e.definite:
            o.find(e.kind, construct, e.msg, e.where or construct)
        else:
            o.undecided.append(e.msg)
    except Undecided as e:
        o.undecided.append(str(e))
    return o


def verify(I, outs, axes):
    al, be = alg.sym(ALPHA, '+'), alg.sym(BETA, '+')
    AL, BE = next(iter(al.atoms())), next(iter(be.atoms()))
    if not outs:
        raise Undecided('no path ends')
    logit = None
    for o in outs:
        if o['inexact'] and o['inexact'] != 'correlated sign tests':
            raise Undecided(o['inexact'])
        if o['skipped']:
            raise Table('noise', 'the update may be left early')
        if o['weights']:
            raise Table('noise', 'the update depends on random draws')
        v = o['val']
        if alg.is_zero(v):
            continue
        q = alg.add(rc(1), alg.exp(alg.neg(v)))     # one over the logistic of the dispersion
        num, den = split(q)
        # scale so that the denominator (correct + alpha) has alpha with coefficient one
        li = alg.linear_in(den, lambda a: a in (AL, BE))
        lj = alg.linear_in(num, lambda a: a in (AL, BE))
        if li is None or lj is None:
            raise Table('noise', 'the dispersion is %s' % alg.show(v)[:200])
        ca = li[0].get(AL, rc(0)).const()
        if not ca:
            raise Table('noise', 'the prior count alpha does not enter the numerator: logistic of the dispersion is (%s)/(%s)' % (
                alg.show(den)[:120], alg.show(num)[:120]))
        den, num = alg.div(den, rc(ca)), alg.div(num, rc(ca))
        A, B = alg.sub(den, al), alg.sub(num, alg.add(al, be))
        for what, x in (('numerator', A), ('denominator', B)):
            if any(a in (AL, BE) for a in x.all_atoms()):
                raise Table('noise', 'the prior counts enter the %s as %s' % (what, alg.show(x)[:150]))
        ta, tb = tabulate(I, A, axes), tabulate(I, B, axes)
        for (x, pr) in CELLS:
            if ta[(x, pr)] != {Fraction(int(x == pr))}:
                raise Table('noise', 'a cell with data %d and prediction %d counts %s as correct where %d is required' % (
                    x, pr, '/'.join(map(str, sorted(ta[(x, pr)]))), x == pr))
            if tb[(x, pr)] != {Fraction(int(x != 0))}:
                raise Table('noise', 'a cell with data %d and prediction %d counts %s as observed where %d is required' % (
                    x, pr, '/'.join(map(str, sorted(tb[(x, pr)]))), x != 0))
        if logit is not None and not alg.req(logit[0], v):
            pass
        logit = (v, A, B)
    if logit is None:
        raise Table('noise', 'the dispersion is set to 0 whatever the data')
    floor(outs, logit, AL, BE)


def nonzero(I, d, axes):
    """d cannot vanish: nonnegative count of cells plus a positive combination of the prior counts"""
    ab = {next(iter(alg.sym(x, '+').atoms())) for x in (ALPHA, BETA)}
    li = alg.linear_in(d, lambda a: a in ab)
    cs = [c.const() for c in li[0].values()] if li else []
    ok = bool(cs) and all(c is not None for c in cs)
    if ok:
        t = tabulate(I, li[1], axes)
        s = 1 if cs[0] > 0 else -1
        ok = all(s * c > 0 for c in cs) and all(s * v >= 0 for k, vs in t.items() for v in vs)
    if not ok:
        raise Undecided('the denominator %s may be zero' % alg.show(d)[:150])


def split(q):
    """numerator and denominator polynomials (negative powers cleared)"""
    n, d = R(q.n), R(q.d)
    mins = {}
    for m in q.n:
        for i, e in m:
            if e < 0:
                mins[i] = min(mins.get(i, 0), e)
    for i, e in mins.items():
        f = alg.powi(alg.ra(alg._names[i]), -e)
        n, d = alg.mul(n, f), alg.mul(d, f)
    return n, d


def floor(outs, logit, AL, BE):
    """zero is used exactly when the logit is not positive: path conditions evaluated on both sides of the threshold"""
    v, A, B = logit
    import random
    rnd = random.Random(1)
    atoms = sorted({a for o in outs for q in list(o['signq'].values()) + [o['val']] for a in q.all_atoms()
                    if a.kind not in ('exp', 'log')} | A.all_atoms() | B.all_atoms(), key=lambda a: a.i)
    for trial in range(400):
        env = {a: rnd.choice([0.5, 1.0, 1.5, 2.0, 3.0, 5.0]) if a in (AL, BE) else float(rnd.randint(1, 12)) for a in atoms}
        a, b = alg.evaluate(A, env), alg.evaluate(B, env)
        if not (0 <= a <= b):
            continue
        al, be = env[AL], env[BE]
        import math
        want = max(0.0, math.log((a + al) / (b - a + be)))
        hit = []
        for o in outs:
            ok = True
            for k, s in o['signs'].items():
                try:
                    x = alg.evaluate(o['signq'][k], env)
                except (ValueError, ZeroDivisionError):
                    ok = False
                    break
                sx = '0' if abs(x) < 1e-12 else '+' if x > 0 else '-'
                if sx != s:
                    ok = False
                    break
            if ok:
                hit.append(o)
        if not hit:
            continue
        for o in hit:
            e = alg.evaluate(alg.exp(o['val']), env)
            got = math.log(e) if e > 0 else math.nan
            if math.isnan(got):
                raise Undecided('value of the dispersion')
            if abs(got - want) > 1e-9:
                raise Table('noise', 'with %g of %g observed cells correct and prior (%g, %g) the dispersion becomes %.4g where '
                            '%.4g is required' % (a, b, al, be, got, want))


def qjob(N, D, L, kinds):
    """quantised model: small data enumerated"""
    o = Outcome()
    construct = '%s [qL-AND, %dx%d cells, %d dimensions]' % (FILE, N, D, L)
    I = Engine(max_time=200)
    I.preload()

    def sc(I):
        P = I.policy = MultiPolicy()
        P.zerodiv = []
        X = I.leafarr('X', (N, D), ('enum', (-1, 0, 1)), 'int8', tag='X')
        m = machine(I)
        data = matrix(I, m, X)
        lay = layer(I, m, L, data, 'qL-AND')
        for nm, n, f in zip(FAC, (N, D), factors(I, lay)):
            I.setattr(f, 'val', I.leafarr(nm, (n, L), ('enum', (-1, 1)), 'int8', tag=nm))
        I.setattr(I.getattr(lay, 'q'), 'val', I.leafarr('q', (1, D), ('enum', tuple(range(1, L + 2))), 'int8', tag='q'))
        E = Effects()
        P.handlers.append(E)
        lb = I.getattr(lay, 'lbda')
        I.setattr(lb, 'beta_prior', (alg.sym(ALPHA, '+').with_dt('pyfloat'), alg.sym(BETA, '+').with_dt('pyfloat')))
        I.mark()
        f = I.call(I.getfn('lom.lambda_update_wrappers.get_update_fct'), [lb], {}, None)
        I.call(f, [lb], {}, None)
        E.on = False
        v = I.getattr(lb, 'val')
        if not I.isnum(v):
            raise Undecided('noise parameter is %r' % (v,))
        if I.weights:
            I.alarm('noise', 'the update depends on random draws')
        tot = {(0, 0)}
        for n in range(N):
            for d in range(D):
                x = I.facts.get(('X', (n, d)))
                lo = hi = 0
                for l in range(L):
                    a, b = I.facts.get(('Z', (n, l))), I.facts.get(('U', (d, l)))
                    lo += a == 1 and b == 1
                    hi += a != -1 and b != -1
                q = I.facts.get(('q', (0, d)))
                qs = tuple(range(1, L + 2)) if q is None else (q,)
                cell = set()
                for xx in (-1, 0, 1) if x is None else (int(x),):
                    for pr in {1 if c >= qq else -1 for qq in qs for c in range(lo, hi + 1)}:
                        cell.add((int(pr == xx), int(xx != 0)))
                tot = {(a + c, b + e) for a, b in tot for c, e in cell}
        if len(tot) > 1:
            I.alarm('noise', 'the update does not depend on the numbers of observed and correctly predicted cells')
            return
        I.collected.setdefault('out', {}).setdefault(next(iter(tot)), []).append(
            {'val': I.toR(v), 'signs': dict(I.signs), 'signq': {x: I.signq[x] for x in I.signs}})
    r = I.explore(sc)
    take(o, I, r)
    for (kind, msg), w in r.alarms.items():
        if kind in kinds:
            o.find(kind, construct, msg, w or construct)
        elif kind == 'uncaught':
            o.undecided.append('%s: %s (%s)' % (kind, msg, w))
    for kind, msg, w in effects(I):
        if kind in kinds:
            o.find(kind, '%s [%s]' % (where_fn(w) or construct, construct), msg, w or construct)
    undec(o, r)
    o.bounded = '%dx%d cells, %d dimensions' % (N, D, L)
    if o.findings or o.undecided or 'noise' not in kinds:
        return o
    al, be = alg.sym(ALPHA, '+'), alg.sym(BETA, '+')
    AL, BE = next(iter(al.atoms())), next(iter(be.atoms()))
    try:
        for (p, nd), outs in sorted(I.collected.get('out', {}).items()):
            want = alg.div(alg.add(rc(nd), alg.add(al, be)), alg.add(rc(p), al))
            for u in outs:
                if not alg.is_zero(u['val']) and not alg.req(alg.add(rc(1), alg.exp(alg.neg(u['val']))), want):
                    raise Table('noise', 'with %d of %d observed cells correct the dispersion becomes %s' % (p, nd, alg.show(u['val'])[:150]))
            floor(outs, (None, rc(p), rc(nd)), AL, BE)
    except Table as e:
        o.find(e.kind, construct, e.msg, e.where or construct)
    except Undecided as e:
        o.undecided.append(str(e))
    return o


def c07(tier):
    return effect_jobs(('noise', 'uncaught'), tier)


def effect_jobs(kinds, tier):
    return [Job('noise update %s, %d factors' % (m, k), job, m, k, kinds, weight=k) for m in CANON for k in (2, 3)] + [
        Job('noise update OR-AND-IBP, 2 factors', job, 'OR-AND-IBP', 2, kinds)] + [
        Job('noise update qL-AND, %dx%d cells, %d dimensions' % t, qjob, *t, kinds) for t in (
            [(1, 1, 1), (1, 1, 2), (2, 1, 1), (1, 2, 1)] + ([(1, 1, 3), (2, 1, 2), (1, 2, 2), (2, 2, 1)] if tier != 'quick' else []))]

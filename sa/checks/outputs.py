"""C09: layer output for every technique."""
import itertools
from fractions import Fraction
from .. import alg
from ..alg import R, rc
from .common import *
from ..build import *
from ..effects import Effects, effects

FILE = 'lom/machine.py:MachineLayer.output'
KINDS = ('output', 'uncaught')
GEN = {'lom.auxiliary_functions.lom_generate_data_fast': 'fast', 'lom.auxiliary_functions.lom_generate_data_fuzzy': 'fuzzy',
       'lom.auxiliary_functions.lom_generate_data': 'slow', 'lom._numba.lom_outputs.MAX_AND_product_2d': 'max',
       'lom._numba.lom_outputs_fuzzy.MAX_AND_product_fuzzy': 'maxfuzzy', 'lom._numba.lom_outputs.qL_AND_product': 'ql'}
HALF = Fraction(1, 2)


def gens(calls):
    """product generators as opaque functions that record their arguments"""

    def mk(kind):
        def f(I, fn, args, kw):
            if not I.aux.get('out'):
                return NotImplemented
            vs = I.bind(fn, args, kw)
            vals = list(vs.values())
            k = len(I.aux['calls'])
            if kind == 'ql':
                rec = {'kind': kind, 'args': vals}
                I.aux['calls'].append(rec)
                key = ('G', k)
                I.facts[key] = g = (-1, 1)[I.choose(2)]
                rec['res'] = g
                return I.wrap(g, 'int8')
            if kind == 'maxfuzzy':
                fs, model, fuzzy, lb = vals[:2], None, True, vals[2]
            elif kind == 'max':
                fs, model, fuzzy, lb = list(vals[0].v if type(vals[0]) is LList else vals[0]), None, False, vals[1]
            else:
                fs, model = list(vals[0].v if type(vals[0]) is LList else vals[0]), vals[1]
                fuzzy, lb = kind == 'fuzzy' or (len(vals) > 2 and I.truth(vals[2])), None
            rec = {'kind': kind, 'args': [I.snap(x) for x in fs], 'model': model, 'fuzzy': fuzzy, 'lb': lb}
            I.aux['calls'].append(rec)
            shape = tuple(x.shape[0] for x in fs)
            dt = 'float64' if fuzzy or lb is not None else 'int8'
            if fuzzy or lb is not None:
                dom = ('atom', '' if kind == 'fuzzy' else '0+')
            else:
                dom = ('atom', '') if I.aux.get('many') else ('enum', (-1, 1))
                rec['atom'] = bool(I.aux.get('many'))
            rec['name'] = 'G%d' % k
            return I.leafarr('G%d' % k, shape, dom, dt)
        return f
    return {q: mk(k) for q, k in GEN.items()}


class Bad(Exception):
    pass


def scenario(model, k, tech, T, noisy, probs, stale):
    """T: number of retained samples, 0: no inference has been run"""
    def sc(I):
        P = I.policy = MultiPolicy()
        E = Effects()
        P.handlers.append(E)
        axes = AX[:k]
        ds = [I.dim(x, 'star') for x in axes]
        Ld = I.dim('L', 'star') if model != 'MAX-AND' else 3
        L = psize(Ld)
        ls = Ld.star if model != 'MAX-AND' else 1
        I.aux['out'] = False
        I.aux['calls'] = []
        I.aux['many'] = T > 8 and tech == 'mc'
        m = machine(I)
        X = I.leafarr('X', tuple(psize(d) for d in ds), ('enum', (-1, 0, 1)), 'int8', tag='X')
        data = matrix(I, m, X)
        lay = layer(I, m, L, data, model)
        fs = factors(I, lay)
        lb = I.getattr(lay, 'lbda')
        mx = model == 'MAX-AND'
        if mx:
            I.setattr(lb, 'val', I.leafarr('lbda', (L + 1,), ('atom', '0+'), 'float64', tag='lbda'))
        else:
            I.setattr(lb, 'val', alg.sym(('lbda',), '0+', 'lbda').with_dt('float64'))
        for nm, d, f in zip(FAC, ds, fs):
            I.setattr(f, 'val', I.leafarr(nm, (psize(d), L), ('enum', (-1, 1)), 'int8', tag=nm))
            if T:
                I.setattr(f, 'trace', I.leafarr('T' + nm, (T, psize(d), L), ('atom', ''), 'int8', tag='T' + nm))
                I.setattr(f, 'trace_index', T)
        if model == 'qL-AND':
            I.setattr(I.getattr(lay, 'q'), 'val', I.leafarr('q', (1, psize(ds[1])), ('atom', '+'), 'int8', tag='q'))
        if T:
            I.setattr(lb, 'trace', I.leafarr('Tlbda', (T, L + 1) if mx else (T,), ('atom', '0+'), 'float64' if mx else 'float32', tag='Tlbda'))
            I.setattr(lb, 'trace_index', T)
        if stale:
            I.setattr(lay, 'prediction', I.leafarr('OLD', tuple(psize(d) for d in ds), ('atom', '0+'), 'float64', tag='OLD'))
        I.mark()
        I.aux['out'] = True
        out = I.call(I.getattr(lay, 'output'), [], dict(technique=tech, noisy_emission=noisy, map_to_probabilities=probs), None)
        E.on = False
        m2 = I.getattr(lay, 'model')
        if m2 != model:
            I.alarm('label', 'output leaves the layer labelled %r' % (m2,))
        calls = I.aux['calls']
        c = tuple(d.star for d in ds)
        if getattr(out, 'shape', None) is None or len(out.shape) != k or any(
                alg.sub(I.toR(a), b.size).key() != rc(0).key() for a, b in zip(out.shape, ds)):
            I.alarm('output', 'the output is not an array with the sides of the data')
            return
        got = I.elem(out, c)
        if not I.isnum(got):
            raise Undecided('output is %r' % (got,))
        got = I.toR(got)
        try:
            exp = expected(I, model, k, tech, T, noisy, calls, ds, ls, c, lay, lb)
        except Bad as e:
            I.alarm('output', str(e))
            return
        if exp is None:
            raise Undecided('output without a call of a product generator')
        if not probs:
            exp = alg.sub(alg.mul(rc(2), exp), rc(1))
        if not alg.req(exp, got):
            I.alarm('output', 'the output is %s where %s is required' % (alg.show(got)[:120], alg.show(exp)[:120]))
    return sc


def tmean(I, name, idx, T):
    s = rc(0)
    for t in range(T):
        s = alg.add(s, alg.sym(('leaf', name, t) + idx, '', 'leaf'))
    return alg.div(s, rc(T))


def lmean(T, idx=()):
    if not T:
        return alg.sym(('leaf', 'lbda') + idx, '0+', 'leaf') if idx else alg.sym(('lbda',), '0+', 'lbda')
    s = rc(0)
    for t in range(T):
        s = alg.add(s, alg.sym(('leaf', 'Tlbda', t) + idx, '0+', 'leaf'))
    return alg.div(s, rc(T))


def val(I, a, idx):
    v = I.elem(a, idx)
    if not I.isnum(v):
        raise Undecided('argument of a product generator is %r' % (v,))
    return I.toR(v)


def expected(I, model, k, tech, T, noisy, calls, ds, ls, c, lay, lb):
    mx = model == 'MAX-AND'
    sem = 'OR-AND' if model == 'OR-AND-IBP' else model
    if model == 'qL-AND':
        if len(calls) != 1:
            raise Bad('the prediction of a cell is computed %d times' % len(calls))
        r = calls[0]
        u, z, q = r['args'][:3]
        x, y = (val(I, a, (ls,)) for a in (u, z))
        if alg.sub(I.toR(q), alg.sym(('leaf', 'q', 0, c[1]), '+', 'leaf')).key() != rc(0).key():
            raise Bad('the threshold used is %s' % alg.show(I.toR(q)))
        zf, uf = I.facts.get(('Z', (c[0], ls))), I.facts.get(('U', (c[1], ls)))
        if zf is None or uf is None or {x.key(), y.key()} != {rc(zf).key(), rc(uf).key()}:
            raise Bad('the rows that enter the prediction are not the rows of the cell')
        return rc(Fraction(1 + r['res'], 2))
    n = T if tech == 'mc' else 1
    if len(calls) != n:
        if not calls:
            return None
        raise Bad('%d predictions are computed where %d are required' % (len(calls), n))
    total = rc(0)
    for t, r in enumerate(calls):
        if len(r['args']) != k:
            raise Bad('%d factors enter the prediction' % len(r['args']))
        fuzzy = tech in ('factor_mean', 'factor_mean_old')
        if r['kind'] not in ('max', 'maxfuzzy') and r['model'] != sem:
            raise Bad('the prediction of model %s is computed for a layer of model %s' % (r['model'], sem))
        if r['fuzzy'] and not fuzzy:
            raise Bad('a probabilistic product is used for technique %s' % tech)
        if fuzzy and not r['fuzzy']:
            raise Bad('a deterministic product is used for technique %s' % tech)
        for i, a in enumerate(r['args']):
            nm = FAC[i]
            if getattr(a, 'shape', None) is None or len(a.shape) != 2 or alg.sub(I.toR(a.shape[0]), ds[i].size).key() != rc(0).key():
                raise Bad('argument %d of the prediction is not the factor of axis %d' % (i, i))
            v = val(I, a, (ds[i].star, ls))
            if tech == 'mc':
                at = [a.key for a in v.atoms()]
                s = at[0][2] if len(at) == 1 and at[0][:2] == ('leaf', 'T' + nm) else None
                if s is None or v.key() != alg.sym(('leaf', 'T' + nm, s, ds[i].star, ls), '', 'leaf').key():
                    raise Bad('factor %d enters as %s, not as a retained sample' % (i, alg.show(v)[:80]))
                if r.setdefault('t', s) != s:
                    raise Bad('samples %d and %d are combined' % (r['t'], s))
                continue
            if tech == 'point_estimate' or not T:
                f = I.facts.get((nm, (ds[i].star, ls)))
                if f is None:
                    raise Bad('factor %d does not enter as its current state' % i)
                mean = rc(f)
            else:
                mean = tmean(I, 'T' + nm, (ds[i].star, ls), T)
            if tech == 'point_estimate':
                want = mean
            elif tech == 'factor_map':
                if v.const() not in (-1, 1):
                    raise Bad('factor %d enters as %s, not as a sign' % (i, alg.show(v)[:80]))
                s = mean.const()
                if s is None:
                    pos = I.truth(I.compare('Gt', mean, rc(0)))
                    if not pos and v.const() == 1:
                        neg = I.truth(I.compare('Lt', mean, rc(0)))
                        if not neg:
                            continue
                else:
                    pos = s > 0
                want = rc(1 if pos else -1)
            elif r['kind'] == 'fuzzy':
                want = mean
            else:
                want = alg.mul(rc(HALF), alg.add(mean, rc(1)))
            if not alg.req(want, v):
                raise Bad('factor %d enters the prediction as %s where %s is required' % (i, alg.show(v)[:100], alg.show(want)[:100]))
        if mx:
            for l in range(3):
                w = val(I, r['lb'], (l,))
                if tech == 'mc':
                    want = alg.sym(('leaf', 'Tlbda', r['t'], l), '0+', 'leaf')
                elif tech == 'factor_mean':
                    want = lmean(T, (l,))
                else:
                    want = None
                    if not any(alg.req(w, x) for x in (lmean(0, (l,)), lmean(T, (l,)))):
                        raise Bad('the dispersion of dimension %d enters as %s' % (l, alg.show(w)[:80]))
                if want is not None and not alg.req(want, w):
                    raise Bad('the dispersion of dimension %d enters as %s' % (l, alg.show(w)[:80]))
        g = result(I, r, c, fuzzy)
        total = alg.add(total, g)
    if tech == 'mc':
        if sorted(r['t'] for r in calls) != list(range(T)):
            raise Bad('the average uses samples %s of %d' % (sorted(r['t'] for r in calls), T))
        total = alg.div(total, rc(T))
    if noisy and not mx:
        s = alg.expit(lmean(T))
        total = alg.add(alg.mul(total, s), alg.mul(alg.sub(rc(1), total), alg.sub(rc(1), s)))
    return total


def result(I, r, c, fuzzy):
    """probability of a 1 that the generator's result stands for"""
    if r['kind'] in ('max', 'maxfuzzy') or r['kind'] == 'fast' and fuzzy:
        return alg.sym(('leaf', r['name']) + c, '0+', 'leaf')
    if r['kind'] == 'fuzzy':
        return alg.mul(rc(HALF), alg.add(alg.sym(('leaf', r['name']) + c, '', 'leaf'), rc(1)))
    if r.get('atom'):
        return alg.mul(rc(HALF), alg.add(alg.sym(('leaf', r['name']) + c, '', 'leaf'), rc(1)))
    g = I.facts.get((r['name'], c))
    if g is None:
        raise Bad('the predicted value does not enter the output')
    return rc(Fraction(1 + g, 2))


def job(model, k, tech, T, noisy, probs, stale, kinds):
    o = Outcome()
    construct = '%s [%s, %d factors, %s%s]' % (FILE, model, k, tech, ', noisy' if noisy else '')
    I = Engine(overrides=gens(None), max_time=100)
    I.preload()
    r = I.explore(scenario(model, k, tech, T, noisy, probs, stale))
    take(o, I, r)
    for (kind, msg), w in r.alarms.items():
        if kind in kinds:
            o.find(kind, construct, msg, w or construct)
        elif kind == 'uncaught':
            o.undecided.append('%s: %s (%s)' % (kind, msg, w))
    for kind, msg, w in effects(I):
        if kind in kinds:
            o.find(kind, '%s [%s]' % (where_fn(w) or construct, construct), msg, w or construct)
    undec(o, r)
    if T > 1 or tech == 'mc':
        o.bounded = o.bounded or '%d retained samples' % T
    return o


MANY = 300
TECHS = ['point_estimate', 'factor_map', 'factor_mean', 'mc']


def c09(tier):
    return effect_jobs(KINDS, tier)


def effect_jobs(kinds, tier):
    js = []
    for model, ks in [(m, (2, 3)) for m in CANON] + [('OR-AND-IBP', (2,)), ('MAX-AND', (2,)), ('qL-AND', (2,))]:
        for k in ks:
            if tier == 'quick' and model in CANON[1:] and k == 3:
                continue
            techs = TECHS + (['factor_mean_old'] if model in CANON + ['OR-AND-IBP'] else [])
            if model == 'qL-AND':
                techs = ['point_estimate']
            for t in techs:
                many = (MANY,) if t != 'point_estimate' and (k == 2 or tier != 'quick') else ()
                for T in ((2, 0) if tier == 'quick' else (2, 3, 1, 0)) + many:
                    if t == 'mc' and not T:
                        continue
                    for noisy, probs, stale in ((False, True, True), (True, True, False), (True, False, False), (False, False, False)):
                        if model == 'qL-AND' and noisy:
                            continue
                        if T == MANY and not (noisy and probs):
                            continue
                        if tier == 'quick' and (model not in ('OR-AND', 'MAX-AND', 'qL-AND') and (noisy, probs) == (False, False)):
                            continue
                        js.append(Job('output of %s, %d factors, %s, %s%s%s' % (
                            model, k, t, '%d samples' % T if T else 'no trace', ', noisy' if noisy else '',
                            '' if probs else ', [-1,1]'), job, model, k, t, T, noisy, probs, stale, kinds))
    return js

"""C02: probabilistic products."""
import itertools
from .. import alg
from ..alg import R, rc
from .common import *
from ..build import FAC, AX, psize
from ..interp import Policy
from ..effects import Effects, effects
from .products import conc_expect, describe, facts, AUX, sides

KINDS = ('prob', 'shape', 'narrow', 'uncaught')


def spec(model, rows):
    """exact probability of a 1: rows of letter probabilities per latent dimension"""
    o, i = model.split('-')
    ps = []
    for r in rows:
        tot = rc(0)
        for t in itertools.product((0, 1), repeat=len(r)):
            if op(i, sum(t), len(t)):
                x = rc(1)
                for b, p in zip(t, r):
                    x = alg.mul(x, p if b else alg.sub(rc(1), p))
                tot = alg.add(tot, x)
        ps.append(tot)
    dist = {(0, 0): rc(1)}
    for p in ps:
        new = {}
        for (a, b), w in dist.items():
            for k, x in (((min(a + 1, 2), b), p), ((a, min(b + 1, 2)), alg.sub(rc(1), p))):
                new[k] = alg.add(new.get(k, rc(0)), alg.mul(w, x))
        dist = new
    tot = rc(0)
    for (a, b), w in dist.items():
        if op(o, a, a + b) if o not in ('AND', 'NAND') else (b == 0) == (o == 'AND'):
            tot = alg.add(tot, w)
    return tot


def call_fast(I, fs, model):
    return I.call(I.getfn(AUX + 'lom_generate_data_fast'), [LList(fs), model], {'fuzzy': True}, None)


def call_slow(I, fs, model):
    """factors and result are on the [-1,1] scale"""
    gs = [I.binop('Sub', I.binop('Mult', rc(2).with_dt('pyfloat'), f), rc(1).with_dt('pyfloat')) for f in fs]
    x = I.call(I.getfn(AUX + 'lom_generate_data_fuzzy'), [LList(gs), model], {}, None)
    return I.binop('Mult', rc(alg.Fraction(1, 2)).with_dt('pyfloat'), I.binop('Add', x, rc(1).with_dt('pyfloat')))


CALL = {'lom_generate_data_fast': call_fast, 'lom_generate_data_fuzzy': call_slow}


def scenario(entry, model, k, L):
    """L None: probabilities 0 and 1, any number of dimensions; else: arbitrary probabilities, L dimensions"""
    def sc(I):
        names, dims = FAC[:k], AX[:k]
        ds = [I.dim(x, 'star') for x in dims]
        if L is None:
            Ld = I.dim('L', 'full')
            P = I.policy = ProductPolicy(model, list(names), dims, lo=0, hi=1)
            ls = psize(Ld)
            dom = ('enum', (0, 1))
        else:
            P = I.policy = Policy()
            ls = L
            dom = ('atom', '0+')
        E = Effects()
        P.handlers = [E]
        fs = [I.leafarr(f, (psize(d), ls), dom, 'float64', tag=f) for f, d in zip(names, ds)]
        I.mark()
        if L is None:
            for t in list(I.groups(Ld)):
                I.resolve(Ld, t)
        X = CALL[entry](I, fs, model)
        E.on = False
        c = tuple(d.star for d in ds)
        if not sides(X, ds, k):
            I.alarm('shape', 'the shape of the product is %r' % (getattr(X, 'shape', None),))
            return
        v = I.elem(X, c)
        if not I.isnum(v):
            raise Undecided('value of the product is %r' % (v,))
        v = I.toR(v)
        if L is None:
            got = v.const()
            if got is None:
                raise Undecided('value of the product not determined')
            exp = {1 if outer(model, a, b) else 0 for a, b in P.counts(I, Ld, c)}
            if exp != {got}:
                I.alarm('prob', 'with all entries 0 or 1 the prediction is %s where %s is required (%s)' % (
                    got, ' or '.join(map(str, sorted(exp))), describe(I, P, Ld, c)))
        else:
            rows = [[alg.sym(('leaf', f, d.star, l), '0+', 'leaf') for f, d in zip(names, ds)] for l in range(L)]
            d = alg.sub(v, spec(model, rows))
            if not alg.is_zero(d):
                I.alarm('prob', 'with %d latent dimension%s the prediction differs from the exact probability by %s' % (
                    L, 's' if L > 1 else '', alg.show(d)[:150]))
    return sc


def explore(o, entry, model, k, L, construct, kinds, limit=150):
    I = Engine(max_time=limit)
    I.preload()
    r = I.explore(scenario(entry, model, k, L))
    take(o, I, r)
    for (kind, msg), w in r.alarms.items():
        if kind in kinds:
            o.find(kind, construct, msg, w or construct)
        elif kind == 'uncaught':
            o.undecided.append('%s: %s (%s)' % (kind, msg, w))
    for kind, msg, w in effects(I):
        if kind in kinds:
            o.find(kind, '%s [%s]' % (where_fn(w) or construct, construct), msg, w or construct)
    undec(o, r)


def job(entry, model, k, Ls, full, kinds=KINDS):
    o = Outcome()
    construct = 'lom/auxiliary_functions.py:%s [fuzzy %s, %d factors]' % (entry, model, k)
    for L in Ls:
        explore(o, entry, model, k, L, construct, kinds)
        if o.findings:
            return o
    if full:
        n = len(o.undecided)
        explore(o, entry, model, k, None, construct, kinds)
        if len(o.undecided) > n and n == 0 and not o.findings:
            o.bounded = 'L in %s (any number: %s)' % (list(Ls), o.undecided[0][:150])
            o.undecided = []
    else:
        o.bounded = 'L in %s' % (list(Ls),)
    return o


def c02(tier):
    return effect_jobs(KINDS, tier)


def effect_jobs(kinds, tier):
    q = tier == 'quick'
    pairs = ['%s-%s' % (a, b) for a in OPS for b in OPS]
    js = [Job('fuzzy fast %s, %d factors' % (m, k), job, 'lom_generate_data_fast', m, k, (1, 2, 3) if k == 3 else (1, 2, 3, 4),
              not q or not m.startswith('XOR'), kinds, weight=k * 3) for m in CANON for k in (2, 3)]
    js += [Job('fuzzy fast %s, %d factors' % (m, k), job, 'lom_generate_data_fast', m, k, (2,) if q else (1, 2, 3), not q, kinds,
               weight=k) for m in pairs if m not in CANON for k in (2, 3)]
    js += [Job('fuzzy general %s, %d factors' % (m, k), job, 'lom_generate_data_fuzzy', m, k, (2,) if q else (1, 2, 3), not q, kinds,
               weight=k) for m in pairs for k in (2, 3)]
    js += [Job('fuzzy fast OR-AND, 4 factors', job, 'lom_generate_data_fast', 'OR-AND', 4, (1, 2), False, kinds, weight=5)]
    return js

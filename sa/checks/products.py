"""C01: predictions of every product generator."""
import itertools
from .. import alg
from ..alg import R
from .common import *
from ..build import FAC, AX, psize
from ..interp import Policy
from ..effects import Effects, effects

ALLK = ('product', 'shape', 'narrow', 'uncaught')
AUX = 'lom.auxiliary_functions.'


def scenario(entry, model, k, L, out, vals=(-1, 1), dt='int8', call=None):
    """entry(factors, model) at an arbitrary cell; L None: any number of latent dimensions"""

    def sc(I):
        names, dims = FAC[:k], AX[:k]
        ds = [I.dim(x, 'star') for x in dims]
        if L is None:
            Ld = I.dim('L', 'full')
            P = I.policy = ProductPolicy(model, list(names), dims, lo=vals[0], hi=vals[1])
            ls = psize(Ld)
        else:
            P = I.policy = Policy()
            ls = L
        E = Effects()
        P.handlers = [E]
        fs = [I.leafarr(f, (psize(d), ls), ('enum', vals), dt, tag=f) for f, d in zip(names, ds)]
        I.mark()
        f = I.getfn(AUX + entry)
        if L is None:
            I.groups(Ld)
        X = call(I, f, fs) if call else I.call(f, [LList(fs), model], {}, None)
        E.on = False
        c = tuple(d.star for d in ds)
        if not sides(X, ds, k):
            I.alarm('shape', 'the shape of the product is %r' % (getattr(X, 'shape', None),))
            return
        v = I.elem(X, c)
        if L is None:
            exp = {1 if outer(model, a, b) else -1 for a, b in P.counts(I, Ld, c)}
        else:
            exp = conc_expect(I, model, names, c, L, vals)
        v = I.concrete(v)
        if vals == (False, True) or vals == (0, 1):
            v = {0: -1, 1: 1, False: -1, True: 1}.get(v, v)
        if v is None:
            raise Undecided('value of the product not determined')
        if exp != {v}:
            I.alarm('product', 'prediction is %s where %s is required (%s)' % (
                v, ' or '.join(map(str, sorted(exp))), describe(I, P, Ld, c) if L is None else facts(I)))
    return sc


def sides(X, ds, k):
    return getattr(X, 'shape', None) is not None and len(X.shape) == k and all(
        alg.sub(a if type(a) is R else alg.rc(a), b.size).key() == alg.rc(0).key() for a, b in zip(X.shape, ds))


def facts(I):
    return ', '.join('%s[%s]=%s' % (n, ','.join(map(str, i)), v) for (n, i), v in sorted(I.facts.items(), key=repr))


def describe(I, P, Ld, c):
    return '(active, inactive) dimensions, 2 = two or more: %s' % ' or '.join(map(str, sorted(P.counts(I, Ld, c))))


def conc_expect(I, model, names, c, L, vals):
    opts = {(0, 0)}
    for l in range(L):
        vs = []
        for nm, p in zip(names, c):
            v = I.facts.get((nm, (p, l)))
            vs.append(vals if v is None else (v,))
        o = {inner(model, [1 if x == vals[1] else -1 for x in t]) for t in itertools.product(*vs)}
        opts = {(min(a + x, 2), min(b + (not x), 2)) for a, b in opts for x in o}
    return {1 if outer(model, a, b) else -1 for a, b in opts}


def explore(o, entry, model, k, L, construct, limit=200, kinds=ALLK, **kw):
    I = Engine(max_time=limit)
    I.preload()
    writes = {}
    r = I.explore(scenario(entry, model, k, L, o, **kw))
    take(o, I, r)
    for (kind, msg), w in r.alarms.items():
        if kind in kinds:
            o.find(kind, construct, msg, w or construct)
        elif kind == 'uncaught':
            o.undecided.append('%s: %s (%s)' % (kind, msg, w))
    for kind, msg, w in effects(I):
        if kind in kinds:
            o.find(kind, '%s [%s]' % (where_fn(w) or construct, construct), msg, w or construct)
    undec(o, r)


def job(entry, model, k, Ls=(1, 2, 3), **kw):
    o = Outcome()
    construct = 'lom/auxiliary_functions.py:%s [%s, %d factors]' % (entry, model, k)
    explore(o, entry, model, k, None, construct, **kw)
    if o.findings or not o.undecided:
        return o
    return bounded(entry, model, k, Ls, o.undecided, o, **kw)


def bounded(entry, model, k, Ls, why=None, old=None, **kw):
    o = Outcome()
    if old:
        old.undecided = []
        o.merge(old)
    construct = 'lom/auxiliary_functions.py:%s [%s, %d factors]' % (entry, model, k)
    for L in Ls:
        explore(o, entry, model, k, L, construct, **kw)
        if o.findings:
            return o
        if o.undecided:
            o.undecided = (why or []) + o.undecided
            if L == min(Ls):
                tinies(o, entry, model, k, construct, kw.pop('kinds', ALLK), **kw)
            return o
    o.bounded = 'L in %s%s' % (list(Ls), ' (any number: %s)' % why[0][:150] if why else '')
    return o


def btp(I, f, fs):
    return I.call(f, fs, {}, None)


def c01(tier):
    js = [Job('lom_generate_data_fast %s, %d factors' % (m, k), job, 'lom_generate_data_fast', m, k, weight=k)
          for m in CANON for k in (2, 3)]
    pairs = ['%s-%s' % (a, b) for a in OPS for b in OPS]
    rest = [p for p in pairs if p not in CANON]
    if tier == 'quick':
        js += [Job('lom_generate_data %s, 2 factors' % m, job, 'lom_generate_data', m, 2, weight=20)
               for m in ('AND-OR', 'NAND-AND', 'OR-NOR', 'NOR-XOR', 'XOR-NAND', 'NXOR-NXOR')]
        js += [Job('lom_generate_data %s, %d factors, L=2' % (m, k), bounded, 'lom_generate_data', m, k, (2,), weight=k)
               for m in pairs for k in (2, 3)]
        js += [Job('lom_generate_data_fast %s, %d factors, L=2' % (m, k), bounded, 'lom_generate_data_fast', m, k, (2,))
               for m in rest for k in (2, 3)]
        js += [Job('lom_generate_data_fast OR-AND, 4 factors, L=1', bounded, 'lom_generate_data_fast', 'OR-AND', 4, (1,))]
    else:
        js += [Job('lom_generate_data %s, %d factors' % (m, k), job, 'lom_generate_data', m, k, weight=k * 10, limit=1200)
               for m in pairs for k in (1, 2, 3)]
        js += [Job('lom_generate_data_fast %s, %d factors' % (m, k), job, 'lom_generate_data_fast', m, k, weight=k * 10,
                   limit=1200) for m in rest for k in (2, 3)]
        js += [Job('lom_generate_data_fast %s, 4 factors, L<=2' % m, bounded, 'lom_generate_data_fast', m, 4, (1, 2), weight=30,
                   limit=1200) for m in CANON]
    js += [Job('boolean_tensor_product', bjob)]
    return js


def effect_jobs(kinds, tier):
    """the product generators again, for side conditions"""
    js = [Job('lom_generate_data_fast %s, %d factors' % (m, k), ejob, 'lom_generate_data_fast', m, k, kinds, weight=k)
          for m in CANON for k in (2, 3)]
    pairs = ['%s-%s' % (a, b) for a in OPS for b in OPS]
    sel = ('AND-OR', 'NAND-AND', 'OR-NOR', 'NOR-XOR', 'XOR-NAND', 'NXOR-NXOR') if tier == 'quick' else pairs
    js += [Job('lom_generate_data %s, 2 factors' % m, ejob, 'lom_generate_data', m, 2, kinds, weight=20) for m in sel]
    js += [Job('boolean_tensor_product', bjob, kinds)]
    return js


def ejob(entry, m, k, kinds):
    return job(entry, m, k, kinds=kinds)


def tiny(entry, model, k, sizes, L, vals, dt, call):
    """every cell of a product of fixed small size"""
    def sc(I):
        P = I.policy = Policy()
        E = Effects()
        P.handlers = [E]
        names = FAC[:k]
        fs = [I.leafarr(f, (n, L), ('enum', vals), dt, tag=f) for f, n in zip(names, sizes)]
        I.mark()
        f = I.getfn(AUX + entry)
        X = call(I, f, fs) if call else I.call(f, [LList(fs), model], {}, None)
        E.on = False
        if getattr(X, 'shape', None) is None or tuple(X.shape) != tuple(sizes):
            I.alarm('shape', 'the shape of the product is %r' % (getattr(X, 'shape', None),))
            return
        for c in itertools.product(*map(range, sizes)):
            v = I.concrete(I.elem(X, c))
            if v is None:
                raise Undecided('value of the product not determined')
            if vals[0] != -1:
                v = 1 if v else -1
            exp = conc_expect(I, model, names, c, L, vals)
            if exp != {v}:
                I.alarm('product', 'prediction of cell %s of a %s product is %s where %s is required (%s)' % (
                    c, 'x'.join(map(str, sizes)), v, ' or '.join(map(str, sorted(exp))), facts(I)))
                return
    return sc


def tinies(o, entry, model, k, construct, kinds, vals=(-1, 1), dt='int8', call=None, **kw):
    """fallback: products of small fixed sizes"""
    why, o.undecided = o.undecided, []
    for j in range(k):
        sizes = tuple(2 if i == j else 1 for i in range(k))
        I = Engine(max_time=100)
        I.preload()
        r = I.explore(tiny(entry, model, k, sizes, 2, vals, dt, call))
        take(o, I, r)
        for (kind, msg), w in r.alarms.items():
            if kind in kinds:
                o.find(kind, construct, msg, w or construct)
        undec(o, r)
        if o.findings:
            return
    if o.undecided:
        o.undecided = why + o.undecided
    else:
        o.bounded = 'sides 1 and 2, two latent dimensions (%s)' % why[0][:150]


def bjob(kinds=ALLK):
    o = Outcome()
    construct = 'lom/auxiliary_functions.py:boolean_tensor_product'
    kw = dict(vals=(False, True), dt='bool', call=btp, kinds=kinds)
    explore(o, 'boolean_tensor_product', 'OR-AND', 3, None, construct, **kw)
    if o.undecided and not o.findings:
        tinies(o, 'boolean_tensor_product', 'OR-AND', 3, construct, **kw)
    return o

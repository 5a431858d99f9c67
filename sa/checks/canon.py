"""C08 canonicalisation, C19 expected densities: constant propagation through the tables of the package."""
import itertools
from .. import alg
from ..alg import R
from .common import *
from ..build import matrix, machine, layer, psize

PAIRS = ['%s-%s' % (a, b) for a in OPS for b in OPS]
AUXF = 'lom/auxiliary_functions.py:'


def table(outer_, inner_, K, L, neg0=False, neg1=False, neg2=False):
    """truth table of [not] outer([not] inner([not] letters)) over L x K letters"""
    out = []
    for x in itertools.product((0, 1), repeat=K * L):
        acts = 0
        for l in range(L):
            ones = sum(x[l * K:(l + 1) * K])
            if neg2:
                ones = K - ones
            acts += op(inner_, ones, K) != neg1
        out.append(op(outer_, acts, L) != neg0)
    return out


def same(a, b, Ks=(2, 3), Ls=(1, 2, 3)):
    """a, b: (model, neg0, neg1, neg2)"""
    for K in Ks:
        for L in Ls:
            ta = table(*a[0].split('-'), K, L, *a[1:])
            tb = table(*b[0].split('-'), K, L, *b[1:])
            if ta != tb:
                return 'they differ for %d factors and %d latent dimensions' % (K, L)
    return None


def explore(o, sc, construct, limit=60):
    I = Engine(max_time=limit)
    I.preload()
    r = I.explore(sc)
    take(o, I, r)
    for (kind, msg), w in r.alarms.items():
        o.find(kind, construct, msg, w or construct)
    undec(o, r)
    return r


def lit(v):
    """python constant of an abstract constant"""
    if isinstance(v, NB):
        return v.v
    return v


def seq(v):
    return list(v.v) if isinstance(v, LList) else list(v)


def cjob(model, k):
    """through the public add_layer: child cell negated, model, flags"""
    o = Outcome()
    construct = AUXF + 'canonise_model [%s]' % model

    def sc(I):
        dims = [I.dim(n, 'star') for n in ('N', 'D', 'M')[:k]]
        X = I.leafarr('X', tuple(psize(d) for d in dims), ('enum', (-1, 0, 1)), 'int8', tag='X')
        m = machine(I)
        c = matrix(I, m, X)
        I.mark()
        lay = layer(I, m, 3, c, model)
        new, inv, fac = (lit(I.getattr(lay, a)) for a in ('model', 'invert_data', 'invert_factors'))
        if new not in CANON:
            I.alarm('canonical', 'is translated to %r, for which no inference exists' % (new,))
            return
        if type(inv) is not bool or type(fac) is not bool:
            raise Undecided('inversion flags %r, %r' % (inv, fac))
        why = same((model, False, False, False), (new, inv, False, fac), Ks=(k,))
        if why:
            I.alarm('canonical', 'is translated to %s%s%s, a different function: %s' % (
                new, ' with inverted data' if inv else '', ' with inverted factors' if fac else '', why))
        st = tuple(d.star for d in dims)
        x = I.concrete(I.elem(X, st))
        v = I.concrete(I.elem(I.getattr(c, 'val'), st))
        x0 = I.facts.get(('X', st))
        if x0 is None:
            x0 = I.concrete(I.elem(I.leafarr('X', tuple(psize(d) for d in dims), ('enum', (-1, 0, 1)), 'int8'), st))
        if v is None or x0 is None:
            raise Undecided('data of the child not determined')
        if v != (-x0 if inv else x0):
            I.alarm('canonical', 'the data become %s where they were %s, inversion reported: %s' % (v, x0, inv))
    explore(o, sc, construct)
    return o


def rejects(model):
    o = Outcome()
    construct = AUXF + 'canonise_model [%s]' % model

    def sc(I):
        dims = [I.dim(n, 'star') for n in ('N', 'D')]
        X = I.leafarr('X', tuple(psize(d) for d in dims), ('enum', (-1, 0, 1)), 'int8', tag='X')
        m = machine(I)
        c = matrix(I, m, X)
        I.mark()
        try:
            layer(I, m, 3, c, model)
        except PyExc as e:
            if e.cls in ('NameError', 'AttributeError', 'UnboundLocalError'):
                I.alarm('rejected', 'model %r fails with %s instead of a clear error' % (model, e.cls))
            return
        I.alarm('rejected', 'model %r is accepted' % model)
    explore(o, sc, construct)
    return o


def classjob(model):
    """get_lom_class agrees with the model semantics"""
    o = Outcome()
    construct = AUXF + 'get_lom_class [%s]' % model

    def sc(I):
        r = seq(I.call(I.getfn('lom.auxiliary_functions.get_lom_class'), [model], {}, None))
        cls, inv = lit(r[0]), [lit(x) for x in seq(r[1])]
        if cls not in PAIRS or len(inv) != 3 or any(type(x) is not bool for x in inv):
            I.alarm('class', 'class %r with inversions %r' % (cls, inv))
            return
        why = same((model, False, False, False), (cls, inv[0], inv[1], inv[2]))
        if why:
            I.alarm('class', '%s with inversions %s is a different function: %s' % (cls, inv, why))
    explore(o, sc, construct)
    return o


def eqjob(model):
    o = Outcome()
    construct = AUXF + 'replace_equivalent_model [%s]' % model

    def sc(I):
        new = lit(I.call(I.getfn('lom.auxiliary_functions.replace_equivalent_model'), [model], {}, None))
        why = 'not a model' if new not in PAIRS else same((model, False, False, False), (new, False, False, False))
        if why:
            I.alarm('equivalent', 'is replaced by %r, a different function: %s' % (new, why))
    explore(o, sc, construct)
    return o


def listjob(mode):
    o = Outcome()
    construct = AUXF + 'canonical_loms [%s]' % mode

    def sc(I):
        f = I.getfn('lom.auxiliary_functions.canonical_loms')
        clans = [lit(x) for x in seq(I.call(f, ['clans', mode], {}, None))]
        both = [lit(x) for x in seq(I.call(f, ['families', mode], {}, None))]
        bad = [x for x in both if x not in PAIRS]
        if bad:
            I.alarm('list', '%s is not a model' % bad[0])
            return
        if both[:len(clans)] != clans or len(clans) != 8 or len(both) != 16:
            I.alarm('list', '%d clans and %d families' % (len(clans), len(both)))
            return
        for a, b in itertools.combinations(both, 2):
            if not same((a, False, False, False), (b, False, False, False)):
                I.alarm('list', '%s and %s are the same function' % (a, b))
        for a, b in zip(clans, both[8:]):
            if same((a, True, False, False), (b, False, False, False)):
                I.alarm('list', '%s is not the inversion of %s' % (b, a))
        for p in PAIRS:
            if not any(not same((p, False, False, False), (b, False, False, n)) for b in both for n in (False, True)):
                I.alarm('list', '%s is not represented' % p)
        if mode == 'implemented':
            imp = [lit(x) for x in seq(I.call(I.getfn('lom.auxiliary_functions.implemented_loms'), [], {}, None))]
            if sorted(imp) != sorted(clans):
                I.alarm('list', 'implemented_loms and the implemented clans differ')
            if sorted(clans) != sorted(CANON):
                I.alarm('list', 'implemented clans %s' % clans)
    explore(o, sc, construct)
    return o


# -------------------------------------------------------------------------------------------------------------- densities

def density(o_, i_, L, K, f):
    """probability that the product is 1 for iid letters of density f, as a polynomial"""
    one = alg.rc(1)

    def count(p, n, opn):
        # P(op(ones, n)) for iid trials of probability p
        t = alg.rc(0)
        for k in range(n + 1):
            if op(opn, k, n):
                c = 1
                for j in range(k):
                    c = c * (n - j) // (j + 1)
                term = alg.rc(c)
                for _ in range(k):
                    term = alg.mul(term, p)
                for _ in range(n - k):
                    term = alg.mul(term, alg.sub(one, p))
                t = alg.add(t, term)
        return t
    return count(count(f, K, i_), L, o_)


def djob(model, Ls, Ks):
    o = Outcome()
    construct = AUXF + 'expected_density [%s]' % model
    for L in Ls:
        for K in Ks:
            def sc(I):
                f = alg.sym(('f',), '+', 'float64')
                r = I.call(I.getfn('lom.auxiliary_functions.expected_density'), [model, L, K, f], {}, None)
                r = r if type(r) is R else alg.rc(r)
                want = density(*model.split('-'), L, K, f)
                if alg.sub(r, want).key() != alg.rc(0).key():
                    I.alarm('density', 'for L=%d, K=%d the result is %s, the probability is %s' % (
                        L, K, show(r), show(want)))
            explore(o, sc, construct)
            if o.findings or o.undecided:
                return o
    o.bounded = 'L in %s, K in %s, every f' % (list(Ls), list(Ks))
    return o


def show(r):
    s = repr(r)
    return s if len(s) < 200 else s[:200] + '...'


def c08(tier):
    js = [Job('canonise %s, %dD data' % (m, k), cjob, m, k) for m in PAIRS for k in (2, 3)]
    js += [Job('get_lom_class %s' % m, classjob, m) for m in PAIRS]
    js += [Job('replace_equivalent_model %s' % m, eqjob, m) for m in PAIRS]
    js += [Job('canonical_loms %s' % m, listjob, m) for m in ('implemented', 'canonical')]
    return js


def c19(tier):
    Ls, Ks = (range(1, 5), range(1, 4)) if tier == 'quick' else (range(1, 9), range(1, 7))
    return [Job('expected_density %s' % m, djob, m, tuple(Ls), tuple(Ks)) for m in PAIRS]

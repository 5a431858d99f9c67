"""C29: simulated data and noise have the stated distribution.  C30: convergence criterion."""
import itertools
import random
from fractions import Fraction
from .. import alg
from ..alg import rc
from .common import *
from ..build import *
from ..engine import Arr, Prune
from .ibp import same

EX, AUX, MA = 'lom/experiments.py', 'lom/auxiliary_functions.py', 'lom/machine.py'


def cells(shape):
    return list(itertools.product(*[range(s) for s in shape]))


def concrete(I, v, what):
    if type(v) is bool:
        return v
    if not I.isnum(v):
        if 'uninitialised' in repr(v):
            I.alarm('value', '%s is not initialised' % what)
            raise Prune()
        raise Undecided('%s is %r' % (what, v))
    c = I.toR(v).const()
    if c is None:
        raise Undecided('%s is %s' % (what, alg.show(I.toR(v))[:80]))
    return int(c) if c == int(c) else c


def values(I, a, shape, what):
    if type(a) is not Arr:
        raise Undecided('%s: %r' % (what, a))
    if len(a.shape) != len(shape) or any(type(x) is not int or x != y for x, y in zip(a.shape, shape)):
        I.alarm('value', '%s has shape %s instead of %s' % (what, tuple(a.shape), tuple(shape)))
        raise Prune()
    return tuple(concrete(I, I.elem(a, ix), what) for ix in cells(shape))


def chance(I):
    """probability of the random draws of this path: lengths of the intervals of the uniform numbers, weights of the trials"""
    p, lo, hi = rc(1), {}, {}
    for a, th, hit in I.usedrand:
        if hit:
            hi[a] = th
        else:
            lo[a] = th
    for a in {**lo, **hi}:
        p = alg.mul(p, alg.sub(hi.get(a, rc(1)), lo.get(a, rc(0))))
    for q, v in I.aux.get('trials', ()):
        q = I.toR(q)
        p = alg.mul(p, q if v else alg.sub(rc(1), q))
    return p


def bern(p, ones, zeros):
    return alg.mul(alg.powi(p, ones), alg.powi(alg.sub(rc(1), p), zeros))


def note(I, dist, got, want):
    """adds the path to the distribution of the results; want: probability the result should have"""
    reg = dist.setdefault((frozenset(I.signs.items()), I.inexact), {})
    p0 = reg[got][0] if got in reg else rc(0)
    reg[got] = (alg.add(p0, chance(I)), want)


def judge(o, dist, construct, what):
    for (signs, inexact), reg in dist.items():
        tot = rc(0)
        msg = None
        for got, (p, want) in sorted(reg.items(), key=repr):
            tot = alg.add(tot, p)
            if not same(p, want):
                msg = '%s: the result %s has probability %s instead of %s' % (what, list(got), alg.show(p)[:60], alg.show(want)[:60])
                break
        if msg is None and not same(tot, rc(1)):
            msg = '%s: results that have positive probability never occur' % what
        if msg and (signs or inexact) and len(dist) > 1:
            o.undecided.append(msg + ' (on paths that differ in sign tests)')
        elif msg:
            o.find('chance', construct, msg, construct)
            return False
    return True


def start(I):
    P = I.policy = MultiPolicy()
    P.zerodiv = []
    P.round_edge = True
    I.aux['trials'] = []
    return P


def run(o, construct, scen, what, dist=None, over=None):
    I = Engine(max_time=150, **({'overrides': over} if over else {}))
    I.preload()
    r = I.explore(scen)
    take(o, I, r)
    bad = False
    for (kind, msg), w in r.alarms.items():
        if kind in ('value', 'uncaught', 'criterion'):
            bad = True
            o.find(kind, construct, '%s: %s' % (what, msg), w or construct)
    for k, w in r.undecided.items():
        o.undecided.append('%s (%s)' % (k, w))
    if not r.oks and not bad and not r.undecided:
        o.undecided.append('no abstract path reaches the end')
    if not bad and not r.undecided and dist is not None:
        bad = not judge(o, dist, construct, what)
    return not bad and not o.undecided


# -- noise
def sc_noise(qual, shape, X, n, boolean, dist):
    def sc(I):
        start(I)
        dt = 'bool' if boolean else 'int8'
        ixs = cells(shape)
        a = I.leafarr('X', shape, lambda I, leaf, i: I.wrap(bool(X[ixs.index(i)]) if boolean else X[ixs.index(i)], dt), dt, tag='X')
        ps = [alg.sym(('p', i), 'p', 'p').with_dt('pyfloat') for i in range(n)]
        r = I.call(I.getfn(qual), [a] + ps, {}, None)
        I.mark()
        got = values(I, r, shape, 'a cell of the noisy data')
        want = rc(1)
        for x, y in zip(X, got):
            if boolean:
                flip, fine = bool(x) != bool(y), y in (0, 1)
            else:
                flip, fine = y == -x, y in (x, -x)
            if not fine:
                I.alarm('value', 'noise turns the value %s into %s' % (x, y))
                return
            if x == 0 and not boolean:
                continue
            p = I.toR(ps[1 if n == 2 and x == -1 else 0])
            want = alg.mul(want, p if flip else alg.sub(rc(1), p))
        if values(I, a, shape, 'a cell of the data') != tuple(X):
            I.alarm('value', 'the data handed over are changed')
        note(I, dist, got, want)
    return sc


def noise_job(qual, shape, n, boolean):
    o = Outcome()
    con = AUX + ':' + qual.split('.')[-1]
    k = 1
    for s in shape:
        k *= s
    for X in itertools.product((0, 1) if boolean else (-1, 0, 1), repeat=k):
        d = {}
        if not run(o, con, sc_noise(qual, shape, X, n, boolean, d), 'data %s' % (list(X),), d):
            break
    o.bounded = '%s cells, any flip probabilities' % 'x'.join(map(str, shape))
    return o


# -- random matrices
def sc_matrix(how, shape, dist):
    def sc(I):
        start(I)
        if how == 'random':
            p = alg.sym(('p',), 'p', 'p').with_dt('pyfloat')
            a = I.call(I.getfn('lom.auxiliary_functions.random_machine_matrix'), [p, shape], {}, None)
        else:
            m = I.call(I.getfn('lom.machine.Machine'), [], {}, None)
            if how == 'matrix':
                a = I.getattr(I.call(I.getattr(m, 'add_matrix'), [], {'shape': shape}, None), 'val')
            else:
                c = I.leafarr('X', shape + (1,), ('enum', (1,)), 'int8', tag='X')
                c = I.call(I.getattr(m, 'add_matrix'), [c], {'fixed': True}, None)
                lay = I.call(I.getattr(m, 'add_layer'), [], {'latent_size': shape[1], 'child': c}, None)
                a = I.getattr(I.getattr(lay, 'z'), 'val')
            p = rc(Fraction(1, 2))
        I.mark()
        got = values(I, a, shape, 'an entry of the matrix')
        if any(v not in (-1, 1) for v in got):
            I.alarm('value', 'an entry of a random matrix is %s' % [v for v in got if v not in (-1, 1)][0])
            return
        note(I, dist, got, bern(I.toR(p), got.count(1), got.count(-1)))
    return sc


def matrix_job(how, shape, construct):
    o, d = Outcome(), {}
    run(o, construct, sc_matrix(how, shape, d), 'random matrix', d)
    o.bounded = '%s entries' % 'x'.join(map(str, shape))
    return o


# -- simulated tensors
def root(x, k):
    return alg.exp(alg.mul(rc(Fraction(1, k)), alg.log(x)))


def product(fs, ix, L, one=1):
    return any(all(f[ix[k]][l] == one for k, f in enumerate(fs)) for l in range(L))


def rows(vals, n, L):
    return [vals[i * L:(i + 1) * L] for i in range(n)]


def sc_tensor(L, dims, dist):
    def sc(I):
        start(I)
        nu, de = alg.sym(('noise',), 'p', 'p').with_dt('pyfloat'), alg.sym(('density',), 'p', 'p').with_dt('pyfloat')
        r = I.call(I.getfn('lom.experiments.generate_random_tensor'), [L, dims], {'noise': nu, 'density': de}, None)
        I.mark()
        Xn, X, F, fd = I.listify(r)
        fs = [values(I, f, (n, L), 'an entry of a factor') for f, n in zip(I.listify(F), dims)]
        x, xn = values(I, X, dims, 'a cell of the clean data'), values(I, Xn, dims, 'a cell of the noisy data')
        d, nu = I.toR(de), I.toR(nu)
        no = alg.sub(rc(1), d)
        nos = [no] if L == 1 else [root(no, L)]
        if L == 2:
            nos.append(I.toR(I.opaque_fn('sqrt', [no], 'float64')))
        want = [root(alg.sub(rc(1), x), 3) for x in nos]
        want = [x for x in want if same(I.toR(fd), x)]
        want = want and want[0]
        if not want:
            I.alarm('value', 'the factor density returned is %s instead of (1 - (1 - density)^(1/%d))^(1/3)' % (alg.show(I.toR(fd))[:60], L))
            return
        w = rc(1)
        for f in fs:
            n1 = sum(bool(v) for v in f)
            w = alg.mul(w, bern(want, n1, len(f) - n1))
        fr = [rows(f, n, L) for f, n in zip(fs, dims)]
        for ix, a, b in zip(cells(dims), x, xn):
            if bool(a) != product(fr, ix, L) or a not in (0, 1):
                I.alarm('value', 'a clean cell is %s where the product of the factors is %s' % (a, product(fr, ix, L)))
                return
            if b not in (0, 1):
                I.alarm('value', 'a noisy cell is %s' % b)
                return
            w = alg.mul(w, nu if bool(a) != bool(b) else alg.sub(rc(1), nu))
        note(I, dist, tuple(map(int, x + xn + sum(fs, ()))), w)
    return sc


def tensor_job(L, dims):
    o, d = Outcome(), {}
    run(o, EX + ':generate_random_tensor', sc_tensor(L, dims, d), 'tensor of %s cells, %d dimensions' % ('x'.join(map(str, dims)), L), d)
    o.bounded = '%s cells, %d dimensions, any noise and density' % ('x'.join(map(str, dims)), L)
    return o


def sc_orm(N, D, L):
    def sc(I):
        start(I)
        r = I.call(I.getfn('lom.auxiliary_functions.generate_orm_product'), [N, D, L], {}, None)
        I.mark()
        U, Z, X = I.listify(r)
        z, u = values(I, Z, (N, L), 'an entry of a factor'), values(I, U, (D, L), 'an entry of a factor')
        x = values(I, X, (N, D), 'a cell of the data')
        if any(v not in (-1, 1) for v in z + u + x):
            I.alarm('value', 'factors or data are not coded as -1, 1')
            return
        fr = [rows(z, N, L), rows(u, D, L)]
        for ix, a in zip(cells((N, D)), x):
            if (a == 1) != product(fr, ix, L):
                I.alarm('value', 'a cell is %s where the product of the factors is %s' % (a, product(fr, ix, L)))
                return
        for f, n in ((z, N), (u, D)):
            if not incomparable([v == 1 for v in f], n, L):
                I.alarm('value', 'a column of the factor %s contains another one' % (list(f),))
                return
    return sc


def incomparable(f, n, L):
    """no column contains another one"""
    return not any(i != j and all(f[r * L + j] for r in range(n) if f[r * L + i]) for i in range(L) for j in range(L))


def orm_job(N, D, L):
    o = Outcome()

    def test(I, f, args, kw):
        # the decision of the function itself is checked separately; factors rejected twice in a row are not followed
        n = args[0].shape[0]
        ok = incomparable([v == 1 for v in values(I, args[0], (n, L), 'an entry of a factor')], n, L)
        I.aux['rejected'] = 0 if ok else I.aux.get('rejected', 0) + 1
        if I.aux['rejected'] > 1:
            raise Prune()
        return ok
    run(o, AUX + ':generate_orm_product', sc_orm(N, D, L), 'product of %dx%d cells, %d dimensions' % (N, D, L),
        over={'lom.auxiliary_functions.all_columsn_are_disjoint': test})
    o.bounded = '%dx%d cells, %d dimensions' % (N, D, L)
    return o


def disjoint_job(n, L):
    o = Outcome()
    for low in (-1, 0):
        def sc(I):
            start(I)
            f = I.leafarr('f', (n, L), ('enum', (low, 1)), 'int8', tag='f')
            g = values(I, f, (n, L), 'an entry')
            r = I.truth(I.call(I.getfn('lom.auxiliary_functions.all_columsn_are_disjoint'), [f], {}, None))
            I.mark()
            if r != incomparable([v == 1 for v in g], n, L):
                I.alarm('value', 'the columns of %s are declared %s' % (g, 'incomparable' if r else 'not to be so'))
        if not run(o, AUX + ':all_columsn_are_disjoint', sc, '%dx%d matrix' % (n, L)):
            return o
    o.bounded = 'all %dx%d matrices' % (n, L)
    return o


def c29(tier):
    js = []
    big = tier != 'quick'
    for q, n in (('add_bernoulli_noise_2d', 1), ('add_bernoulli_noise_2d_biased', 2)):
        for sh in ((1, 1), (1, 2), (2, 1)) + (((2, 2), (1, 3)) if big else ()):
            js.append(Job('%s, %dx%d cells' % ((q,) + sh), noise_job, 'lom.auxiliary_functions.' + q, sh, n, False, limit=800))
    for sh in ((1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2)) + (((2, 2, 1), (1, 2, 2)) if big else ()):
        js.append(Job('add_bernoulli_noise, %dx%dx%d cells' % sh, noise_job, 'lom.auxiliary_functions.add_bernoulli_noise', sh, 1, True, limit=800))
    for sh in ((1, 1), (2, 1), (1, 2), (2, 2)):
        js.append(Job('random_machine_matrix, %dx%d entries' % sh, matrix_job, 'random', sh, AUX + ':random_machine_matrix'))
        js.append(Job('new matrix, %dx%d entries' % sh, matrix_job, 'matrix', sh, MA + ':MachineMatrix.__init__'))
        js.append(Job('factor of a new layer, %dx%d entries' % sh, matrix_job, 'layer', sh, MA + ':Machine.add_layer'))
    for L, dims in ((1, (1, 1, 1)), (2, (1, 1, 1)), (1, (2, 1, 1)), (1, (1, 2, 1)), (1, (1, 1, 2))) + (
            ((3, (1, 1, 1)), (2, (2, 1, 1)), (1, (2, 2, 1))) if big else ()):
        js.append(Job('generate_random_tensor, %s cells, %d dimensions' % ('x'.join(map(str, dims)), L), tensor_job, L, dims, limit=800))
    for n, L in ((1, 1), (2, 1), (1, 2), (2, 2), (3, 2)) + (((2, 3), (3, 3)) if big else ()):
        js.append(Job('incomparable columns, %dx%d matrices' % (n, L), disjoint_job, n, L, limit=800))
    for N, D, L in ((1, 1, 1), (2, 1, 1), (1, 2, 1), (2, 2, 2)):
        js.append(Job('generate_orm_product, %dx%d cells, %d dimensions' % (N, D, L), orm_job, N, D, L, limit=800))
    return js


# -- C30
F = Fraction
CONV = [(F(1, 2), F(1, 2), F(1, 100)), (F(1, 2), F(3, 5), F(1, 8)), (F(3, 5), F(1, 2), F(1, 8)), (F(1, 2), F(3, 5), F(1, 12)),
        (F(3, 5), F(1, 2), F(1, 12)), (F(1, 10), F(9, 10), F(1, 2)), (F(1, 10), F(9, 10), F(9, 10)), (F(9, 10), F(1, 10), F(1, 2)),
        (F(99, 100), F(49, 50), F(1, 200)), (F(99, 100), F(49, 50), F(1, 50)), (F(49, 50), F(99, 100), F(1, 50)), (F(3, 4), F(3, 4), F(5, 1000))]


def half(k, a, key):
    """k symbolic values whose mean is logit(a)"""
    m = alg.log(alg.div(rc(a), alg.sub(rc(1), rc(a))))
    ds = [alg.sym(('t', key, i)) for i in range(k - 1)]
    tot = rc(0)
    for d in ds:
        tot = alg.add(tot, d)
    return [alg.add(m, d) for d in ds] + [alg.sub(m, tot)]


def sc_conv(n, pairs, eps, two):
    def sc(I):
        start(I)
        c = len(pairs)
        cols = [half(n // 2, a, (j, 0)) + half(n - n // 2, b, (j, 1)) for j, (a, b) in enumerate(pairs)]
        shape = (n, c) if two else (n,)
        par = I.call(I.getfn('lom.machine.MachineParameter'), [alg.sym(('l',)).with_dt('float64')], {}, None)
        I.setattr(par, 'trace', I.leafarr('trace', shape, lambda I, leaf, i: cols[i[1] if two else 0][i[0]].with_dt('float64'), 'float64', tag='trace'))
        r = I.call(I.getattr(par, 'check_convergence'), [], {'eps': rc(eps).with_dt('pyfloat')}, None)
        I.mark()
        want = all(abs(a - b) < eps for a, b in pairs)
        if I.truth(r) != want:
            I.alarm('criterion', 'convergence is %s for halves of logistic means %s and tolerance %s' % (
                'denied' if want else 'declared', ' / '.join('%s, %s' % p for p in pairs), eps))
    return sc


def sc_exact(cs):
    def sc(I):
        start(I)
        n, log2 = len(cs), alg.log(rc(2))
        h = n // 2
        e = [Fraction(2) ** (sum(x) // len(x)) for x in (cs[:h], cs[h:])]
        d = abs(e[0] / (1 + e[0]) - e[1] / (1 + e[1]))
        for eps, want in ((d * 2, True), (d / 2, False)) if d else ((Fraction(1, 1000), True),):
            par = I.call(I.getfn('lom.machine.MachineParameter'), [alg.sym(('l',)).with_dt('float64')], {}, None)
            I.setattr(par, 'trace', I.leafarr('trace', (n,), lambda I, leaf, i: alg.mul(rc(cs[i[0]]), log2).with_dt('float64'), 'float64', tag='trace'))
            r = I.call(I.getattr(par, 'check_convergence'), [], {'eps': rc(eps).with_dt('pyfloat')}, None)
            I.mark()
            if I.truth(r) != want:
                I.alarm('criterion', 'convergence is %s for the trace %s (times log 2) and tolerance %s' % ('denied' if want else 'declared', cs, float(eps)))
    return sc


def conv_job(n, cols):
    o = Outcome()
    con = MA + ':Trace.check_convergence'
    if cols is None and n <= 6:
        # whole multiples of log 2 whose means over any part are whole, too
        rng = random.Random(n)
        for _ in range(6):
            cs = [60 * rng.randint(-2, 2) for i in range(n)]
            if not run(o, con, sc_exact(cs), 'trace of %d samples' % n):
                return o
    for a, b, e in CONV:
        if cols is None:
            worlds = [[(a, b)]]
        else:
            worlds = [[(a, b)] * cols] + [[(a, b) if k == j else (a, a) for k in range(cols)] for j in range(cols)]
        for w in worlds:
            if not run(o, con, sc_conv(n, w, e, cols is not None), 'trace of %d samples' % n):
                return o
    o.bounded = '%d samples with any deviations from the means, %d pairs of means and tolerances' % (n, len(CONV))
    return o


def c30(tier):
    ns = (2, 3, 4, 5, 15) if tier == 'quick' else range(2, 31)
    return [Job('trace of %d samples' % n, conv_job, n, None) for n in ns] + [
        Job('trace of %d samples of %d parameters' % (n, c), conv_job, n, c, limit=800) for n in ns if n <= 15 for c in ((1, 3) if tier == 'quick' else (1, 2, 3, 4))]


# -- C31
def prob(model, ps, inv_l=None):
    """probability that the model emits a one; ps[l][k]: probability of the independent entries"""
    outer, inner = model.split('-')
    K, L = len(ps[0]), len(ps)
    tot = Fraction(0)
    for x in itertools.product((0, 1), repeat=K * L):
        p = Fraction(1)
        for b, q in zip(x, [q for r in ps for q in r]):
            p *= q if b else 1 - q
        if p and op(outer, sum(op(inner, sum(x[l * K:(l + 1) * K]), K) for l in range(L)), L):
            tot += p
    return tot


def lit_arr(I, name, shape, vals, dt='int8'):
    ix = {c: v for c, v in zip(cells(shape), vals)}
    if dt == 'bool':
        return I.leafarr(name, shape, lambda I, leaf, i: ix[i], dt, tag=name)
    return I.leafarr(name, shape, lambda I, leaf, i: rc(ix[i]).with_dt(dt), dt, tag=name)


def sc_predict(model, shape, L, T, X, mask, traces, anneal, ret):
    """traces: per factor, T x n x L values"""
    EXP = 'lom.experiments.LOM_predictive'

    def sc(I):
        start(I)
        st = {'calls': 0}

        def infer(I, f, args, kw):
            st['calls'] += 1
            lays = I.listify(I.getattr(args[0], 'layers'))
            if len(lays) != 1:
                raise Undecided('%d layers' % len(lays))
            lay = st['lay'] = lays[0]
            got = values(I, I.getattr(I.getattr(lay, 'child'), 'val'), shape, 'a training cell')
            inv = I.getattr(lay, 'invert_data')
            inv = getattr(inv, 'v', inv)
            if type(inv) is not bool:
                raise Undecided('invert_data is %r' % (inv,))
            tr = [0 if m else (-x if inv else x) for x, m in zip(X, mask)]
            if list(got) != tr:
                I.alarm('value', 'the machine is trained on %s instead of %s%s' % (list(got), tr, ' (inverted data)' if inv else ''))
                raise Prune()
            fixed = I.getattr(I.getattr(lay, 'child'), 'fixed')
            if getattr(fixed, 'v', fixed) is not True:
                I.alarm('value', 'the training data are not fixed')
                raise Prune()
            facs = I.listify(I.getattr(lay, 'factors'))
            for k, (fac, n) in enumerate(zip(facs, shape)):
                s = I.getattr(fac, 'val').shape
                if tuple(s) != (n, L):
                    I.alarm('value', 'factor %d has shape %s instead of %s' % (k, tuple(s), (n, L)))
                    raise Prune()
                I.setattr(fac, 'val', lit_arr(I, 'last%d' % k, (n, L), [-1 if traces[k][0] > 0 else 1] * (n * L)))
                I.setattr(fac, 'trace', lit_arr(I, 'trace%d' % k, (T, n, L), traces[k]))
            return None
        I.xover = infer
        Xa, M = lit_arr(I, 'X', shape, X), lit_arr(I, 'mask', shape, mask, 'bool')
        Xt = lit_arr(I, 'X_train', shape, [0 if m else x for x, m in zip(X, mask)])
        lb = alg.sym(('lbda',)).with_dt('pyfloat')
        exp = (Xa, Xt, M, model, L, 0, lb, anneal)
        r = I.call(I.getfn(EXP), [exp], {'return_machine': ret} if ret is not None else {}, None)
        I.mark()
        if not st['calls']:
            I.alarm('value', 'no inference takes place')
            return
        inv = I.getattr(st['lay'], 'invert_factors')
        inv = getattr(inv, 'v', inv)
        p = []
        for k, n in enumerate(shape):
            ix = {c: v for c, v in zip(cells((T, n, L)), traces[k])}
            p.append([[Fraction(sum(ix[t, i, l] == (-1 if inv else 1) for t in range(T)), T) for l in range(L)] for i in range(n)])
        hit = n = 0
        for c, x, m in zip(cells(shape), X, mask):
            if m:
                n += 1
                q = prob(model, [[p[k][c[k]][l] for k in range(len(shape))] for l in range(L)])
                if q == Fraction(1, 2):
                    raise Undecided('test state on the boundary')
                hit += (q > Fraction(1, 2)) == (x == 1)
        res = I.listify(r)
        if ret is not False:
            head, means = I.listify(res[0]), I.listify(res[1])
        else:
            head, means = res, None
        acc = I.toR(head[0]).const()
        if acc is None:
            raise Undecided('accuracy is %s' % alg.show(I.toR(head[0]))[:80])
        if abs(float(acc) - hit / n) > 1e-9:
            I.alarm('value', 'the accuracy on the held-out cells is %s where %d of %d are predicted correctly' % (acc, hit, n))
            return
        if getattr(head[1], 'v', head[1]) != model:
            I.alarm('value', 'the model is reported as %r' % (head[1],))
        sz = head[2] if type(head[2]) is int else I.toR(head[2]).const()
        if sz != L:
            I.alarm('value', 'the number of dimensions is reported as %s instead of %d' % (sz, L))
        if means is not None:
            for k, (a, n) in enumerate(zip(means, shape)):
                v = values(I, a, (n, L), 'an entry of a factor mean')
                ix = {c: x for c, x in zip(cells((T, n, L)), traces[k])}
                for c, g in zip(cells((n, L)), v):
                    w = Fraction(sum(ix[(t,) + c] for t in range(T)), T)
                    if abs(float(g) - float(w)) > 1e-9:
                        I.alarm('value', 'a factor mean is %s instead of %s' % (g, w))
                        return
        for a, w, nm in ((Xa, X, 'data'), (Xt, [0 if m else x for x, m in zip(X, mask)], 'training data'), (M, mask, 'mask')):
            g = values(I, a, shape, nm)
            if list(g) != list(w):
                I.alarm('value', 'the %s of the experiment are changed from %s to %s' % (nm, [int(x) for x in w], [int(x) for x in g]))
                return
    return sc


def predict_job(model, shape, L, T, states, anneal, ret, seed):
    o = Outcome()
    con = EX + ':LOM_predictive'
    rng = random.Random(seed)
    done = 0
    while done < states:
        X = [rng.choice((-1, 1)) for _ in cells(shape)]
        mask = [rng.random() < .6 for _ in X]
        if not any(mask) or all(mask):
            continue
        tr = [[rng.choice((-1, 1)) for _ in range(T * n * L)] for n in shape]
        sc = sc_predict(model, shape, L, T, X, mask, tr, anneal, ret)
        holder = {}

        def over(I, f, args, kw):
            return I.xover(I, f, args, kw)
        n0 = len(o.undecided)
        ok = run(o, con, sc, 'model %s' % model, over={'lom.machine.Machine.infer': over})
        if len(o.undecided) > n0 and any('boundary' in u for u in o.undecided[n0:]):
            del o.undecided[n0:]
            continue
        if not ok:
            return o
        done += 1
    o.bounded = '%d states of %s cells, %d dimensions, %d samples' % (states, 'x'.join(map(str, shape)), L, T)
    return o


def sc_grid(machines, Ls, idxs, X, shape, anneal, holder):
    def sc(I):
        start(I)
        st = {'seen': None}

        def par(I, f, args, kw):
            if getattr(args[0], 'qual', None) != 'lom.experiments.LOM_predictive':
                I.alarm('value', 'the experiments are not given to LOM_predictive')
                raise Prune()

            def go(I, a, k):
                st['seen'] = exps = [I.listify(e) for e in I.listify(a[0])]
                return LList([(LList([rc(Fraction(1, 2)).with_dt('float64'), e[3], e[4]]), LList([])) for e in exps])
            return Builtin('parallel map', go)
        I.xover = par
        Xa = lit_arr(I, 'X', shape, X)
        lb = alg.sym(('lbda',)).with_dt('pyfloat')
        try:
            I.call(I.getfn('lom.experiments.LOM_hyperparms_parallel_gridsearch'), [Xa], {
                'machines': LList(list(machines)), 'L_inits': LList(list(Ls)), 'random_idxs': LList(list(idxs)), 'lbda_init': lb,
                'anneal': anneal}, None)
        except Undecided:
            # the table made of the results is not looked into
            if st['seen'] is None:
                raise
        I.mark()
        if st['seen'] is None:
            I.alarm('value', 'no experiment takes place')
            return
        want = sorted(itertools.product(machines, Ls, idxs))
        got = []
        ref = None
        for e in st['seen']:
            if len(e) != 8:
                I.alarm('value', 'an experiment of %d settings' % len(e))
                return
            x, xt, m = values(I, e[0], shape, 'a cell'), values(I, e[1], shape, 'a training cell'), values(I, e[2], shape, 'a cell of the mask')
            if list(x) != list(X):
                I.alarm('value', 'the data of an experiment are %s instead of %s' % (list(x), X))
                return
            if any(b and not a for a, b in zip(X, m)) or any(c != (0 if b else a) for a, b, c in zip(X, m, xt)):
                I.alarm('value', 'the training data are %s for the data %s and the held-out cells %s' % (list(xt), X, [int(b) for b in m]))
                return
            if ref not in (None, m):
                I.alarm('value', 'experiments hold out different cells')
                return
            ref = m
            got.append(tuple(v if type(v) in (str, int) else int(I.toR(v).const()) for v in e[3:6]))
            if I.toR(e[6]) != I.toR(lb) or getattr(e[7], 'v', e[7]) is not anneal:
                I.alarm('value', 'an experiment has the initial dispersion %s and annealing %s' % (e[6], e[7]))
                return
        if sorted(got) != want:
            I.alarm('value', 'the experiments are %s instead of %s' % (got, want))
    return sc


def grid_job(machines, Ls, idxs, X, shape, anneal):
    o = Outcome()

    def over(I, f, args, kw):
        return I.xover(I, f, args, kw)
    run(o, EX + ':LOM_hyperparms_parallel_gridsearch', sc_grid(machines, Ls, idxs, X, shape, anneal, {}), 'grid search',
        over={'lom.experiments.parallel_function': over})
    o.bounded = '%d models, %d sizes, %d repetitions on %d cells, any split' % (len(machines), len(Ls), len(idxs), len(X))
    return o


def sc_reconstruct(shape, L, T, X, dt, traces, layer):
    def sc(I):
        start(I)
        st = {'calls': 0}
        coded = [1 if x == 1 else -1 if (x == -1 or min(X) >= 0) else 0 for x in X]

        def infer(I, f, args, kw):
            st['calls'] += 1
            lays = I.listify(I.getattr(args[0], 'layers'))
            if len(lays) != 1:
                raise Undecided('%d layers' % len(lays))
            lay = st['lay'] = lays[0]
            got = values(I, I.getattr(I.getattr(lay, 'child'), 'val'), shape, 'a cell')
            if list(got) != coded or getattr(I.getattr(lay, 'invert_data'), 'v', I.getattr(lay, 'invert_data')) is not False:
                I.alarm('value', 'the machine is trained on %s instead of %s' % (list(got), coded))
                raise Prune()
            fixed = I.getattr(I.getattr(lay, 'child'), 'fixed')
            if getattr(fixed, 'v', fixed) is not True:
                I.alarm('value', 'the data are not fixed')
                raise Prune()
            model = I.getattr(lay, 'model')
            if getattr(model, 'v', model) != 'OR-AND':
                I.alarm('value', 'a model %r is used' % (model,))
                raise Prune()
            for k, (fac, n) in enumerate(zip(I.listify(I.getattr(lay, 'factors')), shape)):
                s = I.getattr(fac, 'val').shape
                if tuple(s) != (n, L):
                    I.alarm('value', 'factor %d has shape %s instead of %s' % (k, tuple(s), (n, L)))
                    raise Prune()
                I.setattr(fac, 'val', lit_arr(I, 'last%d' % k, (n, L), [-1 if traces[k][0] > 0 else 1] * (n * L)))
                I.setattr(fac, 'trace', lit_arr(I, 'trace%d' % k, (T, n, L), traces[k]))
            return None
        I.xover = infer
        Xa = lit_arr(I, 'X', shape, [bool(x) for x in X] if dt == 'bool' else X, dt)
        r = I.call(I.getfn('lom.experiments.tensorm_reconstruct'), [Xa, L], {'return_layer': True} if layer else {}, None)
        I.mark()
        if not st['calls']:
            I.alarm('value', 'no inference takes place')
            return
        if layer:
            if r is not st['lay']:
                I.alarm('value', 'the layer is not returned')
            return
        res = I.listify(r)
        mean = [{c: Fraction(sum(traces[k][(t * n + c[0]) * L + c[1]] for t in range(T)), T) for c in cells((n, L))} for k, n in enumerate(shape)]
        for k, (a, n) in enumerate(zip(I.listify(res[1]), shape)):
            for c, v in zip(cells((n, L)), values(I, a, (n, L), 'an entry of a factor mean')):
                if abs(float(v) - float(mean[k][c])) > 1e-9:
                    I.alarm('value', 'an entry of the mean of factor %d is %s instead of %s' % (k, v, mean[k][c]))
                    return
        for nm, a, f in (('posterior-mean', res[0], lambda m: (m + 1) / 2), ('plug-in', res[2], lambda m: Fraction(m > 0))):
            for c, v in zip(cells(shape), values(I, a, shape, 'a cell of the %s reconstruction' % nm)):
                w = prob('OR-AND', [[f(mean[k][c[k], l]) for k in range(len(shape))] for l in range(L)])
                if abs(float(v) - float(w)) > 1e-9:
                    I.alarm('value', 'a cell of the %s reconstruction is %s instead of %s' % (nm, v, w))
                    return
        if list(values(I, Xa, shape, 'a cell')) != ([bool(x) for x in X] if dt == 'bool' else list(X)):
            I.alarm('value', 'the data given are changed')
    return sc


def reconstruct_job(shape, L, T, coding, dt, states, layer, seed):
    o = Outcome()
    rng = random.Random(seed)

    def over(I, f, args, kw):
        return I.xover(I, f, args, kw)
    for _ in range(states):
        X = [rng.choice(coding) for _ in cells(shape)]
        if set(X) != set(coding):
            X[:len(coding)] = coding
        tr = [[rng.choice((-1, 1)) for _ in range(T * n * L)] for n in shape]
        if not run(o, EX + ':tensorm_reconstruct', sc_reconstruct(shape, L, T, X, dt, tr, layer), '%s data with values %s' % (dt, coding),
                   over={'lom.machine.Machine.infer': over}):
            return o
    o.bounded = '%d states of %s cells, %d dimensions, %d samples' % (states, 'x'.join(map(str, shape)), L, T)
    return o


def c31(tier):
    from .canon import PAIRS
    js, big = [], tier != 'quick'
    for i, m in enumerate(PAIRS):
        js.append(Job('%s, 2x2 cells' % m, predict_job, m, (2, 2), 2, 1, 4 if not big else 16, bool(i % 2), (None, True, False)[i % 3], i, limit=300))
        js.append(Job('%s, 2x2 cells, several samples' % m, predict_job, m, (2, 2), 1 + i % 2, 3, 2 if not big else 12, not i % 2, None, 100 + i, limit=300))
        if big or i % 4 == 0:
            js.append(Job('%s, 2x1x2 cells' % m, predict_job, m, (2, 1, 2), 2, 1, 2 if not big else 6, False, None, 200 + i, limit=300))
    for i, (ms, Ls, idxs, X, sh) in enumerate(((('OR-AND', 'AND-AND'), (2, 3), (0,), [1, -1], (1, 2)), (('XOR-AND',), (4,), (0, 1), [1, 0], (2, 1)),
                                              (('OR-AND', 'NAND-XOR', 'OR-NAND'), (1, 5), (3, 1), [1, 1, -1] if big else [-1, 1], (3, 1) if big else (2, 1)))):
        js.append(Job('grid search %d' % i, grid_job, ms, Ls, idxs, X, sh, bool(i % 2), limit=300))
    for i, (cod, dt) in enumerate((([-1, 1], 'int8'), ([0, 1], 'int8'), ([0, 1], 'bool'), ([-1, 0, 1], 'int8'), ([0, 1], 'int64'), ([-1, 1], 'int64'))):
        js.append(Job('tensor reconstruction, %s with values %s' % (dt, cod), reconstruct_job, (2, 1, 2), 1 + i % 2, 3, cod, dt, 2 if not big else 8, False, i, limit=300))
    js.append(Job('tensor reconstruction, layer returned', reconstruct_job, (2, 1, 2), 2, 1, [0, 1], 'int8', 1, True, 9, limit=300))
    return js

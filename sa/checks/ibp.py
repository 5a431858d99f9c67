"""C26: nonparametric (IBP) factor update, followed draw by draw."""
import random
from .. import alg
from ..alg import rc
from .common import *
from ..build import *
from ..engine import Arr

MU = 'lom/_numba/matrix_updates_numba.py'
CONSTRUCT = MU + ':sample_2d_IBP'
LAM, ALPHA, DENS = ('lbda',), ('alpha',), ('density',)
NEW = 3


class Spec:
    """the draws of one update; decisions so far -> next draw or the final state"""

    def __init__(self, X, Z, U, uniform=False):
        self.X, self.Z, self.U = X, Z, U
        self.lam, self.alpha = alg.sym(LAM, '+', 'lbda'), alg.sym(ALPHA, '+')
        self.q = alg.div(rc(1), rc(2)) if uniform else alg.sym(DENS, 'p')
        self.memo = {}

    def flip(self, score, prior):
        """probability of +1: logit = lam * score + logit(prior)"""
        k = ('f', score, prior.key())
        if k not in self.memo:
            e = alg.exp(alg.mul(rc(score), self.lam))
            on = alg.mul(e, prior)
            self.memo[k] = alg.div(on, alg.add(on, alg.sub(rc(1), prior)))
        return self.memo[k]

    def weights(self, tn, fn, N):
        k = ('w', tn, fn, N)
        if k not in self.memo:
            e = alg.expit(self.lam)
            f = alg.sub(rc(1), e)
            out, fact = [], 1
            for j in range(NEW):
                fact *= max(j, 1)
                r = alg.powi(alg.sub(rc(1), self.q), j)
                s = alg.sub(rc(1), r)
                on = alg.add(alg.mul(e, s), alg.mul(f, r))
                off = alg.add(alg.mul(f, s), alg.mul(e, r))
                w = alg.mul(alg.powi(on, fn), alg.powi(off, tn))
                out.append(alg.mul(w, alg.div(alg.powi(alg.div(self.alpha, rc(N)), j), rc(fact))))
            self.memo[k] = out
        return self.memo[k]

    def run(self, dec):
        """('flip', p, default, row) / ('new', weights, row) / ('end', Z, U)"""
        it = iter(dec)
        X = self.X
        Z, U = [list(r) for r in self.Z], [list(r) for r in self.U]
        N, D = len(Z), len(U)
        for n in range(N):
            L = len(Z[0])
            m = [sum(Z[i][l] == 1 for i in range(N) if i != n) for l in range(L)]
            for l in range(L):
                if m[l]:
                    sc = sum(X[n][d] for d in range(D) if U[d][l] == 1
                             and not any(Z[n][k] == 1 and U[d][k] == 1 for k in range(L) if k != l))
                    v = next(it, None)
                    if v is None:
                        return 'flip', self.flip(sc, alg.div(rc(m[l]), rc(N))), Z[n][l], n, 'an entry of a dimension used by %d of the other rows' % m[l]
                    Z[n][l] = v
            keep = [l for l in range(L) if m[l]]
            Z = [[r[l] for l in keep] for r in Z]
            U = [[r[l] for l in keep] for r in U]
            L = len(keep)
            off = [d for d in range(D) if not any(Z[n][l] == 1 and U[d][l] == 1 for l in range(L))]
            tn, fn = sum(X[n][d] == -1 for d in off), sum(X[n][d] == 1 for d in off)
            k = next(it, None)
            if k is None:
                return 'new', self.weights(tn, fn, N), 1, n, (L, tn, fn)
            for i in range(N):
                Z[i] += [1 if i == n else -1] * k
            for d in range(D):
                U[d] += [-1] * k
            for l in range(L, L + k):
                for d in range(D):
                    sc = sum(X[i][d] for i in range(N) if Z[i][l] == 1
                             and not any(Z[i][j] == 1 and U[d][j] == 1 for j in range(L + k) if j != l))
                    v = next(it, None)
                    if v is None:
                        return 'flip', self.flip(sc, self.q), 1, n, 'the attribute of a new dimension'
                    U[d][l] = v
        return 'end', Z, U


def split_exp(r):
    """exp(sum c m) as the product of the exp(m)^c with whole c"""
    def f(a):
        if a.kind != 'exp' or len(a.arg.d) != 1 or () not in a.arg.d:
            return None
        out = rc(1)
        for m, c in a.arg.n.items():
            one = ra_exp(m, c)
            out = alg.mul(out, alg.powi(one[0], one[1]))
        return out

    def ra_exp(m, c):
        k = c.numerator if m else 1
        x = alg.R({m: c / k}, a_den)
        E = alg.ra(alg.atom(('exp', x.key()), 'exp', x, '+'))
        return E, k
    a_den = alg._ONE
    return alg.subst(r, f)


def same(a, b):
    return alg.req(a, b) or alg.req(split_exp(a), split_exp(b))


def close_to(p, th):
    return p.key() == th.key() or same(p, th)


class Follow:
    """matches the draws of the code with the draws of the specification"""

    def __init__(self, spec, full):
        self.spec, self.full = spec, full

    def cands(self, I):
        return I.aux.setdefault('cands', [()])

    def uniform(self, I, th):
        new, free, dflt, want = {True: [], False: []}, False, None, None
        for c in self.cands(I):
            s = self.spec.run(c)
            if s[0] != 'flip':
                continue
            want = s
            a, b = close_to(s[1], th), close_to(alg.sub(rc(1), s[1]), th)
            if a:
                new[True].append(c + (1,))
                new[False].append(c + (-1,))
            if b:
                new[True].append(c + (-1,))
                new[False].append(c + (1,))
            if a or b:
                free |= s[3] in self.full
                dflt = (s[2] == 1) is a
        if not new[True]:
            self.fail(I, want, alg.show(th)[:120])
        if free:
            hit = I.choose(2) == 0
        else:
            hit = dflt
        I.aux['cands'] = new[hit]
        I.collected['draws'] = I.collected.get('draws', 0) + 1
        return hit

    def choice(self, I, vals, ps):
        new, free, want, bad = [], False, None, None
        for c in self.cands(I):
            s = self.spec.run(c)
            if s[0] != 'new':
                continue
            want = s
            if vals != list(range(NEW)):
                I.alarm('new', 'the number of new dimensions is drawn from %s' % (vals,))
                raise Prune()
            w = s[1]
            for k in range(1, NEW):
                if not same(alg.mul(ps[k], w[0]), alg.mul(ps[0], w[k])):
                    bad = k
            if bad is None:
                new.append(c)
                free |= s[3] in self.full
        if not new:
            if want is None:
                self.fail(I, want, 'a choice')
            L, tn, fn = want[4]
            I.alarm('new', 'with %d dimensions, %d zeros and %d ones not explained the odds of %s new dimensions are not those of the prior and the data'
                    % (L, tn, fn, bad))
            raise Prune()
        k = I.choose(NEW) if free else 1
        I.aux['cands'] = [c + (k,) for c in new]
        I.collected['draws'] = I.collected.get('draws', 0) + 1
        return k

    def fail(self, I, want, got):
        if want is None:
            I.alarm('draws', 'a random draw that the update does not provide for')
        else:
            I.alarm('flip', '%s is drawn with probability %s, expected %s' % (want[4], got, alg.show(want[1])[:120]))
        raise Prune()


def sc(X, Z, U, full, spec):
    def scen(I):
        P = I.policy = MultiPolicy()
        P.zerodiv = []
        P.opaque_max = True
        F = Follow(spec, full)
        P.on_uniform, P.on_choice = F.uniform, F.choice
        N, D, L = len(Z), len(U), len(Z[0])
        m = machine(I)
        mat = lambda nm, v: I.leafarr(nm, (len(v), len(v[0])), lambda I, leaf, i: I.wrap(v[i[0]][i[1]], 'int8'), 'int8', tag=nm)
        data = matrix(I, m, mat('X', X))
        lay = layer(I, m, L, data, 'OR-AND-IBP')
        fs = factors(I, lay)
        I.setattr(fs[0], 'val', mat('Z', Z))
        I.setattr(fs[1], 'val', mat('U', U))
        I.setattr(fs[1], 'bernoulli_prior', spec.q.with_dt('pyfloat'))
        I.setattr(I.getattr(lay, 'lbda'), 'val', alg.sym(LAM, '+', 'lbda').with_dt('float64'))
        I.setattr(lay, 'alpha', alg.sym(ALPHA, '+').with_dt('pyfloat'))
        I.mark()
        f = I.call(I.getfn('lom.matrix_update_wrappers.get_sampling_fct'), [fs[0]], {}, None)
        I.call(f, [fs[0]], {}, None)
        got = []
        for x in fs:
            v = I.getattr(x, 'val')
            if type(v) is not Arr or len(v.shape) != 2 or any(type(s) is not int for s in v.shape):
                raise Undecided('state after the update is %r' % (v,))
            got.append([[I.concrete(I.elem(v, (i, j))) for j in range(v.shape[1])] for i in range(v.shape[0])])
            sh = I.getattr(I.getattr(x, 'fixed_entries'), 'shape')
            if tuple(I.concrete(s) if I.isnum(s) else s for s in sh) != tuple(v.shape):
                I.alarm('state', 'the mask of fixed entries does not have the shape of the factor')
        ends = [s for s in (spec.run(c) for c in F.cands(I)) if s[0] == 'end']
        if not ends:
            I.alarm('draws', 'the update ends before %s' % (spec.run(F.cands(I)[0])[4],))
        elif not any([s[1], s[2]] == got for s in ends):
            I.alarm('state', 'the drawn values are not the ones stored: %s' % (got,))
    return scen


def worlds(N, D, L, k, seed):
    """k states of the given shape (all, when there are not more)"""
    n = N * D + N * L + D * L
    doms = [(-1, 0, 1)] * (N * D) + [(-1, 1)] * (N * L + D * L)
    tot = 1
    for d in doms:
        tot *= len(d)

    def make(i):
        v = []
        for d in doms:
            i, r = divmod(i, len(d))
            v.append(d[r])
        cut = lambda a, r, c: [a[j * c:(j + 1) * c] for j in range(r)]
        return cut(v[:N * D], N, D), cut(v[N * D:N * D + N * L], N, L), cut(v[N * D + N * L:], D, L)
    idx = range(tot) if tot <= k else sorted(random.Random(seed).sample(range(tot), k))
    return [make(i) for i in idx]


def job(N, D, L, k, seed, kinds, uniform=False):
    o = Outcome()
    seen = set()
    for i, (X, Z, U) in enumerate(worlds(N, D, L, k, seed)):
        I = Engine(max_time=100)
        I.preload()
        spec = Spec(X, Z, U, uniform)
        r = I.explore(sc(X, Z, U, {i % N}, spec))
        take(o, I, r)
        for (kind, msg), w in r.alarms.items():
            if kind in kinds and (kind, msg) not in seen and len(seen) < 6:
                seen.add((kind, msg))
                o.find(kind, CONSTRUCT, msg, w or CONSTRUCT)
            elif kind == 'uncaught' and kind not in kinds:
                o.undecided.append('%s: %s (%s)' % (kind, msg, w))
        undec(o, r)
        if seen or o.undecided:
            break
    o.bounded = '%d rows, %d columns, %d dimensions: %s states' % (N, D, L, k)
    return o


KINDS = ('flip', 'new', 'draws', 'state', 'uncaught')
RULE = 'each draw of the update has the probability the truncated Indian buffet process gives it'


def c26(tier):
    quick = tier == 'quick'
    f = 1 if quick else 8
    js = []
    for N, D, L, k in ((1, 1, 1, 12), (1, 2, 1, 12), (2, 1, 1, 24), (2, 2, 1, 12), (3, 1, 2, 16), (3, 2, 2, 10), (2, 2, 2, 10)):
        js.append(Job('update of %d rows, %d columns, %d dimensions' % (N, D, L), job, N, D, L, k * f, 7, KINDS, limit=800, weight=N * D * L))
    return js


# ---- C28: thresholds of the quantised model
QN = MU + ':sample_qL_q'
GAM = ('gamma',)
QM = 5


def sc_q(X, Z, U, aims):
    def scen(I):
        P = I.policy = MultiPolicy()
        P.zerodiv = []
        P.opaque_max = P.round_edge = True
        N, D, L = len(Z), len(U), len(Z[0])
        picks = I.aux['picks'] = []

        def choice(I, vals, ps):
            k = I.choose(len(vals))
            picks.append(ps[k])
            return vals[k]
        P.on_choice = choice
        m = machine(I)
        mat = lambda nm, v: I.leafarr(nm, (len(v), len(v[0])), lambda I, leaf, i: I.wrap(v[i[0]][i[1]], 'int8'), 'int8', tag=nm)
        data = matrix(I, m, mat('X', X))
        lay = layer(I, m, L, data, 'qL-AND')
        fs = factors(I, lay)
        I.setattr(fs[0], 'val', mat('Z', Z))
        I.setattr(fs[1], 'val', mat('U', U))
        lam = alg.sym(LAM, '+', 'lbda')
        gam = alg.sym(GAM, '+')
        I.setattr(I.getattr(lay, 'lbda'), 'val', lam.with_dt('float64'))
        I.setattr(lay, 'gamma', gam.with_dt('pyfloat'))
        qm = I.getattr(lay, 'q')
        I.setattr(qm, 'val', I.leafarr('q', (1, D), ('enum', tuple(range(1, QM + 1))), 'int8', tag='q'))
        I.mark()
        f = I.call(I.getfn('lom.matrix_update_wrappers.get_sampling_fct'), [qm], {}, None)
        I.call(f, [qm], {}, None)
        v = I.getattr(qm, 'val')
        got = [I.concrete(I.elem(v, (0, d))) for d in range(D)]
        p, lo, hi = rc(1), {}, {}
        for a, th, hit in I.usedrand:
            (hi if hit else lo)[a] = th if not hit or a not in hi else hi[a]
        for a in set(lo) | set(hi):
            p = alg.mul(p, alg.sub(hi.get(a, rc(1)), lo.get(a, rc(0))))
        for x in picks:
            p = alg.mul(p, x)
        if alg.is_zero(p) or same(p, rc(0)):
            return
        if any(g is None or not 1 <= g <= QM for g in got):
            I.alarm('range', 'thresholds become %s, outside the range 1..%d' % (got, QM))
            return
        w = rc(1)
        for d, q in enumerate(got):
            ok = 0
            for n in range(N):
                act = sum(Z[n][l] == 1 and U[d][l] == 1 for l in range(L))
                ok += X[n][d] == (1 if act >= q else -1)
            fact = 1
            for i in range(2, q + 1):
                fact *= i
            w = alg.mul(w, alg.mul(alg.exp(alg.mul(rc(ok), lam)), alg.div(alg.powi(gam, q), rc(fact))))
        if not picks and not I.usedrand:
            aims['fixed'] = 'the thresholds become %s without a random draw' % (got,)
        key = frozenset(I.signs.items()), I.inexact
        reg = aims.setdefault(key, {})
        p0 = reg[tuple(got)][0] if tuple(got) in reg else rc(0)
        reg[tuple(got)] = (alg.add(p0, p), w, I.where())
    return scen


def regional(reg, D, desc):
    """what is wrong with the distribution of the thresholds (None: nothing)"""
    if len(reg) < QM ** D:
        return 'only %d of %d combinations of thresholds are ever drawn' % (len(reg), QM ** D)
    (q0, (p0, w0, _)), *rest = sorted(reg.items())
    tot = p0
    for q, (p, w, at) in rest:
        tot = alg.add(tot, p)
        if not same(alg.mul(p, w0), alg.mul(p0, w)):
            return 'thresholds %s against %s are not drawn in the odds of prior and data (%s)' % (list(q), list(q0), desc)
    if not same(tot, rc(1)):
        return 'the probabilities of the thresholds do not add up to one'


def qjob(N, D, L, k, seed, kinds):
    o = Outcome()
    bad = False
    for X, Z, U in worlds(N, D, L, k, seed):
        I = Engine(max_time=100)
        I.preload()
        aims = {}
        r = I.explore(sc_q(X, Z, U, aims))
        take(o, I, r)
        for (kind, msg), w in r.alarms.items():
            if kind in kinds:
                bad = True
                o.find(kind, QN, msg, w or QN)
        undec(o, r)
        if bad or o.undecided:
            break
        fixed = aims.pop('fixed', None)
        if fixed:
            o.find('threshold', QN, fixed, QN)
            break
        for (signs, inexact), reg in aims.items():
            msg = regional(reg, D, 'data %s, factors %s' % (X, Z) + ', %s' % (U,))
            if msg and (signs or inexact) and len(aims) > 1:
                o.undecided.append('%s (on paths that differ in sign tests)' % msg)
            elif msg:
                o.find('threshold', QN, msg, QN)
                bad = True
            if msg:
                break
        if bad:
            break
    o.bounded = '%d rows, %d columns, %d dimensions: %d states' % (N, D, L, k)
    return o


def c28(tier):
    f = 1 if tier == 'quick' else 8
    kinds = ('threshold', 'range', 'uncaught')
    return [Job('thresholds with %d rows, %d columns, %d dimensions' % (N, D, L), qjob, N, D, L, k * f, 11, kinds, limit=800)
            for N, D, L, k in ((1, 1, 1, 12), (2, 1, 1, 24), (2, 1, 2, 24), (3, 1, 3, 16), (2, 2, 2, 4), (1, 2, 1, 8), (4, 1, 6, 8))]

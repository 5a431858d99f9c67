"""C20: MAX-AND prediction and evidence."""
import itertools
import math
from fractions import Fraction
from .. import alg
from ..alg import rc
from .common import *
from ..build import *
from ..effects import Effects, effects

MS = 'lom/_numba/max_machine_sampler.py'


def weak_orders(n):
    """level of every dimension, all orders with ties"""
    out = []
    for t in itertools.product(range(n), repeat=n):
        if set(t) == set(range(len(set(t)))):
            out.append(t)
    return out


def lambdas(levels, top=False):
    """dispersions with the given order above the clamped unit: partial sums of positive atoms over their total"""
    m = max(levels) + 1 if levels else 0
    e = [alg.sym(('gap', i), '+', 'gap') for i in range(m + 3)]
    tot = rc(0)
    for x in e:
        tot = alg.add(tot, x)

    def part(k):
        s = rc(0)
        for x in e[:k + 1]:
            s = alg.add(s, x)
        return alg.div(s, tot)
    return [part(v + 1) for v in levels] + [part(m + 1 if top else 0)], e


def lam_arr(I, vals, tag='lbda'):
    def dom(I, leaf, idx):
        return vals[idx[0]].with_dt('float64')
    return I.leafarr('lbda', (len(vals),), dom, 'float64', tag=tag)


# ---------------------------------------------------------------------------------------- prediction
def sc_product(levels, fuzzy, top):
    def sc(I):
        P = I.policy = MultiPolicy()
        E = Effects()
        P.handlers.append(E)
        L = len(levels)
        n, d = I.dim('N', 'star'), I.dim('D', 'star')
        lv, e = lambdas(levels, top)
        dom = ('atom', '0+') if fuzzy else ('enum', (-1, 1))
        dt = 'float64' if fuzzy else 'int8'
        Z, U = I.leafarr('Z', (psize(n), L), dom, dt, tag='Z'), I.leafarr('U', (psize(d), L), dom, dt, tag='U')
        lb = lam_arr(I, lv)
        I.mark()
        if fuzzy:
            out = I.call(I.getfn('lom._numba.lom_outputs_fuzzy.MAX_AND_product_fuzzy'), [Z, U, lb], {}, None)
        else:
            out = I.call(I.getfn('lom._numba.lom_outputs.MAX_AND_product_2d'), [LList([Z, U]), lb], {}, None)
        E.on = False
        if getattr(out, 'shape', None) is None or len(out.shape) != 2 or alg.sub(I.toR(out.shape[0]), n.size).key() != rc(0).key() \
                or alg.sub(I.toR(out.shape[1]), d.size).key() != rc(0).key():
            I.alarm('product', 'the prediction is not an array with the sides of the data')
            return
        got = I.elem(out, (n.star, d.star))
        if not I.isnum(got):
            raise Undecided('prediction is %r' % (got,))
        got = I.toR(got)
        if fuzzy:
            at = lambda nm, t, l: alg.sym(('leaf', nm, t, l), '0+', 'leaf')
            want = rc(0)
            for act in itertools.product((0, 1), repeat=L):
                if not any(act):
                    continue
                p = rc(1)
                for l in range(L):
                    q = alg.mul(at('Z', n.star, l), at('U', d.star, l))
                    p = alg.mul(p, q if act[l] else alg.sub(rc(1), q))
                best = max((l for l in range(L) if act[l]), key=lambda l: levels[l])
                want = alg.add(want, alg.mul(p, lv[best]))
            wants = [want]
        else:
            opts = []
            for l in range(L):
                z, u = I.facts.get(('Z', (n.star, l))), I.facts.get(('U', (d.star, l)))
                o = {(z or a) == 1 and (u or b) == 1 for a in (-1, 1) for b in (-1, 1)}
                opts.append(sorted(o))
            wants = {}
            for act in itertools.product(*opts):
                on = [l for l in range(L) if act[l]]
                w = lv[max(on, key=lambda l: levels[l])] if on else rc(0)
                wants[w.key()] = w
            wants = list(wants.values())
        if len(wants) != 1 or not alg.req(wants[0], got):
            I.alarm('product', 'a cell is predicted as %s where %s is required (dispersions %s)' % (
                alg.show(got)[:100], ' or '.join(alg.show(w)[:100] for w in wants), order(levels)))
    return sc


def order(levels):
    return 'in the order ' + ', '.join('%d:%d' % x for x in enumerate(levels))


def product_job(levels, fuzzy, top, kinds):
    o = Outcome()
    f = 'lom/_numba/lom_outputs_fuzzy.py:MAX_AND_product_fuzzy' if fuzzy else 'lom/_numba/lom_outputs.py:MAX_AND_product_2d'
    I = Engine(max_time=100)
    I.preload()
    r = I.explore(sc_product(levels, fuzzy, top))
    return close(o, I, r, f, kinds, len(levels))


def close(o, I, r, construct, kinds, L):
    take(o, I, r)
    for (kind, msg), w in r.alarms.items():
        if kind in kinds:
            o.find(kind, construct, msg, w or construct)
        elif kind == 'uncaught':
            o.undecided.append('%s: %s (%s)' % (kind, msg, w))
    for kind, msg, w in effects(I):
        if kind in kinds:
            o.find(kind, where_fn(w) or construct, msg, w or construct)
    undec(o, r)
    o.bounded = '%d latent dimensions' % L
    return o


# ---------------------------------------------------------------------------------------- evidence
class MaxSpec:
    """evidence of the MAX-AND model for a given order of the dispersions"""
    model = 'MAX-AND'
    xdom = (-1, 0, 1)
    prepare = None      # function that derives further state from the settings

    def __init__(self, levels):
        self.levels = levels
        self.L = len(levels)
        self.lv = lambdas(levels)[0]

    def setup(self, I, lay, sides):
        I.setattr(I.getattr(lay, 'lbda'), 'val', lam_arr(I, self.lv))

    def extra(self, I, axis, n, d):
        """values of the states besides data and factors that the evidence of a cell depends on"""
        return (None,)

    def cell(self, t, z, us, x, ex):
        return cell_evidence(self.levels, self.lv, t, z, us, x)

    def show(self):
        return order(self.levels)


def sc_update(spec, axis, target, D, late=None):
    def sc(I):
        P = I.policy = MultiPolicy()
        E = Effects()
        P.handlers.append(E)
        L = spec.L
        n = I.dim(AX[axis], 'star')
        sides = [psize(n), D] if axis == 0 else [D, psize(n)]
        m = machine(I)
        X = I.leafarr('X', tuple(sides), ('enum', spec.xdom), 'int8', tag='X')
        data = matrix(I, m, X)
        lay = layer(I, m, L, data, spec.model)
        fs = factors(I, lay)

        def mask(I, leaf, idx):
            if idx[1] != target:
                return I.wrap(1, 'int8')
            k = (leaf.name, idx)
            if k not in I.facts:
                I.facts[k] = (0, 1)[I.choose(2)]
            return I.wrap(I.facts[k], 'int8')
        for i, (nm, f) in enumerate(zip(FAC, fs)):
            I.setattr(f, 'val', I.leafarr(nm, (sides[i], L), ('enum', (-1, 1)), 'int8', tag=nm))
            I.setattr(f, 'fixed_entries', I.leafarr('F' + nm, (sides[i], L), mask, 'int8', tag='F' + nm))
        spec.setup(I, lay, sides)
        own, oth = FAC[axis], FAC[1 - axis]
        mat = fs[axis]
        E.own = {own}
        get = I.getfn('lom.matrix_update_wrappers.get_sampling_fct')
        if late:
            E.on = False
            restore = late(I, m, 2)
            f = I.call(get, [mat], {}, None)
            I.call(f, [mat], {}, None)
            restore()
            E.on = True
            I.mark()
        else:
            if spec.prepare:
                I.call(I.getfn(spec.prepare), [lay], {}, None)
            I.mark()
            f = I.call(get, [mat], {}, None)
        I.call(f, [mat], {}, None)
        E.on = False
        v = I.getattr(mat, 'val')
        c = (n.star, target)
        new = I.concrete(I.elem(v, c))
        old = I.facts.get((own, c))
        F = I.facts.get(('F' + own, c))
        for l in range(L):
            if l != target and (n.star, l) in v.st.cells:
                was = I.facts.get((own, (n.star, l)))
                now = I.concrete(I.elem(v, (n.star, l)))
                if was is not None and now != was:
                    I.alarm('fixed', 'a fixed entry is changed')
        if F == 1 or F is None:
            if c in v.st.cells and old is not None and new != old:
                I.alarm('fixed', 'a fixed entry is changed' if F else 'an entry is changed without consulting the mask')
            return
        # a value that was decided on but equals the present one need not be stored
        if c not in v.st.cells and not (new == old and (I.weights or I.signs)):
            I.alarm('redraw', 'an entry that is not fixed is not redrawn')
            return
        if new not in (-1, 1):
            I.alarm('code', 'an entry becomes %s' % (new,))
            return
        evid = {}
        slots = []
        for d in range(D):
            cell = (n.star, d) if axis == 0 else (d, n.star)
            slots.append((spec.extra(I, axis, n.star, d), [I.facts.get(('X', cell))] + [I.facts.get((oth, (d, l))) for l in range(L)]))
        zs = [I.facts.get((own, (n.star, l))) for l in range(L)]
        free = [l for l in range(L) if l != target and zs[l] is None]
        for zf in itertools.product((-1, 1), repeat=len(free)):
            z = list(zs)
            for l, x in zip(free, zf):
                z[l] = x
            per = []
            for exs, s in slots:
                vals = {}
                doms = [exs, (s[0],) if s[0] is not None else spec.xdom] + [(u,) if u is not None else (-1, 1) for u in s[1:]]
                for w in itertools.product(*doms):
                    t = spec.cell(target, z, w[2:], w[1], w[0])
                    vals[t.key()] = t
                per.append(list(vals.values()))
            for comb in itertools.product(*per):
                t = rc(0)
                for x in comb:
                    t = alg.add(t, x)
                evid[alg.exp(t).key()] = t
            if len(evid) > 2:
                break
        if len(evid) > 1:
            I.alarm('inc', 'the evidence ignores states it depends on (%s)' % spec.show())
            return
        (key, ev), = evid.items()
        I.collected.setdefault('out', []).append(
            {'ev': alg.exp(ev), 'key': key, 'z0': old, 'z1': new, 'signs': dict(I.signs), 'signq': {k: I.signq[k] for k in I.signs if k in I.signq},
             'weights': list(I.weights), 'inexact': I.inexact,
             'desc': ', '.join('%s[%s]=%s' % (k[0], ','.join(map(str, k[1])), x) for k, x in sorted(I.facts.items(), key=repr)
                               if k[0] in ('X', own, oth, 'q'))})
    return sc


def cell_evidence(levels, lv, t, z, us, x):
    L = len(levels)
    if us[t] != 1 or x == 0:
        return rc(0)
    act = [l for l in range(L) if l != t and z[l] == 1 and us[l] == 1]
    best = max(act, key=lambda l: levels[l]) if act else None
    if best is not None and levels[best] >= levels[t]:
        return rc(0)
    o = lv[best] if best is not None else lv[L]
    if x == 1:
        return alg.log(alg.div(lv[t], o))
    return alg.log(alg.div(alg.sub(rc(1), lv[t]), alg.sub(rc(1), o)))


def judge(outs, what, rule):
    """detailed balance of every world with respect to exp(evidence)"""
    groups = {}
    for o in outs:
        groups.setdefault(o['key'], []).append(o)
    atoms = sorted({a for o in outs for r in [o['ev']] + list(o['signq'].values()) + [w for w, _ in o['weights']]
                    for a in r.all_atoms() if a.kind not in ('exp', 'log')}, key=repr)
    envs = [{a: ((i * 37 + j * 101) % 89 + 3) / 17.0 for i, a in enumerate(atoms)} for j in range(6)]
    for g in groups.values():
        for env in envs:
            e = alg.evaluate(g[0]['ev'], env)
            # z0 -> class of paths with equal decisions
            f = {}
            for z in (-1, 1):
                tot = flip = 0.0
                seen = {}
                for o in g:
                    if o['z0'] not in (None, z):
                        continue
                    ok = True
                    for k, q in o['signq'].items():
                        v = alg.evaluate(q, env)
                        s = o['signs'][k]
                        if s == '+' and v <= 1e-12 or s == '-' and v >= -1e-12 or s == '0' and abs(v) > 1e-12:
                            ok = False
                    if not ok:
                        continue
                    w, sig = 1.0, []
                    for th, hit in o['weights']:
                        t = min(1.0, max(0.0, alg.evaluate(th, env)))
                        w *= t if hit else 1 - t
                        sig.append((round(t, 9), hit))
                    k = (tuple(sig), o['z1'])
                    if k in seen:
                        continue
                    seen[k] = o
                    tot += w
                    if o['z1'] == -z:
                        flip += w
                if abs(tot - 1) > 1e-9:
                    # paths of one evidence value disagree about the rule
                    return 'inc', 'states with the same evidence are treated differently (%s; %s)' % (
                        what, g[0]['desc'])
                f[z] = flip
            a, b = f[1] * e, f[-1]
            if abs(a - b) > 1e-9 * max(1, abs(a), abs(b)):
                return 'inc', '%s (%s; %s)' % (rule,
                    what, g[0]['desc'])
            if f[1] == 0 and f[-1] == 0:
                return 'flip', 'the entry is never changed'
    return None


RULE = 'the entry is not drawn in the odds of the comparison with the strongest other active dimension'


def update_job(spec, axis, target, D, kinds, construct=MS + ':draw_MAX_AND_2D', rule=RULE, late=None):
    o = Outcome()
    construct += ' [factor %d]' % axis
    I = Engine(max_time=200)
    I.preload()
    r = I.explore(sc_update(spec, axis, target, D, late))
    close(o, I, r, construct, kinds, spec.L)
    o.bounded = '%d latent dimensions, %d cells per row' % (spec.L, D)
    if o.undecided or r.alarms or not set(kinds) & {'inc', 'flip'}:
        return o
    outs = I.collected.get('out', [])
    if not outs:
        o.undecided.append('no update of a free entry found')
        return o
    try:
        bad = judge(outs, spec.show(), rule)
    except (KeyError, ZeroDivisionError, ValueError) as e:
        o.undecided.append('evaluation of the acceptance rule: %r' % (e,))
        return o
    if bad and bad[0] in kinds:
        if any(x['inexact'] for x in outs):
            o.undecided.append(bad[1] + ' (on paths that may be infeasible)')
        else:
            o.find(bad[0], construct, bad[1], construct)
    return o


KINDS = ('product', 'inc', 'flip', 'redraw', 'uncaught')


def jobs(kinds, tier, product=True):
    js = []
    quick = tier == 'quick'
    if product:
        for n in (1, 2, 3) if quick else (1, 2, 3, 4):
            for lv in weak_orders(n):
                for fuzzy in (False, True):
                    for top in (False, True):
                        js.append(Job('%sprediction, %s%s' % ('expected ' if fuzzy else '', order(lv), ', clamped unit on top' if top else ''),
                                      product_job, lv, fuzzy, top, kinds))
    for n, D in ((1, 1), (2, 1), (2, 2), (3, 1)) + (() if quick else ((1, 2), (1, 3), (3, 2))):
        for lv in weak_orders(n):
            if n == 3 and quick and len(set(lv)) == 2 and lv not in ((0, 0, 1), (1, 0, 1)):
                continue
            for axis in (0, 1):
                for t in range(n):
                    if quick and (n, axis) == (3, 1) and t != 1:
                        continue
                    js.append(Job('factor %d, dimension %d, %d cells, %s' % (axis, t, D, order(lv)), update_job, MaxSpec(lv), axis, t, D, kinds))
    return js


def c20(tier):
    return jobs(KINDS, tier)


def few(kinds):
    """side conditions of the update and the products"""
    from . import qland
    return [j for j in jobs(kinds, 'quick') if j.name in FEW] + qland.few(kinds)


FEW = ('prediction, ' + order((0, 1)), 'expected prediction, ' + order((0, 1)), 'factor 0, dimension 0, 1 cells, ' + order((0, 1)),
       'factor 1, dimension 1, 1 cells, ' + order((1, 0)))

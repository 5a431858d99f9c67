"""C14 (values stored outside the samplers) and C15 (removal of latent dimensions)."""
from fractions import Fraction
from .. import alg
from ..alg import rc
from .common import *
from ..build import *
from ..effects import Effects, effects

AUX = 'lom/auxiliary_functions.py'


def run(o, construct, sc, kinds, overrides=None, max_time=100):
    I = Engine(overrides=overrides or {}, max_time=max_time)
    I.preload()
    r = I.explore(sc)
    take(o, I, r)
    for (kind, msg), w in r.alarms.items():
        if kind in kinds:
            o.find(kind, construct, msg, w or construct)
        elif kind == 'uncaught':
            o.undecided.append('%s: %s (%s)' % (kind, msg, w))
    undec(o, r)
    return o


def const(I, v):
    if not I.isnum(v):
        return None
    return I.toR(v).const()


def check_sign(I, a, idx, what):
    v = I.elem(a, idx)
    if not I.isnum(v):
        if 'uninitialised' in repr(v):
            I.alarm('code', '%s holds an uninitialised value' % what)
            return None
        raise Undecided('%s is %r' % (what, v))
    c = const(I, v)
    if c is None:
        raise Undecided('%s is %s' % (what, alg.show(I.toR(v))[:80]))
    if c not in (-1, 1):
        I.alarm('code', '%s is %s, neither -1 nor 1' % (what, c))
    return c


# ---------------------------------------------------------------------------------------- C14: initialisation, MAP
def sc_init(how):
    def sc(I):
        I.policy = MultiPolicy()
        m = machine(I)
        n, l = I.dim('N', 'star'), I.dim('L', 'star')
        sh = (psize(n), psize(l))
        if how == 'layer':
            ds = [n, I.dim('D', 'star'), I.dim('M', 'star')]
            lay = I.call(I.getattr(m, 'add_layer'), [], {'latent_size': psize(l), 'shape': tuple(psize(d) for d in ds), 'model': 'OR-AND'}, None)
            fs = list(zip(factors(I, lay), ds)) + []
        else:
            kw = {'child_axis': 0}
            if how == 'shape':
                kw['shape'] = sh
            elif how == 'float':
                kw['val'] = Fraction(3, 10)
                kw['shape'] = sh
            else:
                kw['val'] = I.leafarr('V', sh, ('enum', (-1, 1)), 'int8' if how == 'array' else 'int64', tag='V')
            if how == 'mask':
                kw['fixed'] = I.leafarr('M', sh, ('enum', (0, 1)), 'int8', tag='M')
            if how == 'float':
                f = I.call(I.getfn('lom.machine.MachineMatrix'), [sh, I.wrap(0.3, 'pyfloat') if False else rc(Fraction(3, 10)).with_dt('pyfloat'), 0], {}, None)
            else:
                f = matrix(I, m, **kw)
            fs = [(f, n)]
        I.mark()
        for f, d in fs:
            a = I.getattr(f, 'val')
            c = check_sign(I, a, (d.star, l.star), 'an entry of a new matrix')
            if how in ('array', 'mask', 'wide') and c is not None and c != I.facts.get(('V', (n.star, l.star))):
                I.alarm('code', 'an entry of a given matrix is changed on initialisation')
    return sc


def sc_map(T):
    def sc(I):
        I.policy = MultiPolicy()
        m = machine(I)
        n, l = I.dim('N', 'star'), I.dim('L', 'star')
        sh = (psize(n), psize(l))
        f = matrix(I, m, I.leafarr('V', sh, ('enum', (-1, 1)), 'int8', tag='V'), child_axis=0)
        if T:
            I.setattr(f, 'trace', I.leafarr('T', (T,) + sh, ('enum', (-1, 1)), 'int8', tag='T'))
            I.setattr(f, 'trace_index', T)
        I.mark()
        I.call(I.getattr(f, 'set_to_map'), [], {}, None)
        idx = (n.star, l.star)
        c = check_sign(I, I.getattr(f, 'val'), idx, 'an entry of the MAP state')
        if c is None:
            return
        if T:
            vs = []
            for t in range(T):
                v = I.facts.get(('T', (t,) + idx))
                if v is None:
                    I.alarm('map', 'the MAP state does not depend on every retained sample')
                    return
                vs.append(v)
            s = sum(vs)
        else:
            s = I.facts.get(('V', idx), 0)
        if s and c != (1 if s > 0 else -1):
            I.alarm('map', 'the MAP state of an entry with posterior mean %s is %s' % (Fraction(s, T or 1), c))
    return sc


def sc_random():
    def sc(I):
        I.policy = MultiPolicy()
        n, l = I.dim('N', 'star'), I.dim('L', 'star')
        a = I.call(I.getfn('lom.auxiliary_functions.random_machine_matrix'), [alg.sym(('p',), '0+').with_dt('float64'),
                                                                             (psize(n), psize(l))], {}, None)
        check_sign(I, a, (n.star, l.star), 'an entry of a random matrix')
    return sc


def job14(name, construct, mk, kinds=('code', 'map')):
    return run(Outcome(), construct, mk, kinds)


MM = 'lom/machine.py:MachineMatrix.'


def c14_jobs(tier):
    js = []
    for how in ('shape', 'float', 'array', 'wide', 'mask'):
        js.append(Job('initial state, %s' % how, job14, how, MM + '__init__', _Mk(sc_init, how)))
    js.append(Job('initial state of a layer', job14, 'layer', 'lom/machine.py:Machine.add_layer', _Mk(sc_init, 'layer')))
    for T in (0, 1, 2, 3, 4):
        js.append(Job('MAP state, %d samples' % T, job14, 'map', MM + 'set_to_map', _Mk(sc_map, T)))
    js.append(Job('random matrix', job14, 'random', AUX + ':random_machine_matrix', _Mk(sc_random)))
    return js + [j for j in clean_jobs(('code',), tier) if tier != 'quick' or 'reset, 1x1 factors, 3' in j.name]


class _Mk:
    """picklable scenario"""

    def __init__(self, f, *a):
        self.f, self.a = f, a

    def __call__(self, I):
        return self.f(*self.a)(I)


# ---------------------------------------------------------------------------------------- C15
def build_layer(I, model, rows, L, fixed, dom=('enum', (-1, 1)), fdom=('enum', (0, 1))):
    m = machine(I)
    k = len(rows)
    X = I.leafarr('X', tuple(rows), ('enum', (-1, 0, 1)), 'int8', tag='X')
    data = matrix(I, m, X)
    lay = layer(I, m, L, data, model)
    fs = factors(I, lay)
    for i, (nm, n, f) in enumerate(zip(FAC, rows, fs)):
        I.setattr(f, 'val', I.leafarr(nm, (n, L), dom, 'int8', tag=nm))
        I.setattr(f, 'fixed_entries', I.leafarr('F' + nm, (n, L), fdom, 'int8', tag='F' + nm))
        if fixed == i:
            I.setattr(f, 'fixed', True)
    if model == 'MAX-AND':
        I.setattr(I.getattr(lay, 'lbda'), 'val', I.leafarr('lbda', (L + 1,), ('atom', '+'), 'float64', tag='lbda'))
    return lay, fs


def tail_ok(I, lay, fs, rows, L, model, cols):
    """the columns of the layer are the given columns of the old one, in this order"""
    L2 = len(cols)
    toks = [r if type(r) is int else None for r in rows]
    for nm, n, f in zip(FAC, rows, fs):
        for attr, nm2, what in (('val', nm, 'factor'), ('fixed_entries', 'F' + nm, 'mask')):
            a = I.getattr(f, attr)
            if getattr(a, 'shape', None) is None or len(a.shape) != 2 or const(I, a.shape[1]) != L2:
                I.alarm('columns', 'a %s has %s columns where the layer has %d dimensions' % (
                    what, alg.show(I.toR(a.shape[1])) if getattr(a, 'shape', None) else '?', L2))
                return False
            if alg.sub(I.toR(a.shape[0]), I.toR(n if type(n) is int else n)).key() != rc(0).key():
                I.alarm('columns', 'rows of a %s change' % what)
                return False
            for r in (range(n) if type(n) is int else [I.stars[nm]]):
                for j, c in enumerate(cols):
                    v = I.elem(a, (r, j))
                    if not I.isnum(v):
                        raise Undecided('an entry of a %s is %r' % (what, v))
                    if not alg.req(I.toR(v), alg.sym(('leaf', nm2, r, c), '', 'leaf')):
                        I.alarm('columns', 'column %d of a %s is not column %d of the former one' % (j, what, c))
                        return False
    if const(I, I.getattr(lay, 'size')) != L2:
        I.alarm('columns', 'the size of the layer is not the number of its dimensions')
    if model == 'MAX-AND':
        lb = I.getattr(I.getattr(lay, 'lbda'), 'val')
        want = list(cols) + [L]
        if const(I, lb.shape[0]) != len(want):
            I.alarm('columns', 'the layer has %s dispersions for %d dimensions' % (alg.show(I.toR(lb.shape[0])), L2))
            return False
        at = lambda i: alg.sym(('leaf', 'lbda', i), '+', 'leaf')
        for j, c in enumerate(want):
            if not alg.req(I.toR(I.elem(lb, (j,))), at(c)):
                I.alarm('columns', 'dispersion %d is not that of dimension %d' % (j, c))
                return False
    return True


def sc_remove(model, k, L, l, fixed):
    def sc(I):
        I.policy = MultiPolicy()
        I.policy.zerodiv = []
        ds = [I.dim(x, 'star') for x in AX[:k]]
        I.stars = {nm: d.star for nm, d in zip(FAC, ds)}
        rows = [psize(d) for d in ds]
        lay, fs = build_layer(I, model, rows, L, fixed, ('atom', ''), ('atom', ''))
        I.mark()
        I.call(I.getfn('lom.auxiliary_functions.remove_dimension'), [l, lay], {}, None)
        tail_ok(I, lay, fs, rows, L, model, [c for c in range(L) if c != l])
    return sc


def sc_reset(k, L, l, fixed):
    def sc(I):
        I.policy = MultiPolicy()
        ds = [I.dim(x, 'star') for x in AX[:k]]
        rows = [psize(d) for d in ds]
        lay, fs = build_layer(I, 'OR-AND', rows, L, fixed)
        I.mark()
        I.call(I.getfn('lom.auxiliary_functions.reset_dimension'), [l, lay], {}, None)
        for i, (nm, d, f) in enumerate(zip(FAC, ds, fs)):
            a = I.getattr(f, 'val')
            for j in range(L):
                c = check_sign(I, a, (d.star, j), 'an entry of a reset factor')
                old = I.facts.get((nm, (d.star, j)))
                keep = j != l or fixed == i
                if not keep:
                    fx = I.facts.get(('F' + nm, (d.star, j)))
                    if fx is None and c == -1 and old is None:
                        continue_ = I.elem(I.getattr(f, 'fixed_entries'), (d.star, j))
                        fx = const(I, continue_)
                    keep = fx == 1
                if keep and (old is None or c != old):
                    I.alarm('fixed', 'resetting dimension %d changes %s' % (l, 'another dimension' if j != l else 'a fixed entry'))
                elif not keep and c != -1:
                    I.alarm('reset', 'an entry of the reset dimension is not -1')
    return sc


def sc_clean(model, rows, L, mode, masks, fixed):
    def sc(I):
        I.policy = MultiPolicy()
        lay, fs = build_layer(I, model, list(rows), L, fixed)
        if not masks:
            for n, f in zip(rows, fs):
                I.setattr(f, 'fixed_entries', I.full((n, L), 0, 'int8'))
        I.mark()
        ret = I.call(I.getfn('lom.auxiliary_functions.clean_up_codes'), [lay, mode == 'reset', mode == 'clean'], {}, None)
        ret = I.truth(ret)
        col = {}
        for nm, n in zip(FAC, rows):
            for j in range(L):
                vs = []
                for r in range(n):
                    vs.append(I.facts.get((nm, (r, j))))
                col[nm, j] = vs

        def get(nm, r, j):
            v = col[nm, j][r]
            if v is None:
                k = (nm, (r, j))
                if k not in I.facts:
                    I.facts[k] = (-1, 1)[I.choose(2)]
                v = col[nm, j][r] = I.facts[k]
            return v
        names = FAC[:len(rows)]
        dead = [any(all(get(nm, r, j) == -1 for r in range(n)) for nm, n in zip(names, rows)) for j in range(L)]

        def dup(i, j):
            return any(all(get(nm, r, i) == get(nm, r, j) for r in range(n)) for nm, n in zip(names, rows))
        if mode == 'clean':
            surv = []
            for j in range(L):
                if not dead[j] and not any(dup(i, j) for i in surv):
                    surv.append(j)
            if ret != (len(surv) != L):
                I.alarm('report', 'cleaning reports %s although %d of %d dimensions are removed' % (ret, L - len(surv), L))
            now = const(I, I.getattr(lay, 'size'))
            if now != len(surv):
                I.alarm('clean', '%s of %d dimensions remain where %d are neither dead nor redundant' % (now, L, len(surv)))
                return
            for nm, n, f in zip(names, rows, fs):
                a = I.getattr(f, 'val')
                for r in range(n):
                    for j, c in enumerate(surv):
                        if const(I, I.elem(a, (r, j))) != get(nm, r, c):
                            I.alarm('clean', 'a remaining dimension does not keep its values')
                            return
            return
        new = {}
        changed = False
        for i, (nm, n, f) in enumerate(zip(names, rows, fs)):
            a = I.getattr(f, 'val')
            if const(I, a.shape[1]) != L:
                I.alarm('clean', 'resetting changes the number of dimensions')
                return
            for r in range(n):
                for j in range(L):
                    v = new[nm, r, j] = check_sign(I, a, (r, j), 'an entry of a cleaned factor')
                    if v is None:
                        return
                    if v != get(nm, r, j):
                        changed = True
        pairs = any(dup(i, j) for i in range(L) for j in range(i) if not dead[i] and not dead[j])
        if changed and not ret:
            I.alarm('report', 'dimensions are reset but nothing is reported')
        if ret and not any(dead) and not pairs:
            I.alarm('report', 'a reset is reported although every dimension is in use')
        if masks or fixed is not None:
            return
        off = [all(new[nm, r, j] == -1 for nm, n in zip(names, rows) for r in range(n)) for j in range(L)]
        for j in range(L):
            if off[j]:
                if not dead[j] and not any(dup(i, j) for i in range(L) if i != j and not off[i]) and \
                        not any(dup(i, j) for i in range(L) if i != j):
                    I.alarm('clean', 'a dimension in use is reset')
                continue
            if any(all(new[nm, r, j] == -1 for r in range(n)) for nm, n in zip(names, rows)):
                I.alarm('clean', 'a dead dimension stays')
            for i in range(j):
                if not off[i] and any(all(new[nm, r, j] == new[nm, r, i] for r in range(n)) for nm, n in zip(names, rows)):
                    I.alarm('clean', 'a redundant dimension stays')
    return sc


def job15(construct, mk, kinds, bounded):
    o = run(Outcome(), construct, mk, kinds)
    o.bounded = bounded
    return o


def clean_jobs(kinds, tier):
    js = []
    for rows, Ls in (((1, 1), (3,)), ((2, 1), (3,)), ((2, 2), (2,)), ((3, 1), (2,)), ((2, 2, 1), (2,)), ((1, 1, 1), (3,))):
        if tier != 'quick':
            Ls = {(1, 1): (2, 3, 4, 5), (2, 1): (2, 3, 4), (2, 2): (2, 3), (3, 1): (2, 3), (2, 2, 1): (2,), (1, 1, 1): (2, 3)}[rows]
        for mode in ('clean', 'reset'):
            for masks, fixed in ((False, None), (True, None), (False, 0)):
                if mode == 'clean' and (masks or fixed is not None):
                    continue
                if masks and (sum(rows) > 2 or tier == 'quick'):
                    continue
                for L in Ls:
                    js.append(Job('clean-up, %s, %s factors, %d dimensions%s%s' % (mode, 'x'.join(map(str, rows)), L, ', masks' if masks else '',
                                                                                ', one fixed' if fixed is not None else ''),
                                  job15, AUX + ':clean_up_codes [%s]' % mode, _Mk(sc_clean, 'OR-AND', rows, L, mode, masks, fixed), kinds,
                                  'factors of shape %s with %d columns' % (rows, L)))
    return js


KINDS15 = ('columns', 'clean', 'report', 'fixed', 'reset', 'uncaught')


def c15(tier):
    js = []
    Ls = (2, 3) if tier == 'quick' else (1, 2, 3, 4, 5)
    for model, k in [('OR-AND', 2), ('OR-AND', 3), ('MAX-AND', 2)] + [(m, kk) for m in CANON[1:] for kk in (2, 3)] + [
            ('OR-AND-IBP', 2), ('qL-AND', 2)]:
        main = model in ('OR-AND', 'MAX-AND')
        for L in Ls if main else Ls[-1:]:
            if model == 'MAX-AND' and L == 1:
                continue
            for fixed in [None] + list(range(k) if main or tier != 'quick' else ()):
                for l in range(L):
                    js.append(Job('removal of dimension %d of %d, %s, %d factors%s' % (
                        l, L, model, k, '' if fixed is None else ', factor %d fixed' % fixed), job15, AUX + ':remove_dimension [%s]' % model,
                        _Mk(sc_remove, model, k, L, l, fixed), KINDS15, '%d latent dimensions' % L))
    for k in (2, 3):
        for fixed in (None, 0, 1):
            for l in range(3):
                js.append(Job('reset of dimension %d of 3, %d factors%s' % (l, k, '' if fixed is None else ', factor %d fixed' % fixed), job15,
                              AUX + ':reset_dimension', _Mk(sc_reset, k, 3, l, fixed), KINDS15, '3 latent dimensions'))
    return js + clean_jobs(KINDS15, tier)

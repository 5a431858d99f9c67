"""C17 (seeds) and C18 (train/test splits)."""
import ast
import itertools
import os
import re
from fractions import Fraction
from .. import alg
from ..alg import rc
from .common import *
from ..build import *
from ..values import Top
from ..engine import Arr

EX, AUX = 'lom/experiments.py', 'lom/auxiliary_functions.py'


def fr(*p):
    return rc(Fraction(*p)).with_dt('pyfloat')


def val(I, v, what):
    if not I.isnum(v):
        if 'uninitialised' in repr(v):
            I.alarm('split', '%s is not initialised' % what)
            return None
        raise Undecided('%s is %r' % (what, v))
    c = I.toR(v).const()
    if c is None:
        raise Undecided('%s is %s' % (what, alg.show(I.toR(v))[:80]))
    return c


def unpack(I, r, n):
    if n == 1:
        return (r,)
    return tuple(I.listify(r))


def sc_split(qual, kw, cells, dims, n, balanced, coded, done):
    def sc(I):
        I.policy = MultiPolicy()
        if dims:
            ds = [I.dim('N%d' % i, 'star') for i in range(dims)]
            shape = tuple(psize(d) for d in ds)
            ixs = [tuple(d.star for d in ds)]
        else:
            shape = cells
            ixs = list(itertools.product(*[range(s) for s in shape]))
        X = I.leafarr('X', shape, ('enum', (-1, 0, 1)), 'int8', tag='X')
        if not dims:
            x0 = [val(I, I.elem(X, ix), 'X') for ix in ixs]
            if not any(x0):
                return
        r = unpack(I, I.call(I.getfn(qual), [X], dict(kw), None), n)
        I.mark()
        done.append(1)
        if len(r) != n:
            I.alarm('split', 'returns %d values instead of %d' % (len(r), n))
            return
        train = r[0]
        mask = r[1] if n > 1 else None
        for a, w in zip(r, ('training data', 'test mask')):
            if type(a) is not Arr:
                raise Undecided('%s: %r' % (w, a))
            if len(a.shape) != len(shape) or not all(I.same(p, q) for p, q in zip(a.shape, shape)):
                I.alarm('split', 'the %s does not have the shape of the data' % w)
                return
        pos = neg = 0
        out = []
        for ix in ixs:
            t = val(I, I.elem(train, ix), 'a training cell')
            m = None if mask is None else val(I, I.elem(mask, ix), 'a cell of the test mask')
            x = val(I, I.elem(X, ix), 'a data cell')
            if x != I.facts.get(('X', ix), x):
                I.alarm('split', 'the data handed over are changed')
            out.append((I.facts.get(('X', ix), x), t, m))
        recode = coded and not dims and not any(x == -1 for x, t, m in out)
        for x, t, m in out:
            if recode:
                x = 2 * x - 1
            if m is not None:
                if bool(m) and x == 0:
                    I.alarm('split', 'the test mask marks a missing cell')
                if bool(m) and t != 0:
                    I.alarm('split', 'a held-out cell is still observed in the training data')
                if not m and t != x:
                    I.alarm('split', 'a cell that is not held out is changed from %s to %s' % (x, t))
            elif t not in (0, x):
                I.alarm('split', 'a cell that is not held out is changed from %s to %s' % (x, t))
            held = (bool(m) if m is not None else t == 0) and x != 0
            pos += held and x == 1
            neg += held and x == -1
        if balanced and not dims and pos != neg:
            I.alarm('split', 'a balanced split holds out different numbers of positive and negative cells')
    return sc


def split_job(*a):
    qual = a[0]
    o = Outcome()
    I = Engine(max_time=200)
    I.preload()
    done = []
    r = I.explore(sc_split(*a, done))
    take(o, I, r)
    con = 'lom/%s.py:%s' % (qual.split('.')[1], qual.split('.')[-1])
    for (kind, msg), w in r.alarms.items():
        if kind == 'split':
            o.find(kind, con, msg, w or con)
    if not done and r.alarms:
        o.undecided.append('no split is ever returned: %s' % '; '.join(sorted(m for k, m in r.alarms))[:200])
    for k, w in r.undecided.items():
        o.undecided.append('%s (%s)' % (k, w))
    o.bounded = not a[3]
    return o


def c18(tier):
    jobs = []

    def add(name, *a):
        jobs.append(Job(name, split_job, *a))
    q = 'lom.experiments.split_train_test'
    small = [(2, 2), (1, 3), (1, 1), (2, 1, 2)]
    if tier != 'quick':
        small += [(3, 2), (2, 3), (1, 1, 5)]
    for d in (2, 3):
        for how in ({}, {'balanced': False}):
            add('split_train_test of any %dD tensor%s' % (d, ', balanced=False' if how else ''), q, dict(how, split=fr(1, 10)), None, d, 2, False, False)
    for sh in small:
        for s in ((1, 2), (1, 1), (1, 4)):
            if sh == (1, 1):
                continue
            add('balanced split_train_test, %s cells, share %s/%s' % ((sh,) + s), q, {'split': fr(*s), 'balanced': True}, sh, 0, 2, True, False)
        for s in ((1, 2), (1, 1)):
            add('split_tensor_train_test_old, %s cells, share %s/%s' % ((sh,) + s), 'lom.experiments.split_tensor_train_test_old', {'split': fr(*s)}, sh, 0, 2, False, False)
        add('split_train_test, %s cells, share 1/2' % (sh,), q, {'split': fr(1, 2)}, sh, 0, 2, False, False)
        if len(sh) == 2:
            for s in ((1, 2), (2, 3), (1, 1)):
                add('split_test_train, %s cells, share %s/%s' % ((sh,) + s), 'lom.auxiliary_functions.split_test_train', {'p': fr(*s)}, sh, 0, 1, True, True)
    return jobs


# ------------------------------------------------------------------------------------------------------ C17
def fixed_by_seed(I, v):
    """is the value an expression of the seed and constants?"""
    if v is None or type(v) in (Top, str):
        return type(v) is str
    if type(v) in (LList, tuple):
        return all(fixed_by_seed(I, x) for x in I.listify(v))
    if not I.isnum(v):
        return None
    return all(not mentions_draw(a) for a in I.toR(v).atoms())


def mentions_draw(a):
    s = repr(a.key)
    if "'rand" in s or "'choice" in s or "'binomial" in s:
        return True
    return hasattr(a.arg, 'atoms') and any(mentions_draw(b) for b in a.arg.atoms())


class Tracker:
    """which generators were seeded, and which draws precede that"""

    def __init__(self):
        self.seeded = set()
        self.loose = []

    def __call__(self, I, kind, *a):
        if kind == 'seed':
            f = fixed_by_seed(I, a[0])
            if f is None:
                raise Undecided('seed %r' % (a[0],))
            (self.seeded.add if f else self.seeded.discard)(I.gen)
        elif kind == 'draw' and I.gen not in self.seeded:
            self.loose.append((a[0], I.rngc, I.where()))


def used(I, T, vals):
    """the draws from an unseeded generator that decide the path or the result"""
    text = [repr(x) for x in (list(I.facts), list(I.signs), [u[0].key for u in I.usedrand if hasattr(u[0], 'key')], vals)]
    text = ' '.join(text)
    out = []
    for kind, n, w in T.loose:
        if kind in ('permutation', 'shuffle', 'scalar') or re.search(r"'(rand|randint|choice|binomial)', %d\b|'(choice|binomial|randint)%d'" % (n, n), text):
            out.append((kind, w))
    return out


def sc_seed(qual, args, shape, seed):
    def sc(I):
        T = Tracker()
        I.policy = MultiPolicy()
        I.policy.handlers.append(T)
        X = I.leafarr('X', shape, ('enum', (-1, 1) if shape[0] * shape[1] > 2 else (-1, 0, 1)), 'int8', tag='X')
        s = alg.sym('seed', None, 'int').with_dt('pyint') if seed is None else seed
        ps = [alg.sym('p%d' % i, 'p', 'p').with_dt('pyfloat') for i in range(args)]
        r = I.call(I.getfn(qual), [X] + ps, {'seed': s}, None)
        I.mark()
        vals = []
        if type(r) is Arr:
            vals = [repr(I.elem(r, ix)) for ix in itertools.product(*[range(x) for x in shape])]
        for kind, w in used(I, T, vals):
            I.alarm('seed', 'the result depends on a random draw made before the generator is seeded with the given seed', w)
    return sc


def seed_job(*a):
    qual = a[0]
    o = Outcome()
    I = Engine(max_time=200)
    I.preload()
    r = I.explore(sc_seed(*a))
    take(o, I, r)
    con = 'lom/%s.py:%s' % (qual.split('.')[1], qual.split('.')[-1])
    for (kind, msg), w in r.alarms.items():
        if kind == 'seed':
            o.find(kind, con, msg, w or con)
        elif kind == 'uncaught':
            o.undecided.append('%s (%s)' % (msg, w))
    for k, w in r.undecided.items():
        o.undecided.append('%s (%s)' % (k, w))
    if not r.oks and not o.findings and not o.undecided:
        o.undecided.append('no abstract path reaches the end')
    o.bounded = True
    return o


def c17(tier):
    jobs = []
    for q, n in (('add_bernoulli_noise_2d', 1), ('add_bernoulli_noise_2d_biased', 2)):
        for seed in (None, 0, 1, 7):
            for sh in ((1, 1), (2, 1)) + (((1, 2), (2, 2)) if tier != 'quick' else ()):
                jobs.append(Job('%s with seed %s, %dx%d cells' % ((q, 's' if seed is None else seed) + sh), seed_job,
                                'lom.auxiliary_functions.' + q, n, sh, seed))
    jobs.append(Job('order of seeding and drawing in every function with a parameter seed', order_job))
    return jobs


# -- every function with a parameter called seed: syntax-directed
SEEDERS = ('numpy.random.seed', 'random.seed')


class Order:
    """Statements in order; state: has the numpy generator been seeded with an expression of the parameter?"""

    def __init__(self, root):
        self.root = root
        self.fns = {}
        self.alias = {}
        base = os.path.join(root, 'lom')
        for d, _, fs in os.walk(base):
            for f in sorted(fs):
                if f.endswith('.py'):
                    p = os.path.join(d, f)
                    mod = os.path.relpath(p, root)[:-3].replace(os.sep, '.')
                    mod = mod[:-9] if mod.endswith('.__init__') else mod
                    t = ast.parse(open(p).read())
                    al = {}
                    for x in ast.walk(t):
                        if isinstance(x, ast.Import):
                            for y in x.names:
                                al[y.asname or y.name.split('.')[0]] = y.name if y.asname else y.name.split('.')[0]
                        elif isinstance(x, ast.ImportFrom) and x.module:
                            for y in x.names:
                                al[y.asname or y.name] = x.module + '.' + y.name
                    self.alias[mod] = al
                    for x in t.body:
                        if isinstance(x, ast.FunctionDef):
                            self.fns[mod + '.' + x.name] = (mod, x)
                        elif isinstance(x, ast.ClassDef):
                            for y in x.body:
                                if isinstance(y, ast.FunctionDef):
                                    self.fns[mod + '.' + x.name + '.' + y.name] = (mod, y)
        self.memo = {}

    def name(self, mod, e):
        if isinstance(e, ast.Name):
            return self.alias[mod].get(e.id, mod + '.' + e.id)
        if isinstance(e, ast.Attribute):
            b = self.name(mod, e.value)
            return b and b + '.' + e.attr
        return None

    def draws(self, q, seen=()):
        """may a call of this function of the package draw random numbers from the shared generator?"""
        if q in self.memo:
            return self.memo[q]
        if q in seen:
            return False
        mod, f = self.fns[q]
        r = False
        for x in ast.walk(f):
            if isinstance(x, ast.Call):
                n = self.name(mod, x.func)
                if n and n.startswith('numpy.random.') and n not in SEEDERS and n.split('.')[2] not in (
                        'RandomState', 'default_rng', 'get_state', 'set_state', 'Generator'):
                    r = True
                elif n in self.fns and self.draws(n, seen + (q,)):
                    r = True
        self.memo[q] = r
        return r

    def judge(self, q):
        mod, f = self.fns[q]
        out = []
        fixed = {'seed'}

        def ok(e):
            for x in ast.walk(e):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id not in fixed and x.id not in ('int', 'abs', 'hash', 'max', 'min', 'np', 'numpy'):
                    return False
                if isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id in ('int', 'abs', 'max', 'min')):
                    return False
            return True

        def calls(e):
            # evaluation order: arguments before the call
            for x in ast.iter_child_nodes(e):
                if not isinstance(x, (ast.Lambda, ast.FunctionDef, ast.stmt)):
                    yield from calls(x)
            if isinstance(e, ast.Call):
                yield e

        def expr(e, st):
            for c in calls(e):
                n = self.name(mod, c.func)
                if n == 'numpy.random.seed':
                    st = bool(c.args or c.keywords) and all(ok(x) for x in c.args) and all(ok(x.value) for x in c.keywords)
                elif not st and (n and n.startswith('numpy.random.') and n.split('.')[2] not in ('RandomState', 'default_rng', 'get_state', 'set_state')
                                 or n in self.fns and self.draws(n)):
                    out.append((c.lineno, ast.unparse(c.func)))
            return st

        def none_test(t):
            """does the test decide whether the seed is None? returns the branch taken for a given seed"""
            if isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id == 'seed' and len(t.ops) == 1 and \
                    isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
                if isinstance(t.ops[0], (ast.Is, ast.Eq)):
                    return False
                if isinstance(t.ops[0], (ast.IsNot, ast.NotEq)):
                    return True
            return None

        def block(ss, st):
            for s in ss:
                if st is None:
                    return None
                if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    continue
                if isinstance(s, ast.If):
                    b = none_test(s.test)
                    if b is not None:
                        st = block(s.body if b else s.orelse, st)
                        continue
                    st = expr(s.test, st)
                    x, y = block(s.body, st), block(s.orelse, st)
                    st = y if x is None else x if y is None else x and y
                elif isinstance(s, (ast.For, ast.While)):
                    st = expr(s.iter if isinstance(s, ast.For) else s.test, st)
                    x = block(s.body, st)
                    st = st if x is None else x and st
                elif isinstance(s, ast.With):
                    for i in s.items:
                        st = expr(i.context_expr, st)
                    st = block(s.body, st)
                elif isinstance(s, ast.Try):
                    st = block(s.body, st)
                    if st is not None:
                        st = block(s.finalbody, st)
                elif isinstance(s, (ast.Return, ast.Raise)):
                    if getattr(s, 'value', None) is not None:
                        expr(s.value, st)
                    return None
                elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                    st = expr(s.value, st)
                    if ok(s.value):
                        fixed.add(s.targets[0].id)
                    else:
                        fixed.discard(s.targets[0].id)
                else:
                    for x in ast.iter_child_nodes(s):
                        if isinstance(x, ast.expr):
                            st = expr(x, st)
            return st
        block(f.body, False)
        return out


def order_job():
    o = Outcome()
    A = Order(os.environ.get('SA_REPO', '/repo'))
    for q, (mod, f) in sorted(A.fns.items()):
        if any(a.arg == 'seed' for a in f.args.args + f.args.kwonlyargs):
            o.funcs.add(q)
            if q.endswith(('add_bernoulli_noise_2d', 'add_bernoulli_noise_2d_biased')):
                continue        # decided by abstract interpretation
            for line, what in A.judge(q):
                con = '%s.py:%s' % (mod.replace('.', '/'), f.name)
                o.find('seed', con, '%s draws before the generator is seeded with the given seed' % what, '%s.py:%d' % (mod.replace('.', '/'), line))
            o.sites += sum(1 for x in ast.walk(f) if isinstance(x, ast.Call))
    if not o.funcs:
        o.undecided.append('no function takes a seed')
    return o

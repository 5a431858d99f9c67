"""Algebraic normal forms: rational functions over interned atoms (pure value numbering, no solver).

An R is num/den with polynomials {monomial: Fraction}; monomial = sorted tuple of (atom index, power).
Atoms are interned; exp(), log() of normal forms are atoms again (with exp(log r) = r and a canonical
sign for exp arguments), so that two expressions are compared by cross multiplication.
"""
from fractions import Fraction

_atoms = {}
_names = []


class Atom:
    __slots__ = ('key', 'i', 'pos', 'kind', 'arg')

    def __init__(self, key, kind, arg=None, pos=None):
        self.key, self.kind, self.arg, self.pos = key, kind, arg, pos
        self.i = len(_names)


def atom(key, kind='sym', arg=None, pos=None):
    """pos: '+' strictly positive, '0+' nonnegative, 'p' probability in [0,1], None unknown sign"""
    a = _atoms.get(key)
    if a is None:
        a = Atom(key, kind, arg, pos)
        _atoms[key] = a
        _names.append(a)
    return a


def _padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        c2 = r.get(m, 0) + s * c
        if c2:
            r[m] = c2
        else:
            r.pop(m, None)
    return r


def _mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for i, e in b:
        e2 = d.get(i, 0) + e
        if e2:
            d[i] = e2
        else:
            del d[i]
    return tuple(sorted(d.items()))


def _pmul(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = _mmul(m1, m2)
            c = r.get(m, 0) + c1 * c2
            if c:
                r[m] = c
            else:
                r.pop(m, None)
    return r


_ONE = {(): Fraction(1)}


class R:
    __slots__ = ('n', 'd', 'dt', '_k')

    def __init__(self, n, d=None, dt=None):
        d = d or _ONE
        if len(d) == 1:
            # monomial denominators are folded into (possibly negative) powers
            (m, c), = d.items()
            if m or c != 1:
                inv = tuple((i, -e) for i, e in m)
                n = {_mmul(k, inv): v / c for k, v in n.items()}
                d = _ONE
        elif len(n) == 0:
            d = _ONE
        else:
            # proportional numerator / denominator
            if len(n) == len(d):
                it = iter(n.items())
                m0, c0 = next(it)
                if m0 in d:
                    q = c0 / d[m0]
                    if all(m in d and c == q * d[m] for m, c in n.items()):
                        n, d = {(): q}, _ONE
                if d is not _ONE:
                    # numerator a monomial times the denominator
                    mn, md = max(n), max(d)
                    for md in d:
                        inv = _mmul(mn, tuple((i, -e) for i, e in md))
                        q = n[mn] / d[md]
                        if all(n.get(_mmul(m, inv)) == c * q for m, c in d.items()):
                            n, d = {inv: q}, _ONE
                            break
            if d is not _ONE:
                lead = d[max(d)]
                if lead != 1:
                    n = {m: c / lead for m, c in n.items()}
                    d = {m: c / lead for m, c in d.items()}
        self.n, self.d, self.dt = n, d, dt
        self._k = None

    def key(self):
        if self._k is None:
            self._k = (frozenset(self.n.items()), frozenset(self.d.items()))
        return self._k

    def const(self):
        if not self.n:
            return Fraction(0)
        if self.d == _ONE and len(self.n) == 1 and () in self.n:
            return self.n[()]
        return None

    def atoms(self):
        s = set()
        for p in (self.n, self.d):
            for m in p:
                for i, _ in m:
                    s.add(_names[i])
        return s

    def all_atoms(self):
        out, todo = set(), [self]
        while todo:
            r = todo.pop()
            for a in r.atoms():
                if a not in out:
                    out.add(a)
                    if isinstance(a.arg, R):
                        todo.append(a.arg)
        return out

    def with_dt(self, dt):
        r = R.__new__(R)
        r.n, r.d, r.dt, r._k = self.n, self.d, dt, self._k
        return r

    def __eq__(self, o):
        return isinstance(o, R) and req(self, o)

    def __hash__(self):
        return hash(len(self.n))

    def __repr__(self):
        return show(self)


def rc(c):
    c = Fraction(c)
    return R({(): c} if c else {})


def ra(a):
    return R({((a.i, 1),): Fraction(1)})


def sym(key, pos=None, kind='sym'):
    return ra(atom(key, kind, None, pos))


def add(a, b):
    if a.d == b.d:
        return R(_padd(a.n, b.n), a.d)
    return R(_padd(_pmul(a.n, b.d), _pmul(b.n, a.d)), _pmul(a.d, b.d))


def neg(a):
    return R({m: -c for m, c in a.n.items()}, a.d)


def sub(a, b):
    return add(a, neg(b))


def _cancel(n, d):
    """n, d without a common factor, when one of them divides the other exactly"""
    if len(n) < 2 or len(d) < 2:
        return n, d
    if n == d:
        return _ONE, _ONE
    q = pdiv(n, d) if len(n) >= len(d) else None
    if q is not None:
        return q, _ONE
    q = pdiv(d, n) if len(d) >= len(n) else None
    if q is not None:
        return _ONE, q
    return n, d


def pdiv(n, d, limit=200):
    """exact quotient of polynomials, None if there is a remainder (negative powers: no attempt)"""
    if len(n) > 60 or len(d) > 20:
        return None
    for p in (n, d):
        for m in p:
            for _, e in m:
                if e < 0:
                    return None

    ids = sorted({i for p in (n, d) for m in p for i, _ in m})

    def vec(m):
        t = dict(m)
        return tuple(t.get(i, 0) for i in ids)
    ld = max(d, key=vec)
    inv = tuple((i, -e) for i, e in ld)
    q = {}
    r = dict(n)
    for _ in range(limit):
        if not r:
            return q
        lr = max(r, key=vec)
        m = _mmul(lr, inv)
        if any(e < 0 for _, e in m):
            return None
        c = r[lr] / d[ld]
        q[m] = c
        r = _padd(r, _pmul({m: c}, d), -1)
    return None


def mul(a, b):
    an, bd = _cancel(a.n, b.d)
    bn, ad = _cancel(b.n, a.d)
    return R(_pmul(an, bn), _pmul(ad, bd))


def div(a, b):
    if not b.n:
        raise ZeroDivisionError
    an, bn = _cancel(a.n, b.n)
    ad, bd = _cancel(a.d, b.d)
    return R(_pmul(an, bd), _pmul(ad, bn))


def powi(a, k):
    if k < 0:
        return powi(div(rc(1), a), -k)
    r = rc(1)
    for _ in range(k):
        r = mul(r, a)
    return r


def _lead_sign(p):
    return 1 if p[max(p)] > 0 else -1


def exp(a):
    """exp with exp(sum c_i log r_i + rest) = prod r_i^c_i * exp(rest)"""
    c = a.const()
    if c == 0:
        return rc(1)
    out = rc(1)
    rest = {}
    if a.d == _ONE:
        for m, co in a.n.items():
            if len(m) == 1 and m[0][1] == 1 and _names[m[0][0]].kind == 'log' and co.denominator == 1:
                out = mul(out, powi(_names[m[0][0]].arg, int(co)))
            else:
                rest[m] = co
        a = R(rest)
        if not rest:
            return out
    s = _lead_sign(a.n)
    base = a if s > 0 else neg(a)
    E = ra(atom(('exp', base.key()), 'exp', base, '+'))
    return mul(out, E if s > 0 else div(rc(1), E))


def log(a):
    """log as formal atom; log(num/den) = log num - log den, constants split off"""
    def lp(p):
        q = R(p)
        if q.const() == 1:
            return rc(0)
        # exp atoms factored: log(exp(x)) = x
        if len(p) == 1:
            (m, c), = p.items()
            r = rc(0) if c == 1 else ra(atom(('log', rc(c).key()), 'log', rc(c)))
            for i, e in m:
                at = _names[i]
                t = at.arg if at.kind == 'exp' else ra(atom(('log', ra(at).key()), 'log', ra(at)))
                r = add(r, mul(rc(e), t))
            return r
        return ra(atom(('log', q.key()), 'log', q))
    return sub(lp(a.n), lp(a.d))


def expit(a):
    E = exp(a)
    return div(E, add(rc(1), E))


def logit(p):
    return log(div(p, sub(rc(1), p)))


def is_zero(a):
    return not a.n


def req(a, b):
    d = sub(a, b)
    if not d.n:
        return True
    # logs: exponentiate the difference when it is an integer combination of logs
    if d.d == _ONE and all(len(m) == 1 and m[0][1] == 1 and _names[m[0][0]].kind == 'log'
                           and c.denominator == 1 for m, c in d.n.items()):
        e = exp(d)
        return not sub(e, rc(1)).n
    return False


def subst(a, f):
    """substitute atoms: f(atom) -> R or None"""
    def sp(p):
        tot = rc(0)
        for m, c in p.items():
            t = rc(c)
            for i, e in m:
                at = _names[i]
                v = f(at)
                if v is None and isinstance(at.arg, R):
                    na = subst(at.arg, f)
                    v = exp(na) if at.kind == 'exp' else log(na) if at.kind == 'log' else None
                t = mul(t, powi(v if v is not None else ra(at), e))
            tot = add(tot, t)
        return tot
    return div(sp(a.n), sp(a.d))


def linear_in(a, pred):
    """split a = sum_i coef_i * atom_i + rest for atoms with pred(atom); None if not linear"""
    if a.d != _ONE and any(pred(_names[i]) for m in a.d for i, _ in m):
        return None
    co, rest = {}, {}
    for m, c in a.n.items():
        hit = [(i, e) for i, e in m if pred(_names[i])]
        if not hit:
            rest[m] = c
            continue
        if len(hit) > 1 or hit[0][1] != 1:
            return None
        i = hit[0][0]
        m2 = tuple(x for x in m if x[0] != i)
        co.setdefault(_names[i], {})[m2] = c
    return {k: R(p, a.d) for k, p in co.items()}, R(rest, a.d)


def sign(a):
    """sign of a normal form when it follows from atom signs: '+','-','0' or None"""
    if not a.n:
        return '0'

    def ps(p):
        s = None
        for m, c in p.items():
            ms = '+'
            for i, e in m:
                at = _names[i]
                if at.pos != '+' and e % 2:
                    return None
                if at.pos != '+':
                    return None
            t = '+' if c > 0 else '-'
            if s is None:
                s = t
            elif s != t:
                return None
        return s
    x, y = ps(a.n), ps(a.d)
    if x is None or y is None:
        return None
    return '+' if x == y else '-'


def show(a):
    def sa(at):
        if at.kind in ('exp', 'log'):
            return '%s(%s)' % (at.kind, show(at.arg))
        k = at.key
        return k if isinstance(k, str) else '.'.join(str(x) for x in k)

    def sp(p):
        if not p:
            return '0'
        o = []
        for m, c in sorted(p.items(), key=lambda t: str(t[0])):
            f = [sa(_names[i]) + ('' if e == 1 else '^%d' % e) for i, e in m]
            cs = str(c)
            if not f:
                o.append(cs)
            elif c == 1:
                o.append('*'.join(f))
            elif c == -1:
                o.append('-' + '*'.join(f))
            else:
                o.append(cs + '*' + '*'.join(f))
        return ' + '.join(o)
    if a.d == _ONE:
        return sp(a.n)
    return '(%s)/(%s)' % (sp(a.n), sp(a.d))


def evaluate(a, env):
    """numeric value of a normal form; env: atom -> float"""
    import math

    def at(x):
        if x in env:
            return env[x]
        if x.kind == 'exp':
            return math.exp(evaluate(x.arg, env))
        if x.kind == 'log':
            return math.log(evaluate(x.arg, env))
        raise KeyError(x)

    def ep(p):
        t = 0.0
        for m, c in p.items():
            v = float(c)
            for i, e in m:
                v *= at(_names[i]) ** e
            t += v
        return t
    return ep(a.n) / ep(a.d)

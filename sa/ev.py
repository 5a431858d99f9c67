"""Expression evaluation over abstract values."""
import ast
import builtins
from fractions import Fraction
from . import alg
from .alg import R, rc
from .values import *
from .engine import (Base, Const, Leaf, Fn, Layer, Frozen, Store, Arr, MArr, Frame, TI, fninfo, assigned_names,
                     PKG, AnchorMissing)

PYNUM = ('pyint', 'pybool', 'pyfloat')
EXC = {k: ExcType(k) for k in EXC_BASES}
FLOATS = ('float64', 'float32', 'float16', 'pyfloat')
TYPES = {n: Type(n, 'py') for n in ('int', 'float', 'bool', 'str', 'list', 'tuple', 'dict', 'set', 'type', 'object',
                                    'complex', 'bytes', 'frozenset')}
NPTYPES = {'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'float16', 'float32', 'float64'}
DTALIAS = {'int': 'int64', 'float': 'float64', 'bool': 'bool', 'bool_': 'bool', 'intp': 'int64', 'double': 'float64',
           'single': 'float32', 'int_': 'int64', 'float_': 'float64', 'longlong': 'int64', 'half': 'float16',
           'byte': 'int8', 'short': 'int16', 'intc': 'int32', 'long': 'int64', 'boolean': 'bool', 'b1': 'bool'}
LIMITS = {}
for _n, _b in BITS.items():
    LIMITS[_n] = (0, 2 ** _b - 1) if _n[0] == 'u' else (-2 ** (_b - 1), 2 ** (_b - 1) - 1)


def frac(x):
    return Fraction(repr(x)) if isinstance(x, float) else Fraction(x)


class LazySeq:
    """list with one item per member of a dimension"""
    __slots__ = ('it',)

    def __init__(self, it):
        self.it = it


class SliceV:
    __slots__ = ('lo', 'hi', 'st')

    def __init__(self, lo, hi, st):
        self.lo, self.hi, self.st = lo, hi, st


class Eval:
    overridden = ()

    # ---------------------------------------------------------------------------------------- numbers
    def isnum(self, v):
        return type(v) in (int, bool, NI, NB, R, Sat)

    def numdt(self, v):
        t = type(v)
        if t is int or t is Sat:
            return 'pyint'
        if t is bool:
            return 'pybool'
        if t is NI:
            return v.dt
        if t is NB:
            return 'bool'
        if t is R:
            return v.dt or 'pyfloat'
        return None

    def toR(self, v):
        t = type(v)
        if t is R:
            return v
        if t is int or t is bool:
            return rc(int(v))
        if t is NI:
            if type(v.v) is int:
                return rc(v.v)
            raise Undecided('saturated counter in a formula')
        if t is NB:
            return rc(int(v.v))
        if t is Sat:
            raise Undecided('saturated counter in a formula')
        if t is Arr and v.shape == ():
            return self.toR(self.elem(v, ()))
        if t is Carried:
            self.carried(v)
        raise Undecided('number expected, got %r' % (v,))

    def carried(self, v):
        self.policy_event('carried', v)
        raise Undecided('value of %s carried between iterations' % v.var)

    def concrete(self, v):
        """python int of an exactly known integer, else None"""
        t = type(v)
        if t is int:
            return v
        if t is bool:
            return int(v)
        if t is NI:
            return v.v if type(v.v) is int else None
        if t is NB:
            return int(v.v)
        if t is R:
            c = v.const()
            if c is not None and c.denominator == 1 and (v.dt not in FLOATS):
                return int(c)
        return None

    def wrap(self, v, dt):
        """python number -> abstract scalar of dtype dt"""
        if dt in ('pyint',):
            return int(v)
        if dt == 'pybool':
            return bool(v)
        if dt == 'bool':
            return NB(bool(v))
        if dt in BITS:
            return NI(int(v), dt)
        if dt == 'object':
            return v
        return rc(Fraction(v)).with_dt(dt)

    def cast(self, v, dt, what='store'):
        """conversion to array element type / scalar type"""
        t = type(v)
        if t in (Top, Carried) or dt == 'object' or dt == 'any':
            return v
        if t is Arr and v.shape == ():
            v = self.elem(v, ())
            t = type(v)
        if dt == 'bool':
            if t is R and v.const() is None:
                return NB(self.truth(v))
            return NB(self.truth(v))
        if dt in BITS:
            if t is R:
                c = v.const()
                if c is None:
                    if v.dt in FLOATS and not self.integral(v):
                        return self.opaque_fn('trunc', [v], dt)
                    if dt in ('int8', 'uint8', 'int16', 'uint16'):
                        self.policy_event('narrowcast', dt, v)
                    return v.with_dt(dt)
                k = int(c)
            elif t is Sat:
                if BITS[dt] < 32:
                    self.narrow(dt)
                return NI(v, dt)
            elif t is NI and type(v.v) is Sat:
                if BITS[dt] < 32 and BITS.get(v.dt, 64) > BITS[dt]:
                    self.narrow(dt)
                return NI(v.v, dt)
            else:
                k = self.concrete(v)
                if k is None:
                    raise Undecided('conversion of %r to %s' % (v, dt))
            lo, hi = LIMITS[dt]
            if not lo <= k <= hi:
                self.policy_event('overflow', dt, k)
                k = (k - lo) % (hi - lo + 1) + lo
            return NI(k, dt)
        if dt in ('float64', 'float32', 'float16', 'pyfloat'):
            if t is NI and type(v.v) is Sat or t is Sat:
                raise Undecided('saturated counter converted to float')
            return self.toR(v).with_dt(dt)
        if dt == 'pyint':
            k = self.concrete(v)
            if k is not None:
                return k
            if t is R:
                c = v.const()
                if c is not None:
                    return int(c)
                if self.integral(v):
                    return v.with_dt('pyint')
                return self.opaque_fn('trunc', [v], 'pyint')
            if t is NI:
                return v.v
            if t is Sat:
                return v
        raise Undecided('conversion of %r to %s' % (v, dt))

    def integral(self, v):
        """normal form known to be an integer"""
        if v.d != alg._ONE:
            return False
        for m, c in v.n.items():
            if c.denominator != 1:
                return False
            for i, e in m:
                a = alg._names[i]
                if e < 0 or a.kind not in ('dim', 'sigma', 'int', 'fdiv', 'beta'):
                    if a.kind in ('SUM',):
                        continue
                    return False
        return True

    def opaque_fn(self, name, args, dt, pos=None, kind='fn'):
        ks = []
        for a in args:
            ks.append(a.key() if type(a) is R else self.toR(a).key() if self.isnum(a) else repr(a))
        arg = None
        key = ('fn', name) + tuple(ks)
        toks = set()
        for a in args:
            if type(a) is R:
                for at in a.all_atoms():
                    if type(at.key) is tuple:
                        self.key_toks(at.key, toks)
        if toks:
            key = key + (tuple(sorted(toks, key=lambda t: t.name)),)
        a = alg.atom(key, kind, None, pos)
        return alg.ra(a).with_dt(dt)

    def rdt(self, op, a, b):
        """result type of a op b for type names"""
        if op == 'Div':
            if a in PYNUM and b in PYNUM:
                return 'pyfloat'
            fs = [x for x in (a, b) if x in ('float32', 'float16')]
            o = [x for x in (a, b) if x not in ('float32', 'float16') and x not in PYNUM and x not in ('int8', 'uint8', 'bool', 'int16')]
            if fs and not o:
                return 'float32' if 'float32' in fs else 'float16'
            return 'float64'
        if a in PYNUM and b in PYNUM:
            if 'pyfloat' in (a, b):
                return 'pyfloat'
            if op in ('BitAnd', 'BitOr', 'BitXor') and a == b == 'pybool':
                return 'pybool'
            return 'pyint'
        if a in PYNUM:
            a, b = b, a
        if b in PYNUM:
            if b == 'pyfloat':
                return a if a in ('float64', 'float32', 'float16') else 'float64'
            if a == 'bool':
                if b == 'pybool' and op not in ('Add', 'Mult') and op in ('BitAnd', 'BitOr', 'BitXor'):
                    return 'bool'
                return 'bool' if b == 'pybool' else 'int64'
            return a
        if a == 'object' or b == 'object':
            return 'object'
        if a not in RANK or b not in RANK:
            return 'float64'
        return promote(a, b)

    def mk(self, val, dt):
        """exact integer / fraction result"""
        if dt == 'pyint':
            return int(val)
        if dt == 'pybool':
            return bool(val)
        if dt == 'bool':
            return NB(bool(val))
        if dt in BITS:
            lo, hi = LIMITS[dt]
            k = int(val)
            if not lo <= k <= hi:
                self.policy_event('overflow', dt, k)
                k = (k - lo) % (hi - lo + 1) + lo
            return NI(k, dt)
        return rc(val).with_dt(dt)

    def norm(self, r, dt):
        """R result -> scalar"""
        c = r.const()
        if c is not None and dt in ('pyint', 'pybool') and c.denominator == 1:
            return int(c)
        if c is not None and dt in BITS and c.denominator == 1:
            return self.mk(c, dt)
        return r.with_dt(dt)

    def binop(self, op, a, b):
        ta, tb = type(a), type(b)
        if ta is Carried:
            self.carried(a)
        if tb is Carried:
            self.carried(b)
        if ta is Top or tb is Top:
            if op in ('Eq', 'NotEq'):
                raise Undecided('unknown operand (%s)' % (a if ta is Top else b).why)
            raise Undecided('unknown operand (%s)' % (a if ta is Top else b).why)
        if ta in (Arr, MArr) or tb in (Arr, MArr):
            if ta is Arr and a.shape == () and tb not in (Arr, MArr):
                return self.binop(op, self.elem(a, ()), b)
            if tb is Arr and b.shape == () and ta not in (Arr, MArr):
                return self.binop(op, a, self.elem(b, ()))
            return self.arrop(op, a, b)
        if self.isnum(a) and self.isnum(b):
            return self.scalop(op, a, b)
        if op == 'Add':
            if ta is LList and tb is LList:
                return LList(a.v + b.v)
            if ta is str and tb is str:
                return a + b
            if ta is tuple and tb is tuple:
                return a + b
            if ta is LazySeq or tb is LazySeq:
                raise Undecided('concatenation of symbolic lists')
        if op == 'Mult':
            if tb in (LList, tuple, str):
                a, b, ta, tb = b, a, tb, ta
            n = self.concrete(b) if self.isnum(b) else None
            if ta in (LList, tuple, str) and n is not None:
                return LList(a.v * n) if ta is LList else a * n
            if ta is LList and type(b) is R and len(a.v) == 1:
                d = self.dim_of(b)
                if d is not None:
                    x = a.v[0]
                    return LazySeq(AbsIter(d, lambda t: x))
        if op == 'Mod' and ta is str:
            return self.fmt(a, b)
        if op in ('Sub', 'BitAnd', 'BitOr') and ta is SSet and tb is SSet:
            k = {repr(Canon_(self, x)): x for x in b.v}
            if op == 'Sub':
                return SSet([x for x in a.v if repr(Canon_(self, x)) not in k])
            if op == 'BitAnd':
                return SSet([x for x in a.v if repr(Canon_(self, x)) in k])
            h = {repr(Canon_(self, x)) for x in a.v}
            return SSet(a.v + [x for x in b.v if repr(Canon_(self, x)) not in h])
        if ta is LList and type(b) in (R, NI) and isinstance(getattr(b, 'dt', None), str) and not b.dt.startswith('py'):
            return self.arrop(op, self.toarr(a), b)
        if ta is LList and tb in (int, R, NI) or tb is LList and ta in (int, R, NI):
            raise PyExc('TypeError', 'unsupported operand types', self.where())
        if ta in (Obj,) or tb in (Obj,):
            raise Undecided('operator on objects')
        if ta is tuple and tb is LList or a is None or b is None or ta is str or tb is str:
            raise PyExc('TypeError', 'unsupported operand types for %s' % op, self.where())
        if ta is Tok or tb is Tok:
            return self.tokop(op, a, b)
        if ta is TokOff or tb is TokOff:
            return self.tokop(op, a, b)
        raise Undecided('operator %s on %r, %r' % (op, a, b))

    def tokop(self, op, a, b):
        ta, tb = type(a), type(b)
        if op == 'Add' and tb is Tok and ta is int:
            a, b, ta, tb = b, a, tb, ta
        if ta is Tok and tb is int and op in ('Add', 'Sub'):
            o = b if op == 'Add' else -b
            return TokOff(a, o) if o else a
        if ta is TokOff and tb is int and op in ('Add', 'Sub'):
            o = a.o + (b if op == 'Add' else -b)
            return TokOff(a.t, o) if o else a.t
        if op == 'Sub' and ta is Tok and tb is Tok and a is b:
            return 0
        # position used as a number
        return self.scalop(op, self.tokR(a), self.tokR(b))

    def tokR(self, v):
        if type(v) is Tok:
            return alg.sym(('pos', v), '0+', 'int').with_dt('pyint')
        if type(v) is TokOff:
            return alg.add(self.tokR(v.t), rc(v.o)).with_dt('pyint')
        return v

    def fmt(self, a, b):
        try:
            return a % (tuple(str(x) for x in b) if type(b) is tuple else (str(b),))
        except Exception:
            return a

    def scalop(self, op, a, b):
        da, db = self.numdt(a), self.numdt(b)
        if op in ('Eq', 'NotEq', 'Lt', 'LtE', 'Gt', 'GtE'):
            return self.compare(op, a, b)
        dt = self.rdt(op, da, db)
        sa = a.v if type(a) is NI else a
        sb = b.v if type(b) is NI else b
        if type(sa) is Sat or type(sb) is Sat:
            r = self.satop(op, sa, sb)
            if dt in BITS:
                if type(r) is int:
                    return self.mk(r, dt)
                return NI(r, dt) if type(r) is Sat else r
            return r
        ia, ib = self.concrete(a), self.concrete(b)
        if ia is not None and ib is not None and dt not in FLOATS:
            if op == 'Add':
                return self.mk(ia + ib, dt) if dt != 'bool' else NB(ia or ib)
            if op == 'Sub':
                if dt == 'bool':
                    raise PyExc('TypeError', 'numpy boolean subtract', self.where())
                return self.mk(ia - ib, dt)
            if op == 'Mult':
                return self.mk(ia * ib, dt)
            if op in ('FloorDiv', 'Mod'):
                if ib == 0:
                    if dt in PYNUM:
                        raise PyExc('ZeroDivisionError', 'integer division', self.where())
                    return self.mk(0, dt)
                return self.mk(ia // ib if op == 'FloorDiv' else ia % ib, dt)
            if op == 'Pow':
                if ib >= 0:
                    return self.mk(ia ** ib, dt)
                if dt == 'pyint':
                    return rc(Fraction(ia) ** ib).with_dt('pyfloat')
                raise PyExc('ValueError', 'Integers to negative integer powers', self.where())
            if op == 'BitAnd':
                return self.mk(ia & ib, dt)
            if op == 'BitOr':
                return self.mk(ia | ib, dt)
            if op == 'BitXor':
                return self.mk(ia ^ ib, dt)
            if op == 'LShift':
                return self.mk(ia << ib, dt)
            if op == 'RShift':
                return self.mk(ia >> ib, dt)
        if dt in ('pybool', 'bool'):
            dt = 'pyint' if dt == 'pybool' else 'int64'
        x, y = self.toR(a), self.toR(b)
        if op == 'Add':
            return self.norm(alg.add(x, y), dt)
        if op == 'Sub':
            return self.norm(alg.sub(x, y), dt)
        if op == 'Mult':
            return self.norm(alg.mul(x, y), dt)
        if op == 'Div':
            if alg.is_zero(y):
                if da in PYNUM and db in PYNUM:
                    raise PyExc('ZeroDivisionError', 'division by zero', self.where())
                raise Undecided('division by zero')
            return self.norm(alg.div(x, y), dt)
        if op == 'Pow':
            k = y.const()
            if k is not None and k.denominator == 1:
                if k < 0 and alg.is_zero(x):
                    raise Undecided('0 ** negative')
                return self.norm(alg.powi(x, int(k)), dt)
            if k is not None and k == Fraction(1, 2):
                return self.opaque_fn('sqrt', [x], dt)
            # a**y = exp(y*log a)
            if x.const() is not None and x.const() <= 0:
                if x.const() == 0 and alg.sign(y) == '+':
                    return self.norm(rc(0), dt)
                if x.const() == -1 and self.integral(y):
                    return self.opaque_fn('altsign', [y], dt)
                return self.opaque_fn('pow', [x, y], dt)
            return self.norm(alg.exp(alg.mul(y, alg.log(x))), dt)
        if op == 'FloorDiv':
            q = alg.div(x, y) if not alg.is_zero(y) else None
            if q is not None and q.const() is not None:
                return self.norm(rc(q.const().numerator // q.const().denominator), dt)
            return self.opaque_fn('floordiv', [x, y], dt, kind='fdiv')
        if op == 'Mod':
            cx, cy = x.const(), y.const()
            if cx is not None and cy:
                return self.norm(rc(cx % cy), dt)
            return self.opaque_fn('mod', [x, y], dt, kind='fdiv')
        raise Undecided('operator %s' % op)

    def satop(self, op, a, b):
        if type(a) is Sat and type(b) is Sat:
            if op == 'Add':
                return Sat(a.k + b.k)
            if op == 'Mult' and a.k >= 0 and b.k >= 0:
                return Sat(a.k * b.k)
            raise Undecided('saturated counters')
        if type(b) is Sat:
            c = self.concrete(a)
            if c is None:
                raise Undecided('saturated counter in a formula')
            if op == 'Add':
                return Sat(b.k + c)
            if op == 'Mult' and c > 0:
                return Sat(b.k * c)
            if op == 'Mult' and c == 0:
                return 0
            raise Undecided('saturated counter')
        c = self.concrete(b)
        if c is None:
            raise Undecided('saturated counter in a formula')
        if op == 'Add':
            return Sat(a.k + c)
        if op == 'Sub':
            return Sat(a.k - c)
        if op == 'Mult' and c > 0:
            return Sat(a.k * c)
        if op == 'Mult' and c == 0:
            return 0
        raise Undecided('saturated counter')

    NEG = {'Eq': 'NotEq', 'NotEq': 'Eq', 'Lt': 'GtE', 'GtE': 'Lt', 'Gt': 'LtE', 'LtE': 'Gt'}
    SWAP = {'Eq': 'Eq', 'NotEq': 'NotEq', 'Lt': 'Gt', 'Gt': 'Lt', 'LtE': 'GtE', 'GtE': 'LtE'}

    def cmpc(self, op, x, y):
        return {'Eq': x == y, 'NotEq': x != y, 'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[op]

    def compare(self, op, a, b):
        """scalar comparison -> bool / NB"""
        np_ = type(a) in (NI, NB) or type(b) in (NI, NB) or \
            (type(a) is R and a.dt not in PYNUM + (None,)) or (type(b) is R and b.dt not in PYNUM + (None,))
        out = (lambda t: NB(t)) if np_ else bool
        sa = a.v if type(a) in (NI, NB) else a
        sb = b.v if type(b) in (NI, NB) else b
        if type(sa) is Sat or type(sb) is Sat:
            if type(sb) is Sat and type(sa) is Sat:
                raise Undecided('comparison of saturated counters')
            if type(sb) is Sat:
                sa, sb, op = sb, sa, self.SWAP[op]
            c = self.concrete(sb)
            if c is None:
                raise Undecided('comparison of a saturated counter')
            if c < sa.k:
                return out(op in ('NotEq', 'Gt', 'GtE'))
            if c == sa.k and op in ('Lt', 'GtE'):
                return out(op == 'GtE')
            raise Undecided('comparison of a saturated counter with %d' % c)
        if type(sa) in (int, bool) and type(sb) in (int, bool):
            return out(self.cmpc(op, int(sa), int(sb)))
        x, y = self.toR(a), self.toR(b)
        d = alg.sub(x, y)
        c = d.const()
        if c is not None:
            return out(self.cmpc(op, c, 0))
        s = self.decide_sign(d, op)
        if type(s) is bool:
            return out(s)
        return out(self.cmpc(op, {'+': 1, '-': -1, '0': 0}[s], 0))

    # sign of a symbolic real
    def decide_sign(self, d, op):
        s = alg.sign(d)
        rnd = [a for a in d.atoms() if a.kind == 'rand']
        if s is not None and not (rnd and getattr(self.policy, 'round_edge', False)):
            return s
        if rnd:
            return self.randcmp(d, op, rnd)
        n = alg.R(d.n)
        # denominator sign
        sd = alg.sign(alg.R(d.d))
        if sd is None:
            if d.d != alg._ONE:
                sd = self.decide_sign(alg.R(d.d), 'Gt')
                if sd == '0':
                    self.zero_den(alg.R(d.d))
        # positive monomial factors are dropped
        n = self.stripped(n)
        cnt = self.countsign(n)
        if cnt is None:
            lead = n.n[max(n.n)]
            q = alg.R({m: c / abs(lead) for m, c in n.n.items()})
            flip = lead < 0
            if flip:
                q = alg.neg(q)
            k = q.key()
            r = self.signs.get(k)
            if r is None:
                r = self.derive_sign(q)
            if r is None:
                mine = {a for a in q.all_atoms()}
                line, t, up = self.line(q)
                for k2, r2 in self.signrefs.items():
                    if mine & r2 and self.line(self.signq[k2])[0] != line:
                        if not self.inexact:
                            self.inexact = 'correlated sign tests'
                        break
                opts = self.between(line, t)
                if not up:
                    opts = [{'+': '-', '-': '+', '0': '0'}[x] for x in opts]
                r = opts[self.choose(len(opts))] if len(opts) > 1 else opts[0]
                self.signs[k] = r
                self.signq[k] = q
                self.signrefs[k] = mine
            if flip:
                r = {'+': '-', '-': '+', '0': '0'}[r]
            cnt = r
        if sd == '-':
            cnt = {'+': '-', '-': '+', '0': '0'}[cnt]
        return cnt

    @staticmethod
    def line(q):
        """q = a*(x - t) with x free of a constant term: (x, t, a > 0)"""
        c0 = q.n.get((), Fraction(0))
        ms = [m for m in q.n if m]
        a = q.n[max(ms)]
        return alg.R({m: q.n[m] / a for m in ms}).key(), -c0 / a, a > 0

    def between(self, line, t):
        """signs of x - t that agree with the signs known for x minus other constants"""
        opts = ['+', '-', '0']
        for k2, q2 in self.signq.items():
            l2, t2, up = self.line(q2)
            if l2 != line:
                continue
            r = self.signs[k2]
            if not up:
                r = {'+': '-', '-': '+', '0': '0'}[r]
            if r == '0':
                only = '+' if t2 > t else '-'
                opts = [only]
            elif r == '+' and t2 >= t:
                opts = ['+'] if '+' in opts else opts
            elif r == '-' and t2 <= t:
                opts = ['-'] if '-' in opts else opts
        return opts

    def zero_den(self, d):
        if getattr(self.policy, 'zerodiv', None) is not None:
            # the scenario shows afterwards that the denominator cannot be zero
            self.policy.zerodiv.append(d)
            raise Prune()
        raise Undecided('zero denominator')

    def stripped(self, n):
        ms = list(n.n)
        if not ms:
            return n
        common = None
        for m in ms:
            d = {i: e for i, e in m if alg._names[i].pos == '+'}
            if common is None:
                common = d
            else:
                common = {i: min(e, d[i]) for i, e in common.items() if i in d}
        # negative powers as well
        allneg = {}
        for m in ms:
            for i, e in m:
                if e < 0 and alg._names[i].pos == '+':
                    allneg[i] = min(allneg.get(i, 0), e)
        f = {}
        for i, e in (common or {}).items():
            f[i] = e
        for i, e in allneg.items():
            f[i] = min(f.get(i, 0), e) if i in f else e
        if not f:
            return n
        inv = tuple(sorted((i, -e) for i, e in f.items()))
        return alg.R({alg._mmul(m, inv): c for m, c in n.n.items()})

    def derive_sign(self, q):
        """q = (something of known sign) + constant"""
        c0 = q.n.get((), Fraction(0))
        rest = alg.R({m: c for m, c in q.n.items() if m})
        if c0:
            k = rest.key()
            r = self.signs.get(k)
            if r is None:
                r = {None: None}.get(alg.sign(rest), alg.sign(rest))
            if r in ('+', '0') and c0 > 0:
                return '+'
            if r in ('-', '0') and c0 < 0:
                return '-'
        # exp(x) - 1 has the sign of x
        if len(rest.n) == 1 and c0:
            (m, c), = rest.n.items()
            if len(m) == 1 and abs(m[0][1]) == 1 and alg._names[m[0][0]].kind == 'exp' and c0 == -c:
                s = self.decide_sign(alg._names[m[0][0]].arg, 'Gt')
                if m[0][1] < 0:
                    s = {'+': '-', '-': '+', '0': '0'}[s]
                return s if c > 0 else {'+': '-', '-': '+', '0': '0'}[s]
        # comparison of sizes of dimensions: a size is at least one
        return None

    def countsign(self, n):
        """c*dim + const for a dimension whose members are enumerated, or any nonempty dimension"""
        dims = [a for a in n.atoms() if a.kind == 'dim']
        if len(dims) != 1 or len(n.n) > 2 or n.d != alg._ONE:
            return None
        d = self.sizekeys.get(alg.ra(dims[0]).key())
        if d is None:
            return None
        m = ((dims[0].i, 1),)
        if m not in n.n or (len(n.n) == 2 and () not in n.n):
            return None
        c, k = n.n[m], n.n.get((), Fraction(0))
        t = -k / c      # compare dim with t
        if d.mode in ('full', 'starfull') and d in self.members:
            tot, open_ = 0, False
            for g in list(self.members[d]):
                self.resolve(d, g)
            for g in self.members[d]:
                ti = self.tinfo[g]
                tot += ti.cnt
                open_ |= ti.cnt == d.cap
            if not open_:
                s = '0' if tot == t else '+' if tot > t else '-'
            elif t < tot:
                s = '+'
            else:
                return None
        elif t <= 0:
            s = '+'
        elif t == 1:
            # nonempty: size >= 1
            key = ('dim1', d.name)
            r = self.signs.get(key)
            if r is None:
                r = '+0'[self.choose(2)]
                self.signs[key] = r
            s = r
        else:
            return None
        if c < 0:
            s = {'+': '-', '-': '+', '0': '0'}[s]
        return s

    def randcmp(self, d, op, rnd):
        """comparison with a fresh uniform draw: both outcomes, weighted"""
        if len(rnd) != 1:
            raise Undecided('comparison of several random draws')
        a = rnd[0]
        li = alg.linear_in(d, lambda x: x is a)
        if li is None or li[0][a].const() is None:
            # cleared denominators: d*den
            li = alg.linear_in(alg.R(d.n), lambda x: x is a)
            if li is None:
                raise Undecided('nonlinear use of a random draw')
            co = li[0][a]
            s = self.decide_sign(alg.div(co, alg.R(d.d)), 'Gt')
            th = alg.neg(alg.div(li[1], co))
            if s == '0':
                raise Undecided('random draw')
            pos = s == '+'
        else:
            co = li[0][a]
            th = alg.neg(alg.div(li[1], co))
            pos = co.const() > 0
        # d > 0  <=>  rand > th (pos) / rand < th (neg)
        less = {'Lt': pos, 'LtE': pos, 'Gt': not pos, 'GtE': not pos}.get(op)
        if less is None:
            raise Undecided('equality with a random draw')
        # thresholds the same draw was compared with before
        for x, t, h in tuple(self.usedrand):
            if x is a:
                o = alg.sign(alg.sub(th, t))
                if o == '0' or o == '+' and h or o == '-' and not h:
                    return less is h
                if not self.inexact and (o not in ('+', '-') or not getattr(self.policy, 'round_edge', False)):
                    self.inexact = 'random draw compared twice'
        # op holds <=> rand < th  (less) or rand > th
        hook = getattr(self.policy, 'on_uniform', None)
        hit = hook(self, th) if hook else None      # is rand < th
        if hit is None:
            hit = (self.choose(2) == 0) is less
        r = hit is less
        self.usedrand.append((a, th, hit))
        self.weights.append((th, hit))
        return r

    # ------------------------------------------------------------------------------------------ truth
    def truth(self, v):
        t = type(v)
        if t is bool:
            return v
        if v is None:
            return False
        if t is int:
            return v != 0
        if t is NB:
            return v.v
        if t is NI:
            if type(v.v) is Sat:
                if v.v.k >= 1:
                    return True
                raise Undecided('truth of a saturated counter')
            return v.v != 0
        if t is Sat:
            if v.k >= 1:
                return True
            raise Undecided('truth of a saturated counter')
        if t is str:
            return v != ''
        if t is R:
            c = v.const()
            if c is not None:
                return c != 0
            return self.decide_sign(v, 'NotEq') != '0' if not any(a.kind == 'rand' for a in v.atoms()) else True
        if t in (LList, DDict, SSet):
            return len(v.v) > 0
        if t is tuple:
            return len(v) > 0
        if t is Arr:
            if v.shape == () or all(s == 1 for s in v.shape if type(s) is int) and all(type(s) is int for s in v.shape):
                return self.truth(self.elem(v, (0,) * len(v.shape)))
            if all(type(s) is int for s in v.shape) and 0 not in v.shape:
                raise PyExc('ValueError', 'truth value of an array with more than one element', self.where())
            raise PyExc('ValueError', 'truth value of an array with more than one element is ambiguous', self.where())
        if t is Obj:
            m = v.cls.find('__bool__') or v.cls.find('__len__')
            if m is not None:
                return self.truth(self.call(Bound(m, v), [], {}, None))
            return True
        if t in (Func, Bound, Builtin, Type, Cls, Mod, Ext, DType, ExcType):
            return True
        if t is Carried:
            self.carried(v)
        if t is Top:
            raise Undecided('branch on an unknown value (%s)' % v.why)
        if t is Tok:
            return self.truth(self.tokcmp('NotEq', v, 0))
        raise Undecided('truth of %r' % (v,))

    # ------------------------------------------------------------------------------------ expressions
    def ev(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Undecided('expression %s' % type(e).__name__)
        return m(e, fr)

    def evlist(self, es, fr):
        """evaluate operands left to right keeping earlier values visible in state keys"""
        out = []
        n0 = len(self.pend)
        for x in es:
            if isinstance(x, ast.Starred):
                v = self.listify(self.ev(x.value, fr))
                out.extend(v)
                self.pend.extend(v)
            else:
                v = self.ev(x, fr)
                out.append(v)
                self.pend.append(v)
        vals = self.pend[n0:]
        # operands may have been widened while pending
        del self.pend[n0:]
        return vals

    def e_Constant(self, e, fr):
        v = e.value
        if type(v) is float:
            if v != v or v in (float('inf'), float('-inf')):
                raise Undecided('non-finite constant')
            return rc(Fraction(repr(v))).with_dt('pyfloat')
        if type(v) in (int, bool, str) or v is None:
            return v
        if v is Ellipsis:
            return Ellipsis
        raise Undecided('constant %r' % (v,))

    def e_Name(self, e, fr):
        return self.name(e.id, fr)

    def name(self, n, fr):
        f = fr
        first = True
        while f is not None:
            if n in f.vars:
                return f.vars[n]
            if first and not f.iscomp:
                if f.info is not None and n in f.info.locals:
                    raise PyExc('UnboundLocalError', "local variable '%s' referenced before assignment" % n, self.where())
                first = False
            f = f.parent
        ns = fr.mod.ns
        if n in ns:
            return ns[n]
        b = self.builtin(n)
        if b is not None or n == 'None':
            return b
        if hasattr(builtins, n):
            raise Undecided('builtin %s' % n)
        raise PyExc('NameError', "name '%s' is not defined" % n, self.where())

    def e_Tuple(self, e, fr):
        return tuple(self.evlist(e.elts, fr))

    def e_List(self, e, fr):
        return LList(self.evlist(e.elts, fr))

    def e_Set(self, e, fr):
        return self.mkset(self.evlist(e.elts, fr))

    def mkset(self, vs):
        out, seen = [], set()
        for v in vs:
            k = repr(Canon_(self, v))
            if k not in seen:
                seen.add(k)
                out.append(v)
        return SSet(out)

    def dkey(self, k):
        c = self.concrete(k) if self.isnum(k) else None
        if c is not None:
            return c
        if type(k) in (str, tuple, bool, int) or k is None:
            return k
        if type(k) in (Obj, Func, Type):
            return k
        if type(k) is R:
            return k
        raise Undecided('dictionary key %r' % (k,))

    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(v, fr)
                if type(o) is not DDict:
                    raise Undecided('dict unpacking')
                d.update(o.v)
            else:
                kk = self.ev(k, fr)
                d[self.dkey(kk)] = self.ev(v, fr)
        return DDict(d)

    def e_JoinedStr(self, e, fr):
        out = ''
        for p in e.values:
            if isinstance(p, ast.Constant):
                out += p.value
            else:
                v = self.ev(p.value, fr)
                out += v if type(v) is str else self.tostr(v)
        return out

    def tostr(self, v):
        if type(v) is str:
            return v
        if type(v) is int or type(v) is bool or v is None:
            return str(v)
        if type(v) is NI and type(v.v) is int:
            return str(v.v)
        if type(v) is NB:
            return str(v.v)
        return '<%s>' % type(v).__name__

    def e_UnaryOp(self, e, fr):
        op = type(e.op).__name__
        if op == 'Not':
            return not self.truth(self.ev(e.operand, fr))
        v = self.ev(e.operand, fr)
        return self.unary(op, v)

    def unary(self, op, v):
        t = type(v)
        if t is Carried:
            self.carried(v)
        if t is Top:
            raise Undecided('unknown operand (%s)' % v.why)
        if t is Arr:
            if v.shape == ():
                return self.unary(op, self.elem(v, ()))
            if op == 'USub' and v.dt == 'bool':
                raise PyExc('TypeError', 'negative of a boolean array', self.where())
            return self.fnarr('u' + op, [v], v.shape, v.dt, lambda s, i: self.unary(op, self.elem(s[0], i)))
        if t is MArr:
            return MArr(self.unary(op, v.arr), v.mask)
        if not self.isnum(v):
            if t in (Tok, TokOff):
                return self.unary(op, self.tokR(v))
            raise PyExc('TypeError', 'bad operand type for unary %s' % op, self.where())
        if op == 'UAdd':
            return v if t is not bool else int(v)
        if op == 'USub':
            if t is int or t is bool:
                return -int(v)
            if t is NI:
                if type(v.v) is Sat:
                    raise Undecided('negated saturated counter')
                return self.mk(-v.v, v.dt)
            if t is NB:
                raise PyExc('TypeError', 'negative of numpy bool', self.where())
            if t is R:
                return alg.neg(v).with_dt(v.dt)
            raise Undecided('negated saturated counter')
        if op == 'Invert':
            if t is NB:
                return NB(not v.v)
            if t is int or t is bool:
                return ~int(v)
            if t is NI and type(v.v) is int:
                return self.mk(~v.v, v.dt)
        raise Undecided('unary %s' % op)

    def e_BinOp(self, e, fr):
        a, b = self.evlist([e.left, e.right], fr)
        return self.binop(type(e.op).__name__, a, b)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if t != isand:
                return v
        return v

    def e_Compare(self, e, fr):
        if len(e.ops) == 1:
            a, b = self.evlist([e.left, e.comparators[0]], fr)
            return self.cmpop(type(e.ops[0]).__name__, a, b)
        a = self.ev(e.left, fr)
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            self.pend.append(a)
            b = self.ev(c, fr)
            self.pend.pop()
            r = self.cmpop(type(op).__name__, a, b)
            if i == len(e.ops) - 1:
                return r
            if not self.truth(r):
                return r
            a = b

    def cmpop(self, op, a, b):
        if op == 'Is':
            return self.is_(a, b)
        if op == 'IsNot':
            return not self.is_(a, b)
        if op == 'In':
            return self.contains(b, a)
        if op == 'NotIn':
            return not self.contains(b, a)
        ta, tb = type(a), type(b)
        if ta is Carried:
            self.carried(a)
        if tb is Carried:
            self.carried(b)
        if ta is Top or tb is Top:
            raise Undecided('comparison with an unknown value (%s)' % (a if ta is Top else b).why)
        if ta in (Arr, MArr) or tb in (Arr, MArr):
            if a is None or b is None or ta is str or tb is str:
                if op == 'Eq':
                    return False
                if op == 'NotEq':
                    return True
            if ta is Arr and a.shape == () and tb not in (Arr, MArr):
                return self.cmpop(op, self.elem(a, ()), b)
            if tb is Arr and b.shape == () and ta not in (Arr, MArr):
                return self.cmpop(op, a, self.elem(b, ()))
            return self.arrop(op, a, b)
        if ta in (Tok, TokOff) or tb in (Tok, TokOff):
            return self.tokcmp(op, a, b)
        if self.isnum(a) and self.isnum(b):
            return self.compare(op, a, b)
        if ta is str and tb is str:
            return self.cmpc(op, a, b)
        if op in ('Eq', 'NotEq'):
            r = self.equal(a, b)
            return r if op == 'Eq' else not r
        if ta is tuple and tb is tuple:
            for x, y in zip(a, b):
                if self.truth(self.cmpop('Eq', x, y)):
                    continue
                return self.truth(self.cmpop(op, x, y))
            return self.cmpc(op, len(a), len(b))
        if a is None or b is None or ta is str or tb is str:
            raise PyExc('TypeError', "'%s' not supported" % op, self.where())
        raise Undecided('comparison %s of %r, %r' % (op, a, b))

    def equal(self, a, b):
        ta, tb = type(a), type(b)
        if ta is Top or tb is Top:
            raise Undecided('comparison with an unknown value')
        if self.isnum(a) and self.isnum(b):
            return self.truth(self.compare('Eq', a, b))
        if ta in (Tok, TokOff) or tb in (Tok, TokOff):
            return self.truth(self.tokcmp('Eq', a, b))
        if ta is Arr or tb is Arr:
            return self.truth(self.cmpop('Eq', a, b))
        if ta in (tuple, LList) and ta is tb:
            x = a if ta is tuple else a.v
            y = b if tb is tuple else b.v
            return len(x) == len(y) and all(p is q or self.equal(p, q) for p, q in zip(x, y))
        if ta in (str,) or a is None or tb is str or b is None:
            return ta is tb and a == b
        if ta is DType or tb is DType:
            return self.dtname(a) == self.dtname(b)
        if ta is Type or tb is Type:
            return self.is_(a, b)
        if ta is DDict and tb is DDict:
            return a.v.keys() == b.v.keys() and all(self.equal(a.v[k], b.v[k]) for k in a.v)
        if ta is SSet and tb is SSet:
            return {repr(Canon_(self, x)) for x in a.v} == {repr(Canon_(self, x)) for x in b.v}
        if ta is Obj and a.cls.find('__eq__'):
            return self.truth(self.call(Bound(a.cls.find('__eq__'), a), [b], {}, None))
        if ta is Ext or tb is Ext:
            if ta is tb:
                return a.name == b.name
            raise Undecided('comparison with %r' % (a if ta is Ext else b))
        return a is b

    def tyname(self, v):
        """(kind, name) of a type object, or None"""
        t = type(v)
        if t is Type:
            return (v.kind, v.name)
        if t is Ext and v.name.startswith('numpy.'):
            return ('np', v.name[6:])
        return None

    def is_(self, a, b):
        if a is b:
            return True
        if type(a) is Top or type(b) is Top:
            raise Undecided('identity of an unknown value')
        if type(a) is bool and type(b) is bool:
            return a == b
        if type(a) is Type or type(b) is Type:
            if type(a) is DType or type(b) is DType:
                return type(a) is not type(b) and {self.tyname(a), self.tyname(b)} - {None} == {
                    ('np', (a if type(a) is DType else b).name)}
            x, y = self.tyname(a), self.tyname(b)
            return x is not None and x == y
        if type(a) is NB or type(b) is NB:
            # identity with a numpy bool singleton
            if type(a) is NB and type(b) is NB:
                return a.v == b.v
            o, nb = (a, b) if type(b) is NB else (b, a)
            if type(o) is bool and self.jitted():
                return o == nb.v
            return False
        if type(a) is int and type(b) is int:
            return a == b
        if type(a) is str and type(b) is str:
            return a == b
        if type(a) is Type and type(b) is Type:
            return a == b
        if type(a) is Bound and type(b) is Bound:
            return False
        if type(a) is DType and type(b) is DType:
            return a == b
        if type(a) is Ext and type(b) is Ext:
            return a.name == b.name
        return False

    def jitted(self):
        return any(f.func is not None and f.func.jit is not None for f in self.frames)

    def tokcmp(self, op, a, b):
        if type(a) in (TokOff, R) and type(b) in (Tok, TokOff) or type(a) is int:
            a, b, op = b, a, self.SWAP[op]
        if type(a) is Tok and type(b) is NI:
            b = b.v
        if type(a) is Tok and type(b) is Tok and a.dim is b.dim:
            if a is b:
                return op in ('Eq', 'LtE', 'GtE')
            if op in ('Eq', 'NotEq'):
                return op == 'NotEq'
            return self.order(op, a, b)
        if type(a) is Tok and type(b) is Tok:
            self.policy_event('axis', 'positions of different axes (%s, %s) are compared' % (a.dim.name, b.dim.name))
            raise Undecided('positions of different axes compared')
        if type(a) is Tok and type(b) is int:
            d = a.dim
            ti = self.tinfo[a]
            if b < 0:
                return op in ('NotEq', 'Gt', 'GtE')
            if d.mode in ('full', 'starfull') and not ti.star:
                if ti.first is not None and ti.first >= 0:
                    return self.cmpc(op, ti.first, b)
                if b == 0:
                    # is a the first member?
                    pick = [t for t in self.members.get(d, ()) if self.tinfo[t].first == 0]
                    if pick:
                        z = False
                    else:
                        lp = [l for l in self.loops if l.dim is d and l.cur is a and l.inorder]
                        if lp:
                            z = not lp[-1].vis
                        else:
                            z = self.choose(2) == 0
                            if z:
                                ti.first = 0
                    return self.cmpc(op, 0 if z else 1, 0)
                if op in ('Eq', 'NotEq', 'Lt', 'GtE') and b > 0:
                    raise Undecided('position compared with %d' % b)
            return self.compare(op, self.tokR(a), b)
        if type(a) is Tok and type(b) is R or type(a) is TokOff or type(b) is TokOff:
            x, y = self.tokR(a), self.tokR(b)
            # position < size of its dimension
            if type(a) is Tok and type(b) is R:
                d = alg.sub(b, a.dim.size)
                c = d.const()
                if c is not None:
                    if c >= 0:
                        return op in ('Lt', 'LtE', 'NotEq')
                    if c == -1:
                        # is a the last one?
                        if op in ('Eq', 'NotEq', 'Lt', 'GtE'):
                            return self.lastpos(op, a)
            return self.compare(op, x, y)
        raise Undecided('comparison of a position with %r' % (b,))

    def lastpos(self, op, a):
        ti = self.tinfo[a]
        if ti.first == -1:
            z = True
        elif any(self.tinfo[t].first == -1 for t in self.members.get(a.dim, ()) if t is not a):
            z = False
        else:
            lp = [l for l in self.loops if l.dim is a.dim and l.cur is a and l.inorder]
            if lp:
                z = not lp[-1].unv
            else:
                z = self.choose(2) == 0
                if z:
                    ti.first = -1
        return {'Eq': z, 'NotEq': not z, 'Lt': not z, 'GtE': z}[op]

    def order(self, op, a, b):
        """relative position of two members"""
        ra, rb = self.tinfo[a].rel.get(b), self.tinfo[b].rel.get(a)
        if ra is None and rb is not None:
            ra = {'before': 'after', 'after': 'before'}[rb]
        if ra is None:
            for l in self.loops:
                if l.dim is a.dim and l.kind == 'full' and l.inorder:
                    if l.cur is a and b in l.vis:
                        ra = 'after'
                    elif l.cur is a and b in l.unv:
                        ra = 'before'
                    elif l.cur is b and a in l.vis:
                        ra = 'before'
                    elif l.cur is b and a in l.unv:
                        ra = 'after'
        if ra is None:
            ra = ('before', 'after')[self.choose(2)]
            self.tinfo[a].rel[b] = ra
        return self.cmpc(op, 0 if ra == 'before' else 1, 0.5)

    def contains(self, c, x):
        t = type(c)
        if t is str:
            if type(x) is not str:
                raise PyExc('TypeError', 'in <string> requires string', self.where())
            return x in c
        if t in (LList, tuple, SSet):
            for y in (c if t is tuple else c.v):
                if y is x or self.equal(x, y):
                    return True
            return False
        if t is DDict:
            return self.dkey(x) in c.v
        if t is Obj:
            m = c.cls.find('__contains__')
            if m is not None:
                return self.truth(self.call(Bound(m, c), [x], {}, None))
        if t is Arr:
            return self.truth(self.reduce('any', self.arrop('Eq', c, x), None))
        if t is PyRange:
            k = self.concrete(x)
            if k is not None:
                return k in c.r
        if t is Top:
            raise Undecided('membership in an unknown value')
        if t is AbsIter and c.rng and type(x) is Tok and x.dim is c.dim and c.lo is None and c.hi is None:
            return True
        if c is None or t in (int, NI, bool):
            raise PyExc('TypeError', 'argument is not iterable', self.where())
        raise Undecided('membership test in %r' % (c,))

    def e_IfExp(self, e, fr):
        return self.ev(e.body, fr) if self.truth(self.ev(e.test, fr)) else self.ev(e.orelse, fr)

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        f = fr
        while f.iscomp and f.parent is not None:
            f = f.parent
        self.setname(e.target.id, v, f)
        return v

    def e_Lambda(self, e, fr):
        f = Func()
        f.name, f.node, f.mod = '<lambda>', e, fr.mod
        f.env = fr if fr.func is not None or fr.iscomp else None
        f.qual = (fr.func.qual if fr.func else fr.mod.name) + '.<lambda>'
        f.info = fninfo(e)
        f.prop = f.static = False
        f.jit = None
        f.defaults = [self.ev(d, fr) for d in e.args.defaults]
        f.kwdefaults = {a.arg: self.ev(d, fr) for a, d in zip(e.args.kwonlyargs, e.args.kw_defaults) if d is not None}
        return f

    def comp(self, e, fr, emit):
        """list of results or AbsIter when the (single) generator is symbolic"""
        f = Frame(fr.func, {}, fr.mod, fr, fr.info, True)
        f.pos = fr.pos
        out = []

        def rec(i, f):
            if i == len(e.generators):
                out.append(emit(f))
                return
            g = e.generators[i]
            it = self.as_iter(self.ev(g.iter, f if i else fr))
            if type(it) is LazySeq:
                it = it.it
            if type(it) is AbsIter:
                if len(e.generators) != 1 or g.ifs:
                    raise Abs(i, it)
                raise Abs(i, it)
            for x in it:
                self.assign(g.target, x, f)
                if all(self.truth(self.ev(c, f)) for c in g.ifs):
                    rec(i + 1, f)
        try:
            rec(0, f)
            return out
        except Abs as a:
            if len(e.generators) != 1:
                if a.i == 0:
                    raise Undecided('nested comprehension over a symbolic dimension')
                raise Undecided('nested comprehension over a symbolic dimension')
            it, g = a.it, e.generators[0]
            snapf = Frame(fr.func, dict(fr.vars), fr.mod, fr.parent, fr.info, fr.iscomp)
            snapf.pos = fr.pos

            def item(t):
                f = Frame(fr.func, {}, fr.mod, snapf, fr.info, True)
                f.pos = fr.pos
                self.assign(g.target, it.item(t), f)
                for c in g.ifs:
                    if not self.truth(self.ev(c, f)):
                        return SKIP
                return emit(f)
            r = AbsIter(it.dim, item, it.par, it.lo, it.hi, 'comp', False)
            r.filtered = bool(g.ifs)
            return r

    def e_ListComp(self, e, fr):
        r = self.comp(e, fr, lambda f: self.ev(e.elt, f))
        return LazySeq(r) if type(r) is AbsIter else LList(r)

    def e_GeneratorExp(self, e, fr):
        r = self.comp(e, fr, lambda f: self.ev(e.elt, f))
        return LazySeq(r) if type(r) is AbsIter else LList(r)

    def e_SetComp(self, e, fr):
        r = self.comp(e, fr, lambda f: self.ev(e.elt, f))
        if type(r) is AbsIter:
            raise Undecided('set comprehension over a symbolic dimension')
        return self.mkset(r)

    def e_DictComp(self, e, fr):
        r = self.comp(e, fr, lambda f: (self.ev(e.key, f), self.ev(e.value, f)))
        if type(r) is AbsIter:
            raise Undecided('dict comprehension over a symbolic dimension')
        return DDict({self.dkey(k): v for k, v in r})

    def e_Starred(self, e, fr):
        raise Undecided('starred expression')

    def e_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), e.attr)

    def e_Subscript(self, e, fr):
        o = self.ev(e.value, fr)
        self.pend.append(o)
        k = self.index(e.slice, fr)
        o = self.pend.pop()
        return self.getitem(o, k)

    def index(self, s, fr):
        if isinstance(s, ast.Slice):
            return SliceV(*[None if x is None else self.ev(x, fr) for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            out = []
            for x in s.elts:
                if isinstance(x, ast.Starred):
                    out.extend(self.listify(self.ev(x.value, fr)))
                else:
                    out.append(self.index(x, fr))
            return tuple(out)
        return self.ev(s, fr)

    def e_Call(self, e, fr):
        pos = fr.pos
        fr.pos = e
        n0 = len(self.pend)
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            return self.mksuper(fr)
        if isinstance(e.func, ast.Name) and e.func.id in ('locals', 'globals', 'vars') and not e.args:
            return DDict(dict(fr.vars))
        f = self.ev(e.func, fr)
        self.pend.append(f)
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                self.pend.extend(self.listify(self.ev(x.value, fr)))
            else:
                self.pend.append(self.ev(x, fr))
        na = len(self.pend)
        names = []
        for k in e.keywords:
            if k.arg is None:
                o = self.ev(k.value, fr)
                if type(o) is not DDict:
                    raise Undecided('keyword unpacking')
                for kk, vv in o.v.items():
                    names.append(kk)
                    self.pend.append(vv)
            else:
                names.append(k.arg)
                self.pend.append(self.ev(k.value, fr))
        args = self.pend[n0 + 1:na]
        kw = dict(zip(names, self.pend[na:]))
        del self.pend[n0:]
        fr.pos = e
        r = self.call(f, args, kw, e)
        fr.pos = pos
        return r

    def mksuper(self, fr):
        raise Undecided('super()')

    # ------------------------------------------------------------------------------------------ calls
    def call(self, f, args, kw, node):
        t = type(f)
        if t is Func:
            return self.callfn(f, args, kw)
        if t is Bound:
            if type(f.f) is Func:
                return self.callfn(f.f, [f.self_] + args, kw)
            return self.call(f.f, [f.self_] + args, kw, node)
        if t is Builtin:
            return f.fn(self, args, kw)
        if t is Cls:
            return self.instantiate(f, args, kw)
        if t is Type:
            return self.calltype(f, args, kw)
        if t is ExcType:
            return ExcVal(f.name, self.tostr(args[0]) if args else '')
        if t is Ext:
            return self.lib(f.name, args, kw)
        if t is Obj:
            m = f.cls.find('__call__')
            if m is not None:
                return self.call(Bound(m, f), args, kw, node)
            raise PyExc('TypeError', "'%s' object is not callable" % f.cls.name, self.where())
        if t is DType:
            return self.calltype(Type(f.name, 'np'), args, kw)
        if t is Top:
            raise Undecided('call of an unknown value (%s)' % f.why)
        if t is Carried:
            self.carried(f)
        raise PyExc('TypeError', "%r object is not callable" % (type(f).__name__,), self.where())

    def callfn(self, f, args, kw):
        ov = self.overrides.get(f.qual)
        if ov is not None:
            r = ov(self, f, args, kw)
            if r is not NotImplemented:
                return r
        if len(self.frames) > 60:
            raise Undecided('call depth')
        self.res.funcs.add(f.qual)
        info = f.info
        vars = self.bind(f, args, kw)
        if info.gen:
            raise Undecided('generator function %s' % f.qual)
        fr = Frame(f, vars, f.mod, f.env, info)
        self.frames.append(fr)
        n, pd, ld = len(self.frames), len(self.pend), len(self.loops)
        try:
            if isinstance(f.node, ast.Lambda):
                fr.pos = f.node
                r = self.ev(f.node.body, fr)
            else:
                self.block(f.node.body, fr)
                r = None
        except ReturnSig as s:
            r = s.v
        except (BreakSig, ContinueSig):
            raise Undecided('stray loop control')
        del self.frames[n - 1:]
        del self.pend[pd:]
        del self.loops[ld:]
        return r

    def bind(self, f, args, kw):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        vars = {}
        kw = dict(kw)
        if len(args) > len(pos):
            if not a.vararg:
                raise PyExc('TypeError', '%s() takes %d positional arguments but %d were given' %
                            (f.name, len(pos), len(args)), self.where())
            vars[a.vararg.arg] = tuple(args[len(pos):])
            args = args[:len(pos)]
        elif a.vararg:
            vars[a.vararg.arg] = ()
        for n, v in zip(pos, args):
            vars[n] = v
        nd = len(f.defaults)
        for i, n in enumerate(pos):
            if n in kw:
                if n in vars:
                    raise PyExc('TypeError', "%s() got multiple values for argument '%s'" % (f.name, n), self.where())
                vars[n] = kw.pop(n)
            elif n not in vars:
                j = i - (len(pos) - nd)
                if j >= 0:
                    vars[n] = f.defaults[j]
                else:
                    raise PyExc('TypeError', "%s() missing required argument: '%s'" % (f.name, n), self.where())
        for x in a.kwonlyargs:
            if x.arg in kw:
                vars[x.arg] = kw.pop(x.arg)
            elif x.arg in f.kwdefaults:
                vars[x.arg] = f.kwdefaults[x.arg]
            else:
                raise PyExc('TypeError', "%s() missing keyword-only argument '%s'" % (f.name, x.arg), self.where())
        if a.kwarg:
            vars[a.kwarg.arg] = DDict(kw)
        elif kw:
            raise PyExc('TypeError', "%s() got an unexpected keyword argument '%s'" % (f.name, sorted(kw)[0]), self.where())
        return vars

    def instantiate(self, c, args, kw):
        if self.isexc(c):
            return ExcVal(c.name, self.tostr(args[0]) if args and type(args[0]) is str else '')
        o = Obj(c, self.uid())
        self.objs[o.uid] = o
        m = c.find('__init__')
        if m is not None:
            self.call(Bound(m, o), args, kw, None)
        elif args or kw:
            if any(not isinstance(b, Cls) and b != TYPES['object'] for b in c.bases):
                raise Undecided('instance of %s' % c.name)
            raise PyExc('TypeError', '%s() takes no arguments' % c.name, self.where())
        return o

    def isexc(self, c):
        return c.name in EXC_BASES

    # ------------------------------------------------------------------------------------- attributes
    def getattr(self, o, n):
        t = type(o)
        if t is Obj:
            if n in o.attrs:
                c = o.cls.find(n)
                if not (type(c) is Func and c.prop):
                    return o.attrs[n]
            c = o.cls.find(n)
            if c is not None:
                if type(c) is Func:
                    if c.prop:
                        return self.call(Bound(c, o), [], {}, None)
                    if c.static:
                        return c
                    return Bound(c, o)
                return c
            if n in o.attrs:
                return o.attrs[n]
            if n == '__class__':
                return o.cls
            if n == '__dict__':
                return DDict(o.attrs)
            g = o.cls.find('__getattr__')
            if g is not None:
                return self.call(Bound(g, o), [n], {}, None)
            raise PyExc('AttributeError', "'%s' object has no attribute '%s'" % (o.cls.name, n), self.where())
        if t is Mod:
            if n in o.ns:
                return o.ns[n]
            sub = o.name + '.' + n
            if sub in self.mods:
                return self.mods[sub]
            raise PyExc('AttributeError', "module '%s' has no attribute '%s'" % (o.name, n), self.where())
        if t is Ext:
            return self.extattr(o, n)
        if t is Cls:
            c = o.find(n)
            if c is not None:
                return c
            if n == '__name__':
                return o.name
            raise PyExc('AttributeError', "type object '%s' has no attribute '%s'" % (o.name, n), self.where())
        if t is Func:
            if n == '__name__':
                return f.name if False else o.name
            if n == 'py_func':
                return o
            raise PyExc('AttributeError', "function has no attribute '%s'" % n, self.where())
        if t is Top:
            raise Undecided('attribute of an unknown value (%s)' % o.why)
        if t is Carried:
            self.carried(o)
        return self.method(o, n)

    def setattr(self, o, n, v):
        t = type(o)
        if t is Obj:
            c = o.cls.find(n)
            if type(c) is Func and c.prop:
                raise PyExc('AttributeError', "can't set attribute '%s'" % n, self.where())
            if o.uid < self.mark_uid:
                self.dirty.add(o.uid)
            self.policy_event('setattr', o, n, v)
            o.attrs[n] = v
            return
        if t is Cls:
            o.ns[n] = v
            return
        if t is Arr:
            if n == 'shape':
                raise Undecided('assignment to shape')
            raise PyExc('AttributeError', n, self.where())
        if t in (Func, Builtin, Ext):
            return
        if t is Mod:
            raise Undecided('module attribute assignment')
        if t is Top:
            raise Undecided('attribute of an unknown value')
        raise PyExc('AttributeError', "object has no attribute '%s'" % n, self.where())

    # ---------------------------------------------------------------------------------------- items
    def getitem(self, o, k):
        t = type(o)
        if t is Arr:
            return self.arr_getitem(o, k)
        if t is MArr:
            if type(k) is MArr or type(k) is Arr:
                raise Undecided('indexing of a selection')
            raise Undecided('indexing of a selection')
        if t in (LList, tuple, str):
            seq = o.v if t is LList else o
            if type(k) is SliceV:
                s = self.pyslice(k)
                r = seq[s]
                return LList(r) if t is LList else r
            i = self.concrete(k) if self.isnum(k) else None
            if i is None:
                if type(k) is str or k is None or type(k) is tuple:
                    raise PyExc('TypeError', 'list indices must be integers', self.where())
                if t is LList and self.isnum(k):
                    raise Undecided('list index')
                raise Undecided('list index %r' % (k,))
            if not -len(seq) <= i < len(seq):
                raise PyExc('IndexError', 'list index out of range', self.where())
            return seq[i]
        if t is DDict:
            kk = self.dkey(k)
            if kk not in o.v:
                raise PyExc('KeyError', repr(kk), self.where())
            return o.v[kk]
        if t is LazySeq:
            if type(k) is Tok and k.dim is o.it.dim:
                return o.it.item(k)
            raise Undecided('index into a symbolic list')
        if t is Obj:
            m = o.cls.find('__getitem__')
            if m is not None:
                return self.call(Bound(m, o), [k], {}, None)
            raise PyExc('TypeError', "'%s' object is not subscriptable" % o.cls.name, self.where())
        if t is Top:
            raise Undecided('item of an unknown value (%s)' % o.why)
        if t is Carried:
            self.carried(o)
        if t is AbsIter and type(k) is Tok:
            return o.item(k)
        if t is PyRange:
            i = self.concrete(k)
            if i is not None:
                return o.r[i]
        if t is Ext or t is Type:
            if o.__class__ is Ext and o.name.startswith('numba'):
                return o
            raise Undecided('subscript of %r' % (o,))
        raise PyExc('TypeError', "'%s' object is not subscriptable" % t.__name__, self.where())

    def pyslice(self, k):
        vs = []
        for x in (k.lo, k.hi, k.st):
            if x is None:
                vs.append(None)
            else:
                c = self.concrete(x)
                if c is None:
                    raise Undecided('slice bound')
                vs.append(c)
        return slice(*vs)

    def setitem(self, o, k, v):
        t = type(o)
        if t is Arr:
            self.arr_setitem(o, k, v)
            return
        if t is LList:
            if type(k) is SliceV:
                o.v[self.pyslice(k)] = self.listify(v)
                return
            i = self.concrete(k) if self.isnum(k) else None
            if i is None:
                raise Undecided('list index')
            if not -len(o.v) <= i < len(o.v):
                raise PyExc('IndexError', 'list assignment index out of range', self.where())
            o.v[i] = v
            return
        if t is DDict:
            o.v[self.dkey(k)] = v
            return
        if t is Obj:
            m = o.cls.find('__setitem__')
            if m is not None:
                self.call(Bound(m, o), [k, v], {}, None)
                return
        if t in (tuple, str):
            raise PyExc('TypeError', 'object does not support item assignment', self.where())
        if t is Top:
            raise Undecided('item assignment to an unknown value (%s)' % o.why)
        if t is Carried:
            self.carried(o)
        raise Undecided('item assignment to %r' % (o,))


class Abs(Exception):
    def __init__(self, i, it):
        self.i, self.it = i, it


def Canon_(I, v):
    from .engine import Canon
    return Canon(I).c(v)

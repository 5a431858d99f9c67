"""Models of the builtins and of the library functions used by the analysed package."""
import ast
import math
from fractions import Fraction
from . import alg
from .alg import R, rc
from .values import *
from .engine import Base, Const, Leaf, Fn, Layer, Frozen, Store, Arr, MArr, Frame
from .ev import LazySeq, SliceV, PYNUM, FLOATS, NPTYPES, DTALIAS, TYPES, EXC, Canon_, LIMITS

NPMODS = ('numpy.', 'math.', 'scipy.', 'numba.')

UFUNC1 = {}
LIB = {}
METH = {}
BUILTINS = {}


def lib(*names):
    def deco(f):
        for n in names:
            LIB[n] = f
        return f
    return deco


def bi(*names):
    def deco(f):
        for n in names:
            BUILTINS[n] = Builtin(n, f)
        return f
    return deco


def meth(t, *names):
    def deco(f):
        for n in names:
            METH[(t, n)] = f
        return f
    return deco


def arg(args, kw, i, n, default=None):
    if i < len(args):
        return args[i]
    return kw.get(n, default)


class Lib:
    def builtin(self, n):
        if n in BUILTINS:
            return BUILTINS[n]
        if n in TYPES:
            return TYPES[n]
        if n in EXC:
            return EXC[n]
        if n == '__name__':
            return None
        if n == 'NotImplemented':
            return Ext('NotImplemented')
        if n == 'Ellipsis':
            return Ellipsis
        return None

    def extattr(self, o, n):
        full = o.name + '.' + n
        root, _, last = full.rpartition('.')
        if root in ('numpy', 'numba', 'numba.types', 'numba.core.types'):
            if n in NPTYPES:
                return Type(n, 'np')
            if root == 'numpy' and n in ('bool_', 'bool', 'float', 'int', 'int_', 'intp', 'double', 'single'):
                if n in ('float', 'int'):
                    raise PyExc('AttributeError', "module 'numpy' has no attribute '%s'" % n, self.where())
                return Type(DTALIAS[n], 'np')
            if root.startswith('numba') and n in ('boolean', 'void', 'intp', 'b1'):
                return Type(DTALIAS.get(n, n), 'np')
        if full in ('numpy.inf', 'math.inf'):
            return alg.sym('inf', '+', 'inf').with_dt('pyfloat')
        if full in ('numpy.pi', 'math.pi'):
            return alg.sym('pi', '+', 'const').with_dt('pyfloat')
        if full in ('numpy.e', 'math.e'):
            return alg.exp(rc(1)).with_dt('pyfloat')
        if full in ('numpy.nan', 'math.nan'):
            return alg.sym('nan', None, 'nan').with_dt('pyfloat')
        if full == 'numpy.newaxis':
            return None
        if self.extcheck is not None:
            self.extcheck(o.name, n)
        return Ext(full)

    extcheck = None

    gen = 'numpy'

    def lib(self, name, args, kw):
        if '@' not in name and not name.startswith('random.'):
            return self.lib1(name, args, kw)
        # a generator object, or the generator of the standard library
        g0 = self.gen
        if '@' in name:
            base, _, fn = name.partition('@')
            g, _, fn = fn.partition('.')
            self.gen = '@' + g
            name = 'numpy.random.' + {'integers': 'randint'}.get(fn, fn)
        else:
            self.gen = 'python'
        try:
            return self.lib1(name, args, kw)
        finally:
            self.gen = g0

    def intarr(self, xs, dt='int64'):
        if not xs:
            return self.new((0,), dt, Const(0))
        return self.toarr(LList(list(xs)), dt)

    def lib1(self, name, args, kw):
        f = LIB.get(name)
        if f is None:
            if name.startswith('numpy.') and name[6:] in UFUNC1:
                f = UFUNC1[name[6:]]
        if f is None:
            root = name.split('.')[0]
            if root in ('time', 'os', 'sys', 'matplotlib', 'seaborn', 'subprocess', 'tempfile', 'pickle', 'warnings',
                        'logging', 'datetime', 'json', 'inspect', 'gc'):
                return Top(name)
            raise Undecided('library function %s' % name)
        for a in args:
            if type(a) is Carried:
                self.carried(a)
        return f(self, args, kw)

    # -- types
    def dtname(self, v):
        if v is None:
            return None
        if type(v) is DType:
            return v.name
        if type(v) is Type:
            return DTALIAS.get(v.name, v.name)
        if type(v) is str:
            return DTALIAS.get(v, v)
        if type(v) is Builtin:
            return DTALIAS.get(v.name, v.name)
        raise Undecided('dtype %r' % (v,))

    def calltype(self, t, args, kw):
        n = t.name
        if t.kind == 'np':
            dt = DTALIAS.get(n, n)
            if not args:
                return self.wrap(0, dt)
            v = args[0]
            if type(v) in (Arr,):
                return self.copyarr(v, dt) if v.shape else self.cast(self.elem(v, ()), dt)
            if type(v) in (LList, tuple):
                return self.toarr(v, dt)
            if type(v) in (Tok, TokOff):
                return v if dt in BITS else self.tokR(v).with_dt(dt)
            if type(v) is Sat:
                return NI(v, dt)
            if not self.isnum(v):
                if type(v) is Top:
                    raise Undecided('unknown value')
                raise PyExc('TypeError', 'cannot convert to %s' % dt, self.where())
            return self.cast(v, dt)
        v = args[0] if args else None
        if n == 'int':
            if not args:
                return 0
            if type(v) is str:
                try:
                    return int(v)
                except ValueError:
                    raise PyExc('ValueError', 'invalid literal for int()', self.where())
            if type(v) is Arr:
                v = self.elem(v, (0,) * len(v.shape))
            if type(v) in (Tok, TokOff):
                return v
            if v is None or type(v) in (LList, tuple):
                raise PyExc('TypeError', 'int() argument', self.where())
            return self.cast(v, 'pyint')
        if n == 'float':
            if not args:
                return rc(0).with_dt('pyfloat')
            if type(v) is str:
                try:
                    if v in ('inf', '-inf', 'Inf', 'Infinity'):
                        i = alg.sym('inf', '+', 'inf').with_dt('pyfloat')
                        return self.unary('USub', i) if v[0] == '-' else i
                    return rc(Fraction(v)).with_dt('pyfloat')
                except ValueError:
                    raise PyExc('ValueError', 'could not convert string to float', self.where())
            if type(v) is Arr:
                v = self.elem(v, (0,) * len(v.shape))
            if v is None or type(v) in (LList, tuple):
                raise PyExc('TypeError', 'float() argument', self.where())
            return self.cast(v, 'pyfloat')
        if n == 'bool':
            return self.truth(v) if args else False
        if n == 'str':
            return self.tostr(v) if args else ''
        if n == 'list':
            if not args:
                return LList([])
            if type(v) is LazySeq:
                return v
            it = self.as_iter(v)
            if type(it) is AbsIter:
                return LazySeq(it)
            return LList(list(it))
        if n == 'tuple':
            if not args:
                return ()
            it = self.as_iter(v)
            if type(it) is AbsIter:
                return LazySeq(it)
            return tuple(it)
        if n in ('set', 'frozenset'):
            return self.mkset(self.listify(v)) if args else SSet([])
        if n == 'dict':
            d = {}
            if args:
                if type(v) is DDict:
                    d.update(v.v)
                else:
                    for p in self.listify(v):
                        k, x = self.listify(p)
                        d[self.dkey(k)] = x
            d.update(kw)
            return DDict(d)
        if n == 'type':
            return self.typeof(v)
        if n == 'object':
            return Obj(Cls('object', [], {}, None), self.uid())
        raise Undecided('type call %s' % n)

    def typeof(self, v):
        t = type(v)
        if t is Obj:
            return v.cls
        if t is bool:
            return TYPES['bool']
        if t is int or t is Sat:
            return TYPES['int']
        if t is R:
            return TYPES['int'] if v.dt == 'pyint' else TYPES['float'] if v.dt in ('pyfloat', None) else Type(v.dt, 'np')
        if t is NI:
            return Type(v.dt, 'np')
        if t is NB:
            return Type('bool', 'np')
        if t is str:
            return TYPES['str']
        if t is LList:
            return TYPES['list']
        if t is tuple:
            return TYPES['tuple']
        if t is DDict:
            return TYPES['dict']
        if t is SSet:
            return TYPES['set']
        if t is Arr:
            return Type('ndarray', 'np')
        if v is None:
            return Type('NoneType', 'py')
        if t is Top:
            raise Undecided('type of an unknown value')
        return Type(t.__name__, 'x')

    def isinstance_(self, v, c):
        if type(c) is tuple:
            return any(self.isinstance_(v, x) for x in c)
        if type(c) is Cls:
            if type(v) is Top:
                raise Undecided('isinstance of an unknown value')
            if type(v) is not Obj:
                return False
            todo = [v.cls]
            while todo:
                x = todo.pop()
                if x is c:
                    return True
                if type(x) is Cls:
                    todo.extend(x.bases)
            return False
        if type(c) is Ext and c.name == 'numpy.ndarray':
            if type(v) is Top:
                raise Undecided('isinstance of an unknown value')
            return type(v) in (Arr, MArr)
        if type(c) is ExcType:
            return type(v) is ExcVal and exc_isa(v.cls, c.name)
        if type(c) is Type:
            if type(v) is Top:
                raise Undecided('isinstance of an unknown value')
            t = self.typeof(v)
            if c.name == 'object':
                return True
            if t == c and (type(t) is Type and t.kind == c.kind or c.name != 'bool'):
                return True
            if c.name == 'int' and c.kind == 'py' and type(v) is bool:
                return True
            if c.name == 'float' and c.kind == 'py' and type(v) is R and v.dt == 'float64':
                return True
            if c.name in ('list', 'tuple') and type(v) is LazySeq:
                return c.name == 'list'
            return False
        if type(c) is Ext and c.name.startswith('numpy.'):
            n = c.name[6:]
            if n in ('integer', 'signedinteger'):
                return type(v) is NI or type(v) is R and v.dt in BITS
            if n in ('floating', 'inexact'):
                return type(v) is R and v.dt in ('float64', 'float32')
            if n in ('number', 'generic'):
                return type(v) is NI or type(v) is R and v.dt in RANK
        if type(c) is Ext and c.name.startswith(('collections.', 'numbers.', 'typing.')):
            raise Undecided('isinstance %s' % c.name)
        return False

    def mkrange(self, a, par):
        def norm(x):
            if type(x) is NI:
                return x.v if type(x.v) is int else x.v
            if type(x) is R:
                c = x.const()
                if c is not None:
                    if x.dt in FLOATS:
                        raise PyExc('TypeError', "'float' object cannot be interpreted as an integer", self.where())
                    return int(c)
                if x.dt in ('pyfloat', 'float64') and not self.integral(x):
                    raise PyExc('TypeError', "'float' object cannot be interpreted as an integer", self.where())
                p = self.as_pos(x)
                if p is not None:
                    return p
            if type(x) is bool:
                return int(x)
            if type(x) is NB:
                return int(x.v)
            if type(x) is Top:
                raise Undecided('unknown range bound (%s)' % x.why)
            if type(x) is Carried:
                self.carried(x)
            if type(x) in (Arr, LList, str, tuple) or x is None:
                if type(x) is Arr and x.shape == ():
                    return norm(self.elem(x, ()))
                raise PyExc('TypeError', 'object cannot be interpreted as an integer', self.where())
            return x
        a = [norm(x) for x in a]
        if all(type(x) is int for x in a):
            return PyRange(range(*a), par)
        lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
        rev = False
        if len(a) == 3:
            if a[2] == 1:
                pass
            elif a[2] == -1 and type(lo) is R and hi == -1:
                # range(L-1, -1, -1)
                d = self.dim_of(alg.add(lo, rc(1)))
                if d is None:
                    raise Undecided('descending range')
                it = AbsIter(d, lambda t: t, par, None, None, 'range', True)
                it.rev = True
                return it
            else:
                raise Undecided('range step')
        if type(hi) is R:
            d = self.dim_of(hi)
            k = 0
            if d is None:
                # dim - constant
                li = [x for x in hi.atoms() if x.kind == 'dim']
                if len(li) == 1:
                    d0 = self.sizekeys.get(alg.ra(li[0]).key())
                    df = alg.sub(hi, d0.size).const() if d0 is not None else None
                    if df is not None and df.denominator == 1 and df <= 0:
                        d, k = d0, int(df)
            if d is None:
                raise Undecided('range over %s' % hi)
            if type(lo) is R:
                raise Undecided('range start %s' % lo)
            if type(lo) in (Tok, TokOff) and (lo if type(lo) is Tok else lo.t).dim is not d:
                raise Undecided('range start')
            return AbsIter(d, lambda t: t, par, None if type(lo) is int and lo == 0 else lo, k if k else None, 'range', True)
        if type(hi) in (Tok, TokOff):
            d = (hi if type(hi) is Tok else hi.t).dim
            return AbsIter(d, lambda t: t, par, None if type(lo) is int and lo == 0 else lo, hi, 'range', True)
        raise Undecided('range(%s)' % ', '.join(map(repr, a)))

    # -- methods
    def method(self, o, n):
        t = type(o)
        if t is MArr:
            f = METH.get((MArr, n))
            if f is None and n in ('sum', 'mean', 'any', 'all', 'max', 'min'):
                return Builtin(n, lambda I, a, k: I.reduce(n, o, None))
            if n == 'shape':
                return (self.reduce_masked('count', MArr(o.mask, o.mask)),)
            if n == 'size':
                return self.reduce_masked('count', MArr(o.mask, o.mask))
            if n == 'dtype':
                return DType(o.dt)
            if n == 'copy':
                return Builtin(n, lambda I, a, k: o)
            if n == 'astype':
                return Builtin(n, lambda I, a, k: MArr(I.copyarr(o.arr, I.dtname(a[0])), o.mask))
            raise Undecided('attribute %s of a selection' % n)
        if t is Arr:
            if n == 'shape':
                return o.shape
            if n == 'ndim':
                return len(o.shape)
            if n == 'T':
                return self.transpose(o)
            if n == 'dtype':
                return DType(o.dt)
            if n == 'size':
                return self.prod(o.shape)
            if n == 'flat':
                return self.reshape(o, [-1])
        if t is DType and n == 'name':
            return o.name
        if t is DType and n == 'type':
            return Type(o.name, 'np')
        if t is Type and n == '__name__':
            return o.name
        if t is Type and o.kind == 'np' and n in ('astype',):
            raise PyExc('AttributeError', n, self.where())
        f = METH.get((t, n))
        if f is not None:
            return Builtin('%s.%s' % (t.__name__, n), lambda I, a, k: f(I, o, a, k))
        if t in (NI, NB, R, int, bool):
            if n in ('item',):
                return Builtin(n, lambda I, a, k: I.cast(o, 'pyfloat' if type(o) is R else 'pyint') if type(o) is not NB else o.v)
            if n == 'astype' and t in (NI, NB, R):
                return Builtin(n, lambda I, a, k: I.cast(o, I.dtname(a[0])))
            if n in ('real',):
                return o
            if n == 'dtype' and t in (NI, NB, R) and self.numdt(o) not in PYNUM:
                return DType(self.numdt(o))
            if n == 'shape' and self.numdt(o) not in PYNUM:
                return ()
            if n == 'ndim' and self.numdt(o) not in PYNUM:
                return 0
            if n in ('sum', 'mean', 'max', 'min', 'copy', 'any', 'all', 'squeeze', 'flatten') and self.numdt(o) not in PYNUM:
                return Builtin(n, lambda I, a, k: o)
            if n == 'is_integer' and t is R and o.const() is not None:
                return Builtin(n, lambda I, a, k: o.const().denominator == 1)
        if t is str and hasattr('', n):
            def sm(I, a, k):
                a2 = []
                for x in a:
                    if type(x) in (LList, tuple, LazySeq):
                        a2.append([I.tostr(y) for y in I.listify(x)])
                    elif type(x) is str or type(x) is int or x is None:
                        a2.append(x)
                    else:
                        a2.append(I.tostr(x))
                try:
                    r = getattr(o, n)(*a2)
                except Exception as e:
                    if n == 'format':
                        return o
                    raise PyExc(type(e).__name__, str(e), I.where())
                if isinstance(r, list):
                    return LList(r)
                return r
            return Builtin('str.' + n, sm)
        if o is None:
            raise PyExc('AttributeError', "'NoneType' object has no attribute '%s'" % n, self.where())
        if t is Ext:
            return Ext(o.name + '.' + n)
        if t in (Top,):
            raise Undecided('attribute of an unknown value')
        import builtins
        py = {LList: list, DDict: dict, SSet: set, tuple: tuple, int: int}.get(t)
        if t is Arr:
            if n in NDARRAY_ATTRS:
                raise Undecided('array attribute %s' % n)
        elif py is not None and hasattr(py, n):
            raise Undecided('method %s of %s' % (n, py.__name__))
        elif t in (R, NI, NB):
            raise Undecided('attribute %s of a number' % n) if n in NDARRAY_ATTRS else \
                PyExc('AttributeError', "number has no attribute '%s'" % n, self.where())
        raise PyExc('AttributeError', "'%s' object has no attribute '%s'" % (t.__name__, n), self.where())

    def prod(self, xs):
        p = 1
        for x in xs:
            p = self.binop('Mult', p, x)
        return p

    # -- randomness
    def randatom(self, kind='rand'):
        self.rngc += 1
        self.policy_event('draw', kind)
        return alg.sym(('rand', self.rngc), 'p', 'rand').with_dt('float64')

    def randarr(self, shape):
        self.rngc += 1
        self.policy_event('draw', 'array')
        n = self.rngc
        return self.new(tuple(shape), 'float64',
                        Fn('rand%d' % n, [], lambda idx: alg.sym(('rand', n) + tuple(idx), 'p', 'rand').with_dt('float64')))


NDARRAY_ATTRS = set('''T all any argmax argmin argpartition argsort astype base byteswap choose clip compress conj conjugate
copy ctypes cumprod cumsum data device diagonal dot dtype dump dumps fill flags flat flatten getfield imag item itemsize
max mean min nbytes ndim nonzero partition prod put ravel real repeat reshape resize round searchsorted setfield setflags
shape size sort squeeze std strides sum swapaxes take to_device tobytes tofile tolist trace transpose var view'''.split())


# ------------------------------------------------------------------------------------------ builtins
@bi('range')
def _range(I, a, k):
    return I.mkrange(a, False)


@lib('numba.prange', 'numba.misc.special.prange')
def _prange(I, a, k):
    return I.mkrange(a, True)


@bi('len')
def _len(I, a, k):
    v = a[0]
    t = type(v)
    if t in (LList, DDict, SSet):
        return len(v.v)
    if t in (tuple, str):
        return len(v)
    if t is Arr:
        if not v.shape:
            raise PyExc('TypeError', 'len() of unsized object', I.where())
        return v.shape[0]
    if t is LazySeq:
        if getattr(v.it, 'filtered', False):
            raise Undecided('length of a filtered list')
        if v.it.lo not in (None, 0) or v.it.hi is not None:
            raise Undecided('length of part of a range')
        return v.it.dim.size.with_dt('pyint')
    if t is PyRange:
        return len(v.r)
    if t is AbsIter:
        return v.dim.size.with_dt('pyint')
    if t is Obj:
        m = v.cls.find('__len__')
        if m is not None:
            return I.call(Bound(m, v), [], {}, None)
    if t is MArr:
        return I.reduce_masked('count', MArr(v.mask, v.mask))
    if t is Top:
        raise Undecided('length of an unknown value')
    raise PyExc('TypeError', 'object has no len()', I.where())


@bi('print')
def _print(I, a, k):
    return None


@lib('pdb.set_trace', 'ipdb.set_trace', 'pudb.set_trace', 'IPython.embed', 'code.interact', 'pdb.post_mortem')
@bi('breakpoint', 'input')
def _dbg(I, a, k):
    I.policy_event('debugger', 'breakpoint')
    return None


@bi('isinstance')
def _isinstance(I, a, k):
    return I.isinstance_(a[0], a[1])


@bi('issubclass')
def _issub(I, a, k):
    raise Undecided('issubclass')


@bi('callable')
def _callable(I, a, k):
    return type(a[0]) in (Func, Bound, Builtin, Cls, Type, Ext)


@bi('id')
def _id(I, a, k):
    return ('id', id(a[0]))


@bi('repr')
def _repr(I, a, k):
    return I.tostr(a[0])


@bi('hasattr')
def _hasattr(I, a, k):
    try:
        I.getattr(a[0], a[1])
        return True
    except PyExc as e:
        if e.cls == 'AttributeError':
            return False
        raise


@bi('dir')
def _dir(I, a, k):
    if len(a) != 1 or type(a[0]) is not Obj:
        raise Undecided('dir of %r' % (a,))
    out = set(a[0].attrs)
    todo = [a[0].cls]
    while todo:
        c = todo.pop()
        if isinstance(c, Cls):
            out |= set(c.ns)
            todo += list(c.bases)
    return LList(sorted(x for x in out if type(x) is str))


@bi('vars')
def _vars(I, a, k):
    if len(a) != 1 or type(a[0]) is not Obj:
        raise Undecided('vars of %r' % (a,))
    return I.getattr(a[0], '__dict__')


@bi('getattr')
def _getattr(I, a, k):
    if type(a[1]) is not str:
        raise Undecided('dynamic attribute')
    try:
        return I.getattr(a[0], a[1])
    except PyExc as e:
        if e.cls == 'AttributeError' and len(a) > 2:
            return a[2]
        raise


@bi('setattr')
def _setattr(I, a, k):
    if type(a[1]) is not str:
        raise Undecided('dynamic attribute')
    I.setattr(a[0], a[1], a[2])


@bi('delattr')
def _delattr(I, a, k):
    if type(a[0]) is Obj and a[1] in a[0].attrs:
        del a[0].attrs[a[1]]
        I.dirty.add(a[0].uid)
        return
    raise PyExc('AttributeError', a[1], I.where())


@bi('abs')
def _abs(I, a, k):
    v = a[0]
    if type(v) is Arr:
        return I.fnarr('abs', [v], v.shape, v.dt, lambda s, i: _abs(I, [I.elem(s[0], i)], {}))
    if type(v) is MArr:
        return MArr(_abs(I, [v.arr], {}), v.mask)
    if not I.isnum(v):
        raise PyExc('TypeError', 'bad operand type for abs()', I.where())
    if type(v) in (Sat, NB, bool):
        return v
    return v if I.truth(I.compare('GtE', v, 0)) else I.unary('USub', v)


LIB['numpy.abs'] = LIB['numpy.absolute'] = LIB['math.fabs'] = LIB['numpy.fabs'] = _abs


def _mm(kind):
    def f(I, a, k):
        xs = I.as_iter(a[0]) if len(a) == 1 else a
        if type(a[0]) is Arr and len(a) == 1:
            return I.reduce(kind, a[0], None)
        if type(xs) is AbsIter:
            return I.reduce(kind, I.toarr(LazySeq(xs)), None)
        xs = list(xs)
        if not xs:
            if 'default' in k:
                return k['default']
            raise PyExc('ValueError', '%s() arg is an empty sequence' % kind, I.where())
        key = k.get('key')
        b = xs[0]
        if key is None and getattr(I.policy, 'opaque_max', False) and \
                all(I.isnum(x) and I.concrete(x) is None for x in xs):
            for x in xs[1:]:
                b = I.pick(kind, b, x)
            return b
        kb = I.call(key, [b], {}, None) if key is not None else b
        for x in xs[1:]:
            kx = I.call(key, [x], {}, None) if key is not None else x
            if I.truth(I.cmpop('Gt' if kind == 'max' else 'Lt', kx, kb)):
                b, kb = x, kx
        return b
    return f


BUILTINS['max'] = Builtin('max', _mm('max'))
BUILTINS['min'] = Builtin('min', _mm('min'))


@bi('sum')
def _sum(I, a, k):
    v = a[0]
    init = a[1] if len(a) > 1 else k.get('start', 0)
    if type(v) is LazySeq:
        return I.binop('Add', I.foldseq('sum', v), init)
    it = I.as_iter(v)
    if type(it) is AbsIter:
        return I.binop('Add', I.foldseq('sum', LazySeq(it)), init)
    r = init
    for x in it:
        r = I.binop('Add', r, x)
    return r


def _foldseq(I, kind, v):
    it = v.it
    d = it.dim

    if it.lo not in (None, 0) or it.hi is not None:
        # partial ranges: only over enumerated members
        if d.mode not in ('full', 'starfull'):
            raise Undecided('partial range in a reduction')
    from .arr import PNode
    fr = I.frames[-1]
    acc = {'sum': 0, 'any': False, 'all': True}[kind]
    p = fr.pos
    m = I.mode_of(it, fr)

    def step(a, x):
        if x is SKIP:
            return a
        if kind == 'sum':
            if type(x) in (bool, NB):
                x = int(I.truth(x))
            return I.binop('Add', a, x)
        t = I.truth(x)
        return (a or t) if kind == 'any' else (a and t)
    node = PNode(getattr(p, 'lineno', 0), (getattr(p, 'col_offset', 0), 'seq', kind))
    if m == 'full':
        slot = len(I.pend)
        I.pend.append(acc)

        def one(x):
            I.pend[slot] = step(I.pend[slot], x)
            del I.pend[slot + 1:]
            if kind == 'any' and I.pend[slot] or kind == 'all' and not I.pend[slot]:
                raise BreakSig()
        I.loop_full(it, one, node, fr, None)
        r = I.pend[slot]
        del I.pend[slot:]
        return r
    if kind == 'sum':
        tf = Frame(fr.func, {'acc': 0}, fr.mod, fr.parent, None)
        tf.pos = p

        def one(x):
            tf.vars['acc'] = step(tf.vars['acc'], x)
        I.loop_sum(it, one, node, tf, {'acc'}, set())
        return tf.vars['acc']
    a = I.toarr(v)
    return I.reduce(kind, a, None).v


Lib.foldseq = lambda self, kind, v: _foldseq(self, kind, v)


def _anyall(kind):
    def f(I, a, k):
        v = a[0]
        if type(v) is LazySeq:
            return I.foldseq(kind, v)
        it = I.as_iter(v)
        if type(it) is AbsIter:
            return I.foldseq(kind, LazySeq(it))
        for x in it:
            t = I.truth(x)
            if t == (kind == 'any'):
                return t
        return kind == 'all'
    return f


BUILTINS['any'] = Builtin('any', _anyall('any'))
BUILTINS['all'] = Builtin('all', _anyall('all'))


def _mapiter(it, f):
    r = AbsIter(it.dim, lambda t: f(t, it.item(t)), it.par, it.lo, it.hi, it.kind, it.rng)
    r.rev = it.rev
    return r


@bi('enumerate')
def _enum(I, a, k):
    start = arg(a, k, 1, 'start', 0)
    v = a[0]
    it = v.it if type(v) is LazySeq else I.as_iter(v)
    if type(it) is AbsIter:
        if start != 0:
            return LazySeqIter(_mapiter(it, lambda t, x: (I.tokop('Add', t, start), x)))
        r = _mapiter(it, lambda t, x: (t, x))
        r.rng = True
        return r
    return LList([(start + i, x) for i, x in enumerate(it)])


def LazySeqIter(it):
    return it


@bi('zip')
def _zip(I, a, k):
    its = [x.it if type(x) is LazySeq else I.as_iter(x) for x in a]
    if any(type(x) is AbsIter for x in its):
        if not all(type(x) is AbsIter for x in its):
            if all(type(x) is AbsIter or False for x in its):
                pass
            raise Undecided('zip of symbolic and concrete iterables')
        d = its[0].dim
        if any(x.dim is not d for x in its):
            I.policy_event('axis', 'zip over different axes %s' % ', '.join(x.dim.name for x in its))
            raise Undecided('zip over different axes')
        r = AbsIter(d, lambda t: tuple(x.item(t) for x in its))
        r.rng = all(x.lo is None and x.hi is None for x in its)
        if any(x.lo is not None or x.hi is not None for x in its):
            raise Undecided('zip of partial ranges')
        return r
    return LList([tuple(x) for x in zip(*[list(i) for i in its])])


@bi('map')
def _map(I, a, k):
    if len(a) != 2:
        raise Undecided('map')
    v = a[1]
    it = v.it if type(v) is LazySeq else I.as_iter(v)
    f = a[0]
    if type(it) is AbsIter:
        return LazySeq(_mapiter(it, lambda t, x: I.call(f, [x], {}, None)))
    return LList([I.call(f, [x], {}, None) for x in it])


@bi('filter')
def _filter(I, a, k):
    it = I.as_iter(a[1])
    if type(it) is AbsIter:
        raise Undecided('filter')
    return LList([x for x in it if I.truth(x if a[0] is None else I.call(a[0], [x], {}, None))])


@bi('reversed')
def _reversed(I, a, k):
    it = I.as_iter(a[0]) if type(a[0]) is not LazySeq else a[0].it
    if type(it) is AbsIter:
        r = _mapiter(it, lambda t, x: x)
        r.rev = not it.rev
        return r
    return LList(list(it)[::-1])


@bi('iter')
def _iter(I, a, k):
    return a[0]


@bi('next')
def _next(I, a, k):
    v = a[0]
    if type(v) is LList:
        if v.v:
            return v.v.pop(0) if False else v.v[0]
        if len(a) > 1:
            return a[1]
        raise PyExc('StopIteration', '', I.where())
    if type(v) is LazySeq:
        raise Undecided('next of a symbolic iterator')
    raise Undecided('next')


@bi('sorted')
def _sorted(I, a, k):
    xs = list(I.listify(a[0]))
    key = k.get('key')
    ks = [I.call(key, [x], {}, None) if key is not None else x for x in xs]
    rev = I.truth(k.get('reverse', False))
    # insertion sort (stable)
    out = []
    for x, kx in zip(xs, ks):
        i = len(out)
        while i > 0 and I.truth(I.cmpop('Lt', kx, out[i - 1][1]) if not rev else I.cmpop('Gt', kx, out[i - 1][1])):
            i -= 1
        out.insert(i, (x, kx))
    return LList([x for x, _ in out])


@bi('round')
def _round(I, a, k):
    v = a[0]
    c = I.toR(v).const() if I.isnum(v) and type(v) is not Sat else None
    nd = I.concrete(arg(a, k, 1, 'ndigits', 0) or 0)
    if c is not None:
        r = round(c, nd) if len(a) > 1 else round(c)
        return int(r) if len(a) == 1 else rc(Fraction(r)).with_dt('pyfloat')
    return I.opaque_fn('round%s' % nd, [v], 'pyint' if len(a) == 1 else 'pyfloat')


@bi('pow')
def _pow(I, a, k):
    return I.binop('Pow', a[0], a[1])


@bi('divmod')
def _divmod(I, a, k):
    return (I.binop('FloorDiv', a[0], a[1]), I.binop('Mod', a[0], a[1]))


@bi('slice')
def _slice(I, a, k):
    if len(a) == 1:
        return SliceV(None, a[0], None)
    return SliceV(a[0], a[1], a[2] if len(a) > 2 else None)


@bi('open', 'exec', 'eval', '__import__', 'compile')
def _unsup(I, a, k):
    raise Undecided('dynamic code or file access')


@bi('property', 'staticmethod', 'classmethod')
def _deco(I, a, k):
    return a[0]


# ------------------------------------------------------------------------------------- list methods
@meth(LList, 'append')
def _append(I, o, a, k):
    for l in I.loops:
        if l.kind in ('star', 'sum') and id(o) not in l_owned(I, l):
            raise Undecided('list grows in a loop over %s' % l.dim.name)
    o.v.append(a[0])


def l_owned(I, l):
    return I.aux.setdefault('ownlists', set())


@meth(LList, 'extend')
def _extend(I, o, a, k):
    o.v.extend(I.listify(a[0]))


@meth(LList, 'insert')
def _insert(I, o, a, k):
    o.v.insert(I.concrete(a[0]), a[1])


@meth(LList, 'pop')
def _pop(I, o, a, k):
    if not o.v:
        raise PyExc('IndexError', 'pop from empty list', I.where())
    return o.v.pop(I.concrete(a[0]) if a else -1)


@meth(LList, 'remove')
def _remove(I, o, a, k):
    for i, x in enumerate(o.v):
        if x is a[0] or I.equal(x, a[0]):
            del o.v[i]
            return
    raise PyExc('ValueError', 'list.remove(x): x not in list', I.where())


def _index(I, o, a, k):
    for i, x in enumerate(o.v if type(o) is LList else o):
        if x is a[0] or I.equal(x, a[0]):
            return i
    raise PyExc('ValueError', 'value is not in list', I.where())


METH[(LList, 'index')] = METH[(tuple, 'index')] = _index


def _count(I, o, a, k):
    return len([x for x in (o.v if type(o) is LList else o) if x is a[0] or I.equal(x, a[0])])


METH[(LList, 'count')] = METH[(tuple, 'count')] = _count


@meth(LList, 'copy')
def _lcopy(I, o, a, k):
    return LList(list(o.v))


@meth(LList, 'clear')
def _lclear(I, o, a, k):
    o.v.clear()


@meth(LList, 'reverse')
def _lrev(I, o, a, k):
    o.v.reverse()


@meth(LList, 'sort')
def _lsort(I, o, a, k):
    o.v[:] = _sorted(I, [o] + a, k).v


# ------------------------------------------------------------------------------------- dict methods
@meth(DDict, 'keys')
def _keys(I, o, a, k):
    return LList(list(o.v.keys()))


@meth(DDict, 'values')
def _values(I, o, a, k):
    return LList(list(o.v.values()))


@meth(DDict, 'items')
def _items(I, o, a, k):
    return LList([(x, y) for x, y in o.v.items()])


@meth(DDict, 'get')
def _get(I, o, a, k):
    return o.v.get(I.dkey(a[0]), a[1] if len(a) > 1 else None)


@meth(DDict, 'pop')
def _dpop(I, o, a, k):
    kk = I.dkey(a[0])
    if kk in o.v:
        return o.v.pop(kk)
    if len(a) > 1:
        return a[1]
    raise PyExc('KeyError', repr(kk), I.where())


@meth(DDict, 'update')
def _dupd(I, o, a, k):
    if a:
        if type(a[0]) is DDict:
            o.v.update(a[0].v)
        else:
            raise Undecided('dict.update')
    o.v.update(k)


@meth(DDict, 'setdefault')
def _dsd(I, o, a, k):
    return o.v.setdefault(I.dkey(a[0]), a[1] if len(a) > 1 else None)


@meth(DDict, 'copy')
def _dcopy(I, o, a, k):
    return DDict(dict(o.v))


@meth(SSet, 'add')
def _sadd(I, o, a, k):
    if repr(Canon_(I, a[0])) not in {repr(Canon_(I, x)) for x in o.v}:
        o.v.append(a[0])


@meth(SSet, 'union')
def _sunion(I, o, a, k):
    return I.mkset(o.v + [x for y in a for x in I.listify(y)])


# ------------------------------------------------------------------------------------ array methods
def _redm(kind):
    def f(I, o, a, k):
        ax = arg(a, k, 0, 'axis')
        dt = I.dtname(k.get('dtype')) if 'dtype' in k else None
        return I.reduce(kind, o, ax, bool(k.get('keepdims', False)), dt)
    return f


for _k, _n in (('sum', 'sum'), ('mean', 'mean'), ('any', 'any'), ('all', 'all'), ('max', 'max'), ('min', 'min'), ('prod', 'prod')):
    METH[(Arr, _n)] = _redm(_k)


def _npred(kind):
    def f(I, a, k):
        v = a[0]
        ax = arg(a, k, 1, 'axis')
        dt = I.dtname(k.get('dtype')) if 'dtype' in k else None
        if type(v) is Top:
            raise Undecided('unknown value')
        if type(v) is AbsIter:
            v = LazySeq(v)
        if type(v) in (tuple, LList) and kind in ('max', 'min') and ax is None and \
                all(I.isnum(x) for x in (v if type(v) is tuple else v.v)):
            r = _mm(kind)(I, [v], {})
            dts = {I.numdt(x) for x in (v if type(v) is tuple else v.v)}
            d = None
            for x in dts:
                x = I.npdt(x)
                d = x if d is None else I.rdt('Add', d, x)
            return I.cast(r, d)
        if type(v) in (tuple, LList) and kind == 'prod' and all(I.isnum(x) for x in (v if type(v) is tuple else v.v)):
            r = I.prod(v if type(v) is tuple else v.v)
            return I.cast(r, 'int64') if type(r) in (int, NI) else r.with_dt('int64') if r.dt == 'pyint' else r
        if type(v) is LazySeq and kind in ('sum', 'any', 'all') and ax is None:
            r = I.foldseq(kind, v)
            return NB(r) if type(r) is bool else r
        return I.reduce(kind, v, ax, bool(k.get('keepdims', False)), dt)
    return f


for _k, _ns in (('sum', ('sum', 'nansum')), ('mean', ('mean', 'average', 'nanmean')), ('any', ('any',)), ('all', ('all', 'alltrue')),
                ('max', ('max', 'amax')), ('min', ('min', 'amin')), ('prod', ('prod', 'product'))):
    for _n in _ns:
        LIB['numpy.' + _n] = _npred(_k)


@lib('numpy.count_nonzero')
def _cnz(I, a, k):
    ax = arg(a, k, 1, 'axis')
    return I.reduce('count', a[0], ax)


@meth(Arr, 'copy')
def _acopy(I, o, a, k):
    return I.copyarr(o)


@lib('numpy.copy')
def _npcopy(I, a, k):
    return I.copyarr(I.toarr(a[0]))


@meth(Arr, 'astype')
def _astype(I, o, a, k):
    dt = I.dtname(a[0] if a else k['dtype'])
    return I.copyarr(o, dt)


@meth(Arr, 'transpose')
def _transpose(I, o, a, k):
    if not a or a[0] is None:
        return I.transpose(o)
    p = a[0] if len(a) == 1 and type(a[0]) in (tuple, LList, Arr) else tuple(a)
    return I.transpose(o, [I.concrete(x) for x in I.listify(p)])


@lib('numpy.transpose')
def _nptr(I, a, k):
    ax = arg(a, k, 1, 'axes')
    return I.transpose(I.toarr(a[0]), [I.concrete(x) for x in I.listify(ax)] if ax is not None else None)


@lib('numpy.swapaxes')
def _swap(I, a, k):
    n = len(a[0].shape)
    i, j = I.concrete(a[1]) % n, I.concrete(a[2]) % n
    p = list(range(n))
    p[i], p[j] = p[j], p[i]
    return I.transpose(a[0], p)


METH[(Arr, 'swapaxes')] = lambda I, o, a, k: _swap(I, [o] + a, k)


@lib('numpy.moveaxis')
def _moveaxis(I, a, k):
    n = len(a[0].shape)
    s, d = I.concrete(a[1]), I.concrete(a[2])
    if s is None or d is None:
        raise Undecided('moveaxis')
    p = [i for i in range(n) if i != s % n]
    p.insert(d % n, s % n)
    return I.transpose(a[0], p)


@meth(Arr, 'flatten', 'ravel')
def _flatten(I, o, a, k):
    return I.copyarr(o) if len(o.shape) == 1 else I.reshape(o, [-1])


@lib('numpy.ravel')
def _npravel(I, a, k):
    return I.reshape(I.toarr(a[0]), [-1])


@meth(Arr, 'reshape')
def _reshape(I, o, a, k):
    s = a[0] if len(a) == 1 and type(a[0]) in (tuple, LList) else tuple(a)
    return I.reshape(o, list(I.shapeof(s)))


@lib('numpy.reshape')
def _npreshape(I, a, k):
    return I.reshape(I.toarr(a[0]), list(I.shapeof(a[1])))


@meth(Arr, 'squeeze')
def _squeeze(I, o, a, k):
    return I.reshape(o, [s for s in o.shape if not (type(s) is int and s == 1)])


LIB['numpy.squeeze'] = lambda I, a, k: _squeeze(I, a[0], a[1:], k)


@meth(Arr, 'fill')
def _fill(I, o, a, k):
    I.assign_view(o, a[0])


@meth(Arr, 'item')
def _item(I, o, a, k):
    return I.elem(o, (0,) * len(o.shape))


@meth(Arr, 'tolist')
def _tolist(I, o, a, k):
    if not o.shape:
        return I.elem(o, ())
    if type(o.shape[0]) is not int:
        return LazySeq(I.as_iter(o))
    return LList([_tolist(I, x, [], {}) if type(x) is Arr else x for x in I.as_iter(o)])


@meth(Arr, 'dot')
def _adot(I, o, a, k):
    return _dot(I, [o, a[0]], {})


@meth(Arr, 'nonzero')
def _anz(I, o, a, k):
    return _nonzero(I, [o], {})


@meth(Arr, 'clip')
def _aclip(I, o, a, k):
    return _clip(I, [o] + a, k)


@meth(Arr, 'argsort')
def _am_argsort(I, o, a, k):
    return LIB['numpy.argsort'](I, [o] + list(a), k)


@meth(Arr, 'argmax')
def _am_argmax(I, o, a, k):
    return LIB['numpy.argmax'](I, [o] + list(a), k)


@meth(Arr, 'argmin')
def _am_argmin(I, o, a, k):
    return LIB['numpy.argmin'](I, [o] + list(a), k)


@meth(Arr, 'cumsum')
def _am_cumsum(I, o, a, k):
    return LIB['numpy.cumsum'](I, [o] + list(a), k)


@meth(Arr, 'round', 'std', 'var', 'sort', 'take')
def _aund(I, o, a, k):
    raise Undecided('array method')


# --------------------------------------------------------------------------------------- constructors
def _shape_dt(I, a, k, dflt='float64'):
    sh = I.shapeof(arg(a, k, 0, 'shape'))
    dt = I.dtname(arg(a, k, 1, 'dtype')) or dflt
    return sh, dt


@lib('numpy.zeros')
def _zeros(I, a, k):
    sh, dt = _shape_dt(I, a, k)
    return I.full(sh, 0, dt)


@lib('numpy.ones')
def _ones(I, a, k):
    sh, dt = _shape_dt(I, a, k)
    return I.full(sh, 1, dt)


@lib('numpy.empty')
def _empty(I, a, k):
    sh, dt = _shape_dt(I, a, k)
    return I.new(sh, dt, Const(Top('uninitialised array element')))


@lib('numpy.full')
def _full(I, a, k):
    sh = I.shapeof(arg(a, k, 0, 'shape'))
    v = arg(a, k, 1, 'fill_value')
    dt = I.dtname(arg(a, k, 2, 'dtype')) or I.npdt(I.numdt(v))
    return I.full(sh, v, dt)


def _like(v):
    def f(I, a, k):
        x = I.toarr(a[0])
        dt = I.dtname(arg(a, k, 1, 'dtype')) or x.dt
        return I.full(x.shape, v, dt)
    return f


LIB['numpy.zeros_like'] = _like(0)
LIB['numpy.ones_like'] = _like(1)


@lib('numpy.empty_like')
def _empty_like(I, a, k):
    x = I.toarr(a[0])
    return I.new(x.shape, I.dtname(arg(a, k, 1, 'dtype')) or x.dt, Const(Top('uninitialised array element')))


@lib('numpy.full_like')
def _full_like(I, a, k):
    x = I.toarr(a[0])
    return I.full(x.shape, a[1], I.dtname(arg(a, k, 2, 'dtype')) or x.dt)


@lib('numpy.array', 'numpy.asarray', 'numpy.ascontiguousarray', 'numpy.asanyarray')
def _array(I, a, k):
    dt = I.dtname(arg(a, k, 1, 'dtype'))
    v = a[0]
    if type(v) is Arr:
        return I.copyarr(v, dt)
    if type(v) is MArr:
        return v
    if v is None or type(v) in (Obj, str):
        raise Undecided('array of an object')
    return I.toarr(v, dt)


LIB['numpy.asarray'] = lambda I, a, k: a[0] if type(a[0]) is Arr and (I.dtname(arg(a, k, 1, 'dtype')) in (None, a[0].dt)) else _array(I, a, k)
LIB['numpy.ascontiguousarray'] = LIB['numpy.asarray']


@lib('numpy.arange')
def _arange(I, a, k):
    if any(I.isnum(x) and (type(x) is float or type(x) is R and (x.const() is None or x.dt in FLOATS or x.dt in ('pyfloat', 'float64'))) for x in a) \
            and all(I.isnum(x) for x in a) and not any(I.as_pos(I.toR(x)) is not None and I.toR(x).const() is None for x in a):
        lo, hi, st = (rc(0), I.toR(a[0]), rc(1)) if len(a) == 1 else (I.toR(a[0]), I.toR(a[1]), I.toR(a[2]) if len(a) > 2 else rc(1))
        n = alg.div(alg.sub(hi, lo), st).const()
        if n is None:
            raise Undecided('length of a range of reals')
        n = max(0, -int(-n // 1))
        return I.toarr(LList([alg.add(lo, alg.mul(rc(i), st)).with_dt('float64') for i in range(n)]), 'float64')
    r = I.mkrange(a, False)
    return I.toarr(r, I.dtname(k.get('dtype')) or 'int64')


@lib('numpy.linspace')
def _linspace(I, a, k):
    lo, hi = I.toR(a[0]), I.toR(a[1])
    n = I.concrete(a[2] if len(a) > 2 else k.get('num', 50))
    end = I.truth(k.get('endpoint', True))
    if n is None or len(a) > 3:
        raise Undecided('array construction not modelled')
    st = alg.div(alg.sub(hi, lo), rc(max(1, n - 1 if end else n)))
    return I.toarr(LList([alg.add(lo, alg.mul(rc(i), st)).with_dt('float64') for i in range(n)]), 'float64')


@lib('numpy.tile', 'numpy.repeat', 'numpy.eye', 'numpy.diag', 'numpy.meshgrid', 'numpy.pad')
def _concat(I, a, k):
    raise Undecided('array construction not modelled')


def _joined(I, xs, ax):
    """concatenation; the sizes of all but the last part along the axis are concrete"""
    xs = [I.toarr(x) for x in xs]
    if not xs:
        raise PyExc('ValueError', 'need at least one array to concatenate', I.where())
    n = len(xs[0].shape)
    if any(len(x.shape) != n for x in xs):
        raise PyExc('ValueError', 'all the input array dimensions must match', I.where())
    ax %= n
    for x in xs[1:]:
        for i in range(n):
            if i != ax and not I.truth(I.cmpop('Eq', x.shape[i], xs[0].shape[i])):
                raise PyExc('ValueError', 'all the input array dimensions must match', I.where())
    if any(type(x.shape[ax]) is not int for x in xs):
        raise Undecided('concatenation along a symbolic axis')
    offs, tot = [], 0
    for x in xs:
        offs.append(tot)
        tot += x.shape[ax]
    dt = xs[0].dt
    for x in xs[1:]:
        if x.dt != dt:
            dt = I.npdt(I.rdt('Add', dt, x.dt))

    def fn(s, idx):
        i = I.concrete(idx[ax]) if type(idx[ax]) is not int else idx[ax]
        if i is None:
            raise Undecided('symbolic index into a concatenation')
        for x, o in zip(s, offs):
            if o <= i < o + x.shape[ax]:
                return I.elem(x, idx[:ax] + (i - o,) + idx[ax + 1:])
        raise Undecided('index into a concatenation')
    sh = list(xs[0].shape)
    sh[ax] = tot
    return I.fnarr('concatenate', xs, tuple(sh), dt, fn)


@lib('numpy.concatenate')
def _concatenate(I, a, k):
    ax = arg(a, k, 1, 'axis', 0)
    return _joined(I, [_atleast(I, x, 1) for x in I.listify(a[0])], I.concrete(ax))


def _atleast(I, x, n):
    x = I.toarr(x)
    while len(x.shape) < n:
        x = I.reshape(x, [1] + list(x.shape))
    return x


@lib('numpy.append')
def _append(I, a, k):
    ax = arg(a, k, 2, 'axis')
    x, y = I.toarr(a[0]), I.toarr(a[1])
    if ax is None:
        if len(x.shape) > 1 or len(y.shape) > 1:
            raise Undecided('append to a flattened array')
        return _joined(I, [_atleast(I, x, 1), _atleast(I, y, 1)], 0)
    return _joined(I, [x, y], I.concrete(ax))


@lib('numpy.hstack')
def _hstack(I, a, k):
    xs = [_atleast(I, x, 1) for x in I.listify(a[0])]
    return _joined(I, xs, 0 if len(xs[0].shape) == 1 else 1)


@lib('numpy.vstack')
def _vstack(I, a, k):
    return _joined(I, [_atleast(I, x, 2) for x in I.listify(a[0])], 0)


@lib('numpy.column_stack')
def _colstack(I, a, k):
    xs = []
    for x in I.listify(a[0]):
        x = I.toarr(x)
        xs.append(I.reshape(x, [x.shape[0], 1]) if len(x.shape) == 1 else x)
    return _joined(I, xs, 1)


@lib('numpy.stack')
def _stack(I, a, k):
    xs = [I.toarr(x) for x in I.listify(a[0])]
    ax = I.concrete(arg(a, k, 1, 'axis', 0)) % (len(xs[0].shape) + 1)
    out = []
    for x in xs:
        sh = list(x.shape)
        sh.insert(ax, 1)
        out.append(I.reshape(x, sh))
    return _joined(I, out, ax)


@lib('numpy.delete')
def _delete(I, a, k):
    x = I.toarr(a[0])
    ax = arg(a, k, 2, 'axis')
    if ax is None:
        if len(x.shape) != 1:
            raise Undecided('numpy.delete on a flattened array')
        ax = 0
    ax = I.concrete(ax) % len(x.shape)
    n = x.shape[ax]
    js = [a[1]] if I.isnum(a[1]) else I.listify(a[1])
    js = [I.concrete(j) for j in js]
    if None in js or type(n) is not int:
        raise Undecided('numpy.delete at a symbolic position')
    if any(not -n <= j < n for j in js):
        raise PyExc('IndexError', 'index %s is out of bounds for axis %d with size %d' % (js, ax, n), I.where())
    keep = [i for i in range(n) if i not in {j % n for j in js}]

    def fn(s, idx):
        i = I.concrete(idx[ax]) if type(idx[ax]) is not int else idx[ax]
        if i is None:
            raise Undecided('symbolic index into the result of numpy.delete')
        return I.elem(s[0], idx[:ax] + (keep[i],) + idx[ax + 1:])
    sh = list(x.shape)
    sh[ax] = len(keep)
    return I.fnarr('delete', [x], tuple(sh), x.dt, fn)


@lib('numpy.expand_dims')
def _expand(I, a, k):
    x = I.toarr(a[0])
    p = I.concrete(arg(a, k, 1, 'axis'))
    n = len(x.shape) + 1
    sh = list(x.shape)
    sh.insert(p % n, 1)
    return I.reshape(x, sh)


@lib('numpy.where')
def _where(I, a, k):
    if len(a) == 1:
        return _nonzero(I, a, k)
    c, x, y = a
    if not any(type(v) is Arr for v in a):
        return x if I.truth(c) else y
    sh = I.broadcast(*[v.shape if type(v) is Arr else () for v in a])
    d = [v.dt if type(v) is Arr else I.numdt(v) for v in (x, y)]
    dt = I.npdt(I.rdt('Add', d[0], d[1]))
    return I.fnarr('where', [c, x, y], sh, dt, lambda s, i: I.bel(s[1], i) if I.truth(I.bel(s[0], i)) else I.bel(s[2], i))


def _nzlist(I, v):
    if type(v) in (LList, tuple):
        v = I.toarr(v)
    if type(v) is Arr and v.shape and all(type(s) is int for s in v.shape):
        import itertools
        return len(v.shape), [ix for ix in itertools.product(*[range(s) for s in v.shape]) if I.truth(I.elem(v, ix))]
    raise Undecided('positions of nonzero elements')


@lib('numpy.nonzero')
def _nonzero(I, a, k):
    n, xs = _nzlist(I, a[0])
    return tuple(I.intarr([x[i] for x in xs]) for i in range(n))


@lib('numpy.argwhere')
def _argwhere(I, a, k):
    n, xs = _nzlist(I, a[0])
    if not xs:
        return I.new((0, n), 'int64', Const(0))
    return I.toarr(LList([LList(list(x)) for x in xs]), 'int64')


@lib('numpy.flatnonzero')
def _flatnonzero(I, a, k):
    return I.intarr([x[0] for x in _nzlist(I, I.reshape(a[0], (-1,)))[1]])


@lib('numpy.dot', 'numpy.matmul', 'numpy.inner')
def _dot(I, a, k):
    x, y = I.toarr(a[0]), I.toarr(a[1])
    if not x.shape or not y.shape:
        return I.binop('Mult', x, y)
    n, m = len(x.shape), len(y.shape)
    yk = m - 2 if m > 1 else 0
    if not I.same(x.shape[-1], y.shape[yk]):
        I.mismatch(x.shape, y.shape)
    dt = I.rdt('Mult', x.dt, y.dt)
    sh = x.shape[:-1] + tuple(s for i, s in enumerate(y.shape) if i != yk)

    def fn(s, idx):
        xi, yi = idx[:n - 1], idx[n - 1:]
        return I.fold('sum', [x.shape[-1]],
                      lambda j: I.binop('Mult', I.elem(s[0], tuple(xi) + j), I.elem(s[1], tuple(yi[:yk]) + j + tuple(yi[yk:]))), dt)
    if not sh:
        return fn([x, y], ())
    return I.fnarr('dot', [x, y], sh, dt, fn)


@lib('numpy.outer')
def _outer(I, a, k):
    x, y = I.toarr(a[0]), I.toarr(a[1])
    return I.fnarr('outer', [x, y], (x.shape[0], y.shape[0]), I.rdt('Mult', x.dt, y.dt),
                   lambda s, i: I.binop('Mult', I.elem(s[0], i[:1]), I.elem(s[1], i[1:])))


@lib('numpy.shape')
def _npshape(I, a, k):
    return I.toarr(a[0]).shape


@lib('numpy.ndim')
def _npndim(I, a, k):
    return len(I.toarr(a[0]).shape)


@lib('numpy.size')
def _npsize(I, a, k):
    return I.prod(I.toarr(a[0]).shape)


@lib('numpy.array_equal', 'numpy.array_equiv', 'numpy.allclose')
def _aeq(I, a, k):
    x, y = I.toarr(a[0]), I.toarr(a[1])
    if len(x.shape) != len(y.shape) or not all(I.same(p, q) for p, q in zip(x.shape, y.shape)):
        if all(type(p) is int for p in x.shape + y.shape):
            return False
        raise Undecided('comparison of arrays of different shape')
    return I.reduce('all', I.arrop('Eq', x, y), None).v


@lib('numpy.unique')
def _unique(I, a, k):
    v = a[0]
    if k:
        raise Undecided('numpy.unique')
    if type(v) in (LList, tuple):
        v = I.toarr(v)
    if type(v) is Arr and all(type(s) is int for s in v.shape):
        import itertools
        xs = [I.elem(v, i) for i in itertools.product(*[range(n) for n in v.shape])]
        cs = [I.concrete(x) for x in xs]
        if None not in cs:
            return I.toarr(LList(sorted(set(cs))), v.dt)
    raise Undecided('numpy.unique')


@lib('numpy.isin', 'numpy.in1d')
def _isin(I, a, k):
    xs = I.listify(a[1])
    v = a[0]
    if type(v) is not Arr:
        return NB(I.contains(LList(xs), v))
    return I.fnarr('isin' + repr([repr(Canon_(I, x)) for x in xs]), [v], v.shape, 'bool',
                   lambda s, i: I.contains(LList(xs), I.elem(s[0], i)))


@lib('numpy.clip')
def _clip(I, a, k):
    x, lo, hi = a[0], arg(a, k, 1, 'a_min', k.get('min')), arg(a, k, 2, 'a_max', k.get('max'))

    def one(v):
        if lo is not None and I.truth(I.compare('Lt', v, lo)):
            return lo
        if hi is not None and I.truth(I.compare('Gt', v, hi)):
            return hi
        return v
    if type(x) is Arr:
        dt = x.dt
        for y in (lo, hi):
            if y is not None:
                dt = I.rdt('Add', dt, I.numdt(y))
        return I.fnarr('clip', [x], x.shape, dt, lambda s, i: one(I.elem(s[0], i)))
    return one(x)


def _uf(name, f, dtf=lambda d: d if d in ('float32', 'float16') else 'float64'):
    def g(I, a, k):
        x = a[0]
        if type(x) in (LList, tuple, LazySeq):
            x = I.toarr(x)
        if type(x) is Arr:
            if x.shape == ():
                return f(I, I.elem(x, ()))
            return I.fnarr(name, [x], x.shape, dtf(x.dt), lambda s, i: f(I, I.elem(s[0], i)))
        if type(x) is MArr:
            return MArr(g(I, [x.arr], k), x.mask)
        if type(x) in (Tok, TokOff):
            x = I.tokR(x)
        if not I.isnum(x):
            if type(x) is Top:
                raise Undecided('unknown value (%s)' % x.why)
            raise PyExc('TypeError', 'must be real number', I.where())
        return f(I, x)
    return g


def _exp(I, x):
    r = I.toR(x)
    if any(a.kind in ('inf', 'nan') for a in r.atoms()):
        if len(r.n) == 1:
            return (alg.sym('inf', '+', 'inf') if list(r.n.values())[0] > 0 else rc(0)).with_dt('float64')
    return alg.exp(r).with_dt('float64')


def _log(I, x):
    r = I.toR(x)
    c = r.const()
    if c is not None and c <= 0:
        if c == 0:
            return alg.neg(alg.sym('inf', '+', 'inf')).with_dt('float64')
        raise Undecided('logarithm of a negative number')
    return alg.log(r).with_dt('float64')


LIB['math.exp'] = LIB['numpy.exp'] = _uf('exp', _exp)
LIB['math.log'] = LIB['numpy.log'] = lambda I, a, k: (_uf('log', _log)(I, a, k) if len(a) == 1 else
                                                     I.binop('Div', _log(I, a[0]), _log(I, a[1])))
LIB['numpy.log1p'] = LIB['math.log1p'] = _uf('log1p', lambda I, x: _log(I, I.binop('Add', I.toR(x).with_dt('float64'), 1)))
LIB['numpy.expm1'] = LIB['math.expm1'] = _uf('expm1', lambda I, x: I.binop('Sub', _exp(I, x), 1))
LIB['numpy.log10'] = LIB['math.log10'] = _uf('log10', lambda I, x: I.binop('Div', _log(I, x), _log(I, 10)))
LIB['numpy.log2'] = LIB['math.log2'] = _uf('log2', lambda I, x: I.binop('Div', _log(I, x), _log(I, 2)))
LIB['numpy.sqrt'] = LIB['math.sqrt'] = _uf('sqrt', lambda I, x: I.opaque_fn('sqrt', [I.toR(x)], 'float64', '0+'))
LIB['scipy.special.expit'] = _uf('expit', lambda I, x: alg.expit(I.toR(x)).with_dt('float64'))
LIB['scipy.special.logit'] = _uf('logit', lambda I, x: alg.logit(I.toR(x)).with_dt('float64'))


def _lgamma(I, x):
    r = I.toR(x)
    c = r.const()
    if c is not None and c.denominator == 1 and 1 <= c <= 20:
        return alg.log(rc(math.factorial(int(c) - 1))).with_dt('float64')
    return I.opaque_fn('lgamma', [r], 'float64')


LIB['scipy.special.gammaln'] = LIB['math.lgamma'] = _uf('lgamma', _lgamma)
LIB['numpy.negative'] = lambda I, a, k: I.unary('USub', a[0])
LIB['numpy.invert'] = LIB['numpy.bitwise_not'] = lambda I, a, k: I.unary('Invert', a[0])
LIB['numpy.logical_not'] = _uf('not', lambda I, x: NB(not I.truth(x)), lambda d: 'bool')
LIB['numpy.square'] = lambda I, a, k: I.binop('Pow', a[0], 2)
LIB['numpy.isnan'] = _uf('isnan', lambda I, x: NB(any(a.kind == 'nan' for a in x.atoms()) if type(x) is R else False), lambda d: 'bool')
LIB['math.isnan'] = lambda I, a, k: any(x.kind == 'nan' for x in a[0].atoms()) if type(a[0]) is R else False
LIB['numpy.isinf'] = _uf('isinf', lambda I, x: NB(any(a.kind == 'inf' for a in x.atoms()) if type(x) is R else False), lambda d: 'bool')
LIB['numpy.isfinite'] = _uf('isfinite', lambda I, x: NB(not any(a.kind in ('inf', 'nan') for a in x.atoms()) if type(x) is R else True), lambda d: 'bool')


def _signf(I, x):
    if I.truth(I.compare('Gt', x, 0)):
        return I.wrap(1, I.numdt(x))
    if I.truth(I.compare('Lt', x, 0)):
        return I.wrap(-1, I.numdt(x))
    return I.wrap(0, I.numdt(x))


LIB['numpy.sign'] = _uf('sign', _signf, lambda d: d)


def _roundish(name):
    def f(I, x):
        c = I.toR(x).const()
        if c is not None:
            v = {'floor': math.floor(c), 'ceil': math.ceil(c), 'round': round(c)}[name]
            return rc(v).with_dt('float64')
        return I.opaque_fn(name, [I.toR(x)], 'float64')
    return f


for _n in ('floor', 'ceil', 'round'):
    LIB['numpy.' + _n] = _uf(_n, _roundish(_n), lambda d: d)
LIB['numpy.around'] = LIB['numpy.rint'] = LIB['numpy.round']
LIB['math.floor'] = lambda I, a, k: I.cast(_roundish('floor')(I, a[0]), 'pyint')
LIB['math.ceil'] = lambda I, a, k: I.cast(_roundish('ceil')(I, a[0]), 'pyint')

for _n, _op in (('add', 'Add'), ('subtract', 'Sub'), ('multiply', 'Mult'), ('divide', 'Div'), ('true_divide', 'Div'),
                ('power', 'Pow'), ('mod', 'Mod'), ('bitwise_and', 'BitAnd'), ('bitwise_or', 'BitOr'), ('bitwise_xor', 'BitXor')):
    LIB['numpy.' + _n] = (lambda op: lambda I, a, k: I.binop(op, a[0], a[1]))(_op)
for _n, _op in (('equal', 'Eq'), ('not_equal', 'NotEq'), ('less', 'Lt'), ('less_equal', 'LtE'), ('greater', 'Gt'),
                ('greater_equal', 'GtE')):
    LIB['numpy.' + _n] = (lambda op: lambda I, a, k: I.cmpop(op, a[0], a[1]))(_op)
LIB['math.pow'] = LIB['numpy.power']


def _log2f(name):
    def f(I, a, k):
        def one(x, y):
            p, q = I.truth(x), I.truth(y)
            return NB({'and': p and q, 'or': p or q, 'xor': p != q}[name])
        x, y = a[0], a[1]
        if type(x) in (LList, tuple):
            x = I.toarr(x)
        if type(y) in (LList, tuple):
            y = I.toarr(y)
        if type(x) is Arr or type(y) is Arr:
            sh = I.broadcast(x.shape if type(x) is Arr else (), y.shape if type(y) is Arr else ())
            return I.fnarr('l' + name, [x, y], sh, 'bool', lambda s, i: one(I.bel(s[0], i), I.bel(s[1], i)))
        return one(x, y)
    return f


for _n in ('and', 'or', 'xor'):
    LIB['numpy.logical_' + _n] = _log2f(_n)


def _ext2(kind):
    def f(I, a, k):
        x, y = a[0], a[1]
        if type(x) is Arr or type(y) is Arr:
            sh = I.broadcast(x.shape if type(x) is Arr else (), y.shape if type(y) is Arr else ())
            d = I.rdt('Add', x.dt if type(x) is Arr else I.numdt(x), y.dt if type(y) is Arr else I.numdt(y))
            return I.fnarr(kind, [x, y], sh, d, lambda s, i: I.pick(kind, I.bel(s[0], i), I.bel(s[1], i)))
        return I.pick(kind, x, y)
    return f


LIB['numpy.maximum'] = LIB['numpy.fmax'] = _ext2('max')
LIB['numpy.minimum'] = LIB['numpy.fmin'] = _ext2('min')


@lib('math.comb', 'scipy.special.comb', 'scipy.special.binom')
def _comb(I, a, k):
    n, r = I.concrete(a[0]), I.concrete(a[1])
    if n is None or r is None:
        raise Undecided('binomial coefficient')
    return math.comb(n, r)


@lib('math.factorial')
def _fact(I, a, k):
    n = I.concrete(a[0])
    if n is None:
        raise Undecided('factorial')
    return math.factorial(n)


@lib('itertools.product')
def _iproduct(I, a, k):
    import itertools
    its = [I.listify(x) for x in a]
    n = I.concrete(k.get('repeat', 1))
    return LList([tuple(x) for x in itertools.product(*(its * n))])


@lib('itertools.permutations')
def _iperm(I, a, k):
    import itertools
    r = I.concrete(a[1]) if len(a) > 1 else None
    return LList([tuple(x) for x in itertools.permutations(I.listify(a[0]), r)])


@lib('itertools.combinations')
def _icomb(I, a, k):
    import itertools
    return LList([tuple(x) for x in itertools.combinations(I.listify(a[0]), I.concrete(a[1]))])


@lib('itertools.chain')
def _ichain(I, a, k):
    return LList([y for x in a for y in I.listify(x)])


@lib('functools.partial')
def _partial(I, a, k):
    f, pre, kw = a[0], list(a[1:]), dict(k)
    return Builtin('partial', lambda I2, b, k2: I2.call(f, pre + list(b), dict(kw, **k2), None))


@lib('functools.reduce')
def _freduce(I, a, k):
    xs = list(I.listify(a[1]))
    if len(a) > 2:
        xs.insert(0, a[2])
    r = xs[0]
    for x in xs[1:]:
        r = I.call(a[0], [r, x], {}, None)
    return r


@lib('copy.copy', 'copy.deepcopy')
def _ccopy(I, a, k):
    v = a[0]
    if type(v) is Arr:
        return I.copyarr(v)
    if type(v) is LList:
        return LList([_ccopy(I, [x], {}) if type(x) in (LList, Arr, DDict) else x for x in v.v])
    if type(v) is DDict:
        return DDict({x: _ccopy(I, [y], {}) if type(y) in (LList, Arr, DDict) else y for x, y in v.v.items()})
    if type(v) in (int, str, bool, R, NI, NB, tuple) or v is None:
        return v
    raise Undecided('copy of an object')


def _vector(I, x):
    x = I.toarr(x)
    if len(x.shape) != 1 or type(x.shape[0]) is not int:
        raise Undecided('order of an array that is not a vector of concrete length')
    return x, [I.elem(x, (i,)) for i in range(x.shape[0])]


def _order(I, vs):
    """positions in ascending order; ties in either order"""
    out = []
    for i, v in enumerate(vs):
        j = len(out)
        while j:
            w = vs[out[j - 1]]
            if I.truth(I.cmpop('Lt', v, w)):
                j -= 1
                continue
            break
        # among equals any position is possible
        while j and I.truth(I.cmpop('Eq', v, vs[out[j - 1]])) and I.choose(2):
            j -= 1
        out.insert(j, i)
    return out


@lib('numpy.argsort')
def _argsort(I, a, k):
    ax = arg(a, k, 1, 'axis')
    x, vs = _vector(I, a[0])
    return I.toarr(LList(_order(I, vs)), 'int64')


@lib('numpy.sort')
def _npsort(I, a, k):
    x, vs = _vector(I, a[0])
    o = _order(I, vs)
    return I.fnarr('sort', [x], x.shape, x.dt, lambda s, i: vs[o[i[0]]])


def _argm(kind):
    def f(I, a, k):
        x, vs = _vector(I, a[0])
        if not vs:
            raise PyExc('ValueError', 'attempt to get %s of an empty sequence' % kind, I.where())
        b = 0
        for i in range(1, len(vs)):
            if I.truth(I.cmpop('Gt' if kind == 'argmax' else 'Lt', vs[i], vs[b])):
                b = i
        return I.wrap(b, 'int64')
    return f


LIB['numpy.argmax'] = _argm('argmax')
LIB['numpy.argmin'] = _argm('argmin')


@lib('numpy.cumsum')
def _cumsum(I, a, k):
    x, vs = _vector(I, a[0])
    out, t = [], None
    for v in vs:
        t = v if t is None else I.binop('Add', t, v)
        out.append(t)
    return I.toarr(LList(out))


@lib('numpy.searchsorted')
def _searchsorted(I, a, k):
    x, vs = _vector(I, a[0])
    v, side = a[1], k.get('side', a[2] if len(a) > 2 else 'left')
    if isinstance(v, (Arr, LList, tuple, list)):
        raise Undecided('searchsorted with several values')
    i = 0
    while i < len(vs) and I.truth(I.cmpop('Lt' if side == 'left' else 'LtE', vs[i], v)):
        i += 1
    return I.wrap(i, 'int64')


@meth(Arr, 'searchsorted')
def _am_searchsorted(I, o, a, k):
    return LIB['numpy.searchsorted'](I, [o] + list(a), k)


@lib('numpy.bincount', 'numpy.cumprod', 'numpy.histogram',
     'numpy.einsum', 'numpy.tensordot', 'numpy.loadtxt', 'numpy.savetxt',
     'numpy.median', 'numpy.std', 'numpy.var', 'numpy.percentile', 'numpy.polyfit', 'numpy.diff', 'numpy.corrcoef')
def _und(I, a, k):
    raise Undecided('library function not modelled')


@lib('numpy.ndenumerate')
def _ndenum(I, a, k):
    v = I.toarr(a[0])
    return NDIter(tuple(v.shape), lambda idx: (tuple(idx), I.elem(v, tuple(idx))))


@lib('numpy.ndindex')
def _ndindex(I, a, k):
    if len(a) == 1 and type(a[0]) in (tuple, LList):
        a = list(I.listify(a[0]))
    return NDIter(tuple(I.size(x) for x in a), lambda idx: tuple(idx))


# ------------------------------------------------------------------------------------------- random
@lib('numpy.random.seed', 'random.seed')
def _seed(I, a, k):
    I.policy_event('seed', a[0] if a else k.get('seed', k.get('a')))
    return None


@lib('numpy.random.RandomState', 'numpy.random.default_rng', 'random.Random')
def _generator(I, a, k):
    I.rngc += 1
    g0, I.gen = I.gen, '@%d' % I.rngc
    v = a[0] if a else k.get('seed')
    if v is not None:
        I.policy_event('seed', v)
    e = Ext('numpy.random' + I.gen)
    I.gen = g0
    return e


@lib('numpy.random.get_state', 'random.getstate')
def _getstate(I, a, k):
    return Top('generator state')


@lib('numpy.random.set_state', 'random.setstate')
def _setstate(I, a, k):
    I.policy_event('seed', a[0] if a else None)
    return None


@lib('numpy.random.rand', 'numpy.random.ranf', 'numpy.random.random', 'numpy.random.random_sample', 'random.random',
     'numpy.random.sample')
def _rand(I, a, k):
    if k.get('size') is not None:
        a = [k['size']]
    if not a:
        return I.randatom()
    if len(a) == 1 and type(a[0]) in (tuple, LList):
        return I.randarr(I.shapeof(a[0]))
    return I.randarr(tuple(I.size(x) for x in a))


@lib('numpy.random.uniform')
def _uniform(I, a, k):
    lo, hi = arg(a, k, 0, 'low', 0), arg(a, k, 1, 'high', 1)
    sz = arg(a, k, 2, 'size')
    u = I.randatom() if sz is None else I.randarr(I.shapeof(sz))
    return I.binop('Add', lo, I.binop('Mult', I.binop('Sub', hi, lo), u))


def _intdraw(I, vals, shape, dt, name, p=None):
    """array of independent draws from finitely many values"""
    I.rngc += 1
    n = I.rngc
    I.policy_event('draw', name if shape is not None else 'scalar')

    def dom(I, leaf, idx):
        k = (leaf.name, idx)
        if k not in I.facts:
            I.facts[k] = draw()
        return I.wrap(I.facts[k], dt)

    def draw():
        v = vals[I.choose(len(vals))]
        if p is not None and 'trials' in I.aux:
            I.aux['trials'].append((p, v))
        return v
    if shape is None:
        return I.wrap(draw(), dt)
    return I.new(shape, dt, Leaf(('%s%d' % (name, n)), dom, dt))


@lib('random.randint')
def _pyrandint(I, a, k):
    return _randint(I, [a[0], I.binop('Add', a[1], 1)], {})


@lib('numpy.random.randint')
def _randint(I, a, k):
    lo = arg(a, k, 0, 'low')
    hi = arg(a, k, 1, 'high')
    if hi is None:
        lo, hi = 0, lo
    sz = arg(a, k, 2, 'size')
    dt = I.dtname(arg(a, k, 3, 'dtype')) or 'int64'
    cl, ch = I.concrete(lo) if I.isnum(lo) else None, I.concrete(hi) if I.isnum(hi) else None
    sh = None if sz is None else I.shapeof(sz)
    if cl is not None and ch is not None and ch - cl <= 8:
        return _intdraw(I, list(range(cl, ch)), sh, dt if sh is not None else 'pyint', 'randint')
    I.rngc += 1
    n = I.rngc
    I.policy_event('draw', 'randint')
    mk = lambda *i: alg.sym(('randint', n) + i, None, 'int').with_dt(dt)
    if sh is None:
        return mk()
    return I.new(sh, dt, Fn('randint%d' % n, [], lambda idx: mk(*idx)))


@lib('numpy.random.binomial')
def _binomial(I, a, k):
    n, p = arg(a, k, 0, 'n'), arg(a, k, 1, 'p')
    sz = arg(a, k, 2, 'size')
    c = I.concrete(n)
    if c != 1:
        raise Undecided('binomial draw')
    return _intdraw(I, [0, 1], None if sz is None else I.shapeof(sz), 'int64', 'binomial', p)


@lib('numpy.random.choice', 'random.choice')
def _choice(I, a, k):
    v = a[0]
    sz = arg(a, k, 1, 'size')
    dt = 'pyint'
    if I.isnum(v):
        c = I.concrete(v)
        if c is None:
            raise Undecided('random choice from a symbolic range')
        vals = list(range(c))
    elif type(v) is Arr:
        if type(v.shape[0]) is not int:
            raise Undecided('random choice from a symbolic array')
        vals = [I.elem(v, (i,)) for i in range(v.shape[0])]
        dt = v.dt
    else:
        vals = I.listify(v)
    vs = [I.concrete(x) if I.isnum(x) else None for x in vals]
    if None in vs:
        I.policy_event('draw', 'choice')
        if sz is None and vals:
            return vals[I.choose(len(vals))]
        raise Undecided('random choice')
    p = arg(a, k, 3, 'p')
    if p is not None:
        ps = I.listify(p)
        if any(I.isnum(q) and I.toR(q).const() is not None and I.toR(q).const() < 0 for q in ps):
            raise PyExc('ValueError', 'probabilities are not non-negative', I.where())
        hook = getattr(I.policy, 'on_choice', None)
        if hook and sz is None:
            return I.wrap(hook(I, vs, [I.toR(q) for q in ps]), dt)
        vs = [x for x, q in zip(vs, ps) if not (I.isnum(q) and I.toR(q).const() == 0)]
    rep = arg(a, k, 2, 'replace', True)
    if sz is not None and (rep is False or type(rep) is NB and rep.v is False):
        sh = I.shapeof(sz)
        if len(sh) != 1 or type(sh[0]) is not int:
            raise Undecided('draw without replacement')
        if sh[0] > len(vs):
            raise PyExc('ValueError', "Cannot take a larger sample than population when 'replace=False'", I.where())
        I.rngc += 1
        I.policy_event('draw', 'permutation')
        if len(vs) > 6:
            raise Undecided('draw without replacement from many')
        xs, out = list(vs), []
        while len(out) < sh[0]:
            # which members: every combination; in which order: ascending
            need = sh[0] - len(out)
            i = 0 if len(xs) == need else I.choose(len(xs) - need + 1)
            out.append(xs[i])
            xs = xs[i + 1:]
        return I.intarr(out, 'int64' if dt == 'pyint' else dt)
    if vals and all(type(x) is bool for x in vals):
        dt = 'bool'
    elif not vs:
        if sz is None or 0 not in I.shapeof(sz):
            raise PyExc('ValueError', 'a cannot be empty unless no samples are taken', I.where())
        vs = [0]
    vs = sorted(set(vs))
    return _intdraw(I, vs, None if sz is None else I.shapeof(sz), 'int64' if dt == 'pyint' else dt, 'choice')


@lib('numpy.random.permutation', 'random.sample')
def _perm(I, a, k):
    I.policy_event('draw', 'permutation')
    v = a[0]
    if type(v) is tuple:
        v = LList(list(v))
    if I.isnum(v) and I.concrete(v) is not None:
        return I.toarr(_perm(I, [LList(list(range(I.concrete(v))))], {}), 'int64')
    if type(v) is LList:
        n = len(v.v)
        if len(a) > 1:
            n = I.concrete(a[1])
        if getattr(I.policy, 'any_order', False):
            return LList(list(reversed(v.v))[:n])
        # any order
        xs = list(v.v)
        out = []
        while xs and len(out) < n:
            out.append(xs.pop(I.choose(len(xs)) if len(xs) <= 4 else 0))
        return LList(out)
    raise Undecided('random permutation')


@lib('numpy.random.shuffle', 'random.shuffle')
def _shuffle(I, a, k):
    v = a[0]
    if type(v) is not LList:
        I.policy_event('draw', 'shuffle')
        raise Undecided('random shuffle')
    v.v[:] = _perm(I, [v], {}).v

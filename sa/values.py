"""Abstract values of the analysis."""
from . import alg
from .alg import R


class Undecided(Exception):
    """a construct the analysis does not model (the obligation stays open; never an alarm)"""


class Prune(Exception):
    """abstract state already covered / infeasible"""


class Restart(Exception):
    """a summary used on an earlier path grew: explore again"""


class Sig(Exception):
    pass


class BreakSig(Sig):
    pass


class ContinueSig(Sig):
    pass


class ReturnSig(Sig):
    def __init__(self, v):
        self.v = v


class PyExc(Exception):
    """a modelled Python exception of the analysed program"""

    def __init__(self, cls, msg='', where=''):
        Exception.__init__(self, '%s: %s' % (cls, msg))
        self.cls, self.msg, self.where = cls, msg, where


EXC_BASES = {
    'BaseException': None, 'Exception': 'BaseException', 'ArithmeticError': 'Exception',
    'ZeroDivisionError': 'ArithmeticError', 'OverflowError': 'ArithmeticError',
    'FloatingPointError': 'ArithmeticError',
    'AssertionError': 'Exception', 'AttributeError': 'Exception', 'EOFError': 'Exception',
    'ImportError': 'Exception', 'ModuleNotFoundError': 'ImportError', 'LookupError': 'Exception',
    'IndexError': 'LookupError', 'KeyError': 'LookupError', 'NameError': 'Exception',
    'UnboundLocalError': 'NameError', 'RuntimeError': 'Exception',
    'NotImplementedError': 'RuntimeError', 'RecursionError': 'RuntimeError',
    'StopIteration': 'Exception', 'TypeError': 'Exception', 'ValueError': 'Exception',
    'OSError': 'Exception', 'IOError': 'OSError', 'FileNotFoundError': 'OSError',
    'SystemError': 'Exception', 'KeyboardInterrupt': 'BaseException', 'SystemExit': 'BaseException',
    'Warning': 'Exception', 'UserWarning': 'Warning', 'DeprecationWarning': 'Warning',
    'RuntimeWarning': 'Warning',
}


def exc_isa(c, base):
    while c is not None:
        if c == base:
            return True
        c = EXC_BASES.get(c)
    return False


class Sat:
    """an integer known only to be >= k"""
    __slots__ = ('k',)

    def __init__(self, k):
        self.k = k

    def __repr__(self):
        return '>=%d' % self.k


class NI:
    """numpy integer scalar"""
    __slots__ = ('v', 'dt')

    def __init__(self, v, dt):
        self.v, self.dt = v, dt

    def __repr__(self):
        return '%s(%r)' % (self.dt, self.v)


class NB:
    """numpy bool scalar"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = bool(v)

    def __repr__(self):
        return 'np.%s' % self.v


class Top:
    """unknown value"""
    __slots__ = ('why',)

    def __init__(self, why=''):
        self.why = why

    def __repr__(self):
        return 'Top(%s)' % self.why


class Carried:
    """value left in a variable by another iteration of a loop"""
    __slots__ = ('var', 'site', 'par')

    def __init__(self, var, site, par):
        self.var, self.site, self.par = var, site, par

    def __repr__(self):
        return 'Carried(%s)' % self.var


class Dim:
    """symbolic array dimension; members are tokens"""

    def __init__(self, name, mode, cap=2):
        self.name, self.mode, self.cap = name, mode, cap
        self.size = alg.sym(('dim', name), '+', 'dim')
        self.star = None
        self.pool = []

    def tok(self, i):
        while len(self.pool) <= i:
            self.pool.append(Tok(self, '%s%d' % (self.name, len(self.pool))))
        return self.pool[i]

    def __repr__(self):
        return self.name


class Tok:
    """index of (a group of) members of a dimension"""
    __slots__ = ('dim', 'name')

    def __init__(self, dim, name):
        self.dim, self.name = dim, name

    def __repr__(self):
        return self.name


class TokOff:
    __slots__ = ('t', 'o')

    def __init__(self, t, o):
        self.t, self.o = t, o

    def __repr__(self):
        return '%r%+d' % (self.t, self.o)


class LList:
    __slots__ = ('v', 'uid', 'objarr')

    def __init__(self, v, objarr=False):
        self.v = v
        self.objarr = objarr

    def __repr__(self):
        return 'L' + repr(self.v)


class DDict:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class SSet:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Obj:
    __slots__ = ('cls', 'attrs', 'uid', 'tag')

    def __init__(self, cls, uid):
        self.cls, self.attrs, self.uid, self.tag = cls, {}, uid, None

    def __repr__(self):
        return '<%s #%d>' % (self.cls.name, self.uid)


class Cls:
    __slots__ = ('name', 'bases', 'ns', 'mod')

    def __init__(self, name, bases, ns, mod):
        self.name, self.bases, self.ns, self.mod = name, bases, ns, mod

    def find(self, n):
        if n in self.ns:
            return self.ns[n]
        for b in self.bases:
            if isinstance(b, Cls):
                r = b.find(n)
                if r is not None:
                    return r
        return None

    def __repr__(self):
        return '<class %s>' % self.name


class Func:
    __slots__ = ('name', 'node', 'mod', 'env', 'defaults', 'kwdefaults', 'decos', 'qual', 'prop',
                 'static', 'info', 'jit')

    def __repr__(self):
        return '<fn %s>' % self.qual


class Bound:
    __slots__ = ('f', 'self_')

    def __init__(self, f, self_):
        self.f, self.self_ = f, self_


class Builtin:
    """modelled library function / scenario override: fn(interp, args, kwargs, site)"""
    __slots__ = ('name', 'fn')

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return '<builtin %s>' % self.name


class Type:
    """builtin / numpy type object"""
    __slots__ = ('name', 'kind')

    def __init__(self, name, kind='py'):
        self.name, self.kind = name, kind

    def __repr__(self):
        return '<type %s>' % self.name

    def __eq__(self, o):
        return isinstance(o, Type) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class ExcType:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<exc %s>' % self.name


class ExcVal:
    __slots__ = ('cls', 'msg')

    def __init__(self, cls, msg):
        self.cls, self.msg = cls, msg


class Mod:
    """analysed module"""
    __slots__ = ('name', 'path', 'ns', 'tree', 'src')

    def __init__(self, name, path):
        self.name, self.path, self.ns = name, path, {}

    def __repr__(self):
        return '<module %s>' % self.name


class Ext:
    """external module or attribute path that is modelled by name"""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<ext %s>' % self.name


class DType:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, DType) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return 'dtype(%s)' % self.name


class AbsIter:
    """iterable with one item per member of a symbolic dimension"""
    __slots__ = ('dim', 'item', 'par', 'lo', 'hi', 'ver', 'kind', 'rng', 'rev', 'filtered')

    def __init__(self, dim, item, par=False, lo=None, hi=None, kind='iter', rng=False):
        self.dim, self.item, self.par, self.lo, self.hi = dim, item, par, lo, hi
        self.kind = kind
        self.ver = None
        self.rng = rng
        self.rev = False
        self.filtered = False


class NDIter:
    """iterable over all positions of an array, some of whose axes are symbolic"""
    __slots__ = ('shape', 'item')

    def __init__(self, shape, item):
        self.shape, self.item = shape, item


class SubNode:
    """stands for one level of a loop over several axes"""

    def __init__(self, node, k):
        self.lineno, self.col_offset = node.lineno, node.col_offset + 10000 * (k + 1)


class PyRange:
    __slots__ = ('r', 'par')

    def __init__(self, r, par=False):
        self.r, self.par = r, par


SKIP = object()

RANK = {'bool': 0, 'int8': 1, 'uint8': 1.5, 'int16': 2, 'uint16': 2.5, 'int32': 3, 'uint32': 3.5,
        'int64': 4, 'uint64': 4.5, 'float16': 5, 'float32': 6, 'float64': 7}
BITS = {'int8': 8, 'uint8': 8, 'int16': 16, 'uint16': 16, 'int32': 32, 'uint32': 32, 'int64': 64,
        'uint64': 64}


def promote(a, b):
    """numpy result type of two concrete dtypes"""
    if a == b:
        return a
    if RANK[a] > RANK[b]:
        a, b = b, a
    # a is the smaller
    if b == 'float32' and RANK[a] >= 3:
        return 'float64'
    if b == 'float16' and RANK[a] >= 1:
        return 'float32' if RANK[a] < 3 else 'float64'
    return b


def is_int_dt(dt):
    return dt in BITS

"""Abstract interpreter for the analysed package (forward analysis over the syntax tree).

Disjunctive completion is realised by depth-first enumeration of the finitely many abstract choices;
every loop over a symbolic dimension has its abstract state at the head looked up in a table of already
covered states (fixpoint by saturation).  Nothing of the analysed package is executed.
"""
import ast
import os
import weakref
import time
from fractions import Fraction
from . import alg
from .alg import R, rc
from .values import *

REPO = os.environ.get('SA_REPO', '/repo')


# ------------------------------------------------------------------------------------------ arrays
class Base:
    memo = None

    def get(self, I, idx):
        raise NotImplementedError

    def key(self, C):
        raise NotImplementedError

    def renamed(self, a, b):
        pass


class Const(Base):
    def __init__(self, v):
        self.v = v

    def get(self, I, idx):
        return self.v

    def key(self, C):
        return ('const', C.c(self.v))


class Leaf(Base):
    """symbolic input array"""

    def __init__(self, name, dom, dt):
        self.name, self.dom, self.dt = name, dom, dt

    def get(self, I, idx):
        return I.leaf(self, idx)

    def key(self, C):
        return ('leaf', self.name)


class Fn(Base):
    """elementwise definition op(deps) evaluated on demand"""

    def __init__(self, op, deps, fn, memo=False):
        self.op, self.deps, self.fn = op, deps, fn
        self.memo = {} if memo else None

    def get(self, I, idx):
        if self.memo is not None:
            k = idx
            if k in self.memo:
                return self.memo[k]
            v = self.fn(idx)
            self.memo[k] = v
            return v
        return self.fn(idx)

    def key(self, C):
        m = () if not self.memo else tuple(sorted(((C.c(k), C.c(v)) for k, v in self.memo.items()),
                                                  key=repr))
        return ('fn', self.op, tuple(C.c(d) for d in self.deps), m)


class Layer(Base):
    """bulk assignment to a view on top of older contents"""

    def __init__(self, view, val, old, mask=None):
        self.view, self.val, self.old, self.mask = view, val, old, mask

    def get(self, I, idx):
        v = I.unmap(self.view, idx)
        if v is None:
            return self.old.get(I, idx)
        if self.mask is not None and not I.truth(I.elem(self.mask, v)):
            return self.old.get(I, idx)
        return I.elem(self.val, v)

    def key(self, C):
        return ('layer', self.view.ax, C.c(self.val), C.c(self.mask), self.old.key(C))


class Frozen(Base):
    def __init__(self, I, base, cells):
        self.base, self.cells = base, cells
        self.uid = I.uid()
        for k in cells:
            for t in k:
                if type(t) is Tok:
                    I.frozen.setdefault(t, weakref.WeakSet()).add(self)

    def get(self, I, idx):
        if idx in self.cells:
            return self.cells[idx]
        return self.base.get(I, idx)

    def key(self, C):
        return ('frozen', self.base.key(C), C.cells(self.cells))


class Store:
    __slots__ = ('uid', 'shape', 'dt', 'base', 'cells', 'birth', 'dirty', 'frozen', 'tag', 'site', 'bulk')


class Arr:
    """view on a store.  ax[i] for store axis i: ('i', index) | ('a', view axis) | ('s', view axis, off, step)
    | ('o', view axis, tok)"""
    __slots__ = ('st', 'ax', 'shape', 'masked')

    def __init__(self, st, ax, shape):
        self.st, self.ax, self.shape = st, ax, shape

    @property
    def dt(self):
        return self.st.dt

    def __repr__(self):
        return '<arr %s%r %s>' % (self.st.tag or self.st.uid, self.shape, self.st.dt)


class MArr:
    """X[mask]: the cells of arr selected by mask (order immaterial)"""
    __slots__ = ('arr', 'mask')

    def __init__(self, arr, mask):
        self.arr, self.mask = arr, mask

    @property
    def dt(self):
        return self.arr.dt


# ------------------------------------------------------------------------------------------ frames
class Frame:
    __slots__ = ('func', 'vars', 'mod', 'parent', 'pos', 'info', 'iscomp', 'loops')

    def __init__(self, func, vars, mod, parent, info, iscomp=False):
        self.func, self.vars, self.mod, self.parent, self.info = func, vars, mod, parent, info
        self.pos = None
        self.iscomp = iscomp
        self.loops = 0


class TI:
    """state of a token: number of members (cap = at least cap), class facts"""
    __slots__ = ('cnt', 'cls', 'first', 'rel', 'star', 'val', 'seen')

    def __init__(self, cnt=1, cls=None, first=None, rel=None, star=False):
        self.cnt, self.cls, self.first, self.rel, self.star = cnt, cls or {}, first, rel or {}, star
        self.val = None
        self.seen = False

    def copy(self):
        t = TI(self.cnt, dict(self.cls), None, dict(self.rel), False)
        t.seen = self.seen
        return t

    def sig(self):
        return (tuple(sorted(((tuple(x.name for x in k), v[0]) for k, v in self.cls.items()))),
                self.first, tuple(sorted((k.name, v) for k, v in self.rel.items())), self.star,
                self.seen)


class Loop:
    __slots__ = ('site', 'dim', 'kind', 'unv', 'vis', 'cur', 'birth', 'par', 'inorder', 'acc', 'tok',
                 'writes', 'reads', 'frame', 'node')


_fninfo = {}


_ancache = {}


def assigned_names(nodes):
    """names assigned by statements (not entering nested scopes)"""
    k = tuple(map(id, nodes))
    r = _ancache.get(k)
    if r is None:
        r = _ancache[k] = (assigned_names_(nodes), nodes)
    return set(r[0])


def assigned_names_(nodes):
    out = set()

    def tgt(t):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    tgt(c.target)
            return
        if isinstance(n, ast.Assign):
            for t in n.targets:
                tgt(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.NamedExpr)):
            tgt(n.target)
        elif isinstance(n, ast.For):
            tgt(n.target)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name.split('.')[0]))
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.withitem) and n.optional_vars is not None:
            tgt(n.optional_vars)
        for c in ast.iter_child_nodes(n):
            walk(c)
    for n in nodes:
        walk(n)
    return out


def names_read(node):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)} | \
        {n.target.id for n in ast.walk(node) if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name)}


def order_free(node, live):
    """the iterations of the loop commute: scalars are only added to or only multiplied, nothing else is carried over, no array
    element is stored, and the loop variable serves as a subscript or in tests for equality only"""
    if type(node) is not ast.For or not isinstance(node.target, ast.Name) or live is None or node.orelse:
        return False
    k = getattr(node, '_free', None)
    if k is None:
        node._free = k = _commutes(node)
    if k is False:
        return False
    asg, red = k
    return not (asg - red) & set(live)


def _commutes(node):
    var = node.target.id
    asg = assigned_names(node.body) - {var}
    ops, okuse, tgt = {}, set(), set()
    for b in node.body:
        for n in ast.walk(b):
            if isinstance(n, (ast.Break, ast.Return, ast.Continue, ast.Raise, ast.While, ast.Try, ast.With, ast.FunctionDef, ast.Lambda,
                              ast.Yield, ast.Global, ast.Nonlocal, ast.Delete, ast.Expr)):
                return False
            if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, ast.Store):
                return False
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult)):
                ops.setdefault(n.target.id, set()).add('m' if isinstance(n.op, ast.Mult) else 'a')
                tgt.add(id(n.target))
            if isinstance(n, ast.Subscript):
                for x in [n.slice] if not isinstance(n.slice, ast.Tuple) else n.slice.elts:
                    if isinstance(x, ast.Name):
                        okuse.add(id(x))
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Eq, ast.NotEq)):
                for x in (n.left, n.comparators[0]):
                    if isinstance(x, ast.Name):
                        okuse.add(id(x))
    red = set()
    for v, o in ops.items():
        if len(o) == 1 and not any(isinstance(n, ast.Name) and n.id == v and id(n) not in tgt for b in node.body for n in ast.walk(b)):
            red.add(v)
    for b in node.body:
        for n in ast.walk(b):
            if isinstance(n, ast.Name) and n.id == var and id(n) not in okuse:
                return False
    if inner_loop_vars_bad(node, okuse):
        return False
    return asg, red


def inner_loop_vars_bad(node, okuse):
    for b in node.body:
        for n in ast.walk(b):
            if isinstance(n, ast.For):
                if not isinstance(n.target, ast.Name):
                    return True
                for x in ast.walk(n):
                    if isinstance(x, ast.Name) and x.id == n.target.id and x is not n.target and id(x) not in okuse:
                        return True
    return False


class Liveness:
    """backward may-liveness on the structured syntax tree; names live at each loop head"""

    def __init__(self, fnode):
        self.head = {}
        self.pinned = set()
        body = fnode.body if isinstance(fnode.body, list) else []
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    self.pinned |= names_read(n)
        self.block(body, frozenset(), None, None)

    def block(self, stmts, out, brk, cont):
        for s in reversed(stmts):
            out = self.stmt(s, out, brk, cont)
        return out

    def stmt(self, s, out, brk, cont):
        if isinstance(s, ast.Return):
            return frozenset(names_read(s))
        if isinstance(s, ast.Raise):
            return frozenset(names_read(s)) | out
        if isinstance(s, ast.Break):
            return brk if brk is not None else out
        if isinstance(s, ast.Continue):
            return cont if cont is not None else out
        if isinstance(s, ast.If):
            return self.block(s.body, out, brk, cont) | self.block(s.orelse, out, brk, cont) | names_read(s.test)
        if isinstance(s, (ast.For, ast.While)):
            after = self.block(s.orelse, out, brk, cont)
            head = frozenset(after)
            kill = set()
            if isinstance(s, ast.For):
                kill = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
            while True:
                b = self.block(s.body, head, out, head)
                new = head | (b - kill)
                if isinstance(s, ast.While):
                    new = new | names_read(s.test)
                if new == head:
                    break
                head = new
            self.head[id(s)] = head
            return head | (names_read(s.iter) if isinstance(s, ast.For) else frozenset())
        if isinstance(s, ast.Try):
            o = self.block(s.finalbody, out, brk, cont)
            h = frozenset()
            for x in s.handlers:
                h |= self.block(x.body, o, brk, cont)
            return self.block(s.body + s.orelse, o | h, brk, cont) | h
        if isinstance(s, ast.With):
            o = self.block(s.body, out, brk, cont)
            return o | names_read(s)
        if isinstance(s, ast.Assign):
            kill = set()
            for t in s.targets:
                for n in ([t] if isinstance(t, ast.Name) else t.elts if isinstance(t, (ast.Tuple, ast.List)) else []):
                    if isinstance(n, ast.Name):
                        kill.add(n.id)
            return (out - kill) | names_read(s)
        return out | names_read(s)


class FnInfo:
    def __init__(self, node):
        self.node = node
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        body = node.body if isinstance(node.body, list) else []
        gl = set()
        nl = set()
        self.gen = False
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, ast.Global):
                    gl |= set(n.names)
                elif isinstance(n, ast.Nonlocal):
                    nl |= set(n.names)
        stack = list(body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                self.gen = True
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            stack.extend(ast.iter_child_nodes(n))
        self.nonlocal_ = nl
        self.global_ = gl
        self.locals = (assigned_names(body) | set(self.params) | set(self.kwonly) |
                       ({self.vararg} if self.vararg else set()) | ({self.kwarg} if self.kwarg else set())) - gl - nl
        self._live = None

    @property
    def live(self):
        if self._live is None:
            self._live = Liveness(self.node)
        return self._live


def fninfo(node):
    i = _fninfo.get(id(node))
    if i is None:
        i = _fninfo[id(node)] = FnInfo(node)
    return i


# ---------------------------------------------------------------------------------------- canonical
class Canon:
    def __init__(self, I):
        self.I = I
        self.ids = {}

    def cells(self, cells):
        return tuple(sorted(((k, self.c(v)) for k, v in cells.items()), key=repr))

    def c(self, v):
        t = type(v)
        if t is int or t is bool or t is str or v is None:
            return (t.__name__, v)
        if t is NI:
            return ('ni', v.dt, self.c(v.v) if type(v.v) is Sat else v.v)
        if t is NB:
            return ('nb', v.v)
        if t is R:
            return ('R', v.key(), v.dt)
        if t is Sat:
            return ('sat', v.k)
        if t is Tok:
            return v
        if t is TokOff:
            return ('to', v.t, v.o)
        if t is tuple:
            return ('t',) + tuple(self.c(x) for x in v)
        if t is Arr:
            return ('A', v.ax, self.shape(v.shape), self.store(v.st))
        if t is MArr:
            return ('MA', self.c(v.arr), self.c(v.mask))
        if t in (Func, Builtin, Type, DType, Ext, Mod, Cls, ExcType, Dim, Top, Carried):
            if t is Func and v.env is not None and v.env not in self.ids:
                # closures: identity of the function plus captured frame
                k = ('F', v.qual)
                self.ids[v.env] = len(self.ids)
                return k + (self.vars(v.env.vars),)
            if t is Builtin:
                return ('B', v.name)
            return ('x', repr(v))
        if t is Bound:
            return ('b', self.c(v.f), self.c(v.self_))
        i = id(v)
        if i in self.ids:
            return ('@', self.ids[i])
        if t is Obj:
            if v.uid < self.I.mark_uid and v.uid not in self.I.dirty:
                return ('o', v.uid)
            self.ids[i] = len(self.ids)
            return ('O', v.cls.name, self.vars(v.attrs))
        self.ids[i] = len(self.ids)
        if t is LList:
            return ('L',) + tuple(self.c(x) for x in v.v)
        if t is DDict:
            return ('D',) + tuple((self.c(k), self.c(x)) for k, x in v.v.items())
        if t is SSet:
            return ('S',) + tuple(sorted((self.c(x) for x in v.v), key=repr))
        if t is AbsIter:
            return ('AI', v.dim.name, v.kind)
        if t is PyRange:
            return ('PR', str(v.r))
        return ('?', t.__name__, repr(v))

    def shape(self, s):
        return tuple(x if type(x) is int else x.key() for x in s)

    def store(self, st):
        if st.uid < self.I.mark_uid and not st.dirty:
            return ('u', st.uid)
        i = ('st', st.uid)
        if i in self.ids:
            return ('@', self.ids[i])
        self.ids[i] = len(self.ids)
        return ('S', st.dt, st.base.key(self), self.cells(st.cells))

    def vars(self, d, live=None):
        return tuple((k, self.c(v)) for k, v in sorted(d.items()) if live is None or k in live)


# ------------------------------------------------------------------------------------------ result
class Result:
    def __init__(self):
        self.alarms = {}
        self.undecided = {}
        self.oks = 0
        self.paths = 0
        self.pruned = 0
        self.steps = 0
        self.funcs = set()
        self.sites = set()
        self.complete = True
        self.facts = {}


PKG = 'lom'


class Interp:
    def __init__(self, repo=None, max_paths=20000, max_time=600, overrides=None):
        self.repo = repo or REPO
        self.mods = {}
        self.max_paths, self.max_time = max_paths, max_time
        self.overrides = overrides or {}
        self.res = Result()
        self.trail = []
        self.prefix = 0
        self.pos = 0
        self.visited = set()
        self.persist = {}
        self.tables = {}
        self.policy = None
        self.dims = {}
        self.step_limit = 400000
        self.sizekeys = {}
        self.loading = True
        self.mark_uid = 0
        self.reset()

    # ---------------------------------------------------------------------------------- exploration
    def reset(self):
        self.frames = []
        self.pend = []
        self.loops = []
        self.facts = {}
        self.signs = {}
        self.weights = []
        self.tinfo = {}
        self.members = {}
        self.tokstores = {}
        self.frozen = {}
        self.dirty = set()
        self.uidc = 1
        self.mark_uid = 0
        self.occ = {}
        self.events = []
        self.steps = 0
        self.inexact = None
        self.wcount = 0
        self.pos = 0
        self.aux = {}
        self.anycount = {}
        self.rngc = 0
        self.genstack = []
        for d in self.dims.values():
            if d.star is not None:
                self.tinfo[d.star] = TI(star=True)

    def dim(self, name, mode, cap=2):
        d = self.dims.get(name)
        if d is None:
            d = self.dims[name] = Dim(name, mode, cap)
            d.star = Tok(d, name.lower() + '*')
            self.sizekeys[d.size.key()] = d
            self.tinfo[d.star] = TI(star=True)
        return d

    def dim_of(self, size):
        if type(size) is R:
            return self.sizekeys.get(size.key())
        return None

    def choose(self, n):
        if n <= 1:
            return 0
        if self.nochoice:
            raise NoChoice()
        if self.pos < len(self.trail):
            c = self.trail[self.pos][0]
            if self.trail[self.pos][1] != n:
                raise RuntimeError('non-deterministic replay')
        else:
            self.trail.append([0, n])
            c = 0
        self.pos += 1
        return c

    nochoice = False

    def fresh(self):
        return self.pos >= self.prefix

    def explore(self, scenario, label=''):
        """run scenario(self) on every abstract path"""
        t0 = time.time()
        res = self.res
        al0, un0, ok0 = dict(res.alarms), dict(res.undecided), res.oks
        self.restarts = 0
        self.collected = {}
        self.tables = {}
        while True:
            try:
                self.trail = []
                self.visited = set()
                while True:
                    self.prefix = len(self.trail)
                    self.reset()
                    self.mark_uid = 0
                    res.paths += 1
                    try:
                        scenario(self)
                        res.oks += 1
                    except Prune:
                        res.pruned += 1
                    except Undecided as e:
                        k = str(e)
                        res.undecided.setdefault(k, self.where())
                    except PyExc as e:
                        self.alarm('uncaught', '%s raised: %s' % (e.cls, e.msg), where=e.where)
                    except Sig as e:
                        res.undecided.setdefault('stray control flow', self.where())
                    except RecursionError:
                        res.undecided.setdefault('recursion limit', '')
                    res.steps += self.steps
                    while self.trail and self.trail[-1][0] + 1 >= self.trail[-1][1]:
                        self.trail.pop()
                    if not self.trail:
                        return res
                    self.trail[-1][0] += 1
                    if res.paths > self.max_paths or time.time() - t0 > self.max_time:
                        res.complete = False
                        res.undecided.setdefault('exploration limit', '%d paths' % res.paths)
                        return res
            except Restart:
                # what was found so far may rest on assumptions that have just been withdrawn
                res.alarms, res.undecided = dict(al0), dict(un0)
                res.oks = ok0
                for tb in self.tables.values():
                    tb['entries'], tb['cells'], tb['dt'] = {}, {}, {}
                self.collected = {}
                self.restarts += 1
                if self.restarts > 300:
                    res.undecided.setdefault('analysis does not stabilise', '')
                    return res
                continue

    def alarm(self, kind, msg, where=None):
        """definite mismatch; on inexact paths only an undecided note"""
        if self.inexact:
            self.res.undecided.setdefault('%s (on a path the analysis cannot show feasible: %s)' % (msg, self.inexact),
                                          where or self.where())
            return
        self.res.alarms.setdefault((kind, msg), where or self.where())

    def where(self):
        for fr in reversed(self.frames):
            if fr.pos is not None:
                return '%s:%d in %s' % (os.path.relpath(fr.mod.path, self.repo), fr.pos.lineno,
                                        fr.func.qual if fr.func else '<module>')
        return ''

    def site(self):
        return tuple((f.func.qual if f.func else f.mod.name, f.pos.lineno if f.pos else 0,
                      f.pos.col_offset if f.pos else 0) for f in self.frames)

    def uid(self):
        self.uidc += 1
        return self.uidc

    def mark(self):
        """everything allocated so far is identified by its creation order in state keys"""
        self.mark_uid = self.uidc + 1
        self.dirty = set()

    # --------------------------------------------------------------------------------------- modules
    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        p = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(p):
            p = os.path.join(p, '__init__.py')
        else:
            p += '.py'
        if not os.path.exists(p):
            raise PyExc('ModuleNotFoundError', "No module named '%s'" % name, self.where())
        if '.' in name:
            self.load(name.rsplit('.', 1)[0])
            m = self.mods.get(name)
            if m is not None:
                return m
        m = self.mods[name] = Mod(name, p)
        m.ns['__name__'] = name
        m.src = open(p).read()
        m.tree = ast.parse(m.src, p)
        if '.' in name:
            par, last = name.rsplit('.', 1)
            self.mods[par].ns.setdefault(last, m)
        fr = Frame(None, m.ns, m, None, None)
        saved = self.frames
        self.frames = self.frames + [fr]
        for s in m.tree.body:
            try:
                self.st(s, fr)
            except Undecided:
                for n in assigned_names([s]):
                    m.ns.setdefault(n, Top('module-level ' + n))
        self.frames = saved
        return m

    def getfn(self, dotted):
        """module-level function or class 'lom.x.y'"""
        mod, n = dotted.rsplit('.', 1)
        m = self.load(mod)
        if n not in m.ns:
            raise AnchorMissing(dotted)
        return m.ns[n]

    # ------------------------------------------------------------------------------------ statements
    def block(self, stmts, fr):
        for s in stmts:
            self.st(s, fr)

    def st(self, s, fr):
        self.steps += 1
        if self.steps > self.step_limit:
            raise Undecided('step limit')
        fr.pos = s
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Undecided('statement %s' % type(s).__name__)
        m(s, fr)

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Global(self, s, fr):
        raise Undecided('global statement')

    def s_Nonlocal(self, s, fr):
        pass

    def s_Return(self, s, fr):
        raise ReturnSig(self.ev(s.value, fr) if s.value is not None else None)

    def s_Break(self, s, fr):
        raise BreakSig()

    def s_Continue(self, s, fr):
        raise ContinueSig()

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def setname(self, n, v, fr):
        if fr.info is not None and n in fr.info.nonlocal_:
            f = fr.parent
            while f is not None:
                if n in f.vars:
                    f.vars[n] = v
                    return
                f = f.parent
        if fr.iscomp:
            fr.vars[n] = v
            return
        fr.vars[n] = v

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.setname(t.id, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, t)
            for e, x in zip(t.elts, items):
                if isinstance(e, ast.Starred):
                    self.assign(e.value, LList(x), fr)
                else:
                    self.assign(e, x, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            self.pend.append(o)
            self.pend.append(v)
            k = self.index(t.slice, fr)
            self.pend.pop()
            self.pend.pop()
            self.setitem(o, k, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            raise Undecided('assignment target')

    def unpack(self, v, t):
        if type(v) is tuple:
            items = list(v)
        elif type(v) is LList:
            items = list(v.v)
        else:
            items = self.listify(v)
        n = len(t.elts)
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        if star:
            i = star[0]
            if len(items) < n - 1:
                raise PyExc('ValueError', 'not enough values to unpack', self.where())
            k = len(items) - (n - 1)
            return items[:i] + [items[i:i + k]] + items[i + k:]
        if len(items) != n:
            raise PyExc('ValueError', 'cannot unpack %d values into %d targets' % (len(items), n), self.where())
        return items

    def s_AugAssign(self, s, fr):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            cur = self.name(t.id, fr)
            self.pend.append(cur)
            v = self.ev(s.value, fr)
            self.pend.pop()
            r = self.inplace(op, cur, v)
            self.setname(t.id, r, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.getattr(o, t.attr)
            self.pend.append(o)
            self.pend.append(cur)
            v = self.ev(s.value, fr)
            self.pend.pop()
            self.pend.pop()
            self.setattr(o, t.attr, self.inplace(op, cur, v))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.index(t.slice, fr)
            self.pend.append((o, k))
            v = self.ev(s.value, fr)
            self.pend.pop()
            if op in ('Add', 'Sub') and type(o) is Arr and self.acc_cell(o, k, op, v):
                return
            cur = self.getitem(o, k)
            r = self.inplace(op, cur, v)
            if type(r) is Arr and r is cur:
                return
            self.setitem(o, k, r)
        else:
            raise Undecided('augmented target')

    def inplace(self, op, cur, v):
        if type(cur) is Arr:
            if op in ('Add', 'Sub') and self.acc_array(cur, op, v):
                return cur
            r = self.binop(op, cur, v)
            # in-place result keeps the dtype of the target
            self.assign_view(cur, r)
            return cur
        if type(cur) is LList and op == 'Add' and not cur.objarr:
            cur.v.extend(self.listify(v))
            return cur
        return self.binop(op, cur, v)

    def s_If(self, s, fr):
        if self.cond(s.test, fr):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def cond(self, test, fr):
        return self.truth(self.ev(test, fr))

    def s_Assert(self, s, fr):
        if not self.cond(s.test, fr):
            raise PyExc('AssertionError', ast.unparse(s.test), self.where())

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                if t.id not in fr.vars:
                    raise PyExc('NameError', t.id, self.where())
                del fr.vars[t.id]
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, fr)
                k = self.index(t.slice, fr)
                if type(o) is LList and type(k) is int:
                    del o.v[k]
                elif type(o) is DDict:
                    del o.v[k]
                else:
                    raise Undecided('del item')
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr)
                if type(o) is Obj and t.attr in o.attrs:
                    del o.attrs[t.attr]
                    self.dirty.add(o.uid)
                else:
                    raise Undecided('del attr')

    def s_Raise(self, s, fr):
        if s.exc is None:
            cur = self.aux.get('exc')
            if cur:
                raise cur[-1]
            raise PyExc('RuntimeError', 'No active exception to reraise', self.where())
        v = self.ev(s.exc, fr)
        if type(v) is ExcType:
            raise PyExc(v.name, '', self.where())
        if type(v) is ExcVal:
            raise PyExc(v.cls, v.msg, self.where())
        if type(v) is Cls:
            raise PyExc(v.name, '', self.where())
        if type(v) is Obj:
            raise PyExc(v.cls.name, '', self.where())
        if type(v) in (Top,):
            raise Undecided('raise of unknown value')
        raise PyExc('TypeError', 'exceptions must derive from BaseException', self.where())

    def s_Try(self, s, fr):
        depth, fdepth, ldepth = len(self.pend), len(self.frames), len(self.loops)
        try:
            try:
                self.block(s.body, fr)
            except PyExc as e:
                del self.pend[depth:]
                del self.frames[fdepth:]
                del self.loops[ldepth:]
                for h in s.handlers:
                    if self.handles(h, e, fr):
                        if h.name:
                            self.setname(h.name, ExcVal(e.cls, e.msg), fr)
                        self.aux.setdefault('exc', []).append(e)
                        try:
                            self.block(h.body, fr)
                        finally:
                            self.aux['exc'].pop()
                        break
                else:
                    raise
            else:
                self.block(s.orelse, fr)
        except (PyExc, Sig) as e:
            if s.finalbody:
                d2 = (len(self.pend), len(self.frames), len(self.loops))
                self.block(s.finalbody, fr)
            raise
        else:
            self.block(s.finalbody, fr)

    def handles(self, h, e, fr):
        if h.type is None:
            return True
        t = self.ev(h.type, fr)
        ts = list(t) if type(t) is tuple else [t]
        for x in ts:
            if type(x) is ExcType and exc_isa(e.cls, x.name):
                return True
            if type(x) is Cls and exc_isa(e.cls, x.name):
                return True
            if type(x) not in (ExcType, Cls):
                raise Undecided('except clause')
        return False

    def s_With(self, s, fr):
        raise Undecided('with statement')

    def s_FunctionDef(self, s, fr):
        f = Func()
        f.name, f.node, f.mod = s.name, s, fr.mod
        f.env = fr if fr.func is not None or fr.iscomp else None
        pre = fr.func.qual + '.' if fr.func else fr.mod.name + '.'
        cls = self.aux_cls[-1] if self.aux_cls else None
        f.qual = pre + (cls + '.' if cls else '') + s.name
        f.info = fninfo(s)
        f.prop = f.static = False
        f.jit = None
        f.defaults = [self.ev(d, fr) for d in s.args.defaults]
        f.kwdefaults = {a.arg: self.ev(d, fr) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        v = f
        for d in reversed(s.decorator_list):
            v = self.decorate(v, d, fr)
        self.setname(s.name, v, fr)

    aux_cls = []

    def decorate(self, v, d, fr):
        t = d.func if isinstance(d, ast.Call) else d
        name = ast.unparse(t)
        if isinstance(t, ast.Name) and t.id == 'property':
            v.prop = True
            return v
        if isinstance(t, ast.Name) and t.id == 'staticmethod':
            v.static = True
            return v
        if name.endswith('.setter'):
            raise Undecided('property setter')
        o = self.ev(t, fr)
        if type(o) is Ext:
            if o.name in ('numba.jit', 'numba.njit', 'numba.core.decorators.jit'):
                v.jit = d
                return v
            if o.name in ('functools.wraps', 'functools.lru_cache', 'functools.cache'):
                return v
            raise Undecided('decorator ' + o.name)
        if isinstance(d, ast.Call):
            o = self.ev(d, fr)
        return self.call(o, [v], {}, d)

    def s_ClassDef(self, s, fr):
        bases = [self.ev(b, fr) for b in s.bases]
        ns = {}
        f2 = Frame(fr.func, ns, fr.mod, fr.parent, fr.info, True)
        f2.parent = fr if fr.func is not None else None
        f2.func = None
        f2.iscomp = True
        self.aux_cls = self.aux_cls + [s.name]
        saved_env = None
        for b in s.body:
            if isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant):
                continue
            if isinstance(b, ast.FunctionDef):
                self.s_FunctionDef(b, f2)
                v = ns[b.name]
                if type(v) is Func:
                    v.env = fr if fr.func is not None else None
            else:
                self.st(b, f2)
        self.aux_cls = self.aux_cls[:-1]
        c = Cls(s.name, bases, ns, fr.mod)
        for b in bases:
            if type(b) is ExcType:
                EXC_BASES.setdefault(s.name, b.name)
            if type(b) is Cls and b.name in EXC_BASES:
                EXC_BASES.setdefault(s.name, b.name)
        self.setname(s.name, c, fr)

    def s_Import(self, s, fr):
        for a in s.names:
            if a.name.split('.')[0] == PKG:
                m = self.load(a.name)
                if a.asname:
                    self.setname(a.asname, m, fr)
                else:
                    self.setname(PKG, self.mods[PKG], fr)
            else:
                self.missing(a.name)
                self.setname(a.asname or a.name.split('.')[0],
                             Ext(a.name if a.asname else a.name.split('.')[0]), fr)

    def missing(self, name):
        pass

    def s_ImportFrom(self, s, fr):
        mod = s.module or ''
        if s.level:
            base = fr.mod.name.split('.')
            if not fr.mod.path.endswith('__init__.py'):
                base = base[:-1]
            base = base[:len(base) - (s.level - 1)]
            mod = '.'.join(base + ([mod] if mod else []))
        for a in s.names:
            if mod.split('.')[0] == PKG:
                m = self.load(mod)
                if a.name == '*':
                    for k, v in m.ns.items():
                        if not k.startswith('_'):
                            fr.vars[k] = v
                    continue
                if a.name in m.ns:
                    v = m.ns[a.name]
                else:
                    try:
                        v = self.load(mod + '.' + a.name)
                    except PyExc:
                        raise PyExc('ImportError', "cannot import name '%s' from '%s'" % (a.name, mod), self.where())
                self.setname(a.asname or a.name, v, fr)
            else:
                self.missing(mod)
                if a.name == '*':
                    raise Undecided('star import')
                self.setname(a.asname or a.name, self.extattr(Ext(mod), a.name), fr)

    # ------------------------------------------------------------------------------------------ loops
    def s_While(self, s, fr):
        norm = self.counted_while(s, fr)
        if norm is not None:
            name, it, body = norm
            self.run_loop(it, s, fr, lambda x: fr.vars.__setitem__(name, x), body, s.orelse, extra=name)
            return
        n = 0
        pd = len(self.pend)
        while True:
            n += 1
            if n > 3000:
                raise Undecided('while loop bound')
            fr.pos = s
            if self.whilehead is not None:
                self.whilehead(s, fr)
            if not self.cond(s.test, fr):
                break
            try:
                self.block(s.body, fr)
            except ContinueSig:
                del self.pend[pd:]
            except BreakSig:
                del self.pend[pd:]
                return
        self.block(s.orelse, fr)

    whilehead = None

    def counted_while(self, s, fr):
        """while i < n: ...; i += 1  (over a symbolic n) seen as a for loop over range(i, n)"""
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name)):
            return None
        if not isinstance(t.ops[0], (ast.Lt, ast.NotEq)):
            return None
        n = t.left.id
        if type(fr.vars.get(n)) is not int:
            return None
        last = s.body[-1] if s.body else None
        if not (isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and
                isinstance(last.target, ast.Name) and last.target.id == n and
                isinstance(last.value, ast.Constant) and last.value.value == 1):
            return None
        if n in assigned_names(s.body[:-1]):
            return None
        if names_read(t.comparators[0]) & assigned_names(s.body):
            return None
        for x in s.body[:-1]:
            for y in ast.walk(x):
                if isinstance(y, ast.Continue):
                    return None
        hi = self.ev(t.comparators[0], fr)
        if type(hi) is not R or hi.const() is not None:
            return None
        it = self.mkrange([fr.vars[n], hi], False)
        return n, it, s.body[:-1]

    def s_For(self, s, fr):
        it = self.ev(s.iter, fr)
        self.run_loop(it, s, fr, lambda x: self.assign(s.target, x, fr), s.body, s.orelse)

    def run_loop(self, it, s, fr, bind, body, orelse, extra=None):
        pd = len(self.pend)
        fr.loops += 1

        def one(x):
            bind(x)
            try:
                self.block(body, fr)
            except ContinueSig:
                pass
            del self.pend[pd:]
            fr.pos = s
        if type(it) is NDIter:
            assigned = assigned_names(body)
            tn = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
            live = fr.info.live.head.get(id(s)) if fr.info is not None and not fr.iscomp else None
            if self.nd_loop(it, one, s, fr, assigned | tn, live, tn, 0, ()):
                del self.pend[pd:]
            else:
                del self.pend[pd:]
                self.block(orelse, fr)
            return
        it = self.as_iter(it)
        if type(it) is AbsIter:
            assigned = assigned_names(body)
            if isinstance(s, ast.For):
                tn = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
            else:
                tn = {extra}
            live = fr.info.live.head.get(id(s)) if fr.info is not None and not fr.iscomp else None
            brk = self.abs_loop(it, one, s, fr, assigned | tn, live, tn)
            del self.pend[pd:]
            if extra is not None:
                fr.vars[extra] = it.dim.size
            if not brk:
                self.block(orelse, fr)
            return
        i = 0
        try:
            for x in it:
                i += 1
                if i > 5000:
                    raise Undecided('loop bound')
                one(x)
        except BreakSig:
            del self.pend[pd:]
            return
        self.block(orelse, fr)

    def nd_loop(self, it, one, s, fr, assigned, live, tn, k, idx):
        """loop over all positions of an array as nested loops; True after a break"""
        if k == len(it.shape):
            one(it.item(idx))
            return False
        n = it.shape[k]
        if type(n) is int:
            try:
                for i in range(n):
                    if self.nd_loop(it, one, s, fr, assigned, live, tn, k + 1, idx + (i,)):
                        return True
            except BreakSig:
                return True
            return False
        d = self.dim_of(n)
        if d is None:
            raise Undecided('iteration over an axis of size %s' % (n,))

        def sub(tok):
            if self.nd_loop(it, one, s, fr, assigned, live, tn, k + 1, idx + (tok,)):
                raise BreakSig()
        return self.abs_loop(AbsIter(d, lambda tok: tok), sub, SubNode(s, k), fr, assigned, live, tn)

    def as_iter(self, it):
        """python list of items or AbsIter"""
        t = type(it)
        if t is AbsIter:
            return it
        if t is LList:
            return it.v
        if t is NDIter:
            if all(type(n) is int for n in it.shape):
                import itertools
                return [it.item(x) for x in itertools.product(*[range(n) for n in it.shape])]
            if len(it.shape) == 1:
                return AbsIter(self.dim_of(it.shape[0]), lambda tok: it.item((tok,)))
            raise Undecided('iteration over several symbolic axes')
        if t is tuple:
            return list(it)
        if t is PyRange:
            return it.r
        if t is str:
            return list(it)
        if t is DDict:
            return list(it.v.keys())
        if t is SSet:
            return sorted(it.v, key=repr)
        if t is Arr:
            if not it.shape:
                raise PyExc('TypeError', 'iteration over a 0-d array', self.where())
            n = it.shape[0]
            if type(n) is int:
                return [self.getitem(it, i) for i in range(n)]
            d = self.dim_of(n)
            if d is None:
                raise Undecided('iteration over an axis of size %s' % (n,))
            return AbsIter(d, lambda tok: self.getitem(it, tok))
        if t is Obj:
            m = it.cls.find('__iter__')
            if m is not None:
                return self.as_iter(self.call(Bound(m, it), [], {}, None))
        if t is Top:
            raise Undecided('iteration over unknown value (%s)' % it.why)
        if t in (int, bool, NI, NB, R) or it is None:
            raise PyExc('TypeError', 'object is not iterable', self.where())
        raise Undecided('iteration over %r' % (it,))

    def listify(self, v):
        it = self.as_iter(v)
        if type(it) is AbsIter:
            raise Undecided('list of symbolic length')
        return list(it)

    # -- loops over symbolic dimensions
    def mode_of(self, it, fr, node=None, assigned=(), live=None, targets=()):
        d = it.dim
        m = self.policy.mode(self, it) if self.policy else d.mode
        if m == 'starfull':
            if any(l.tok is d.star for l in self.loops) or any(l.dim is d and l.kind == 'full' for l in self.loops):
                return 'full'
            m = 'star'
            if node is not None and self.carries(fr, assigned, live, targets):
                return 'full'
            return m
        if m == 'star':
            if node is None:
                return 'sum'
            if self.carries(fr, assigned, live, targets):
                return 'sum'
            if self.persist.get(('sum', self.loopsite(node, fr))):
                return 'sum'
            if any(l.tok is d.star for l in self.loops):
                return 'sum'
        return m

    def carries(self, fr, assigned, live, targets):
        """does a variable carry a value from one iteration to the next, or out of the loop?"""
        for v in assigned:
            if v in targets or v not in fr.vars:
                continue
            if type(fr.vars[v]) in (Carried,):
                continue
            if live is None or v in live:
                return True
        return False

    def loopsite(self, node, fr):
        return (fr.func.qual if fr and fr.func else '', getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0))

    def abs_loop(self, it, one, node, fr, assigned, live, targets):
        m = self.mode_of(it, fr, node, assigned, live, targets)
        if m == 'full':
            return self.loop_full(it, one, node, fr, live)
        if m == 'star':
            return self.loop_star(it, one, node, fr, assigned, targets)
        if m == 'sum':
            return self.loop_sum(it, one, node, fr, assigned, targets)
        raise Undecided('loop mode')

    def newloop(self, it, node, fr, kind):
        l = Loop()
        l.site = self.loopsite(node, fr)
        l.dim, l.kind, l.par, l.frame, l.node = it.dim, kind, it.par, fr, node
        l.unv, l.vis, l.cur, l.tok = [], [], None, None
        l.birth = self.uid()
        l.inorder = False
        l.acc = None
        l.writes, l.reads = [], []
        return l

    def groups(self, dim):
        g = self.members.get(dim)
        if g is None:
            if self.policy is None:
                raise Undecided('members of %s' % dim.name)
            g = self.members[dim] = self.policy.init_members(self, dim)
        return g

    def resolve(self, dim, t):
        """fix the number of members of a group whose size is open"""
        ti = self.tinfo[t]
        if ti.cnt == 'any':
            k = self.choose(dim.cap + 1)
            ti.cnt = k
            if k == 0:
                self.drop_group(dim, t)

    def drop_group(self, dim, t):
        self.members[dim].remove(t)
        for l in self.loops:
            if t in l.unv:
                l.unv.remove(t)
            if t in l.vis:
                l.vis.remove(t)
        if not self.members[dim]:
            raise Prune()

    def alloc(self, dim):
        used = set(self.members.get(dim, ()))
        for l in self.loops:
            if l.dim is dim:
                used |= set(l.unv) | set(l.vis)
                if l.cur is not None:
                    used.add(l.cur)
        used |= self.held
        i = 0
        while dim.tok(i) in used or dim.tok(i) in self.tinfo:
            i += 1
        return dim.tok(i)

    held = frozenset()

    def materialise(self, g, dim):
        """take one member out of group g; returns (member, rest or None)"""
        ti = self.tinfo[g]
        if ti.cnt == 1:
            return g, None
        t = self.alloc(dim)
        n = ti.copy()
        n.cnt = 1
        self.tinfo[t] = n
        self.members[dim].append(t)
        for x in self.loops:
            if x.dim is dim:
                if g in x.unv:
                    x.unv.append(t)
                elif g in x.vis:
                    x.vis.append(t)
        if ti.cnt == 'any':
            pass
        elif ti.cnt == dim.cap:
            if self.choose(2) == 0:
                ti.cnt = dim.cap - 1
        else:
            ti.cnt -= 1
        self.clone_cells(g, t)
        return t, g

    def clone_cells(self, g, t):
        for st in list(self.tokstores.get(g, ())):
            for k in list(st.cells):
                if g in k:
                    st.cells[tuple(t if x is g else x for x in k)] = st.cells[k]
                    self.tokstores.setdefault(t, set()).add(st)
        for st in list(self.frozen.get(g, ())):
            for k in list(st.cells):
                if g in k:
                    st.cells[tuple(t if x is g else x for x in k)] = st.cells[k]
                    self.frozen.setdefault(t, weakref.WeakSet()).add(st)

    def subgroups(self, it, dim):
        """members iterated by it (range limits resolved), plus ordering knowledge"""
        g = list(self.groups(dim))
        lo, hi = it.lo, it.hi
        if type(lo) is int and lo == 0:
            lo = None
        if lo is None and hi is None:
            return g
        for t in list(g):
            self.resolve(dim, t)
        g = list(self.groups(dim))
        if type(lo) is int:
            # the first lo members are left out
            for k in range(lo):
                pick = [t for t in g if self.tinfo[t].first == k]
                if not pick:
                    cands = [t for t in g if self.tinfo[t].first is None]
                    if not cands:
                        return []
                    t, rest = self.materialise(cands[self.choose(len(cands))], dim)
                    self.tinfo[t].first = k
                    if t not in g:
                        g.append(t)
                    pick = [t]
                g.remove(pick[0])
            lo = None
        if type(hi) is int:
            if hi >= 0:
                out = []
                for k in range(hi):
                    pick = [t for t in g if self.tinfo[t].first == k]
                    if not pick:
                        cands = [t for t in g if self.tinfo[t].first is None and t not in out]
                        if not cands:
                            break
                        t, rest = self.materialise(cands[self.choose(len(cands))], dim)
                        self.tinfo[t].first = k
                        pick = [t]
                        if t not in g:
                            g.append(t)
                    out.append(pick[0])
                return out
            for k in range(-hi):
                key = -1 - k
                pick = [t for t in g if self.tinfo[t].first == key]
                if not pick:
                    cands = [t for t in g if self.tinfo[t].first is None]
                    if not cands:
                        return []
                    t, rest = self.materialise(cands[self.choose(len(cands))], dim)
                    self.tinfo[t].first = key
                    if t not in g:
                        g.append(t)
                    pick = [t]
                g.remove(pick[0])
            hi = None
        if lo is None and hi is None:
            return g
        for tok, side in ((lo, 'lo'), (hi, 'hi')):
            if tok is None:
                continue
            off = 0
            if type(tok) is TokOff:
                tok, off = tok.t, tok.o
            if type(tok) is not Tok or tok.dim is not dim:
                raise Undecided('range limit')
            incl = None
            if side == 'lo':
                incl = {0: True, 1: False}.get(off)
            else:
                incl = {0: False, 1: True}.get(off)
            if incl is None:
                raise Undecided('range limit offset')
            want = 'after' if side == 'lo' else 'before'
            outer = [l for l in self.loops if l.dim is dim and l.kind == 'full' and l.cur is tok and l.inorder]
            out = []
            if outer:
                src = set(outer[-1].unv if side == 'lo' else outer[-1].vis)
                out = [t for t in g if t in src or self.origin(t) in src]
            else:
                self.split_side(tok, dim)
                g = [t for t in self.members[dim] if t in g or self.tinfo[t].rel.get(tok) is not None]
                out = [t for t in g if t is not tok and self.tinfo[t].rel.get(tok) == want]
            if incl:
                out.append(tok)
            g = out
        return g

    def origin(self, t):
        return t

    def split_side(self, tok, dim):
        """decide which members lie before / after tok"""
        for g in list(self.members[dim]):
            self.resolve(dim, g)
        for g in list(self.members[dim]):
            if g is tok:
                continue
            ti = self.tinfo[g]
            if tok in ti.rel:
                continue
            c, cap = ti.cnt, dim.cap
            opts = []
            for a in range(cap + 1):
                for b in range(cap + 1):
                    s = a + b
                    if c == cap:
                        if s >= cap:
                            opts.append((a, b))
                    elif s == c:
                        opts.append((a, b))
            a, b = opts[self.choose(len(opts))]
            if a and b:
                t = self.alloc(dim)
                for x in self.loops:
                    if x.dim is dim:
                        if g in x.unv:
                            x.unv.append(t)
                        elif g in x.vis:
                            x.vis.append(t)
                n = ti.copy()
                n.cnt = b
                n.rel[tok] = 'after'
                self.tinfo[t] = n
                self.members[dim].append(t)
                self.clone_cells(g, t)
                ti.cnt = a
                ti.rel[tok] = 'before'
            elif a:
                ti.cnt = a
                ti.rel[tok] = 'before'
            else:
                ti.cnt = b
                ti.rel[tok] = 'after'

    def loop_full(self, it, one, node, fr, live, reduction=None):
        dim = it.dim
        l = self.newloop(it, node, fr, 'full')
        g = self.subgroups(it, dim)
        l.unv = g
        l.inorder = it.rng and it.lo is None and it.hi is None and not it.rev
        # iterations that commute are visited in one order only
        free = node is not None and order_free(node, live) and not any(self.tinfo[t].first is not None for t in g)
        self.loops.append(l)
        brk = False
        n = 0
        while True:
            n += 1
            if n > 200:
                raise Undecided('loop does not stabilise')
            self.head(l, fr, live, node)
            if not l.unv:
                break
            if all(self.tinfo[t].cnt == 'any' for t in l.unv):
                if self.choose(2):
                    for t in list(l.unv):
                        self.drop_group(dim, t)
                    break
            cands = l.unv
            if free:
                cands = l.unv[:1]
            elif l.inorder:
                f0 = [t for t in l.unv if self.tinfo[t].first == len(l.vis) and not l.vis]
                if f0:
                    cands = f0
                elif not l.vis and any(self.tinfo[t].first == 0 for t in l.unv):
                    cands = [t for t in l.unv if self.tinfo[t].first == 0]
            g = cands[self.choose(len(cands))]
            t, rest = self.materialise(g, dim)
            l.unv.remove(t)
            l.cur = t
            try:
                one(it.item(t))
            except BreakSig:
                brk = True
            except ReturnSig:
                self.loops.pop()
                raise
            l.vis.append(t)
            l.cur = None
            if brk:
                break
            self.prune_dead(fr, live, node)
            self.merge(dim, l)
        self.loops.pop()
        self.prune_dead(fr, live, node)
        self.merge(dim, None)
        return brk

    def prune_dead(self, fr, live, node):
        if live is None or fr is None:
            return
        pinned = fr.info.live.pinned
        for k in list(fr.vars):
            if k not in live and k not in pinned:
                v = fr.vars[k]
                if type(v) in (Tok, R, Arr, tuple, LList, TokOff) and k not in fr.info.params:
                    fr.vars[k] = Top('dead variable %s' % k)

    def live_tokens(self):
        """tokens referenced from frames, pending operands and enclosing loops"""
        out = set()
        seen = set()
        todo = []
        for f in self.frames:
            todo.extend(f.vars.values())
        todo.extend(self.pend)
        for l in self.loops:
            if l.cur is not None:
                out.add(l.cur)
            if l.tok is not None:
                out.add(l.tok)
        while todo:
            v = todo.pop()
            t = type(v)
            if t is Tok:
                out.add(v)
            elif t is TokOff:
                out.add(v.t)
            elif t is R:
                for a in v.all_atoms():
                    if type(a.key) is tuple:
                        self.key_toks(a.key, out)
            elif t is Arr:
                for a in v.ax:
                    if type(a[-1]) is Tok:
                        out.add(a[-1])
                if id(v.st) not in seen:
                    seen.add(id(v.st))
                    self.base_toks(v.st.base, todo, seen)
            elif t is MArr:
                todo.append(v.arr)
                todo.append(v.mask)
            elif t is tuple:
                todo.extend(v)
            elif t is LList:
                if id(v) not in seen:
                    seen.add(id(v))
                    todo.extend(v.v)
            elif t is DDict:
                todo.extend(v.v.values())
        return out

    def base_toks(self, b, todo, seen):
        if id(b) in seen:
            return
        seen.add(id(b))
        if type(b) is Fn:
            todo.extend(b.deps)
        elif type(b) is Layer:
            todo.append(b.view)
            todo.append(b.val)
            if b.mask is not None:
                todo.append(b.mask)
            self.base_toks(b.old, todo, seen)
        elif type(b) is Frozen:
            self.base_toks(b.base, todo, seen)
        elif type(b) is Const:
            todo.append(b.v)

    def key_toks(self, k, out):
        for x in k:
            if type(x) is Tok:
                out.add(x)
            elif type(x) is tuple:
                self.key_toks(x, out)

    def merge(self, dim, l):
        """fold processed members back into groups; their element facts are forgotten"""
        mem = self.members[dim]
        keep = self.live_tokens()
        pool = l.vis if l is not None else mem
        outer = [x for x in self.loops if x is not l and x.dim is dim and x.kind == 'full']
        by = {}
        for t in list(pool):
            ti = self.tinfo[t]
            if t in keep or ti.star or t is dim.star:
                continue
            if any(x.cur is t for x in self.loops):
                continue
            where = tuple((0 if t in x.unv else 1 if t in x.vis else 2) for x in outer)
            self.forget(t)
            sig = (ti.sig(), where, self.cellsig(t), ti.cnt == 'any')
            if sig in by:
                o = by[sig]
                to = self.tinfo[o]
                to.cnt = 'any' if 'any' in (to.cnt, ti.cnt) else min(dim.cap, to.cnt + ti.cnt)
                for x in self.loops:
                    if t in x.unv:
                        x.unv.remove(t)
                    if t in x.vis:
                        x.vis.remove(t)
                mem.remove(t)
                self.dropcells(t)
                del self.tinfo[t]
            else:
                by[sig] = t

    def cellsig(self, t):
        out = []
        C = Canon(self)
        for st in list(self.tokstores.get(t, ())) + list(self.frozen.get(t, ())):
            for k, v in st.cells.items():
                if t in k:
                    kk = tuple('.' if x is t else x for x in k)
                    out.append((st.uid, repr(kk), repr(C.c(v))))
        return tuple(sorted(out))

    def dropcells(self, t):
        for st in list(self.tokstores.pop(t, ())) + list(self.frozen.pop(t, ())):
            for k in list(st.cells):
                if t in k:
                    del st.cells[k]

    def forget(self, t):
        for k in list(self.facts):
            if t in k[1]:
                del self.facts[k]
                self.tinfo[t].seen = True

    def head(self, l, fr, live, node):
        """loop head: abstract state already covered?"""
        self.steps += 5
        self.widen(l, fr, live)
        if not self.fresh():
            return
        k = (l.site, self.statekey(live, fr))
        if k in self.visited:
            raise Prune()
        self.visited.add(k)
        if len(self.visited) > 200000:
            raise Undecided('state limit')

    def widen(self, l, fr, live):
        cap = l.dim.cap + 2
        if fr is not None:
            for k, v in fr.vars.items():
                w = self.wid(v, cap)
                if w is not v:
                    fr.vars[k] = w
        for i, v in enumerate(self.pend):
            w = self.wid(v, cap)
            if w is not v:
                self.pend[i] = w

    def wid(self, v, cap):
        t = type(v)
        if t is int and v > cap:
            return Sat(cap)
        if t is NI and type(v.v) is int and v.v > cap:
            if v.dt in ('int8', 'uint8', 'int16', 'uint16'):
                self.narrow(v.dt)
            return NI(Sat(cap), v.dt)
        if t is Sat and v.k > cap:
            return Sat(cap)
        if t is NI and type(v.v) is Sat and v.v.k > cap:
            return NI(Sat(cap), v.dt)
        if t is R:
            c = v.const()
            if c is not None and abs(c) > 64:
                raise Undecided('unbounded value in a loop')
        return v

    def narrow(self, dt):
        """an accumulator of a narrow type grows without bound"""
        self.events.append(('narrow', dt, self.where()))
        self.policy_event('narrow', dt)

    def policy_event(self, kind, *a):
        if self.policy is not None:
            self.policy.event(self, kind, *a)

    def statekey(self, live, fr):
        C = Canon(self)
        fs = []
        for f in self.frames:
            p = f.pos
            lv = None
            if f is fr and live is not None:
                lv = live | f.info.live.pinned
            fs.append((f.func.qual if f.func else f.mod.name, p.lineno if p else 0, p.col_offset if p else 0,
                       C.vars(f.vars, lv)))
        pend = tuple(C.c(x) for x in self.pend)
        loops = tuple((l.site, tuple(l.unv), tuple(l.vis), l.cur, l.tok) for l in self.loops)
        mem = tuple((d.name, tuple((t, self.tinfo[t].cnt, self.tinfo[t].sig()) for t in g))
                    for d, g in sorted(self.members.items(), key=lambda x: x[0].name))
        facts = frozenset((k, repr(v)) for k, v in self.facts.items())
        signs = frozenset(self.signs.items())
        dirty = tuple(C.vars(self.objs[u].attrs) for u in sorted(self.dirty) if u in self.objs)
        return (tuple(fs), pend, loops, mem, facts, signs, repr(self.weights), dirty, self.inexact is None,
                repr(self.aux.get('track')))

    objs = {}

    # -- one arbitrary iteration
    def loop_star(self, it, one, node, fr, assigned, targets):
        dim = it.dim
        tok = dim.star
        l = self.newloop(it, node, fr, 'star')
        l.tok = tok
        key = ('star', l.site)
        flags = self.persist.get(('brk', key), set())
        if flags:
            n = self.choose(1 + len(flags))
            if n:
                f = sorted(flags, key=repr)[n - 1]
                self.aux.setdefault('skipped', []).append((l.site, f[0]))
                if f[0] == 'ret':
                    if f[1] != 'None':
                        raise Undecided('return from within a loop over %s' % dim.name)
                    raise ReturnSig(None)
                return True
        # a partial range does not visit every member
        if it.lo not in (None, 0) or it.hi is not None:
            if self.choose(2):
                self.aux.setdefault('skipped', []).append((l.site, 'range'))
                return False
        for v in assigned:
            if v in fr.vars and v not in targets:
                fr.vars[v] = Carried(v, l.site, it.par)
        for st in list(self.stores_by_site(self.persist.get(('poison', key), ()))):
            self.poison(st, l)
        self.loops.append(l)
        brk = None
        try:
            one(it.item(tok))
        except BreakSig:
            brk = ('brk', '')
        except ReturnSig as e:
            brk = ('ret', repr(e.v))
            self.loops.pop()
            self.add_persist(('brk', key), brk)
            raise
        if brk:
            self.add_persist(('brk', key), brk)
        self.policy_event('iter_end', l)
        # writes to shared arrays that do not depend on the iteration
        for st, idx in l.writes:
            if tok not in idx:
                self.add_persist(('poison', key), st.site)
        self.loops.pop()
        for v in assigned | targets:
            if v in fr.vars:
                fr.vars[v] = Top('value of %s after a loop over %s' % (v, dim.name))
        return brk is not None

    def add_persist(self, k, v):
        s = self.persist.setdefault(k, set())
        if v not in s:
            s.add(v)
            raise Restart()

    def stores_by_site(self, sites):
        if not sites:
            return []
        return [st for st in self.allstores.values() if st.site in sites]

    def poison(self, st, l):
        st.base = Const(Carried('array element', l.site, l.par))
        st.cells = {}
        st.dirty = True

    # -- sums over all members
    def loop_sum(self, it, one, node, fr, assigned, targets, accs=None):
        dim = it.dim
        l = self.newloop(it, node, fr, 'sum')
        occ = self.occ.get(l.site, 0)
        self.occ[l.site] = occ + 1
        name = (tuple(x[:3] for x in self.site()), l.site, occ)
        cand = [v for v in sorted(assigned) if v in fr.vars and v not in targets and self.isnum(fr.vars[v])]
        other = [v for v in sorted(assigned) if v in fr.vars and v not in targets and not self.isnum(fr.vars[v])
                 and type(fr.vars[v]) is not Carried]
        tb = self.tables.setdefault(name, {'entries': {}, 'kind': {}, 'dt': {}, 'cells': {}, 'dim': dim})
        init = {v: fr.vars[v] for v in cand}
        part = it.lo not in (None, 0) or it.hi is not None
        if part:
            name = name + (('part', repr(it.lo), repr(it.hi)),)
        # values of non-additive variables met at the head
        states = {}
        ck = self.ctxkey()
        for v in other + [v for v in cand if tb['kind'].get((ck, v)) == 'state']:
            pk = ('states', name, ck, v)
            s = self.persist.setdefault(pk, {})
            s.setdefault(repr(Canon(self).c(fr.vars[v])), fr.vars[v])
            states[v] = s
        st_cand = [v for v in cand if v not in states]
        mode = self.choose(2)
        if mode == 0:
            f0 = dict(self.facts)
            beta = {}
            for v in st_cand:
                b = alg.sym(('beta', name, v), None, 'beta')
                beta[v] = b
                fr.vars[v] = b.with_dt(self.numdt(init[v]))
            for v, s in states.items():
                vals = [s[k] for k in sorted(s)]
                fr.vars[v] = vals[self.choose(len(vals))]
            tok = self.generic(dim)
            l.tok = tok
            l.acc = {'name': name, 'tb': tb, 'cells': {}}
            self.loops.append(l)
            if self.policy:
                self.policy.on_generic(self, tok)
            brk = False
            try:
                one(it.item(tok))
            except BreakSig:
                brk = True
            facts = self.label(tok)
            last = {}
            for v in st_cand:
                end = fr.vars[v]
                if not self.isnum(end):
                    if type(end) in (Top, Carried):
                        raise Undecided('loop variable %s' % v)
                    self.mark_state(tb, ck, v)
                    continue
                dt = self.numdt(end)
                d = alg.sub(self.toR(end), beta[v])
                if any(a.kind == 'beta' and a.key[1:] == (name, v) for a in d.all_atoms()):
                    if type(end) is R and end.const() is None and any(a.kind == 'beta' for a in end.all_atoms()):
                        # depends on its previous value other than by addition
                        tb['kind'][(ck, v)] = 'mixed'
                    else:
                        self.mark_state(tb, ck, v)
                        continue
                if brk:
                    tb['kind'][('partial', v)] = True
                self.record(tb, v, facts, d)
                last[v] = d
                self.policy_event('acc', v, dt, d, name)
                odt = tb['dt'].get(v)
                if odt is None or dt != odt:
                    tb['dt'][v] = dt if odt is None or odt == dt else self.joindt(odt, dt)
            for v, s in states.items():
                k = repr(Canon(self).c(fr.vars[v]))
                if k not in s:
                    s[k] = fr.vars[v]
                    if len(s) > 12:
                        raise Undecided('loop variable %s takes many values' % v)
                    raise Restart()
            for (st, idx), (d, dt) in l.acc['cells'].items():
                self.record(tb, ('cell', st.uid, idx), facts, d)
                tb['cells'][(st.uid, idx)] = dt
                self.policy_event('acc', 'element', dt, d, name)
            inc = dict(last)
            for (st, idx), (d, dt) in l.acc['cells'].items():
                inc[('cell', st.uid, idx)] = d
            self.policy_event('sumiter', name, dim, tok, inc, brk, part)
            for st, idx in l.writes:
                if not any(x is tok for x in idx) and st.birth < l.birth:
                    tb['kind'][('write', st.uid)] = True
            raise Prune()
        # after the loop
        brkp = False
        for v in st_cand:
            k = tb['kind'].get((ck, v))
            if k == 'mixed':
                fr.vars[v] = Top('non-additive loop variable %s' % v)
                continue
            es = self.entries(tb, v)
            if not es or all(alg.is_zero(d) for _, d in es):
                fr.vars[v] = init[v]
                continue
            s = self.sigma(name, v, es, dim)
            r = alg.add(self.toR(init[v]), s)
            dt = self.addt(self.numdt(init[v]), tb['dt'].get(v))
            fr.vars[v] = r.with_dt(dt)
        for v, s in states.items():
            vals = [s[k] for k in sorted(s)]
            if len(vals) > 1:
                fr.vars[v] = vals[self.choose(len(vals))]
            else:
                fr.vars[v] = vals[0]
        for (u, idx), dt in list(tb['cells'].items()):
            st = self.allstores.get(u)
            if st is None:
                continue
            es = self.entries(tb, ('cell', u, idx))
            s = self.sigma(name, ('cell', u, idx), es, dim)
            if self.acc_put(st, idx, s, self.loops):
                continue
            old = st.cells[idx] if idx in st.cells else st.base.get(self, idx)
            st.cells[idx] = alg.add(self.toR(old), s).with_dt(st.dt)
            st.dirty = True
        for k in tb['kind']:
            if k[0] == 'write':
                st = self.allstores.get(k[1])
                if st is not None:
                    st.base = Const(Top('array written in a loop over %s' % dim.name))
                    st.cells = {}
                    st.dirty = True
        for (u, op, arrkey), val in list(tb.get('bulk', {}).items()):
            pass
        for v in assigned | targets:
            if v in fr.vars and v not in cand and v not in states:
                fr.vars[v] = Top('value of %s after a loop over %s' % (v, dim.name))
            elif v in targets:
                fr.vars[v] = Top('loop variable after the loop')
        return False

    def ctxkey(self):
        return repr(sorted(map(repr, self.facts.items())))

    def mark_state(self, tb, ck, v):
        if tb['kind'].get((ck, v)) != 'state':
            tb['kind'][(ck, v)] = 'state'
            self.kindfix = True
            raise Restart()

    def joindt(self, a, b):
        if a in RANK and b in RANK:
            return promote(a, b)
        return b if a in ('pyint', 'pyfloat') else a

    def addt(self, a, b):
        if b is None:
            return a
        if a in ('pyint', 'pybool') or a is None:
            return b
        if b in ('pyint', 'pybool', 'pyfloat'):
            return a
        return promote(a, b)

    def record(self, tb, v, facts, d):
        e = tb['entries'].setdefault(v, {})
        e.setdefault((facts, d.key()), d)

    def entries(self, tb, v):
        return [(f, d) for (f, _), d in tb['entries'].get(v, {}).items()]

    def label(self, tok):
        """facts distinguishing this iteration: values read, classes of latent members"""
        lab = []
        for k, v in self.facts.items():
            lab.append(('f', k[0], k[1], self.plain(v)))
        for d, g in self.members.items():
            for t in g:
                ti = self.tinfo[t]
                for ctx, c in ti.cls.items():
                    lab.append(('g', d.name, ctx, c[0], t if ti.star else None, ti.cnt))
        for k, s in self.signs.items():
            lab.append(('s', k, s))
        return frozenset(lab)

    def plain(self, v):
        if type(v) is NI:
            return v.v
        if type(v) is NB:
            return int(v.v)
        if type(v) is R:
            c = v.const()
            return c if c is not None else v.key()
        return v

    def sigma(self, name, v, es, dim):
        """atom standing for the sum over all members; a plain sum of one normal form is keyed by its body"""
        if len(es) == 1 and self.unlabelled(es[0][0], dim) and not (type(name[-1]) is tuple and name[-1][:1] == ('part',)):
            d = es[0][1]
            c = d.const()
            if c is not None:
                return alg.mul(rc(c), dim.size)
            if any(a.kind in ('sigma', 'beta') for a in d.all_atoms()):
                return alg.sym(('sigma', name, v), None, 'sigma')
            g = self.gentoks(d, dim)
            if not g:
                return alg.mul(d, dim.size)
            key = ('SUM', dim.name, d.key())
            self.sums[key] = (dim, d)
            return alg.sym(key, None, 'SUM')
        key = ('sigma', name, v)
        a = alg.sym(key, None, 'sigma')
        return a

    sums = {}

    def unlabelled(self, facts, dim):
        gt = set(getattr(dim, 'gen', ())) | {dim.star}
        for f in facts:
            if f[0] == 'f' and any(t in gt for t in f[2]):
                return False
            if f[0] == 'g' and any(t in gt for t in f[2]):
                return False
        return True

    def gentoks(self, d, dim):
        out = set()
        for a in d.all_atoms():
            if type(a.key) is tuple:
                self.key_toks(a.key, out)
        return {t for t in out if t in set(getattr(dim, 'gen', ())) | {dim.star}}

    def generic(self, dim):
        """a generic member (distinct from or equal to the ones in use)"""
        active = []
        for l in self.loops:
            if l.dim is dim and l.tok is not None and l.tok not in active:
                active.append(l.tok)
        for t in self.genstack:
            if t.dim is dim and t not in active:
                active.append(t)
        extra = self.policy.known_tokens(self, dim) if self.policy else ()
        for t in extra:
            if t not in active:
                active.append(t)
        if active:
            k = self.choose(len(active) + 1)
            if k:
                return active[k - 1]
        if not hasattr(dim, 'gen'):
            dim.gen = []
        if dim.star not in active:
            return dim.star
        i = len([t for t in active if t is not dim.star])
        while len(dim.gen) <= i:
            dim.gen.append(Tok(dim, '%s_%d' % (dim.name.lower(), len(dim.gen))))
        t = dim.gen[i]
        self.tinfo.setdefault(t, TI())
        return t

    def acc_loop(self, st, idx, loops):
        """innermost loop over a symbolic dimension across which the cell accumulates"""
        out = None
        for l in reversed(loops):
            if st.birth > l.birth:
                break
            if l.kind in ('sum', 'star') and l.tok is not None and not any(x is l.tok for x in idx):
                out = l
                break
        if out is not None and out.kind == 'star' and self.dims[out.dim.name].mode == 'star' and not out.par:
            self.add_persist(('sum', out.site), True)
        return out if out is not None and out.kind == 'sum' else None

    def acc_put(self, st, idx, d, loops):
        l = self.acc_loop(st, idx, loops)
        if l is None:
            return False
        c = l.acc['cells']
        if (st, idx) in c:
            d = alg.add(c[(st, idx)][0], d)
        c[(st, idx)] = (d, st.dt)
        return True

    def acc_cell(self, o, k, op, v):
        """a[k] += v inside a sum loop where k does not depend on the iteration"""
        if not self.loops or not self.isnum(v):
            return False
        k = self.norm_index(o, k)
        if k is None:
            return False
        idx = self.mapidx(o, k)
        l = self.acc_loop(o.st, idx, self.loops)
        if l is None:
            return False
        d = self.toR(v)
        if op == 'Sub':
            d = alg.neg(d)
        self.touched(o.st, idx)
        return self.acc_put(o.st, idx, d, self.loops)

    def touched(self, st, idx):
        if st.tag is not None:
            self.policy_event('write', st, idx, None)

    def acc_array(self, o, op, v):
        """A += B inside a sum loop"""
        if not self.loops or o.st.birth > self.loops[-1].birth:
            return False
        idx = []
        conc = [range(s) if type(s) is int else None for s in o.shape]
        for s, c in zip(o.shape, conc):
            if c is not None:
                idx.append(None)
                continue
            d = self.dim_of(s)
            if d is None:
                raise Undecided('array sum in a loop')
            idx.append(d.star)
        import itertools
        todo = []
        for t in itertools.product(*[c if c is not None else (i,) for c, i in zip(conc, idx)]):
            si = self.mapidx(o, t)
            if self.acc_loop(o.st, si, self.loops) is None:
                return False
            todo.append((t, si))
        for t, si in todo:
            e = self.elem(v, self.bidx(v, t)) if type(v) is Arr else v
            d = self.toR(e)
            if op == 'Sub':
                d = alg.neg(d)
            self.touched(o.st, si)
            self.acc_put(o.st, si, d, self.loops)
        return True

    allstores = {}


class NoChoice(Exception):
    pass


class AnchorMissing(Exception):
    pass

"""Abstract arrays: views, elements, bulk operations, reductions."""
import ast
from fractions import Fraction
from . import alg
from .alg import R, rc
from .values import *
from .engine import TI, Base, Const, Leaf, Fn, Layer, Frozen, Store, Arr, MArr, Frame
from .ev import LazySeq, SliceV, PYNUM, FLOATS, NPTYPES, DTALIAS, Canon_


class PNode:
    """program point of a library reduction"""

    def __init__(self, lineno, col):
        self.lineno, self.col_offset = lineno, col


class Arrays:
    def size(self, s):
        if type(s) is int:
            return s
        if type(s) is NI and type(s.v) is int:
            return s.v
        if type(s) is R:
            c = s.const()
            if c is not None:
                if c.denominator != 1 or s.dt in FLOATS:
                    raise PyExc('TypeError', 'float object cannot be interpreted as an integer', self.where())
                return int(c)
            if s.dt in ('float64', 'pyfloat') and not self.integral(s):
                raise Undecided('array size %s' % s)
            return s.with_dt('pyint')
        if type(s) is bool:
            return int(s)
        if type(s) in (Tok, TokOff):
            return self.tokR(s)
        raise Undecided('array size %r' % (s,))

    def shapeof(self, v):
        if type(v) in (tuple, LList):
            return tuple(self.size(x) for x in (v if type(v) is tuple else v.v))
        if type(v) is Arr and len(v.shape) == 1 and type(v.shape[0]) is int:
            return tuple(self.size(self.elem(v, (i,))) for i in range(v.shape[0]))
        return (self.size(v),)

    def new(self, shape, dt, base, tag=None):
        st = Store()
        st.uid = st.birth = self.uid()
        st.dt, st.base, st.cells, st.dirty, st.frozen, st.tag = dt, base, {}, False, False, tag
        st.site = (self.site() if self.frames else ('scenario', tag or st.uid))
        st.bulk = False
        self.allstores[st.uid] = st
        ax = tuple(('a', i) for i in range(len(shape)))
        return Arr(st, ax, tuple(shape))

    def leafarr(self, name, shape, dom, dt, tag=None):
        return self.new(shape, dt, Leaf(name, dom, dt), tag or name)

    def full(self, shape, v, dt):
        return self.new(shape, dt, Const(self.cast(v, dt)))

    # -- leaf cells
    def leaf(self, leaf, idx):
        dom = leaf.dom
        if callable(dom):
            return dom(self, leaf, idx)
        kind = dom[0]
        if kind == 'atom':
            return alg.sym(('leaf', leaf.name) + tuple(idx), dom[1], 'leaf').with_dt(leaf.dt)
        k = (leaf.name, idx)
        v = self.facts.get(k)
        if v is None:
            vals = list(dom[1])
            if self.policy is not None:
                vals = self.policy.allowed(self, leaf, idx, vals)
            if not vals:
                raise Prune()
            if len(vals) > 1:
                for t in idx:
                    if type(t) is Tok and getattr(self.tinfo.get(t), 'seen', False):
                        if not self.inexact:
                            self.inexact = 'input element read again'
            v = vals[self.choose(len(vals))]
            self.facts[k] = v
        return self.wrap(v, leaf.dt)

    # -- indices
    def mapidx(self, a, idx):
        out = []
        for x in a.ax:
            if x[0] == 'i':
                out.append(x[1])
            elif x[0] == 'a':
                out.append(idx[x[1]])
            else:
                out.append(x[2] + x[3] * idx[x[1]])
        return tuple(out)

    def unmap(self, a, sidx):
        out = [0] * len(a.shape)
        for x, s in zip(a.ax, sidx):
            if x[0] == 'i':
                if x[1] is s:
                    continue
                if type(x[1]) is int and type(s) is int:
                    if x[1] != s:
                        return None
                    continue
                if self.may_equal(x[1], s):
                    raise Undecided('array element that may or may not have been assigned')
                return None
            if x[0] == 'a':
                out[x[1]] = s
            else:
                if type(s) is not int:
                    raise Undecided('array element that may or may not have been assigned')
                j, r = divmod(s - x[2], x[3])
                if r or not 0 <= j < a.shape[x[1]]:
                    return None
                out[x[1]] = j
        return tuple(out)

    def may_equal(self, a, b):
        if a is b:
            return True
        ta, tb = type(a), type(b)
        if ta is int and tb is int:
            return a == b
        if ta is Tok and tb is Tok:
            if a.dim is not b.dim:
                return False
            if a.dim.mode == 'star' and (a is a.dim.star or b is b.dim.star):
                # the star member stands for every member once its loop has ended
                return not (self.tok_active(a) and self.tok_active(b))
            return False
        if ta is Tok and tb is int:
            a, b, ta, tb = b, a, tb, ta
        if ta is int and tb is Tok:
            ti = self.tinfo.get(b)
            if ti is not None and ti.first is not None and ti.first != a:
                return False
            if ti is not None and ti.first == a:
                return True
            return True
        return True

    def tok_active(self, t):
        return any(l.tok is t or l.cur is t for l in self.loops)

    def read(self, st, sidx):
        c = st.cells
        if self.aux.get('shift') and type(st.base) is not Leaf and any(
                x is t for x in sidx if type(x) is Tok for t in self.shifts.values()):
            raise Undecided('element at a shifted position that may or may not have been assigned')
        if c:
            if sidx in c:
                return c[sidx]
            for k in c:
                if all(x is y or x == y or self.may_equal(x, y) for x, y in zip(k, sidx)):
                    raise Undecided('array element that may or may not have been assigned')
        v = st.base.get(self, sidx)
        if type(v) is Carried:
            self.carried(v)
        return v

    def elem(self, a, idx):
        if type(a) is MArr:
            return self.elem(a.arr, idx)
        if type(a) is not Arr:
            return a
        if len(idx) != len(a.shape):
            raise Undecided('partial index')
        return self.read(a.st, self.mapidx(a, idx))

    def snap(self, a):
        if type(a) is MArr:
            return MArr(self.snap(a.arr), self.snap(a.mask))
        if type(a) is not Arr:
            return a
        if type(a.st.base) in (Leaf, Const, Fn, Frozen, Layer) and not a.st.cells:
            b = a.st.base
        else:
            b = Frozen(self, a.st.base, dict(a.st.cells))
        st = Store()
        st.uid = st.birth = self.uid()
        st.dt, st.base, st.cells, st.dirty, st.frozen, st.tag = a.st.dt, b, {}, False, True, a.st.tag
        st.site = a.st.site
        st.bulk = False
        return Arr(st, a.ax, a.shape)

    def fnarr(self, op, deps, shape, dt, fn):
        s = [self.snap(d) for d in deps]
        return self.new(shape, dt, Fn(op, s, lambda idx: self.cast(fn(s, idx), dt)))

    def copyarr(self, a, dt=None):
        dt = dt or a.dt
        s = self.snap(a)
        if dt == a.dt and all(x == ('a', i) for i, x in enumerate(a.ax)) and len(a.ax) == len(a.shape):
            r = self.new(a.shape, dt, s.st.base)
            return r
        return self.new(a.shape, dt, Fn('copy', [s], lambda idx: self.cast(self.elem(s, idx), dt)))

    def chk_index(self, x, s, ax):
        """one scalar index into an axis of size s"""
        t = type(x)
        if t is NI:
            x = x.v
            t = type(x)
        if t is bool or t is NB:
            raise Undecided('boolean scalar index')
        if t is R:
            c = x.const()
            if c is not None and c.denominator == 1:
                if x.dt in FLOATS:
                    raise PyExc('IndexError', 'only integers are valid indices', self.where())
                x, t = int(c), int
            else:
                p = self.as_pos(x)
                if p is None:
                    p = self.shifted(x, s)
                if p is None:
                    raise Undecided('index %s' % x)
                x, t = p, type(p)
        if t is int:
            if type(s) is int:
                if not -s <= x < s:
                    raise PyExc('IndexError', 'index %d is out of bounds for axis %d with size %d' % (x, ax, s), self.where())
                return x % s if s else x
            d = self.dim_of(s)
            if d is not None and d in self.members and d.mode in ('full', 'starfull'):
                return self.posn(d, x)
            return x
        if t is Tok:
            d = self.dim_of(s)
            if d is not x.dim:
                if type(s) is R and d is None:
                    raise Undecided('axis of size %s' % s)
                self.policy_event('axis', 'axis %d of length %s indexed with a position of axis %s' % (ax, s, x.dim.name))
                raise PyExc('IndexError', 'axis of length %s indexed with a position along %s' % (s, x.dim.name), self.where())
            return x
        if t is TokOff:
            p = self.shifted(self.tokR(x), s)
            if p is not None:
                return p
        if t is Sat or t is TokOff:
            raise Undecided('index %r' % (x,))
        if t is Carried:
            self.carried(x)
        if t is Top:
            raise Undecided('unknown index (%s)' % x.why)
        raise PyExc('IndexError', 'only integers, slices and arrays are valid indices', self.where())

    def posn(self, d, x):
        """member of an enumerated dimension at position x"""
        g = self.groups(d)
        for t in g:
            if self.tinfo[t].first == x:
                return t
        cands = [t for t in g if self.tinfo[t].first is None]
        if x not in (0, -1) or not cands:
            if not cands:
                raise PyExc('IndexError', 'index %d is out of bounds' % x, self.where())
            raise Undecided('position %d of %s' % (x, d.name))
        t, _ = self.materialise(cands[self.choose(len(cands))], d)
        self.tinfo[t].first = x
        return t

    def shifted(self, r, s):
        """another position at a constant distance on the same axis"""
        a = [x for x in r.atoms() if type(x.key) is tuple and x.key[0] == 'pos']
        if len(a) != 1:
            return None
        o = alg.sub(r, alg.ra(a[0])).const()
        p = a[0].key[1]
        if o is None or o.denominator != 1 or type(p) is not Tok or p.dim.mode != 'star' or self.dim_of(s) is not p.dim:
            return None
        self.inexact = self.inexact or 'shifted position'
        self.aux['shift'] = True
        t = self.shifts.setdefault((p, int(o)), Tok(p.dim, '%s%+d' % (p.name, o)))
        self.tinfo.setdefault(t, TI())
        return t

    def as_pos(self, r):
        a = r.atoms()
        if len(a) == 1 and r.d == alg._ONE and len(r.n) == 1:
            x = next(iter(a))
            if type(x.key) is tuple and x.key[0] == 'pos' and r.n.get(((x.i, 1),)) == 1:
                return x.key[1]
        return None

    def norm_index(self, o, k):
        """index tuple as full-length list of scalars (None if not purely scalar)"""
        ks = list(k) if type(k) is tuple else [k]
        if len(ks) != len(o.shape):
            return None
        out = []
        for i, x in enumerate(ks):
            if type(x) in (SliceV, Arr, LList, MArr, LazySeq) or x is None or x is Ellipsis:
                return None
            out.append(self.chk_index(x, o.shape[i], i))
        return tuple(out)

    def view(self, o, k):
        """Arr view or scalar index tuple; fancy indices -> ('fancy', ...)"""
        ks = list(k) if type(k) is tuple else [k]
        if any(x is Ellipsis for x in ks):
            i = [j for j, x in enumerate(ks) if x is Ellipsis][0]
            n = len([x for x in ks if x is not None and x is not Ellipsis])
            ks = ks[:i] + [SliceV(None, None, None)] * (len(o.shape) - n) + ks[i + 1:]
        n = len([x for x in ks if x is not None])
        if n > len(o.shape):
            raise PyExc('IndexError', 'too many indices for array', self.where())
        ks += [SliceV(None, None, None)] * (len(o.shape) - n)
        sub = {}
        shape = []
        j = 0
        for x in ks:
            if x is None:
                shape.append(1)
                continue
            s = o.shape[j]
            if type(x) is SliceV:
                sub[j] = self.slc(x, s, len(shape))
                shape.append(sub[j][1])
                sub[j] = sub[j][0]
            else:
                sub[j] = ('i', self.chk_index(x, s, j))
            j += 1
        ax = []
        for a in o.ax:
            if a[0] == 'i':
                ax.append(a)
            elif a[0] == 'a':
                ax.append(sub[a[1]])
            else:
                m = sub[a[1]]
                if m[0] == 'i':
                    ax.append(('i', a[2] + a[3] * m[1]))
                elif m[0] == 'a':
                    ax.append(('s', m[1], a[2], a[3]))
                else:
                    ax.append(('s', m[1], a[2] + a[3] * m[2], a[3] * m[3]))
        return Arr(o.st, tuple(ax), tuple(shape))

    def slc(self, x, s, newax):
        lo, hi, st = x.lo, x.hi, x.st
        if lo is None and hi is None and (st is None or self.concrete(st) == 1):
            return ('a', newax), s
        if type(s) is int:
            sl = self.pyslice(x)
            r = range(s)[sl]
            if r.step == 1 and r.start == 0 and len(r) == s:
                return ('a', newax), s
            return ('s', newax, r.start, r.step), len(r)
        if lo is None or self.isnum(lo) and self.concrete(lo) == 0:
            if type(hi) is R and hi.key() == s.key():
                return ('a', newax), s
        cl = 0 if lo is None else self.concrete(lo) if self.isnum(lo) else None
        ch = self.concrete(hi) if hi is not None and self.isnum(hi) else None
        if cl is not None and ch is not None and cl >= 0 and ch >= 0 and st is None:
            if not self.inexact:
                self.inexact = 'leading part of an axis'
            return ('s', newax, cl, 1), max(0, ch - cl)
        raise Undecided('slice of a symbolic axis')

    def arr_getitem(self, o, k):
        if type(k) in (Arr, MArr, LList, LazySeq):
            return self.fancy(o, [k])
        if type(k) is tuple and any(type(x) in (Arr, MArr, LList, LazySeq, tuple) for x in k):
            return self.fancy(o, list(k))
        if not o.shape:
            if k == ():
                return self.elem(o, ())
            raise PyExc('IndexError', 'too many indices for array', self.where())
        v = self.view(o, k)
        if not v.shape:
            return self.read(v.st, self.mapidx(v, ()))
        return v

    def boolish(self, k):
        return type(k) is Arr and k.dt == 'bool'

    def fancy(self, o, ks):
        if len(ks) == 1 and type(ks[0]) is Arr and ks[0].shape == () and ks[0].dt != 'bool':
            return self.arr_getitem(o, self.elem(ks[0], ()))
        if len(ks) == 1 and type(ks[0]) is LList:
            ks = [self.toarr(ks[0])]
        if len(ks) == 1 and self.boolish(ks[0]):
            m = ks[0]
            if len(m.shape) == len(o.shape):
                for x, y in zip(m.shape, o.shape):
                    if not self.same(x, y):
                        self.mismatch(m.shape, o.shape)
                if all(type(x) is int for x in m.shape) and len(m.shape) == 1:
                    out = [self.elem(o, (i,)) for i in range(m.shape[0]) if self.truth(self.elem(m, (i,)))]
                    return self.toarr(LList(out), o.dt)
                if all(type(x) is int for x in m.shape) and self.prodint(m.shape) <= 64:
                    import itertools
                    ix = list(itertools.product(*[range(n) for n in m.shape]))
                    bs = [self.elem(m, i) for i in ix]
                    if all(type(b) in (bool, NB) for b in bs):
                        return self.toarr(LList([self.elem(o, i) for i, b in zip(ix, bs) if (b if type(b) is bool else b.v)]), o.dt)
                return MArr(self.snap(o), self.snap(m))
            raise Undecided('boolean index along some axes')
        if len(ks) == 1 and type(ks[0]) is Arr and len(ks[0].shape) == 1 and type(ks[0].shape[0]) is int:
            ii = [self.elem(ks[0], (i,)) for i in range(ks[0].shape[0])]
            if all(type(x) in (NI, int) for x in ii):
                rows = [self.arr_getitem(o, x) for x in ii]
                if not rows:
                    return self.new((0,) + tuple(o.shape[1:]), o.dt, Const(None))
                return self.stack(rows, o.dt)
        # positions found by nonzero / argsort and the like
        if len(ks) == 1 and type(ks[0]) is Arr and len(o.shape) == 1 and len(ks[0].shape) >= 1:
            ix = self.snap(ks[0])
            so = self.snap(o)
            return self.fnarr('take', [so, ix], ix.shape, o.dt,
                              lambda s, idx: self.arr_getitem(s[0], self.elem(s[1], idx)))
        ks = [self.toarr(x) if type(x) is LList else x for x in ks]
        ia = [i for i, x in enumerate(ks) if type(x) is Arr and len(x.shape) == 1]
        if len(ia) == 1 and all(type(x) in (SliceV, Arr) or self.isnum(x) or type(x) is Tok for x in ks) and \
                not self.boolish(ks[ia[0]]):
            i = ia[0]
            ix = ks[i]
            if type(ix.shape[0]) is int:
                rows = []
                if ix.shape[0] == 0:
                    full = ks + [SliceV(None, None, None)] * (len(o.shape) - len(ks))
                    sh = [0 if j == i else self.slc(x, o.shape[j], 0)[1] for j, x in enumerate(full)
                          if j == i or type(x) is SliceV]
                    return self.new(tuple(sh), o.dt, Const(None))
                for j in range(ix.shape[0]):
                    kk = list(ks)
                    kk[i] = self.elem(ix, (j,))
                    rows.append(self.arr_getitem(o, tuple(kk)))
                # result axis position = number of slices before
                p = len([x for x in ks[:i] if type(x) is SliceV])
                r = self.stack(rows, o.dt)
                perm = list(range(1, p + 1)) + [0] + list(range(p + 1, len(r.shape)))
                return self.transpose(r, perm)
        cells = self.cellset(o, ks)
        if cells is not None:
            if not cells:
                return self.new((0,), o.dt, Const(None))
            return self.stack([self.arr_getitem(o, c) for c in cells], o.dt)
        if len(ia) == 1 and self.boolish(ks[ia[0]]) and type(ks[ia[0]].shape[0]) is int:
            i = ia[0]
            m = ks[i]
            sel = [j for j in range(m.shape[0]) if self.truth(self.elem(m, (j,)))]
            ks[i] = self.toarr(LList(sel), 'int64')
            return self.fancy(o, ks)
        raise Undecided('index arrays')

    def stack(self, rows, dt):
        """array whose first axis enumerates rows"""
        if not rows:
            return self.new((0,), dt, Const(None))
        sh = rows[0].shape if type(rows[0]) is Arr else ()
        s = [self.snap(r) for r in rows]
        return self.new((len(rows),) + sh, dt,
                        Fn('stack', s, lambda idx: self.cast(self.elem(s[idx[0]], idx[1:]), dt)))

    def same(self, x, y):
        if type(x) is int and type(y) is int:
            return x == y
        if type(x) is R and type(y) is R:
            return x.key() == y.key()
        return False

    def mismatch(self, a, b):
        sh = lambda s: '(%s)' % ', '.join(str(x) for x in s)
        self.policy_event('axis', 'operands of shapes %s and %s are combined' % (sh(a), sh(b)))
        raise PyExc('ValueError', 'operands could not be broadcast together with shapes %s %s' % (sh(a), sh(b)), self.where())

    def broadcast(self, *shapes):
        n = max(len(s) for s in shapes)
        out = []
        for i in range(n):
            c = 1
            for s in shapes:
                j = i - (n - len(s))
                if j < 0:
                    continue
                x = s[j]
                if type(x) is int and x == 1:
                    continue
                if type(c) is int and c == 1:
                    c = x
                elif not self.same(c, x):
                    self.mismatch(shapes[0], shapes[-1])
            out.append(c)
        return tuple(out)

    def bidx(self, a, idx):
        """index of a broadcast operand"""
        if type(a) is not Arr:
            return None
        k = len(a.shape)
        sub = idx[len(idx) - k:]
        return tuple(0 if type(s) is int and s == 1 else i for s, i in zip(a.shape, sub))

    def bel(self, a, idx):
        return self.elem(a, self.bidx(a, idx)) if type(a) is Arr else a

    def arrop(self, op, a, b):
        if type(a) in (LList, tuple, LazySeq):
            a = self.toarr(a)
        if type(b) in (LList, tuple, LazySeq):
            b = self.toarr(b)
        if type(a) is MArr or type(b) is MArr:
            m = a.mask if type(a) is MArr else b.mask
            if type(a) is MArr and type(b) is MArr:
                if m is not b.mask and Canon_(self, a.mask) != Canon_(self, b.mask):
                    raise Undecided('selections with different masks')
            x = a.arr if type(a) is MArr else a
            y = b.arr if type(b) is MArr else b
            if type(a) is Arr or type(b) is Arr:
                raise Undecided('selection combined with an array')
            return MArr(self.arrop(op, x, y), m)
        for x in (a, b):
            if type(x) in (Tok, TokOff):
                pass
            elif type(x) is not Arr and not self.isnum(x):
                if op in ('Eq', 'NotEq'):
                    return op == 'NotEq'
                raise PyExc('TypeError', 'bad operand for array operation', self.where())
        if type(a) in (Tok, TokOff):
            a = self.tokR(a)
        if type(b) in (Tok, TokOff):
            b = self.tokR(b)
        sa = a.shape if type(a) is Arr else ()
        sb = b.shape if type(b) is Arr else ()
        sh = self.broadcast(sa, sb)
        da = a.dt if type(a) is Arr else self.numdt(a)
        db = b.dt if type(b) is Arr else self.numdt(b)
        if op in ('Eq', 'NotEq', 'Lt', 'LtE', 'Gt', 'GtE'):
            dt = 'bool'

            def fn(s, idx):
                r = self.cmpop(op, self.bel(s[0], idx), self.bel(s[1], idx))
                return r if type(r) in (bool, NB) else r
        else:
            dt = self.rdt(op, da, db)

            def fn(s, idx):
                return self.binop(op, self.bel(s[0], idx), self.bel(s[1], idx))
        if not sh:
            return fn([a, b], ())
        return self.fnarr(op, [a, b], sh, dt, fn)

    # -- writes
    def write(self, st, sidx, v):
        v = self.cast(v, st.dt)
        if self.aux.get('shift') and any(x is t for x in sidx if type(x) is Tok for t in self.shifts.values()):
            raise Undecided('store at a shifted position')
        if st.tag is not None:
            self.policy_event('write', st, sidx, v)
        for k in list(st.cells):
            if k != sidx and all(x is y or x == y or self.may_equal(x, y) for x, y in zip(k, sidx)):
                raise Undecided('array element that may or may not have been assigned')
        st.cells[sidx] = v
        if st.uid < self.mark_uid:
            st.dirty = True
        for t in sidx:
            if type(t) is Tok:
                self.tokstores.setdefault(t, set()).add(st)
        for l in self.loops:
            if l.kind in ('star', 'sum') and st.birth < l.birth:
                l.writes.append((st, sidx))
                if l.kind == 'sum' and not any(x is l.tok for x in sidx):
                    pass

    def assign_view(self, view, val, mask=None):
        st = view.st
        if type(val) in (LList, tuple, LazySeq):
            val = self.toarr(val)
        if type(val) is Arr:
            sh = self.broadcast(view.shape, val.shape)
            if len(sh) != len(view.shape) or not all(self.same(x, y) for x, y in zip(sh, view.shape)):
                self.mismatch(view.shape, val.shape)
        elif type(val) is MArr:
            if mask is None:
                raise Undecided('selection assigned to a view')
        elif val is None or type(val) in (str, Obj):
            if st.dt != 'object':
                raise PyExc('TypeError', 'float() argument must be a number', self.where())
        if st.tag is not None:
            self.policy_event('bulkwrite', st, view, val, mask)
        # small concrete views cell by cell
        if mask is None and all(type(s) is int for s in view.shape) and self.prodint(view.shape) <= 64:
            s = self.snap(val) if type(val) is Arr else val
            import itertools
            for idx in itertools.product(*[range(n) for n in view.shape]):
                self.write(st, self.mapidx(view, idx), self.bel(s, idx) if type(s) is Arr else s)
            return
        s = self.snap(val) if type(val) in (Arr, MArr) else self.cast(val, st.dt)
        if type(s) is MArr:
            if Canon_(self, s.mask) != Canon_(self, self.snap(mask)):
                raise Undecided('selections with different masks')
            s = s.arr
        dt = st.dt
        if type(s) is Arr:
            src = s
            fs = Fn('assign', [src], lambda idx: self.cast(self.bel(src, idx), dt))
            sv = Store()
            sv.uid = sv.birth = self.uid()
            sv.dt, sv.base, sv.cells, sv.dirty, sv.frozen, sv.tag, sv.site, sv.bulk = dt, fs, {}, False, True, None, None, False
            s = Arr(sv, tuple(('a', i) for i in range(len(view.shape))), view.shape)
        old = Frozen(self, st.base, dict(st.cells)) if st.cells else st.base
        st.base = Layer(view, s, old, self.snap(mask) if mask is not None else None)
        st.cells = {}
        if st.uid < self.mark_uid:
            st.dirty = True
        for l in self.loops:
            if l.kind in ('star', 'sum') and st.birth < l.birth:
                l.writes.append((st, tuple(x[1] if x[0] == 'i' else None for x in view.ax)))

    def prodint(self, sh):
        p = 1
        for x in sh:
            p *= x
        return p

    def arr_setitem(self, o, k, v):
        if type(v) is Arr and v.shape == ():
            v = self.elem(v, ())
        if type(k) is LList:
            k = self.toarr(k)
        if self.boolish(k):
            if len(k.shape) != len(o.shape):
                raise Undecided('boolean index along some axes')
            for x, y in zip(k.shape, o.shape):
                if not self.same(x, y):
                    self.mismatch(k.shape, o.shape)
            if all(type(x) is int for x in k.shape) and self.prodint(k.shape) <= 64:
                import itertools
                sel = [i for i in itertools.product(*[range(n) for n in k.shape]) if self.truth(self.elem(k, i))]
                if type(v) is Arr and v.shape != ():
                    if len(v.shape) == 1 and type(v.shape[0]) is int and v.shape[0] == len(sel):
                        for j, i in enumerate(sel):
                            self.write(o.st, self.mapidx(o, i), self.elem(v, (j,)))
                        return
                    raise Undecided('masked assignment')
                if type(v) is MArr:
                    for x, y in zip(v.mask.shape, k.shape):
                        if not self.same(x, y):
                            raise Undecided('selections with different masks')
                    if any(self.truth(self.elem(v.mask, i)) != (i in sel)
                           for i in itertools.product(*[range(n) for n in k.shape])):
                        raise Undecided('selections with different masks')
                    new = [self.elem(v.arr, i) for i in sel]
                    for i, x in zip(sel, new):
                        self.write(o.st, self.mapidx(o, i), x)
                    return
                for i in sel:
                    self.write(o.st, self.mapidx(o, i), v)
                return
            if type(v) is Arr:
                raise Undecided('masked assignment of an array')
            self.assign_view(o, v, k)
            return
        ks = list(k) if type(k) is tuple else [k]
        if any(type(x) in (Arr, MArr, LList, LazySeq, tuple) for x in ks):
            h = self.fancyset(o, ks, v)
            if h:
                return
            raise Undecided('assignment through index arrays')
        view = self.view(o, k)
        if not view.shape:
            if type(v) in (Arr, LList, tuple):
                if type(v) is Arr and all(s == 1 for s in v.shape if type(s) is int) and \
                        all(type(s) is int for s in v.shape):
                    v = self.elem(v, (0,) * len(v.shape))
                elif o.dt != 'object':
                    raise PyExc('ValueError', 'setting an array element with a sequence', self.where())
            self.write(view.st, self.mapidx(view, ()), v)
            return
        self.assign_view(view, v)

    def cellset(self, o, ks):
        """the cells named by parallel integer arrays of known length, one per axis"""
        if len(ks) != len(o.shape) or len(ks) < 2 or \
                not all(type(x) is Arr and len(x.shape) == 1 and type(x.shape[0]) is int and x.dt != 'bool' for x in ks):
            return None
        n = ks[0].shape[0]
        if any(x.shape[0] != n for x in ks):
            return None
        return [tuple(self.elem(x, (j,)) for x in ks) for j in range(n)]

    def fancyset(self, o, ks, v):
        ks = [self.toarr(x) if type(x) is LList else x for x in ks]
        cells = self.cellset(o, ks)
        if cells is not None:
            if type(v) is Arr and v.shape != () and v.shape != (len(cells),):
                return False
            for j, c in enumerate(cells):
                self.arr_setitem(o, c, self.elem(v, (j,)) if type(v) is Arr and v.shape else v)
            return True
        # list of concrete positions along one axis
        ia = [i for i, x in enumerate(ks) if type(x) is Arr and len(x.shape) == 1 and type(x.shape[0]) is int]
        if len(ia) == 1 and all(type(x) in (SliceV, Arr, int, NI, Tok) for x in ks):
            i = ia[0]
            ix = ks[i]
            pos = range(ix.shape[0])
            if ix.dt == 'bool':
                sel = [j for j in pos if self.truth(self.elem(ix, (j,)))]
            else:
                sel = [self.elem(ix, (j,)) for j in pos]
            if type(v) is Arr and v.shape != ():
                return False
            for j in sel:
                kk = list(ks)
                kk[i] = j
                self.arr_setitem(o, tuple(kk), v)
            return True
        # one boolean vector along one axis, scalar value
        ib = [i for i, x in enumerate(ks) if self.boolish(x)]
        if len(ib) == 1 and len(ks[ib[0]].shape) == 1 and not (type(v) is Arr and v.shape != ()) and \
                all(type(x) in (SliceV, int, NI, Tok) for i, x in enumerate(ks) if i != ib[0]):
            i = ib[0]
            b = ks[i]
            if not self.same(b.shape[0], o.shape[i]):
                self.mismatch(b.shape, (o.shape[i],))
            kk = list(ks)
            kk[i] = SliceV(None, None, None)
            view = self.view(o, tuple(kk))
            p = sum(1 for x in ks[:i] if type(x) is SliceV)
            mask = b
            if len(view.shape) > 1:
                bs = self.snap(b)
                mask = self.new(view.shape, 'bool', Fn('rowmask', [bs], lambda idx: self.elem(bs, (idx[p],))))
            self.assign_view(view, v, mask)
            return True
        return False

    # -- constructors / shapes
    def toarr(self, v, dt=None):
        t = type(v)
        if t is Arr:
            return v if dt is None or dt == v.dt else self.copyarr(v, dt)
        if t is LazySeq:
            it = v.it
            if it.lo not in (None, 0) or it.hi is not None or getattr(it, 'filtered', False) if False else it.hi is not None:
                raise Undecided('array of part of a symbolic range')
            pr = it.item(it.dim.star)
            if pr is SKIP:
                raise Undecided('filtered comprehension as array')
            if type(pr) is LazySeq:
                pr = self.toarr(pr)
            sh = pr.shape if type(pr) is Arr else ()
            d = dt or (pr.dt if type(pr) is Arr else self.npdt(self.numdt(pr)))

            def fn(idx):
                x = it.item(idx[0])
                if type(x) is LazySeq:
                    x = self.toarr(x)
                return self.cast(self.elem(x, tuple(idx[1:])) if type(x) is Arr else x, d)
            return self.new((it.dim.size,) + tuple(sh), d, Fn('seq', [pr], fn))
        if t in (LList, tuple):
            xs = [self.toarr(x) if type(x) in (LList, tuple, LazySeq, AbsIter, PyRange) else x
                  for x in (v.v if t is LList else v)]
            if not xs:
                return self.new((0,), dt or 'float64', Const(None))
            if any(type(x) is Arr for x in xs):
                sh = next(x.shape for x in xs if type(x) is Arr)
                if not all(type(x) is Arr and len(x.shape) == len(sh) and
                           all(self.same(p, q) for p, q in zip(x.shape, sh)) for x in xs):
                    if dt == 'object':
                        return self.new((len(xs),), 'object', Fn('objs', [], lambda idx: xs[idx[0]]))
                    if all(type(x) is Arr and all(type(q) is R or type(q) is int for q in x.shape) for x in xs):
                        self.policy_event('axis', 'arrays of different shapes in one array')
                    raise PyExc('ValueError', 'inhomogeneous array', self.where())
                d = dt
                if d is None:
                    d = xs[0].dt
                    for x in xs[1:]:
                        d = self.rdt('Add', d, x.dt)
                return self.stack(xs, d)
            if dt is None:
                if all(self.isnum(x) for x in xs):
                    dt = None
                    for x in xs:
                        q = self.npdt(self.numdt(x))
                        dt = q if dt is None else self.rdt('Add', dt, q)
                    if dt == 'pybool':
                        dt = 'bool'
                else:
                    dt = 'object'
            cells = [self.cast(x, dt) for x in xs]
            r = self.new((len(xs),), dt, Const(None))
            for i, c in enumerate(cells):
                r.st.cells[(i,)] = c
            return r
        if t is AbsIter and v.rng:
            if v.hi is not None or v.lo not in (None, 0):
                raise Undecided('array of part of a range')
            d = v.dim
            return self.new((d.size,), dt or 'int64', Fn('arange', [], lambda idx: idx[0]))
        if t is PyRange:
            return self.toarr(LList(list(v.r)), dt or 'int64')
        if t is MArr:
            return v
        if self.isnum(v):
            d = dt or self.npdt(self.numdt(v))
            return self.new((), d, Const(self.cast(v, d)))
        if t is Top:
            raise Undecided('array of an unknown value')
        raise Undecided('array from %r' % (v,))

    def npdt(self, dt):
        return {'pyint': 'int64', 'pyfloat': 'float64', 'pybool': 'bool'}.get(dt, dt)

    def transpose(self, a, perm=None):
        n = len(a.shape)
        if perm is None:
            perm = list(reversed(range(n)))
        perm = [p % n for p in perm]
        if sorted(perm) != list(range(n)):
            raise PyExc('ValueError', "axes don't match array", self.where())
        inv = {p: i for i, p in enumerate(perm)}
        ax = tuple(x if x[0] == 'i' else (x[0], inv[x[1]]) + tuple(x[2:]) for x in a.ax)
        return Arr(a.st, ax, tuple(a.shape[p] for p in perm))

    def reshape(self, a, shape):
        shape = list(shape)
        if -1 in [s for s in shape if type(s) is int]:
            if len(shape) == 1:
                if len(a.shape) == 1:
                    return a
                if all(type(s) is int for s in a.shape):
                    shape = [self.prodint(a.shape)]
                else:
                    return self.bag(a)
            else:
                rest = [s for s in shape if not (type(s) is int and s == -1)]
                src = list(a.shape)
                for s in rest:
                    for i, y in enumerate(src):
                        if self.same(s, y) :
                            del src[i]
                            break
                src = [s for s in src if not (type(s) is int and s == 1)]
                if len(src) <= 1:
                    i = shape.index(-1)
                    shape[i] = src[0] if src else 1
                else:
                    raise Undecided('reshape')
        if len(shape) == len(a.shape) and all(self.same(x, y) for x, y in zip(shape, a.shape)):
            return Arr(a.st, a.ax, a.shape)
        # insertion / removal of unit axes
        s1 = [(i, s) for i, s in enumerate(a.shape) if not (type(s) is int and s == 1)]
        s2 = [(i, s) for i, s in enumerate(shape) if not (type(s) is int and s == 1)]
        if len(s1) == len(s2) and all(self.same(x[1], y[1]) for x, y in zip(s1, s2)):
            m = {x[0]: y[0] for x, y in zip(s1, s2)}
            ax = []
            for x in a.ax:
                if x[0] == 'i':
                    ax.append(x)
                elif x[1] in m:
                    ax.append((x[0], m[x[1]]) + tuple(x[2:]))
                else:
                    ax.append(('i', 0 if x[0] == 'a' else x[2]))
            return Arr(a.st, tuple(ax), tuple(shape))
        if all(type(s) is int for s in list(a.shape) + shape):
            if self.prodint(a.shape) != self.prodint(shape):
                raise PyExc('ValueError', 'cannot reshape array', self.where())
            s = self.snap(a)
            src = list(a.shape)

            def fn(idx):
                k = 0
                for i, n in zip(idx, shape):
                    k = k * n + i
                out = []
                for n in reversed(src):
                    out.append(k % n)
                    k //= n
                return self.elem(s, tuple(reversed(out)))
            return self.new(tuple(shape), a.dt, Fn('reshape', [s], fn))
        raise Undecided('reshape')

    def bag(self, a):
        """all cells, order immaterial"""
        m = self.new(a.shape, 'bool', Const(NB(True)))
        return MArr(self.snap(a), m)

    # -- reductions
    def reduce(self, kind, a, axis, keepdims=False, dt=None):
        if type(a) in (LList, tuple):
            if not a if type(a) is tuple else not a.v:
                a = self.toarr(a)
            else:
                a = self.toarr(a)
        if type(a) is LazySeq:
            a = self.toarr(a)
        if self.isnum(a):
            a = self.toarr(a)
        if type(a) is MArr:
            if axis not in (None,):
                raise Undecided('reduction of a selection along an axis')
            return self.reduce_masked(kind, a)
        if type(a) is not Arr:
            raise Undecided('reduction of %r' % (a,))
        n = len(a.shape)
        if axis is None:
            axes = list(range(n))
        elif type(axis) in (tuple, LList):
            axes = [self.concrete(x) % n for x in (axis if type(axis) is tuple else axis.v)]
        else:
            c = self.concrete(axis)
            if c is None:
                raise Undecided('reduction axis')
            if not -n <= c < n:
                raise PyExc('ValueError', 'axis %d is out of bounds' % c, self.where())
            axes = [c % n]
        keep = [i for i in range(n) if i not in axes]
        rdt = self.reddt(kind, a.dt, dt)
        if not keep:
            r = self.fold(kind, [a.shape[i] for i in axes], lambda ix: self.elem(a, self.place(n, axes, ix, keep, ())), rdt)
            if keepdims:
                return self.full((1,) * n, r, rdt)
            return r
        node = self.frames[-1].pos
        s = self.snap(a)
        shape = tuple(a.shape[i] for i in keep)

        def fn(idx):
            if keepdims:
                idx = tuple(idx[i] for i in keep)
            return self.fold(kind, [s.shape[i] for i in axes], lambda ix: self.elem(s, self.place(n, axes, ix, keep, idx)), rdt)
        if keepdims:
            shape = tuple(1 if i in axes else a.shape[i] for i in range(n))
        return self.new(shape, rdt, Fn('red_' + kind + repr(axes), [s], fn))

    def reddt(self, kind, d, dt=None):
        if kind in ('any', 'all'):
            return 'bool'
        if dt is not None:
            return dt
        if kind in ('sum', 'prod'):
            if d == 'bool' or d in BITS and BITS[d] < 64:
                return 'uint64' if d[0] == 'u' else 'int64'
            return d
        if kind == 'count':
            return 'pyint'
        if kind == 'mean':
            return d if d in ('float32', 'float16') else 'float64'
        return d

    def place(self, n, axes, ix, keep, kx):
        out = [None] * n
        for a, i in zip(axes, ix):
            out[a] = i
        for a, i in zip(keep, kx):
            out[a] = i
        return tuple(out)

    def reduce_masked(self, kind, a):
        n = len(a.arr.shape)
        if kind in ('sum', 'count', 'any', 'all', 'mean'):
            one = lambda ix: self.elem(a.arr, ix)
            sel = lambda ix: self.truth(self.elem(a.mask, ix))
            if kind == 'mean':
                s = self.fold('sum', a.arr.shape, lambda ix: one(ix) if sel(ix) else 0, self.reddt('sum', a.dt))
                c = self.fold('sum', a.arr.shape, lambda ix: 1 if sel(ix) else 0, 'int64')
                return self.binop('Div', s, c)
            if kind == 'any':
                return self.fold('any', a.arr.shape, lambda ix: one(ix) if sel(ix) else False, 'bool')
            if kind == 'all':
                return self.fold('all', a.arr.shape, lambda ix: one(ix) if sel(ix) else True, 'bool')
            return self.fold(kind, a.arr.shape, lambda ix: one(ix) if sel(ix) else 0, self.reddt(kind, a.dt))
        raise Undecided('%s of a selection' % kind)

    def fold(self, kind, dims, f, rdt):
        """reduction over nested dimensions"""
        if kind == 'mean':
            s = self.fold('sum', dims, f, rdt)
            c = rc(1)
            for d in dims:
                c = alg.mul(c, self.toR(d))
            if alg.is_zero(c):
                raise Undecided('mean of an empty array')
            return self.norm(alg.div(self.toR(s), c), rdt)
        if kind in ('sum', 'count'):
            acc = self.cast(0, rdt)
            step = (lambda a, v: self.addto(a, v, rdt)) if kind == 'sum' else \
                (lambda a, v: self.addto(a, 1 if self.truth(v) else 0, rdt))
        elif kind == 'prod':
            acc = self.cast(1, rdt)
            step = lambda a, v: self.cast(self.scalop('Mult', a, v), rdt)
        elif kind == 'any':
            acc, step = NB(False), None
        elif kind == 'all':
            acc, step = NB(True), None
        elif kind in ('max', 'min'):
            acc = None
            step = lambda a, v: v if a is None else self.pick(kind, a, v)
        else:
            raise Undecided('reduction %s' % kind)
        self.foldn = getattr(self, 'foldn', 0) + 1
        r = self.foldrec(kind, list(dims), f, step, acc, (), rdt)
        if r is None:
            raise PyExc('ValueError', 'zero-size array to reduction operation', self.where())
        return r

    def addto(self, a, v, rdt):
        if type(v) in (NB, bool):
            v = int(self.truth(v))
        r = self.binop('Add', a, v)
        if rdt in FLOATS:
            return self.toR(r).with_dt(rdt)
        return r if type(r) in (R, Sat) else self.cast(r, rdt)

    def pick(self, kind, a, b):
        op = 'GtE' if kind == 'max' else 'LtE'
        if getattr(self.policy, 'opaque_max', False) and self.concrete(a) is None is self.concrete(b):
            return self.opaque_fn(kind, [self.toR(a), self.toR(b)], 'float64')
        return a if self.truth(self.compare(op, a, b)) else b

    def foldrec(self, kind, dims, f, step, acc, ix, rdt):
        if not dims:
            v = f(ix)
            if kind == 'any':
                return NB(True) if self.truth(v) else acc
            if kind == 'all':
                return acc if self.truth(v) else NB(False)
            return step(acc, v)
        n = dims[0]
        if type(n) is int:
            for i in range(n):
                self.pend.append(acc)
                r = self.foldrec(kind, dims[1:], f, step, acc, ix + (i,), rdt)
                self.pend.pop()
                acc = r
                if kind == 'any' and acc.v or kind == 'all' and not acc.v:
                    return acc
            return acc
        d = self.dim_of(n)
        if d is None:
            raise Undecided('reduction over an axis of size %s' % n)
        fr = self.frames[-1]
        p = fr.pos
        node = PNode(getattr(p, 'lineno', 0), (getattr(p, 'col_offset', 0), 'red', kind, len(ix)))
        it = AbsIter(d, lambda t: t)
        m = self.mode_of(it, fr)
        if m == 'full':
            slot = len(self.pend)
            self.pend.append(acc)

            def one(t):
                self.pend[slot] = self.foldrec(kind, dims[1:], f, step, self.pend[slot], ix + (t,), rdt)
                del self.pend[slot + 1:]
                if kind == 'any' and self.pend[slot].v or kind == 'all' and not self.pend[slot].v:
                    raise BreakSig()
            self.loop_full(it, one, node, fr, None)
            acc = self.pend[slot]
            del self.pend[slot:]
            return acc
        if kind in ('sum', 'count'):
            tf = Frame(fr.func, {'acc': acc}, fr.mod, fr.parent, None)
            tf.pos = p

            def one(t):
                tf.vars['acc'] = self.foldrec(kind, dims[1:], f, step, tf.vars['acc'], ix + (t,), rdt)
            self.loop_sum(it, one, node, tf, {'acc'}, set())
            r = tf.vars['acc']
            return r
        if kind in ('any', 'all'):
            # is there a member with the property?
            key = ('quant', kind, self.site(), len(ix), repr(ix))
            if self.choose(2):
                if kind == 'any':
                    if not self.inexact:
                        self.inexact = 'quantifier over %s' % d.name
                    return NB(True)
                if not self.inexact:
                    self.inexact = 'quantifier over %s' % d.name
                return NB(False)
            # the property holds / fails for the arbitrary member
            v = self.foldrec(kind, dims[1:], f, step, acc, ix + (d.star,), rdt)
            if kind == 'any' and v.v or kind == 'all' and not v.v:
                raise Prune()
            return v
        raise Undecided('%s over a symbolic axis' % kind)

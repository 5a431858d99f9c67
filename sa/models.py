"""Specifications: logical models, and the policy that partitions the latent dimension."""
import itertools
from . import alg
from .values import *
from .engine import TI
from .interp import Policy

CANON = ['OR-AND', 'XOR-AND', 'XOR-NAND', 'OR-XOR', 'NAND-XOR', 'XOR-XOR', 'XOR-NXOR', 'OR-NAND']
OPS = ['AND', 'NAND', 'OR', 'NOR', 'XOR', 'NXOR']


def op(name, ones, total):
    """logical operator over `total` arguments of which `ones` are true"""
    return {'AND': ones == total, 'NAND': ones != total, 'OR': ones >= 1, 'NOR': ones == 0,
            'XOR': ones == 1, 'NXOR': ones != 1}[name]


def inner(model, letters):
    return op(model.split('-')[1], sum(1 for x in letters if x == 1), len(letters))


def outer(model, act, inact):
    """act, inact: numbers of active / inactive members (saturated at >= 2)"""
    o = model.split('-')[0]
    return {'AND': inact == 0, 'NAND': inact > 0, 'OR': act >= 1, 'NOR': act == 0, 'XOR': act == 1, 'NXOR': act != 1}[o]


def letters(k, vals=(-1, 1)):
    return list(itertools.product(vals, repeat=k))


class LatentPolicy(Policy):
    """Members of the latent dimension are grouped by whether the inner operator is true for the data cell at hand.

    factors: names of the factor leaves in axis order (leaf cell = (position on the axis, latent member))"""

    def __init__(self, model, factors, Lname='L', lo=-1, hi=1, cap=2):
        self.model, self.factors, self.Lname = model, factors, Lname
        self.vals = (lo, hi)
        k = len(factors)
        self.cls = {'act': [], 'inact': []}
        for t in itertools.product(self.vals, repeat=k):
            self.cls['act' if inner(model, [1 if x == hi else -1 for x in t]) else 'inact'].append(t)
        self.ctxs = []

    def init_members(self, I, dim):
        ctx = self.ctx(I)
        out = []
        i = 0
        for lab in ('act', 'inact'):
            if self.cls[lab]:
                t = dim.tok(i)
                ti = TI(cnt='any')
                ti.cls[ctx] = (lab, self.cls[lab])
                I.tinfo[t] = ti
                out.append(t)
            i += 1
        if not out:
            raise Prune()
        return out

    def ctx(self, I):
        raise NotImplementedError

    def allowed(self, I, leaf, idx, vals):
        if leaf.name not in self.factors or len(idx) != 2:
            return vals
        k = self.factors.index(leaf.name)
        t = idx[1]
        ti = I.tinfo.get(t)
        if ti is None:
            return vals
        ok = None
        for ctx, (lab, lets) in ti.cls.items():
            if ctx[k] is not idx[0]:
                continue
            s = set()
            for l in lets:
                if all(I.facts.get((f, (ctx[j], t)), l[j]) == l[j] for j, f in enumerate(self.factors) if j != k):
                    s.add(l[k])
            ok = s if ok is None else ok & s
        if ok is None:
            return vals
        return [v for v in vals if v in ok]

    def count(self, I, dim, ctx, lab, excl=None):
        """number of members in a class; members that may still exist are counted as absent"""
        n = 0
        for t in I.members[dim]:
            if t is excl:
                continue
            c = I.tinfo[t].cls.get(ctx)
            if c and c[0] == lab and I.tinfo[t].cnt != 'any':
                n += I.tinfo[t].cnt
        return min(n, dim.cap)

    def counts(self, I, dim, ctx, excl=None):
        """possible (active, inactive) numbers of members"""
        a, i = self.count(I, dim, ctx, 'act', excl), self.count(I, dim, ctx, 'inact', excl)
        oa = oi = False
        n = 0
        for t in I.members[dim]:
            ti = I.tinfo[t]
            c = ti.cls.get(ctx)
            if c and ti.cnt == 'any':
                oa |= c[0] == 'act'
                oi |= c[0] == 'inact'
        cap = dim.cap
        out = {(x, y) for x in range(a, (cap if oa else a) + 1) for y in range(i, (cap if oi else i) + 1)}
        if excl is None and not any(t is dim.star for t in I.members[dim]):
            out.discard((0, 0))
        return out


class ProductPolicy(LatentPolicy):
    def __init__(self, model, factors, dims, **kw):
        LatentPolicy.__init__(self, model, factors, **kw)
        self.dims = dims

    def ctx(self, I):
        return tuple(I.dims[d].star for d in self.dims)

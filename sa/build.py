"""Abstract machines built through the public interface of the package."""
from . import alg
from .values import *
from .interp import Engine, Policy
from .models import *

FAC = ['Z', 'U', 'V', 'W']
AX = ['N', 'D', 'M', 'O']


def psize(d):
    """size of a dimension as the interpreted program sees it"""
    return d if type(d) is int else d.size.with_dt('pyint')


class World:
    """policy: one (or several) latent dimensions partitioned by the operator semantics at the cell in focus"""


class MultiPolicy(Policy):
    """latent dimensions handled by separate partition policies"""

    def __init__(self):
        self.lat = {}
        self.events = []
        self.handlers = []

    def add(self, dimname, pol):
        self.lat[dimname] = pol

    def init_members(self, I, dim):
        p = self.lat.get(dim.name)
        if p is None:
            raise Undecided('members of %s' % dim.name)
        return p.init_members(I, dim)

    def on_generic(self, I, tok):
        for p in self.lat.values():
            p.on_generic(I, tok)

    def allowed(self, I, leaf, idx, vals):
        for p in self.lat.values():
            vals = p.allowed(I, leaf, idx, vals)
        return vals


class CellPolicy(LatentPolicy):
    """members are partitioned with respect to the data cell formed by the positions currently in focus on every
    axis: the arbitrary position of a loop over that axis"""

    def __init__(self, model, factors, axes, Lname='L', star_member=True, **kw):
        LatentPolicy.__init__(self, model, factors, Lname=Lname, **kw)
        self.axes = axes
        self.star_member = star_member

    def focus(self, I, axis):
        d = I.dims.get(axis)
        if d is None:
            return None
        for l in reversed(I.loops):
            if l.dim is d and l.tok is not None:
                return l.tok
        return self.default(I, axis)

    def default(self, I, axis):
        return None

    def ctx(self, I):
        c = tuple(self.focus(I, a) for a in self.axes)
        return None if any(x is None for x in c) else c

    def init_members(self, I, dim):
        c = self.ctx(I)
        if c is None:
            raise Undecided('latent members enumerated without a data cell in focus')
        return self.partition(I, dim, c)

    def partition(self, I, dim, c):
        out = []
        star = any(l.tok is dim.star for l in I.loops)
        for i, lab in enumerate(('act', 'inact')):
            if self.cls[lab]:
                t = dim.tok(i)
                ti = TI(cnt='any')
                ti.cls[c] = (lab, self.cls[lab])
                I.tinfo[t] = ti
                out.append(t)
        if star:
            out.append(dim.star)
        if not out:
            raise Prune()
        return out

    def on_generic(self, I, tok):
        dim = I.dims.get(self.Lname)
        if dim is None or tok.dim is dim or tok.dim.name not in self.axes:
            return
        c = self.ctx(I)
        if c is not None:
            I.members[dim] = self.partition(I, dim, c)


def matrix(I, m, val=None, **kw):
    return I.call(I.getattr(m, 'add_matrix'), [], dict(val=val, **kw), None)


def machine(I):
    return I.call(I.getfn('lom.machine.Machine'), [], {}, None)


def layer(I, m, size, child, model):
    return I.call(I.getattr(m, 'add_layer'), [], {'latent_size': size, 'child': child, 'model': model}, None)


def factors(I, lay):
    f = I.getattr(lay, 'factors')
    return list(f.v)

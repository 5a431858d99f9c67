"""The complete abstract interpreter."""
import os
from . import alg
from .values import *
from .engine import *
from .engine import Interp
from .ev import Eval, LazySeq, SliceV
from .arr import Arrays
from .nplib import Lib

MODULES = ['lom', 'lom.machine', 'lom.auxiliary_functions', 'lom.matrix_update_wrappers', 'lom.lambda_update_wrappers',
           'lom._numba.lom_outputs', 'lom._numba.lom_outputs_fuzzy', 'lom._numba.posterior_score_fcts',
           'lom._numba.lambda_updates_numba', 'lom._numba.matrix_updates_numba', 'lom._numba.max_machine_sampler',
           'lom.experiments']


class Policy:
    """default: nothing constrained; handlers: called with every event"""
    handlers = ()

    def mode(self, I, it):
        return it.dim.mode

    def init_members(self, I, dim):
        raise Undecided('members of %s' % dim.name)

    def on_generic(self, I, tok):
        pass

    def event(self, I, kind, *a):
        for h in self.handlers:
            h(I, kind, *a)

    def known_tokens(self, I, dim):
        return ()

    def allowed(self, I, leaf, idx, vals):
        return vals


class Engine(Lib, Arrays, Eval, Interp):
    def __init__(self, **kw):
        self.moduid = -1000000
        self.shifts = {}
        Interp.__init__(self, **kw)

    def reset(self):
        Interp.reset(self)
        self.signrefs = {}
        self.signq = {}
        self.usedrand = []
        self.allstores = {}
        self.objs = {}

    def preload(self, names=MODULES):
        for n in names:
            p = os.path.join(self.repo, *n.split('.'))
            if os.path.exists(p + '.py') or os.path.isdir(p):
                self.load(n)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        u, self.uidc = self.uidc, self.moduid
        try:
            return Interp.load(self, name)
        finally:
            self.moduid = self.uidc
            self.uidc = u

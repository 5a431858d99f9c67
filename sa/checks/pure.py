"""C13: helpers leave their arguments unchanged."""
from ..purity import Purity
from .common import *
from .writers import PURE, FIRST
from .link import ROOT


def pure_job():
    o = Outcome()
    P = Purity(ROOT)
    for q in PURE + list(FIRST) + ['lom.auxiliary_functions.canonise_model']:
        f = P.fns.get(q)
        if f is None:
            continue
        o.funcs.add(q)
        rel = P.mods.trees[f.mod][0]
        c = '%s:%s' % (rel, q[len(f.mod) + 1:])
        allowed = {f.params[FIRST[q]]} if q in FIRST and len(f.params) > FIRST[q] else set()
        for p, (line, what) in sorted(f.writes.items()):
            if p not in allowed and p != 'self' and p[0] != '^':
                o.find('write', c, 'the argument %s is changed in place: %s' % (p, what), '%s:%d in %s' % (rel, line, f.node.name))
        if q.endswith('.canonise_model'):
            continue
        for (p, a), line in sorted(f.sets.items()):
            if a == 'val' and p not in allowed and p != 'self' and p[0] != '^':
                o.find('write', c, 'the state of the argument %s is replaced' % p, '%s:%d in %s' % (rel, line, f.node.name))
    o.sites = P.sites
    if len(o.funcs) < 100:
        o.undecided.append('only %d of %d known functions are found' % (len(o.funcs), len(PURE) + len(FIRST)))
    return o


def jobs():
    return [Job('arguments of every helper and kernel', pure_job, limit=100)]

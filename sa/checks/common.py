"""Shared pieces of the property checks."""
from ..runner import Job, Outcome
from ..values import *
from ..models import *
from ..interp import Engine

CONC = (1, 2, 3)


def take(o, I, r):
    """copies counts and undecided notes of one exploration into the outcome"""
    o.funcs |= {f for f in r.funcs}
    o.paths += r.paths
    o.sites += len(r.sites)


def where_fn(w):
    """the construct named by a location 'file:line in function'"""
    if not w:
        return ''
    f, _, rest = w.partition(':')
    _, _, fn = rest.partition(' in ')
    return '%s:%s' % (f, fn)


def undec(o, r):
    for k, w in r.undecided.items():
        o.undecided.append('%s (%s)' % (k, w))
    if not r.oks and not r.alarms and not r.undecided:
        o.undecided.append('no abstract path reaches the end')

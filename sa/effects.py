"""Side conditions collected during any exploration: axis mix-ups, narrow accumulators, stores to inputs, carried locals."""
from .values import *

NARROW = ('int8', 'uint8', 'int16', 'uint16', 'bool')


class Effects:
    """handler: after start(), records events into I.collected['eff']: {(kind, message, where)}

    own: tags of the arrays that may be written"""

    def __init__(self, own=()):
        self.own = set(own)
        self.on = True

    def __call__(self, I, kind, *a):
        if not self.on:
            return
        if kind == 'axis':
            self.put(I, 'axis', a[0])
        elif kind == 'narrow':
            self.put(I, 'narrow', 'a counter of type %s grows without bound' % a[0])
        elif kind == 'overflow':
            self.put(I, 'narrow', 'the value %s does not fit the type %s' % (a[1], a[0]))
        elif kind == 'narrowcast':
            self.put(I, 'narrow', 'an unbounded value is converted to %s' % a[0])
        elif kind == 'acc':
            v, dt, d, name = a
            if dt in NARROW and not (type(d) is not int and d.n == {}):
                self.put(I, 'narrow', 'a sum over a data axis is accumulated in %s' % dt)
        elif kind == 'carried':
            self.put(I, 'carried', 'the value of %s is carried between parallel iterations' % (a[0],))
        elif kind in ('write', 'bulkwrite'):
            st = a[0]
            if st.tag is not None and st.tag not in self.own:
                self.put(I, 'write', 'elements of the input %s are overwritten' % st.tag)

    def put(self, I, kind, msg):
        I.collected.setdefault('eff', {}).setdefault((kind, msg, I.where()), 1)


def effects(I):
    return sorted(I.collected.get('eff', {}))

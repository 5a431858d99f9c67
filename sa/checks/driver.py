"""C10, C23 (and parts of C11): the driver methods of the machine, Machine.infer and Machine.burn_in.

Update functions are replaced by opaque steps: the k-th update of a matrix or parameter sets its whole state to the version
number k (in place for matrices, by a new value for parameters).  The outcome of every convergence test and of every clean-up is
left open.  What the driver does with versions - which updates happen in which order, what is recorded where - is then
compared with the rules for every such history."""
import itertools
from fractions import Fraction
from .. import alg
from ..alg import rc
from .common import *
from ..build import *
from ..ev import SliceV

M = 'lom/machine.py'


class Cfg:
    def __init__(self, S=2, window=2, bmin=1, bmax=4, fix=0, anneal=False, stack=False, fixed=(), clean=None, calls=1, S2=3, step=10, model='OR-AND',
                 toggle=None):
        self.S, self.window, self.bmin, self.bmax, self.fix = S, window, bmin, bmax, fix
        self.anneal, self.stack, self.fixed, self.clean, self.calls, self.S2 = anneal, stack, fixed, clean, calls, S2
        self.step, self.model, self.toggle = step, model, toggle

    def __str__(self):
        o = '%d samples, window %d, burn-in %d..%d' % (self.S, self.window, self.bmin, self.bmax)
        if self.fix:
            o += ', noise fixed for %d' % self.fix
        if self.anneal:
            o += ', annealed'
        if self.stack:
            o += ', two layers'
        if self.fixed:
            o += ', fixed: ' + ' '.join(self.fixed)
        if self.clean:
            o += ', auto_' + self.clean
        if self.calls > 1:
            o += ', then %d samples' % self.S2
        if self.toggle:
            o += ', %s fixed in between' % self.toggle
        if self.step != 10:
            o += ', reports every %d' % self.step
        if self.model != 'OR-AND':
            o += ', ' + self.model
        return o


class Run:
    """one call history on an abstract machine"""

    def __init__(self, cfg):
        self.cfg = cfg
        ov = {'lom.matrix_update_wrappers.get_sampling_fct': self.getter, 'lom.lambda_update_wrappers.get_update_fct': self.getter,
              'lom.auxiliary_functions.check_convergence_single_trace': self.converge,
              'lom.auxiliary_functions.clean_up_codes': self.cleanup}
        self.I = Engine(overrides=ov, max_time=300)
        self.I.preload()

    # -- opaque steps
    def getter(self, I, f, args, kw):
        return Builtin('update', self.update)

    def update(self, I, args, kw):
        o = args[0]
        nm = self.name(I, o)
        if nm is None:
            I.alarm('member', 'an update is applied to something that is not a member of the machine')
            raise Prune()
        ver = I.aux['ver']
        # the noise parameters at this moment
        I.aux['log'].append((nm, {k: I.getattr(x, 'val') for k, x in self.pars.items()}))
        ver[nm] = ver.get(nm, 0) + 1
        v = I.getattr(o, 'val')
        if getattr(v, 'shape', None) is not None:
            I.setitem(v, (SliceV(None, None, None),) * len(v.shape) if len(v.shape) > 1 else SliceV(None, None, None), I.wrap(ver[nm], v.dt))
        else:
            I.setattr(o, 'val', rc(ver[nm]).with_dt('float64'))
        return None

    def name(self, I, o):
        for k, x in self.all.items():
            if x is o:
                return k
        return None

    def converge(self, I, f, args, kw):
        b = I.bind(f, args, kw)
        tr, eps = list(b.values())[:2]
        rows = self.rows(I, tr)
        I.aux['log'].append(('?', rows, dict(I.aux['ver'])))
        if I.toR(eps).key() != rc(self.eps).key():
            I.alarm('window', 'the convergence tolerance in use is not the requested one')
        return I.choose(2) == 0

    eps = Fraction(1, 8)

    def cleanup(self, I, f, args, kw):
        b = list(I.bind(f, args, kw).values())
        lay = b[0]
        reset, clean = I.truth(b[1]), I.truth(b[2])
        if I.choose(2) == 0:
            return False
        fs = I.getattr(lay, 'factors').v
        if not reset and clean:
            sh = I.getattr(fs[0], 'val').shape
            if sh[1] < 2:
                return False
            for x in fs:
                nm = self.name(I, x)
                I.setattr(x, 'val', I.full((I.getattr(x, 'val').shape[0], sh[1] - 1), I.aux['ver'].get(nm, 0), 'int8'))
        return True

    def rows(self, I, tr):
        """version recorded in every row of a trace; None: not one version"""
        if getattr(tr, 'shape', None) is None:
            return repr(tr)
        out = []
        for i in range(tr.shape[0]):
            vs = set()
            for ix in itertools.product(*[range(s) for s in tr.shape[1:]]):
                v = I.elem(tr, (i,) + ix)
                c = I.toR(v).const() if I.isnum(v) else None
                vs.add(int(c) if c is not None and c == int(c) else c)
            out.append(vs.pop() if len(vs) == 1 else None)
        return out

    # -- scenario
    def scenario(self, I):
        c = self.cfg
        P = I.policy = MultiPolicy()
        P.any_order = True
        I.aux['ver'], I.aux['log'] = {}, []
        m = machine(I)
        X = I.full((2, 2), 1, 'int8')
        data = matrix(I, m, X, fixed=True)
        lay = layer(I, m, 2, data, c.model)
        z, u = factors(I, lay)
        self.mats = {'X': data, 'Z': z, 'U': u}
        self.pars = {'lbda': I.getattr(lay, 'lbda')}
        if c.stack:
            l2 = layer(I, m, 2, z, 'XOR-AND')
            z2, u2 = factors(I, l2)
            self.mats.update({'Z2': z2, 'U2': u2})
            self.pars['lbda2'] = I.getattr(l2, 'lbda')
        if c.model == 'qL-AND':
            self.mats['q'] = I.getattr(lay, 'q')
        self.all = dict(self.mats, **self.pars)
        start = {}
        for k, o in self.mats.items():
            I.setattr(o, 'val', I.full(I.getattr(o, 'val').shape, 0, 'int8'))
        for k, o in self.pars.items():
            if getattr(I.getattr(o, 'val'), 'shape', None) is None:
                start[k] = alg.sym((k, 'start'), '+').with_dt('float64')
                I.setattr(o, 'val', start[k])
        for k in c.fixed:
            I.setattr(self.all[k], 'fixed', True)
        if c.clean:
            I.setattr(lay, 'auto_' + c.clean, True)
        if c.anneal:
            I.setattr(m, 'anneal', True)
        fixed = set(c.fixed) | {'X'}
        sets = self.settings(I)
        for call in range(c.calls):
            S = c.S if call == 0 else c.S2
            if call == 1 and c.toggle:
                I.setattr(self.all[c.toggle], 'fixed', True)
                fixed.add(c.toggle)
                sets = self.settings(I)
            v0 = dict(I.aux['ver'])
            del I.aux['log'][:]
            I.call(I.getattr(m, 'infer'), [], {'no_samples': S, 'convergence_window': c.window, 'convergence_eps': rc(self.eps).with_dt('pyfloat'),
                                               'burn_in_min': c.bmin, 'burn_in_max': c.bmax, 'print_step': c.step, 'fix_lbda_iters': c.fix}, None)
            if call == 1:
                start = None
            self.check(I, S, fixed, v0, start)
            now = self.settings(I)
            for k in sets:
                if now.get(k) != sets[k]:
                    I.alarm('settings', 'inference changes the setting %s of %s' % (k[1], k[0]))

    def settings(self, I):
        out = {}
        for k, o in self.all.items():
            for a in ('fixed', 'bernoulli_prior', 'beta_prior', 'child_axis'):
                if a in o.attrs:
                    v = o.attrs[a]
                    out[k, a] = repr(I.toR(v).key()) if I.isnum(v) else repr(v)
        if not self.cfg.clean:
            v = I.getattr(self.mats['X'], 'val')
            out['X', 'val'] = repr([I.concrete(I.elem(v, (i, j))) for i in range(2) for j in range(2)])
        return out

    # -- rules
    def check(self, I, S, fixed, v0, start):
        c = self.cfg
        ver, log = I.aux['ver'], I.aux['log']
        free = [k for k in self.mats if k not in fixed]
        lfree = [k for k in self.pars if k not in fixed]
        for k in fixed:
            if ver.get(k, 0) != v0.get(k, 0):
                I.alarm('sweep', '%s is fixed but gets updated' % k)
        n = {k: ver.get(k, 0) - v0.get(k, 0) for k in free + lfree}
        # traces
        for k in free + lfree:
            o = self.all[k]
            if 'trace' not in o.attrs:
                I.alarm('trace', '%s has no trace after inference' % self.kind(k))
                continue
            tr = o.attrs['trace']
            if getattr(tr, 'shape', None) is None or not len(tr.shape):
                I.alarm('trace', 'the trace of %s is not an array of samples' % self.kind(k))
                continue
            if tr.shape[0] != S:
                I.alarm('trace', 'the trace of %s has %s rows for %d samples' % (self.kind(k), tr.shape[0], S))
                continue
            if k in self.mats and not c.model.endswith('IBP') and tuple(tr.shape[1:]) != tuple(I.getattr(o, 'val').shape):
                I.alarm('trace', 'the rows of the trace of %s do not have the shape of its state' % self.kind(k))
                continue
            if c.model.endswith('IBP') and k in self.mats:
                sh = I.getattr(o, 'val').shape
                tr = I.getitem(tr, tuple(SliceV(None, x, None) for x in (S,) + tuple(sh)))
            rows = self.rows(I, tr)
            want = list(range(ver.get(k, 0) - S + 1, ver.get(k, 0) + 1))
            if n[k] < S or rows != want:
                I.alarm('trace', 'after %d updates, the trace of %s holds the states after updates %s instead of %s' % (
                    n[k], self.kind(k), ', '.join('?' if x is None else str(x - v0.get(k, 0)) for x in rows), ', '.join(str(x - v0.get(k, 0)) for x in want)))
            if k in self.mats:
                t = o.attrs['trace']
                if t.st is I.getattr(o, 'val').st:
                    I.alarm('trace', 'the trace of %s shares storage with its state' % self.kind(k))
        # sweeps
        seq = [e for e in log if e[0] in free]
        nf = len(free)
        blocks = [seq[i:i + nf] for i in range(0, len(seq), max(nf, 1))]
        for b in blocks:
            if sorted(e[0] for e in b) != sorted(free):
                I.alarm('sweep', 'an iteration does not update every matrix that is not fixed exactly once: %s' % ', '.join(e[0] for e in b))
                return
        B = len(blocks) - S
        if not nf:
            return
        if B < c.bmin:
            I.alarm('minimum', '%d sweeps of burn-in are made where at least %d are requested' % (B, c.bmin))
        lim = max(c.bmin, c.bmax, c.fix)
        if B > lim:
            I.alarm('maximum', '%d sweeps of burn-in are made where at most %d are allowed' % (B, lim))
        # noise parameters stay put in the first iterations
        count = 0
        base = None
        for e in log:
            if e[0] in free:
                if base is None:
                    base = e[1]
                if count // nf < c.fix and any(self.vkey(I, e[1][k]) != self.vkey(I, base[k]) for k in self.pars):
                    I.alarm('hold', 'a noise parameter changes in iteration %d of %d in which it is to be kept' % (max(1, count // nf), c.fix))
                count += 1
            elif e[0] in self.pars and (count + nf - 1) // nf <= c.fix:
                I.alarm('hold', 'a noise parameter is updated in iteration %d of %d in which it is to be kept' % ((count + nf - 1) // nf, c.fix))
        # convergence is judged on complete windows of recorded values
        for i, e in enumerate(log):
            if e[0] != '?':
                continue
            rows, vers = e[1], e[2]
            ok = False
            for k in lfree:
                v = vers.get(k, 0)
                made = v - v0.get(k, 0)
                if type(rows) is list and len(rows) == c.window and made >= c.window and sorted(rows, key=repr) == sorted(range(v - c.window + 1, v + 1), key=repr):
                    ok = True
            if not ok and lfree:
                I.alarm('window', 'convergence is judged on %s where the last %d recorded values are numbers %s' % (
                    rows if type(rows) is str else ', '.join('an unset value' if x is None else 'number %s' % x for x in rows), c.window,
                    ' / '.join(str(vers.get(k, 0)) for k in lfree)))
        # annealing ends at the target
        if c.anneal and start is not None and c.bmin >= 1:
            first = next((i for i, e in enumerate(log) if e[0] in self.pars), None)
            done = sum(1 for e in log[:first] if e[0] in free) // nf
            seen = log[first][1] if first is not None else None
            for k in lfree:
                if k not in start:
                    continue
                if seen is None or done < c.bmin:
                    I.alarm('anneal', 'the annealing of a noise parameter stops after %d of %d iterations' % (done, c.bmin))
                elif self.vkey(I, seen[k]) != repr(start[k].key()):
                    I.alarm('anneal', 'the annealed noise parameter ends at %s of its target' % alg.show(alg.div(I.toR(seen[k]), start[k]))[:60])

    def kind(self, k):
        return 'a noise parameter' if k in self.pars else 'a matrix'

    def vkey(self, I, v):
        if I.isnum(v):
            return repr(I.toR(v).key())
        if getattr(v, 'shape', None) is not None:
            return repr([I.toR(I.elem(v, ix)).key() for ix in itertools.product(*[range(s) for s in v.shape])])
        return repr(v)


def job(cfg, kinds):
    o = Outcome()
    R = Run(cfg)
    r = R.I.explore(R.scenario)
    take(o, R.I, r)
    for (kind, msg), w in r.alarms.items():
        if kind in kinds:
            o.find(kind, where_fn(w) or M + ':Machine.infer', '%s (%s)' % (msg, cfg), w or M)
        elif kind == 'uncaught':
            o.undecided.append('%s: %s (%s)' % (kind, msg, w))
    undec(o, r)
    o.bounded = 'schedule parameters: %s' % cfg
    return o


def configs(tier):
    quick = tier == 'quick'
    out = []
    # schedules
    for bmin in (0, 1, 3):
        for bmax in (0, 2, 5):
            for w in (1, 2, 3):
                for fix in (0, 1, 2):
                    if quick and (bmin + bmax + w + fix) % 2:
                        continue
                    out.append(Cfg(S=2, window=w, bmin=bmin, bmax=bmax, fix=fix))
    for S in (1, 3, 4):
        out.append(Cfg(S=S, window=2, bmin=1, bmax=4))
    out += [Cfg(anneal=True, bmin=b, bmax=b + 2, window=w) for b in (1, 2, 3, 5) for w in (1, 2)]
    out += [Cfg(stack=True, window=2, bmin=1, bmax=4), Cfg(stack=True, window=1, bmin=0, bmax=2, fixed=('lbda2',)), Cfg(stack=True, window=2, bmin=2, bmax=5, fixed=('Z', 'lbda'), fix=1),
            Cfg(stack=True, anneal=True, bmin=3, bmax=4), Cfg(stack=True, anneal=True, bmin=2, bmax=4, fixed=('lbda',)), Cfg(fixed=('U',)), Cfg(fixed=('lbda',), bmax=3), Cfg(fixed=('Z', 'U'), bmax=3)]
    out += [Cfg(calls=2, window=2, bmin=1, bmax=4), Cfg(calls=2, S=3, S2=1, window=1, bmin=0, bmax=2), Cfg(calls=2, toggle='U', window=2, bmin=0, bmax=3),
            Cfg(calls=2, toggle='lbda', window=1, bmin=1, bmax=2), Cfg(calls=2, stack=True, window=1, bmin=1, bmax=2), Cfg(calls=2, fix=2, bmin=2, bmax=4)]
    out += [Cfg(clean='reset', window=1, bmin=0, bmax=4), Cfg(clean='clean', window=2, bmin=1, bmax=5), Cfg(clean='reset', window=2, bmin=1, bmax=5), Cfg(clean='reset', stack=True, window=2, bmin=0, bmax=4), Cfg(clean='clean', calls=2, window=1, bmin=0, bmax=2)]
    out += [Cfg(step=1, bmin=2, bmax=4), Cfg(step=2, S=4, stack=True, bmin=1, bmax=3)]
    out += [Cfg(model='OR-AND-IBP', window=2, bmin=1, bmax=3), Cfg(model='MAX-AND', window=2, bmin=1, bmax=4), Cfg(model='qL-AND', window=1, bmin=1, bmax=3),
            Cfg(model='MAX-AND', window=2, bmin=0, bmax=4, clean='reset')]
    if not quick:
        out += [Cfg(S=S, window=w, bmin=b, bmax=x, fix=f) for S in (1, 2) for w in (1, 2, 3, 4) for b in (0, 2, 4) for x in (1, 3, 6, 8) for f in (0, 3)]
    return out


def jobs(tier, kinds, pick=None):
    return [Job('inference with ' + str(c), job, c, kinds) for c in configs(tier) if pick is None or pick(c)]


def c10(tier):
    return jobs(tier, ('trace', 'member', 'uncaught'))


def c23(tier):
    return jobs(tier, ('sweep', 'minimum', 'maximum', 'hold', 'window', 'anneal', 'uncaught'))


def settings_jobs(tier):
    return jobs(tier, ('settings',), lambda c: c.calls == 2 or c.stack)

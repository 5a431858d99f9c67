"""Analysis of the Gibbs updates of factor entries, entered through the public machine classes.

One run = one architecture (models of the own layer and of the parent layers, arity, axis of the matrix).  Every
abstract path yields facts about the redrawn entry; verify() combines them into a verdict on

  inc    the evidence of every data cell (per world) and that all cells are counted once
  logit  the log-odds handed to the accept/reject rule, and that rule's detailed balance
  fixed  entries flagged as fixed keep their value, all others are redrawn
  code   values written are +-1
"""
import math
from fractions import Fraction
from . import alg
from .alg import R, rc
from .values import *
from .engine import AnchorMissing, Arr
from .interp import Engine
from .models import *
from .build import *

XV = (-1, 0, 1)


class ParentPolicy(CellPolicy):
    def default(self, I, axis):
        return None

    def ctx(self, I):
        return self.fixedctx(I)


class Arch:
    """model: own layer's model or None; k: arity; axis: axis of the matrix in its layer; parents: list of models
    conc: number of latent dimensions (None: any number)"""

    def __init__(self, model, k, axis, parents=(), conc=None, target=0, kind='classic'):
        self.model, self.k, self.axis, self.parents, self.conc, self.target = model, k, axis, tuple(parents), conc, target
        self.kind = kind

    def __str__(self):
        s = '%s %dD axis %d' % (self.model, self.k, self.axis) if self.model else 'no child'
        if self.parents:
            s += ' parents ' + ','.join(self.parents)
        if self.conc:
            s += ' L=%d entry %d' % (self.conc, self.target)
        return s


class SamplerRun:
    def __init__(self, arch, overrides=None, max_time=400):
        self.arch = arch
        self.I = Engine(overrides=overrides or {}, max_time=max_time)
        self.I.preload()

    # -- scenario
    def setup(self, I):
        a = self.arch
        P = I.policy = MultiPolicy()
        P.handlers.append(self.on_event)
        self.P = P
        own = AX[a.axis] if a.model else 'N'
        self.own = own
        if a.model:
            dims = [I.dim(AX[i], 'star') for i in range(a.k)]
        else:
            dims = [I.dim('N', 'star')]
        if a.conc:
            L = a.conc
            self.lstar = a.target
        else:
            Ld = I.dim('L', 'starfull' if a.model else 'star')
            L = psize(Ld)
            self.lstar = Ld.star
        self.L = L
        self.nstar = I.dims[own].star
        m = machine(I)
        self.m = m
        if a.model:
            self.names = FAC[:a.k]
            X = I.leafarr('X', tuple(psize(d) for d in dims), ('enum', XV), 'int8', tag='X')
            data = matrix(I, m, X)
            lay = layer(I, m, L, data, a.model)
            self.layer = lay
            fs = factors(I, lay)
            # the data of an inverted model are negated here: look at the canonical layer only
            I.setattr(data, 'val', X)
            self.fs = fs
            for nm, d, f in zip(self.names, dims, fs):
                I.setattr(f, 'val', I.leafarr(nm, (psize(d), L), ('enum', (-1, 1)), 'int8', tag=nm))
                fx = I.leafarr('F' + nm, (psize(d), L), self.fixdom(nm), 'int8', tag='F' + nm)
                I.setattr(f, 'fixed_entries', fx)
                I.setattr(f, 'bernoulli_prior', alg.expit(alg.ra(LP(nm))).with_dt('pyfloat'))
            I.setattr(I.getattr(lay, 'lbda'), 'val', alg.sym(('lbda',), '+', 'lbda').with_dt('float64'))
            self.mat = fs[a.axis]
            self.mname = self.names[a.axis]
            if not a.conc:
                self.cell = CellPolicy(a.model, self.names, AX[:a.k])
                st = self.nstar
                self.cell.default = lambda I, ax, st=st: st if ax == own else None
                P.add('L', self.cell)
        else:
            Z = I.leafarr('Z', (psize(dims[0]), L), ('enum', (-1, 1)), 'int8', tag='Z')
            self.mat = matrix(I, m, Z)
            I.setattr(self.mat, 'fixed_entries', I.leafarr('FZ', (psize(dims[0]), L), self.fixdom('Z'), 'int8', tag='FZ'))
            I.setattr(self.mat, 'bernoulli_prior', alg.expit(alg.ra(LP('Z'))).with_dt('pyfloat'))
            self.mname = 'Z'
        for j, pm in enumerate(a.parents):
            Kn = 'K%d' % j
            K = a.conc if a.conc else psize(I.dim(Kn, 'full'))
            pl = layer(I, m, K, self.mat, pm)
            pf = factors(I, pl)
            nm = ['P%d%s' % (j, c) for c in 'zu']
            I.setattr(pf[0], 'val', I.leafarr(nm[0], (psize(I.dims[own]), K), ('enum', (-1, 1)), 'int8', tag=nm[0]))
            I.setattr(pf[1], 'val', I.leafarr(nm[1], (L, K), ('enum', (-1, 1)), 'int8', tag=nm[1]))
            I.setattr(I.getattr(pl, 'lbda'), 'val', alg.sym(('lbdapa', j), '+', 'lbda').with_dt('float64'))
            if not a.conc:
                pp = ParentPolicy(pm, nm, [own, 'L'], Lname=Kn)
                pp.fixedctx = lambda I: (self.nstar, self.lstar)
                P.add(Kn, pp)
        # inverted parents negate the matrix: restore
        leaf = I.leafarr(self.mname, I.getattr(self.mat, 'val').shape, ('enum', (-1, 1)), 'int8', tag=self.mname)
        I.setattr(self.mat, 'val', leaf)
        self.leafst = leaf.st
        return m

    def fixdom(self, nm):
        a = self.arch
        if a.conc:
            def dom(I, leaf, idx):
                if idx[1] != a.target:
                    return I.wrap(1, 'int8')
                k = (leaf.name, idx)
                if k not in I.facts:
                    I.facts[k] = (0, 1)[I.choose(2)]
                return I.wrap(I.facts[k], 'int8')
            return dom
        return ('enum', (0, 1))

    def scenario(self, I):
        self.setup(I)
        self.out = None
        I.mark()
        self.phase = 'get'
        f = I.call(I.getfn('lom.matrix_update_wrappers.get_sampling_fct'), [self.mat], {}, None)
        self.phase = 'run'
        self.before_call(I)
        I.call(f, [self.mat], {}, None)
        self.phase = 'end'
        self.finish(I)

    def before_call(self, I):
        pass

    def finish(self, I):
        v = I.getattr(self.mat, 'val')
        c = (self.nstar, self.lstar)
        F = I.facts.get(('F' + self.mname, c))
        z0 = I.facts.get((self.mname, c))
        if type(v) is not Arr:
            I.alarm('fixed', 'the matrix is no longer an array after the update')
            return
        if v.st is not self.leafst:
            I.inexact = I.inexact or 'matrix replaced'
        written = c in v.st.cells
        try:
            z1 = I.elem(v, c)
        except Undecided:
            raise
        if z0 is None:
            z0 = I.facts.get((self.mname, c))
        z1v = I.concrete(z1)
        data = {'F': F, 'z0': z0, 'z1': z1v if z1v is not None else repr(z1), 'written': written,
                'signs': dict(I.signs), 'signq': {k: I.signq[k] for k in I.signs}, 'weights': list(I.weights),
                'ctx': self.context(I), 'inexact': I.inexact, 'skipped': I.aux.get('skipped')}
        I.collected.setdefault('out', []).append(data)

    def context(self, I):
        """predictions of the parent layers in this world (None where they were not determined)"""
        out = []
        for j, pm in enumerate(self.arch.parents):
            if self.arch.conc:
                zs = [[I.facts.get(('P%dz' % j, (self.nstar, k))), I.facts.get(('P%du' % j, (self.lstar, k)))]
                      for k in range(self.arch.conc)]
                out.append(self.predset(pm, zs))
            else:
                d = I.dims['K%d' % j]
                if d not in I.members:
                    out.append(None)
                    continue
                p = self.P.lat['K%d' % j]
                c = (self.nstar, self.lstar)
                ps = {1 if outer(pm, x, y) else -1 for x, y in p.counts(I, d, c)}
                out.append(ps.pop() if len(ps) == 1 else None)
        return tuple(out)

    def predset(self, model, rows):
        import itertools
        res = set()
        flat = [(i, j) for i, r in enumerate(rows) for j, x in enumerate(r) if x is None]
        if len(flat) > 10:
            return None
        for c in itertools.product((-1, 1), repeat=len(flat)):
            rr = [list(r) for r in rows]
            for (i, j), x in zip(flat, c):
                rr[i][j] = x
            ins = [inner(model, r) for r in rr]
            n = sum(ins)
            res.add(1 if outer(model, min(n, 2), min(len(ins) - n, 2)) else -1)
            if len(res) == 2:
                return None
        return res.pop()

    # -- events
    def on_event(self, I, kind, *a):
        if kind == 'sumiter':
            name, dim, tok, inc, brk, part = a
            I.collected.setdefault('iters', {}).setdefault(name, []).append(self.world(I, dim, tok, inc, brk, part))
        elif kind == 'axis':
            I.collected.setdefault('axis', {}).setdefault((a[0], I.where()), 1)
        elif kind == 'write':
            st, idx, v = a
            if st.tag is not None and self.phase != 'setup':
                self.written(I, st, idx, v)
        elif kind == 'bulkwrite':
            self.written(I, a[0], None, a[2])
        elif kind in ('narrow', 'overflow', 'narrowcast'):
            I.collected.setdefault('narrow', {}).setdefault((kind, str(a[0]), I.where()), 1)
        elif kind == 'acc':
            v, dt, d, name = a
            if not alg.is_zero(d):
                I.collected.setdefault('accdt', {}).setdefault((str(v), dt, I.where()), 1)
        elif kind == 'carried':
            I.collected.setdefault('carried', {}).setdefault((repr(a[0]), I.where()), 1)

    def written(self, I, st, idx, v):
        if getattr(self, 'phase', 'setup') == 'setup':
            return
        c = I.collected.setdefault('writes', {})
        own = st is self.leafst
        if not own:
            c.setdefault(('other', st.tag, I.where()), 1)
            return
        if idx is None:
            val = '?'
        else:
            val = I.concrete(v) if v is not None else '?'
        if val is None:
            val = repr(v)
        c.setdefault(('own', val, I.where()), 1)

    # -- worlds of the data loop
    def world(self, I, dim, tok, inc, brk, part):
        a = self.arch
        w = {'inc': inc, 'brk': brk, 'part': part, 'where': I.where(), 'inexact': I.inexact, 'exp': None, 'dim': dim.name,
             'facts': dict(I.facts)}
        if not a.model:
            return w
        pos = {}
        for i in range(a.k):
            ax = AX[i]
            if ax == self.own:
                pos[i] = self.nstar
            else:
                t = None
                for l in reversed(I.loops):
                    if l.dim is I.dims[ax] and l.tok is not None:
                        t = l.tok
                        break
                pos[i] = t
        w['pos'] = tuple(pos[i] for i in range(a.k))
        w['exp'] = self.expected(I, w['pos'])
        w['desc'] = ', '.join('%s[%s]=%s' % (k[0], ','.join(map(str, k[1])), v) for k, v in sorted(I.facts.items(), key=repr)
                              if self.lstar in k[1] or k[0] == 'X')
        if not a.conc and I.dims['L'] in I.members and all(p is not None for p in w['pos']):
            d = I.dims['L']
            w['desc'] += '; (active, inactive) other dimensions, 2 = two or more: %s' % ' or '.join(
                map(str, sorted(self.cell.counts(I, d, w['pos']))))
        return w

    def expected(self, I, pos):
        """set of admissible evidence values: x/2 * (pred(z=1) - pred(z=-1)) over all completions of what was not read"""
        import itertools
        a = self.arch
        full = all(p is not None for p in pos)
        xs = XV
        if full:
            x = I.facts.get(('X', pos))
            if x is not None:
                xs = (x,)
        lets = []
        for i in range(a.k):
            if i == a.axis:
                lets.append((0,))
            elif pos[i] is None:
                lets.append((-1, 1))
            else:
                v = I.facts.get((self.names[i], (pos[i], self.lstar)))
                lets.append((-1, 1) if v is None else (v,))
        if a.conc:
            others = self.others_conc(I, pos)
        else:
            d = I.dims['L']
            ctx = tuple(pos)
            if full and d in I.members and any(ctx in I.tinfo[t].cls for t in I.members[d]):
                others = self.cell.counts(I, d, ctx)
            elif full and d in I.members and I.members[d] == [d.star]:
                others = {(0, 0)}
            else:
                others = {(i, j) for i in range(3) for j in range(3)}
        out = set()
        for lt in itertools.product(*lets):
            for (na, ni) in others:
                pr = []
                for z in (-1, 1):
                    l2 = list(lt)
                    l2[a.axis] = z
                    on = inner(a.model, l2)
                    pr.append(1 if outer(a.model, min(na + on, 2), min(ni + (not on), 2)) else -1)
                for x in xs:
                    out.add(Fraction(x * (pr[1] - pr[0]), 2))
                    if len(out) > 1 and len(xs) == 1 and False:
                        return out
        return out

    def others_conc(self, I, pos):
        import itertools
        a = self.arch
        out = {(0, 0)}
        for l in range(a.conc):
            if l == self.lstar:
                continue
            opts = set()
            vals = []
            for i in range(a.k):
                v = None if pos[i] is None else I.facts.get((self.names[i], (pos[i], l)))
                vals.append((-1, 1) if v is None else (v,))
            for lt in itertools.product(*vals):
                opts.add(inner(a.model, lt))
            out = {(min(x + o, 2), min(y + (not o), 2)) for x, y in out for o in opts}
        return out

    # -- running
    def run(self):
        r = self.I.explore(self.scenario)
        self.r = r
        return r

    # -- verification
    def verify(self):
        """list of (kind, message, where, definite)"""
        out = []
        r = self.r
        col = self.I.collected
        for (kind, msg), where in r.alarms.items():
            out.append((kind, msg, where, True))
        for k in col.get('axis', {}):
            out.append(('axis', k[0], k[1], True))
        for k in col.get('narrow', {}):
            out.append(('narrow', '%s %s' % (k[0], k[1]), k[2], True))
        for (v, dt, where) in col.get('accdt', {}):
            if dt in ('int8', 'uint8', 'int16', 'uint16', 'bool'):
                out.append(('narrow', 'sum over a data axis accumulated in %s' % dt, where, True))
        for k in col.get('carried', {}):
            out.append(('carried', k[0], k[1], True))
        for k in col.get('writes', {}):
            if k[0] == 'other':
                out.append(('write', 'the update writes to the array of %s' % k[1], k[2], True))
            elif k[1] != '?' and k[1] not in (-1, 1):
                out.append(('code', 'value %s is written to the matrix' % (k[1],), k[2], True))
        if r.undecided:
            return out
        outs = col.get('out', [])
        if not outs:
            return out
        self.check_fixed(outs, out)
        self.check_logit(outs, out)
        return out

    def check_fixed(self, outs, out):
        exact = not any(o['inexact'] for o in outs)
        for o in outs:
            if o['F'] == 1 and o['written'] and o['z1'] != o['z0']:
                out.append(('fixed', 'an entry flagged as fixed is changed', '', not o['inexact']))
                break
        for o in outs:
            if o['F'] is None and o['written'] and o['z1'] != o['z0']:
                out.append(('fixed', 'an entry is changed without consulting the fixed-entries mask', '', not o['inexact']))
                break
        rule = lambda o: (o['ctx'], o['z0'], tuple(sorted((str(k), v) for k, v in o['signs'].items() if k in o['signq'])),
                          repr(o['weights']))
        drawn = {}
        for o in outs:
            if o['written']:
                drawn.setdefault(rule(o), set()).add(o['z1'])
        for o in outs:
            # a value that is decided on but equals the present one need not be stored
            if o['F'] != 1 and not o['written'] and (not self.forms(o) or not drawn.get(rule(o), set()) <= {o['z0']}):
                sk = o['skipped']
                out.append(('redraw', 'an entry that is not flagged as fixed is not redrawn%s'
                            % (' (the loop at line %s may end early)' % sk[0][0][1] if sk else ''), '',
                            not o['inexact']))
                break

    def forms(self, o):
        """linear forms in which the log prior odds occur, normalised to coefficient one"""
        lp = LP(self.mname)
        res = []

        def add(r):
            li = alg.linear_in(r, lambda a: a is lp)
            if li is None or lp not in li[0]:
                return False
            c = li[0][lp].const()
            if c is None:
                return False
            res.append(alg.div(r, rc(c)))
            return True

        def exps(r):
            for p in (r.n, r.d):
                for m in p:
                    t = rc(0)
                    any_ = False
                    for i, e in m:
                        at = alg._names[i]
                        if at.kind == 'exp':
                            any_ = True
                            t = alg.add(t, alg.mul(rc(e), at.arg))
                    if any_:
                        add(t)
        for r in list(o['signq'].values()) + [w[0] for w in o['weights']]:
            if not any(a.kind == 'exp' for a in r.atoms()):
                add(r)
            else:
                exps(r)
        return res

    def check_logit(self, outs, out):
        live = [o for o in outs if o['F'] != 1]
        lp = LP(self.mname)
        groups = {}
        for o in live:
            groups.setdefault(o['ctx'], []).append(o)
        checked = set()
        for ctx, os_ in groups.items():
            definite = not any(o['inexact'] for o in os_)
            forms = {}
            for o in os_:
                for f in self.forms(o):
                    forms.setdefault(f.key(), f)
            if any(not o['written'] and not self.forms(o) for o in os_):
                continue
            if any(p is None for p in ctx):
                j = [p is None for p in ctx].index(True)
                out.append(('logit', 'the prediction of parent layer %d is not used' % j, '', definite))
                return
            if not forms:
                shown = [alg.show(r) for o in os_ for r in o['signq'].values()][:1]
                out.append(('logit', 'the logit of the Bernoulli prior does not enter the log-odds%s'
                            % (': %s' % shown[0] if shown else ''), '', definite))
                return
            fs = list(forms.values())
            S = rc(0)
            lam = LAM
            li = alg.linear_in(fs[0], lambda a: a is lam)
            if li is None:
                out.append(('logit', 'log-odds not linear in the dispersion: ' + alg.show(fs[0]), '', definite))
                return
            if self.arch.model:
                S = li[0].get(lam, rc(0))
                if S.key() not in checked:
                    checked.add(S.key())
                    self.check_sum(S, out, definite)
            rest = alg.mul(alg.ra(lam), S) if self.arch.model else rc(0)
            for j, p in enumerate(ctx):
                rest = alg.add(rest, alg.mul(alg.sym(('lbdapa', j), '+', 'lbda'), rc(p)))
            X = alg.atom(('X',), 'logodds')
            val = alg.sub(alg.ra(X), rest)
            sub = lambda a: val if a is lp else None
            for f in fs:
                g = alg.sub(alg.subst(f, sub), alg.ra(X))
                if not alg.is_zero(g):
                    out.append(('logit', 'log-odds are %s where %s is required'
                                % (self.show(f), self.show(alg.add(rest, alg.ra(lp)))), '', definite))
                    return
            if not self.check_flip(os_, sub, X, out, definite):
                return

    def show(self, f):
        s = alg.show(f)
        import re
        s = re.sub(r'sigma\.[^*+ ]*(?:\([^()]*(?:\([^()]*(?:\([^()]*\))*[^()]*\))*[^()]*\))?[^*+ ]*', 'SCORE', s)
        return s

    def check_flip(self, os_, sub, X, out, definite):
        items = []
        for o in os_:
            sg = [(alg.subst(q, sub), o['signs'][k]) for k, q in o['signq'].items()]
            ws = [(alg.subst(w, sub), hit) for w, hit in o['weights']]
            for r in [q for q, _ in sg] + [w for w, _ in ws]:
                if any(a is not X and not (a.kind == 'exp' and a.arg.atoms() <= {X}) for a in r.atoms()):
                    out.append(('logit', 'the accept/reject rule depends on more than the log-odds: %s' % self.show(r),
                                '', definite))
                    return False
            items.append((o, sg, ws))
        for x in (-3.0, -1.5, -0.3, 0.0, 0.3, 1.5, 3.0):
            f = {}
            for z in (-1, 1):
                tot = stay = flip = 0.0
                seen = set()
                for o, sg, ws in items:
                    if o['z0'] not in (None, z):
                        continue
                    env = {X: x}
                    ok = True
                    for q, s in sg:
                        v = alg.evaluate(q, env)
                        if (s == '+' and v <= 1e-12) or (s == '-' and v >= -1e-12) or (s == '0' and abs(v) > 1e-12):
                            ok = False
                    if not ok:
                        continue
                    w = 1.0
                    sig = []
                    for th, hit in ws:
                        t = min(1.0, max(0.0, alg.evaluate(th, env)))
                        w *= t if hit else 1 - t
                        sig.append((round(t, 12), hit))
                    k = (tuple(sig), o['z1'])
                    # different worlds with the same decisions describe the same rule
                    if k in seen:
                        continue
                    seen.add(k)
                    tot += w
                    if o['z1'] == z:
                        stay += w
                    elif o['z1'] == -z:
                        flip += w
                if abs(tot - 1) > 1e-9:
                    out.append(('flip', 'the outcome of the accept/reject rule is not determined by the log-odds', '', False))
                    return False
                if abs(stay + flip - 1) > 1e-9:
                    return False
                f[z] = flip
            a, b = f[1] * math.exp(x), f[-1]
            if abs(a - b) > 1e-9 * max(1, abs(a)):
                out.append(('flip', 'for log-odds %g the entry leaves +1 with probability %.6g and -1 with probability %.6g: '
                            'detailed balance fails' % (x, f[1], f[-1]), '', definite))
                return False
            if f[1] == 0 and f[-1] == 0:
                out.append(('flip', 'for log-odds %g the entry is never changed' % x, '', definite))
                return False
        return True

    # the evidence
    def check_sum(self, S, out, definite):
        iters = self.I.collected.get('iters', {})
        need = [AX[i] for i in range(self.arch.k) if AX[i] != self.own]
        self.verify_sum(S, iters, need, None, out, definite)

    def sums(self, S):
        return [a for a in S.atoms() if a.kind in ('sigma', 'SUM')]

    def verify_sum(self, S, iters, need, outerw, out, definite):
        sig = self.sums(S)
        if not sig:
            out.append(('inc', 'the evidence is %s: no sum over the axes %s' % (alg.show(S), ', '.join(need)), '', definite))
            return
        li = alg.linear_in(S, lambda a: a in sig)
        if li is None or not alg.is_zero(li[1]) or any(c.const() is None for c in li[0].values()):
            out.append(('inc', 'the evidence is %s' % self.show(S), '', definite))
            return
        byname = {}
        for a, c in li[0].items():
            if a.kind == 'SUM':
                out.append(('inc', 'the evidence sums %s over %s' % ('a value that ignores the states', a.key[1]), '', False))
                return
            byname.setdefault(a.key[1], {})[a.key[2]] = c.const()
        if len(byname) > 1:
            # evidence gathered in several loops: add them up world by world is not attempted
            out.append(('inc', 'evidence gathered in several loops', '', False))
            return
        for name, cs in byname.items():
            ws = iters.get(name, [])
            dims = set()
            for w in ws:
                if outerw is not None and not compatible(w['facts'], outerw['facts']):
                    continue
                d = w['dim']
                dims.add(d)
                if d not in need:
                    out.append(('inc', 'the evidence sums over axis %s' % d, w['where'], definite))
                    return
                if w['part']:
                    out.append(('inc', 'the evidence covers only part of axis %s' % d, w['where'], definite))
                    return
                if w['brk']:
                    out.append(('inc', 'the loop over axis %s may end before all cells are counted' % d, w['where'],
                                definite and not w['inexact']))
                    return
                tot = rc(0)
                for v, c in cs.items():
                    if v in w['inc']:
                        tot = alg.add(tot, alg.mul(rc(c), w['inc'][v]))
                rest = [x for x in need if x != d]
                c = tot.const()
                if c is None:
                    n0 = len(out)
                    if not rest:
                        out.append(('inc', 'a cell contributes %s' % self.show(tot), w['where'], definite and not w['inexact']))
                        return
                    self.verify_sum(tot, iters, rest, w, out, definite)
                    if len(out) > n0:
                        return
                    continue
                if w['exp'] != {c}:
                    out.append(('inc', self.explain(w, c), w['where'], definite and not w['inexact']))
                    return

    def explain(self, w, c):
        return 'a data cell contributes %s to the evidence where %s is required (%s)' % (
            c, ' or '.join(str(x) for x in sorted(w['exp'])), w['desc'])


def compatible(f, g):
    for k, v in g.items():
        if k in f and f[k] != v:
            return False
    return True


LAM = list(alg.sym(('lbda',), '+', 'lbda').atoms())[0]


def LP(nm):
    return alg.atom(('logprior', nm), 'lp')

"""C24: requests that are not supported end in an error.

The code distinguishes requests by comparing names with literals, so a finite set of names represents all of them: every literal
of the package that looks like a name, near misses of these, and names that occur nowhere."""
import ast
import os
import re
from fractions import Fraction
from .. import alg
from ..alg import rc
from .common import *
from ..build import *
from ..engine import Arr
from ..models import PyExc
from . import outputs

OPS = ['OR', 'NOR', 'AND', 'NAND', 'XOR', 'NXOR']
PAIRS = [a + '-' + b for a in OPS for b in OPS]
CANON = ['OR-AND', 'OR-NAND', 'OR-XOR', 'NAND-XOR', 'XOR-AND', 'XOR-XOR', 'XOR-NXOR', 'XOR-NAND']
SPECIAL = ['MAX-AND', 'OR-AND-IBP', 'qL-AND']
AUX, NUM = 'lom.auxiliary_functions.', 'lom._numba.lambda_updates_numba.'
MU = 'lom._numba.matrix_updates_numba.'


def literals(root):
    out = set()
    for d, _, fs in os.walk(os.path.join(root, 'lom')):
        for f in fs:
            if f.endswith('.py'):
                for x in ast.walk(ast.parse(open(os.path.join(d, f)).read())):
                    if isinstance(x, ast.Constant) and isinstance(x.value, str) and re.fullmatch(r'[A-Za-z0-9]+([-_][A-Za-z0-9]+){0,4}', x.value):
                        out.add(x.value)
    return out


def names(root):
    lit = sorted(literals(root))
    out = set(x.replace('_', '-') for x in lit if len(x) < 24) | set(lit)
    for a in OPS + ['MAX', 'qL', 'MIN', 'FOO', '']:
        for b in OPS + ['MAX', 'FOO', '']:
            out.add(a + '-' + b)
    for x in PAIRS + SPECIAL:
        out |= {x.lower(), x + '-IBP', x + '-X', x + '_2D', x.replace('-', ''), x.replace('-', '_'), ' ' + x, x + ' ', 'N' + x, x[1:], x[:-1]}
    out |= {'', 'FOO', 'BALANCED-OR', 'OR-AND-BALANCED', 'OR-AND-IBP-IBP', 'or-and'}
    return sorted(out)


def run(o, con, what, request, state=None, overrides=None, limit=60, accept=()):
    """request(I) must raise on every path"""
    def sc(I):
        I.policy = MultiPolicy()
        I.policy.handlers.append(lambda I, k, *a: I.alarm('reject', '%s enters an interactive debugger' % what) if k == 'debugger' else None)
        try:
            r = request(I)
        except PyExc as e:
            return
        I.alarm('reject', '%s is not rejected with an error' % what)
    I = Engine(overrides=overrides or {}, max_time=limit)
    I.preload()
    r = I.explore(sc)
    take(o, I, r)
    for (kind, msg), w in r.alarms.items():
        if kind == 'reject':
            o.find('reject', con, msg, w or con)
    undec(o, r)


def call(q, *a, **k):
    return lambda I: I.call(I.getfn(q), list(a), k, None)


def names_job(qual, mk, bad):
    """mk(I, name): the request; bad: names that are not supported"""
    o = Outcome()
    con = 'lom/machine.py:Machine.add_layer' if 'Machine' in qual else 'lom/%s.py:%s' % ('/'.join(qual.split('.')[1:-1]), qual.split('.')[-1])

    def sc(I):
        I.policy = MultiPolicy()
        n = bad[I.choose(len(bad))]
        I.policy.handlers.append(lambda I, k, *a: I.alarm('reject', 'the name %r enters an interactive debugger' % n) if k == 'debugger' else None)
        try:
            mk(I, n)
        except PyExc as e:
            I.aux['done'] = True
            return
        I.alarm('reject', 'the name %r is not rejected with an error' % n)
    I = Engine(max_time=200)
    I.preload()
    r = I.explore(sc)
    take(o, I, r)
    ms = [(m, w) for (kind, m), w in r.alarms.items() if kind == 'reject']
    for m, w in ms[:3]:
        o.find('reject', con, m + (' (nor are %d others)' % (len(ms) - 3) if len(ms) > 3 and m is ms[2][0] else ''), w or con)
    undec(o, r)
    o.sites += len(bad)
    return o


def small(I, k, fuzzy=False):
    return LList([I.leafarr('F%d' % i, (1, 1), ('enum', (0, 1) if fuzzy else (-1, 1)), 'float64' if fuzzy else 'int8', tag='F%d' % i) for i in range(k)])


def mk_layer(I, n):
    dims = [I.dim(x, 'star') for x in ('N', 'D')]
    X = I.leafarr('X', tuple(psize(d) for d in dims), ('enum', (-1, 0, 1)), 'int8', tag='X')
    m = machine(I)
    layer(I, m, 3, matrix(I, m, X), n)


def mk_layer_shape(I, n):
    I.call(I.getattr(machine(I), 'add_layer'), [], {'latent_size': 3, 'shape': (2, 3), 'model': n}, None)


def arch_job(name, parts, want):
    """parts: (model, number of axes, parent models by axis of the first factor / second factor), want: which member is asked for"""
    o = Outcome()
    con = 'lom/matrix_update_wrappers.py:get_sampling_fct' if want != 'lbda' else 'lom/lambda_update_wrappers.py:get_update_fct'
    model, k, parents = parts

    def request(I):
        dims = [I.dim('N%d' % i, 'star') for i in range(k)]
        m = machine(I)
        X = I.leafarr('X', tuple(psize(d) for d in dims), ('enum', (-1, 0, 1)), 'int8', tag='X')
        data = matrix(I, m, X)
        if model is None:
            f = data
        else:
            L = 3
            lay = layer(I, m, L, data, model)
            f = factors(I, lay)[0]
        for p in parents:
            # a parent layer of another arity cannot come from add_layer on a matrix: its factors are extended
            arity = 2
            if type(p) is tuple:
                p, arity = p
            pl = layer(I, m, 2, f, p)
            if arity != 2:
                fs = I.getattr(pl, 'factors')
                fs.v.append(fs.v[-1])
        I.mark()
        if want == 'lbda':
            fn = I.call(I.getfn('lom.lambda_update_wrappers.get_update_fct'), [I.getattr(lay, 'lbda')], {}, None)
            I.call(fn, [I.getattr(lay, 'lbda')], {}, None)
            return
        I.call(I.getfn('lom.matrix_update_wrappers.get_sampling_fct'), [f], {}, None)
    run(o, con, name, request)
    return o


def output_job(model, k, tech):
    o = Outcome()
    done = []

    def sc(I):
        I.policy = MultiPolicy()
        what = 'technique %r for a layer of model %s' % (tech, model)
        I.policy.handlers.append(lambda I, kk, *a: I.alarm('reject', '%s enters an interactive debugger' % what) if kk == 'debugger' else None)
        m = machine(I)
        ds = [I.dim('N%d' % i, 'star') for i in range(k)]
        data = matrix(I, m, I.leafarr('X', tuple(psize(d) for d in ds), ('enum', (-1, 0, 1)), 'int8', tag='X'))
        lay = layer(I, m, 2, data, model)
        I.setattr(lay, 'prediction', I.leafarr('OLD', tuple(psize(d) for d in ds), ('atom', '0+'), 'float64', tag='OLD'))
        for nm, d, f in zip(FAC, ds, factors(I, lay)):
            I.setattr(f, 'val', I.leafarr(nm, (psize(d), 2), ('enum', (-1, 1)), 'int8', tag=nm))
            I.setattr(f, 'trace', I.leafarr('T' + nm, (1, psize(d), 2), ('atom', ''), 'int8', tag='T' + nm))
        I.mark()
        for noisy in (False, True):
            try:
                I.call(I.getattr(lay, 'output'), [], {'technique': tech, 'noisy_emission': noisy}, None)
            except PyExc as e:
                pass
            else:
                I.alarm('reject', '%s is not rejected with an error' % what)
            if I.getattr(lay, 'model') != model:
                I.alarm('reject', '%s leaves the layer labelled %r' % (what, I.getattr(lay, 'model')))
    I = Engine(max_time=60)
    I.preload()
    r = I.explore(sc)
    take(o, I, r)
    for (kind, msg), w in r.alarms.items():
        if kind == 'reject':
            o.find('reject', 'lom/machine.py:MachineLayer.output', msg, w or 'lom/machine.py:MachineLayer.output')
    undec(o, r)
    return o


def request_job(name, con, fn, *args):
    o = Outcome()
    run(o, con, name, lambda I: fn(I, *args))
    return o


def r_layer(I, both):
    m = machine(I)
    kw = {'latent_size': 3}
    if both:
        kw.update(child=matrix(I, m, I.leafarr('X', (2, 2), ('enum', (-1, 0, 1)), 'int8', tag='X')), shape=(2, 2))
    I.call(I.getattr(m, 'add_layer'), [], kw, None)


def r_show(I, tech):
    m = machine(I)
    I.call(I.getattr(matrix(I, m, I.leafarr('X', (2, 2), ('enum', (-1, 1)), 'int8', tag='X')), 'show'), [tech], {}, None)


def r_canon(I, a, b):
    I.call(I.getfn(AUX + 'canonical_loms'), [a, b], {}, None)


def r_call(I, q, *a):
    I.call(I.getfn(q), list(a), {}, None)


DEBUG = ('pdb', 'ipdb', 'pudb')


def debugger_job():
    """no function of the package starts a debugger"""
    o = Outcome()
    root = os.environ.get('SA_REPO', '/repo')
    for d, _, fs in os.walk(os.path.join(root, 'lom')):
        for f in sorted(fs):
            if not f.endswith('.py'):
                continue
            p = os.path.join(d, f)
            rel = os.path.relpath(p, root)
            t = ast.parse(open(p).read())
            alias = {}
            for x in ast.walk(t):
                if isinstance(x, ast.Import):
                    for y in x.names:
                        alias[y.asname or y.name.split('.')[0]] = y.name if y.asname else y.name.split('.')[0]
                elif isinstance(x, ast.ImportFrom) and x.module and not x.level:
                    for y in x.names:
                        alias[y.asname or y.name] = x.module + '.' + y.name
            for fn in [x for x in ast.walk(t) if isinstance(x, ast.FunctionDef)]:
                o.funcs.add(rel + ':' + fn.name)
                for x in ast.walk(fn):
                    if isinstance(x, ast.Call):
                        o.sites += 1
                        n = ast.unparse(x.func)
                        h, _, rest = n.partition('.')
                        n = alias.get(h, h) + ('.' + rest if rest else '')
                        if n == 'breakpoint' or n in ('code.interact', 'IPython.embed') or n.split('.')[0] in DEBUG and n.split('.')[-1] in (
                                'set_trace', 'post_mortem', 'pm', 'run', 'runcall'):
                            o.find('reject', '%s:%s' % (rel, fn.name), 'starts an interactive debugger', '%s:%d' % (rel, x.lineno))
    return o


def c24(tier):
    root = os.environ.get('SA_REPO', '/repo')
    ns = names(root)
    ok = set(PAIRS + SPECIAL)
    jobs = []

    def add(name, *a):
        jobs.append(Job(name, *a))

    bad = [n for n in ns if n not in ok]
    notpair = [n for n in ns if n not in PAIRS]
    noimp = [n for n in ns if n not in CANON]
    add('unknown models for a layer of given data', names_job, 'lom.machine.Machine.add_layer', mk_layer, bad)
    add('unknown models for a layer of given shape', names_job, 'lom.machine.Machine.add_layer', mk_layer_shape, bad)
    add('unknown models in get_lom_class', names_job, AUX + 'get_lom_class', f_class, notpair)
    add('unknown models in expected_density', names_job, AUX + 'expected_density', f_density, notpair)
    ops = [n for n in sorted(set(x for n in ns for x in n.split('-')) | {'or', 'OR ', 'Or', ''}) if n not in OPS]
    add('unknown operators', names_job, AUX + 'get_lop', f_lop, ops)
    add('unknown operators for probabilities', names_job, AUX + 'get_fuzzy_lop', f_flop, ops)
    for k in (2, 3, 4):
        add('unknown models for generated data, %d factors' % k, names_job, AUX + 'lom_generate_data', (f_gen2, f_gen3, f_gen4)[k - 2], notpair)
        add('unknown models for generated probabilities, %d factors' % k, names_job, AUX + 'lom_generate_data_fuzzy', (f_fgen2, f_fgen3, f_fgen4)[k - 2], notpair)
        for fz in (False, True):
            add('unknown models for the fast generator, %d factors%s' % (k, ', probabilities' if fz else ''), names_job, AUX + 'lom_generate_data_fast',
                FAST[k, fz], notpair)
    for d in ('2d', '3d'):
        for fz in (False, True):
            add('models without scalar product, %s%s' % (d, ', probabilities' if fz else ''), names_job, NUM + 'get_scalar_output_function_' + d, SCALAR[d, fz],
                [n for n in noimp if not (n == 'qL-AND' and d == '2d' and not fz)])
            add('models without product, %s%s' % (d, ', probabilities' if fz else ''), names_job, NUM + 'make_output_function_' + d + ('_fuzzy' if fz else ''),
                PRODUCT[d, fz], [n for n in noimp if n != 'qL-AND'])
    for dim in (2, 3):
        add('models without counter, %d axes' % dim, names_job, NUM + 'make_correct_predictions_counter', (f_cnt2, f_cnt3)[dim - 2],
            [n for n in noimp if n not in SPECIAL])
        add('models without dispersion update, %d axes' % dim, names_job, NUM + 'make_lbda_update_fct', (f_upd2, f_upd3)[dim - 2],
            [n for n in noimp if n not in SPECIAL])
    for dim in (1, 4):
        add('counter for %d axes' % dim, names_job, NUM + 'make_correct_predictions_counter', (f_cnt1, f_cnt4)[dim == 4], CANON)
        add('dispersion update for %d axes' % dim, names_job, NUM + 'make_lbda_update_fct', (f_upd1, f_upd4)[dim == 4], CANON)
    good = [c.replace('-', '_') + s for c in CANON for s in ('_2D', '_3D')]
    us = sorted(set(n.replace('-', '_') + s for n in ns for s in ('_2D', '_3D', '_4D', '_1D', '')) - set(good))
    add('models without score', names_job, MU + 'get_posterior_score_fct', f_score, us)
    add('models without parent score', names_job, MU + 'get_parent_score_fct', f_parent, us)
    for want in ('Z',):
        for model, k in [(m, d) for m in CANON for d in (1, 4)] + [(m, d) for m in SPECIAL for d in (1, 3, 4)]:
            add('factor update of %s with %d axes' % (model, k), arch_job, 'sampling a factor of a %s layer with %d axes' % (model, k), (model, k, ()), want)
        for model in SPECIAL:
            for ps in (('OR-AND',), ('OR-AND', 'XOR-AND')):
                add('factor of a %s layer with %d parents' % (model, len(ps)), arch_job, 'sampling a factor of a %s layer that has %d parent layers' % (model, len(ps)), (model, 2, ps), want)
        for p in SPECIAL:
            for model in (None, 'OR-AND'):
                add('%s with a parent %s' % (model, p), arch_job, 'sampling a matrix whose parent layer is of model %s' % p, (model, 2, (p,)), want)
                add('%s with a second parent %s' % (model, p), arch_job, 'sampling a matrix whose second parent layer is of model %s' % p, (model, 2, ('OR-AND', p)), want)
        for model in (None, 'OR-AND'):
            add('%s with three parents' % model, arch_job, 'sampling a matrix with three parent layers', (model, 2, ('OR-AND', 'XOR-AND', 'OR-AND')), want)
            add('%s with a parent of three factors' % model, arch_job, 'sampling a matrix whose parent layer has three factors', (model, 2, (('OR-AND', 3),)), want)
        add('matrix without relatives', arch_job, 'sampling a matrix without child and parent layers', (None, 2, ()), want)
        add('three axes and two parents', arch_job, 'sampling a factor of a layer with three axes and two parent layers', ('OR-AND', 3, ('OR-AND', 'XOR-AND')), want)
    for t in ('map', 'MC', 'Factor-MAP', 'factor-map', 'Factor_map', 'mean', '', 'foo', None, 'point_estimate ', 'factor_map_old', 'fuzzy'):
        for model, k in [('OR-AND', 2), ('OR-AND', 3), ('MAX-AND', 2), ('qL-AND', 2), ('OR-AND-IBP', 2)] + (
                [('XOR-NXOR', 2), ('NAND-XOR', 3)] if tier != 'quick' else []):
            add('technique %r, %s, %d factors' % (t, model, k), output_job, model, k, t)
    for t in ('factor_mean_old',):
        add('technique %r, MAX-AND' % t, output_job, 'MAX-AND', 2, t)
    for t in ('mc', 'factor_mean', 'factor_mean_old'):
        add('technique %r, qL-AND' % t, output_job, 'qL-AND', 2, t)
    for t in ('map ', 'foo', '', None, 'MAP', 'sd'):
        add('show(%r)' % (t,), request_job, 'show with technique %r' % (t,), 'lom/machine.py:MachineMatrix.show', r_show, t)
    for both in (False, True):
        add('a layer with %s' % ('child and shape' if both else 'neither child nor shape'), request_job, 'a layer with %s' % (
            'child and shape' if both else 'neither child nor shape'), 'lom/machine.py:Machine.add_layer', r_layer, both)
    for a, b in (('foo', 'implemented'), ('foo', 'canonical'), ('clans', 'foo'), ('', ''), ('families', 'Canonical'), ('clan', 'canonical')):
        add('canonical_loms(%r, %r)' % (a, b), request_job, 'canonical_loms(%r, %r)' % (a, b), 'lom/auxiliary_functions.py:canonical_loms', r_canon, a, b)
    add('debuggers', debugger_job)
    js = outputs.effect_jobs(('label',), tier)
    for j in js:
        j.name = 'label after ' + j.name
    return jobs + js


def f_class(I, n):
    r_call(I, AUX + 'get_lom_class', n)


def f_density(I, n):
    r_call(I, AUX + 'expected_density', n, 2, 2, alg.sym('f', 'p', 'p').with_dt('pyfloat'))


def f_lop(I, n):
    r_call(I, AUX + 'get_lop', n)


def f_flop(I, n):
    r_call(I, AUX + 'get_fuzzy_lop', n)


def _gen(q, k, fz=None):
    def f(I, n):
        a = [small(I, k, bool(fz) or 'fuzzy' in q), n]
        if fz is not None:
            a.append(fz)
        r_call(I, AUX + q, *a)
    return f


f_gen2, f_gen3, f_gen4 = [_gen('lom_generate_data', k) for k in (2, 3, 4)]
f_fgen2, f_fgen3, f_fgen4 = [_gen('lom_generate_data_fuzzy', k) for k in (2, 3, 4)]
FAST = {(k, fz): _gen('lom_generate_data_fast', k, fz) for k in (2, 3, 4) for fz in (False, True)}


def _num(q, *more):
    return lambda I, n: r_call(I, q, n, *more)


SCALAR = {(d, fz): _num(NUM + 'get_scalar_output_function_' + d, fz) for d in ('2d', '3d') for fz in (False, True)}
PRODUCT = {(d, fz): _num(NUM + 'make_output_function_' + d + ('_fuzzy' if fz else '')) for d in ('2d', '3d') for fz in (False, True)}
f_cnt1, f_cnt2, f_cnt3, f_cnt4 = [_num(NUM + 'make_correct_predictions_counter', d) for d in (1, 2, 3, 4)]
f_upd1, f_upd2, f_upd3, f_upd4 = [_num(NUM + 'make_lbda_update_fct', d) for d in (1, 2, 3, 4)]
f_score = _num(MU + 'get_posterior_score_fct')
f_parent = _num(MU + 'get_parent_score_fct')

"""Which functions may write to the storage of their arguments.

Flow-sensitive alias analysis on the syntax tree with interprocedural summaries.  A name is mapped to the set of
parameters whose storage it may share; views, transposes, no-copy conversions and container elements keep the sharing,
copies and arithmetic end it.  A summary is (parameters written, parameters the result may share storage with)."""
import ast
from .race import Mods

VIEWS = {'asarray', 'asanyarray', 'ascontiguousarray', 'asfortranarray', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'ravel', 'reshape', 'transpose',
         'squeeze', 'swapaxes', 'moveaxis', 'rollaxis', 'broadcast_to', 'diagonal', 'expand_dims', 'flip', 'fliplr', 'flipud', 'rot90', 'real', 'require',
         'split', 'array_split', 'hsplit', 'vsplit', 'nditer'}
MVIEWS = {'transpose', 'reshape', 'ravel', 'view', 'squeeze', 'swapaxes', 'diagonal', '__getitem__'}
MFRESH = {'copy', 'astype', 'flatten', 'tolist', 'sum', 'mean', 'dot', 'any', 'all', 'max', 'min', 'prod', 'cumsum', 'nonzero', 'argmax', 'argmin',
          'argsort', 'repeat', 'round', 'clip', 'item', 'keys', 'format', 'split', 'join', 'replace', 'lower', 'upper', 'index', 'count', 'std', 'var',
          'astype', 'tobytes', 'take', 'compress', 'choose', 'conj', 'trace', 'cumprod', 'ptp'}
AVIEWS = {'T', 'real', 'imag', 'flat', 'base', 'values', 'data', 'mT'}
ASCALAR = {'shape', 'size', 'ndim', 'dtype', 'nbytes', 'itemsize', 'strides', 'flags', 'name', '__name__', '__class__'}
MUTATE = {'fill', 'sort', 'put', 'itemset', 'resize', 'partition', 'setfield', 'byteswap', 'setflags'}
LMUTATE = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'reverse', 'update', 'setdefault', 'popitem', 'add', 'discard'}
ACCESS = {'z', 'u', 'v', 'child', 'lbda', 'q', 'siblings', 'members'}
NPMUT = {'put': 0, 'place': 0, 'copyto': 0, 'putmask': 0, 'fill_diagonal': 0, 'put_along_axis': 0, 'random.shuffle': 0, 'random.permuted': None}
UFUNCS = {'add': 2, 'subtract': 2, 'multiply': 2, 'divide': 2, 'true_divide': 2, 'floor_divide': 2, 'negative': 1, 'absolute': 1, 'abs': 1, 'logical_not': 1,
          'logical_and': 2, 'logical_or': 2, 'invert': 1, 'sign': 1, 'power': 2, 'mod': 2, 'minimum': 2, 'maximum': 2, 'exp': 1, 'log': 1, 'sqrt': 1,
          'bitwise_and': 2, 'bitwise_or': 2, 'bitwise_xor': 2, 'logical_xor': 2, 'clip': 3, 'dot': 2, 'where': None}
ARRAYFN = {'unique', 'any', 'all', 'sum', 'where', 'nonzero', 'mean', 'copy', 'array', 'max', 'min', 'zeros_like', 'ones_like', 'empty_like', 'dot'}
ITER = {'zip', 'enumerate', 'reversed', 'iter', 'list', 'tuple', 'sorted', 'dict', 'map', 'filter'}
E = frozenset()


def name_of(f):
    """dotted name of an expression, or None"""
    ps = []
    while isinstance(f, ast.Attribute):
        ps.append(f.attr)
        f = f.value
    if isinstance(f, ast.Name):
        ps.append(f.id)
        return '.'.join(reversed(ps))
    return None


def wrap(v):
    return frozenset('@' + x for x in v)


def unwrap(v):
    return frozenset(x[1:] if x[0] == '@' else x for x in v)


def direct(v):
    return frozenset(x for x in v if x[0] != '@')


class Fn:
    def __init__(self, node, mod, qual, scopes, outer=None):
        self.node, self.mod, self.qual, self.scopes, self.outer = node, mod, qual, scopes, outer
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.writes = {}        # parameter -> (line, what)
        self.shares = set()     # parameters the result may share storage with
        self.sets = {}          # (parameter, attribute) stored


class Purity:
    def __init__(self, root):
        self.mods = Mods(root)
        self.fns = {}
        self.bynode = {}
        self.sites = 0
        for m, (rel, tree) in self.mods.trees.items():
            self.collect(m, tree.body, m, [], None)
        for _ in range(12):
            if not sum([self.summary(f) for f in self.fns.values()]):
                break

    def collect(self, mod, body, prefix, scopes, outer):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                q = prefix + '.' + s.name
                while q in self.fns:
                    q += "'"
                f = Fn(s, mod, q, list(scopes), outer)
                self.fns[q] = f
                self.bynode[s] = f
                self.collect(mod, s.body, q, scopes + [s], f)
            elif isinstance(s, ast.ClassDef):
                self.collect(mod, s.body, prefix + '.' + s.name, scopes, outer)
            else:
                for b in ('body', 'orelse', 'finalbody'):
                    x = getattr(s, b, None)
                    if x:
                        self.collect(mod, x, prefix, scopes, outer)
                for h in getattr(s, 'handlers', []):
                    self.collect(mod, h.body, prefix, scopes, outer)

    def summary(self, f):
        b = (set(f.writes), set(f.shares), set(f.sets))
        Walk(self, f).run()
        return (set(f.writes), set(f.shares), set(f.sets)) != b


class Walk:
    def __init__(self, P, f):
        self.P, self.f = P, f
        self.arr = self.arrays()
        self.lines = f.node.lineno

    def arrays(self):
        """names used as arrays or containers in the function"""
        out = set()
        for n in ast.walk(self.f.node):
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name):
                out.add(n.value.id)
            elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.attr in (ASCALAR | AVIEWS | MVIEWS | {'astype', 'copy', 'sum', 'flatten'}):
                out.add(n.value.id)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'len' and n.args and isinstance(n.args[0], ast.Name):
                out.add(n.args[0].id)
            elif isinstance(n, ast.Call) and (name_of(n.func) or '').split('.')[-1] in ARRAYFN and n.args and isinstance(n.args[0], ast.Name):
                out.add(n.args[0].id)
        return out

    def run(self):
        env = {p: frozenset([p]) for p in self.f.params}
        for p in (self.f.vararg, self.f.kwarg):
            if p:
                env[p] = frozenset([p])
        if self.f.outer is not None:
            for n in self.captured():
                env[n] = frozenset(['^' + n])
        self.loops = []
        self.block(self.f.node.body, env)

    def captured(self):
        local, used = set(self.f.params), set()
        for n in ast.walk(self.f.node):
            if isinstance(n, ast.Name):
                (used if isinstance(n.ctx, ast.Load) else local).add(n.id)
        outer, o = set(), self.f.outer
        while o is not None:
            outer |= set(o.params) | {n.id for n in ast.walk(o.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            o = o.outer
        return (used - local) & outer

    # ------------------------------------------------------------------------------------------ statements
    def block(self, ss, env):
        for s in ss:
            env = self.stmt(s, env)
            if env is None:
                return None
        return env

    @staticmethod
    def join(a, b):
        if a is None or b is None:
            return a if b is None else b
        return {k: a.get(k, E) | b.get(k, E) for k in set(a) | set(b)}

    def stmt(self, s, env):
        t = type(s)
        if t in (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal, ast.Pass):
            if t is ast.FunctionDef:
                env[s.name] = E
            return env
        if t is ast.Return:
            if s.value is not None:
                self.f.shares |= self.ev(s.value, env)
            return None
        if t is ast.Raise:
            return None
        if t in (ast.Break, ast.Continue):
            self.loops[-1].append(dict(env))
            return None
        if t is ast.Assign:
            v = self.ev(s.value, env)
            for x in s.targets:
                self.bind(x, v, s.value, env)
            return env
        if t is ast.AnnAssign:
            if s.value is not None:
                self.bind(s.target, self.ev(s.value, env), s.value, env)
            return env
        if t is ast.AugAssign:
            self.ev(s.value, env)
            x = s.target
            if isinstance(x, ast.Name):
                w = env.get(x.id, E)
                if w and (x.id in self.arr or any(p in self.arr for p in w)):
                    self.write(w, s, 'updated in place by "%s"' % ast.unparse(s)[:60])
            else:
                self.bind(x, E, None, env)
            return env
        if t is ast.Delete:
            for x in s.targets:
                if isinstance(x, ast.Subscript):
                    self.write(self.ev(x.value, env), s, 'an element is deleted')
                elif isinstance(x, ast.Name):
                    env[x.id] = E
            return env
        if t is ast.Expr:
            self.ev(s.value, env)
            return env
        if t is ast.If:
            self.ev(s.test, env)
            c = s.test.value if isinstance(s.test, ast.Constant) else None
            a = self.block(s.body, dict(env)) if c is None or c else env
            b = self.block(s.orelse, dict(env)) if c is None or not c else None
            if c is not None and not c:
                return b
            return self.join(a, b) if c is None else a
        if t in (ast.For, ast.AsyncFor, ast.While):
            self.loops.append([])
            out = dict(env)
            for _ in range(2):
                e = dict(out)
                if t is ast.While:
                    self.ev(s.test, e)
                else:
                    v = self.ev(s.iter, e)
                    self.bindloop(s.target, v, s.iter, e)
                e = self.block(s.body, e)
                out = self.join(out, e)
                for x in self.loops[-1]:
                    out = self.join(out, x)
            self.loops.pop()
            if s.orelse:
                return self.block(s.orelse, out)
            return out
        if t is ast.Try:
            a = self.block(s.body, dict(env))
            if a is not None and s.orelse:
                a = self.block(s.orelse, a)
            mid = self.join(dict(env), a)
            for h in s.handlers:
                a = self.join(a, self.block(h.body, dict(mid)))
            if s.finalbody:
                return self.block(s.finalbody, a if a is not None else dict(mid)) if a is not None else None
            return a
        if t in (ast.With, ast.AsyncWith):
            for i in s.items:
                v = self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, v, None, env)
            return self.block(s.body, env)
        if t is ast.Assert:
            self.ev(s.test, env)
        return env

    def bind(self, x, v, src, env):
        if isinstance(x, ast.Name):
            env[x.id] = v
        elif isinstance(x, (ast.Tuple, ast.List)):
            if isinstance(src, (ast.Tuple, ast.List)) and len(src.elts) == len(x.elts) and not any(isinstance(e, ast.Starred) for e in x.elts):
                vs = [self.ev(e, env) for e in src.elts]
                for y, w in zip(x.elts, vs):
                    self.bind(y, w, None, env)
            else:
                for y in x.elts:
                    if isinstance(y, ast.Starred):
                        self.bind(y.value, wrap(unwrap(v)), None, env)
                    else:
                        self.bind(y, unwrap(v), None, env)
        elif isinstance(x, ast.Subscript):
            self.ev(x.slice, env)
            w = self.ev(x.value, env)
            self.write(w, x, 'written through "%s"' % ast.unparse(x)[:60])
            # the container now holds the value
            if isinstance(x.value, ast.Name) and v and x.value.id not in self.arrs():
                env[x.value.id] = env.get(x.value.id, E) | wrap(v)
        elif isinstance(x, ast.Attribute):
            for p in direct(self.ev(x.value, env)):
                self.f.sets.setdefault((p, x.attr), x.lineno)

    def arrs(self):
        """local names made by a library call: arrays, not containers"""
        if not hasattr(self, '_arrs'):
            self._arrs = {y.id for n in ast.walk(self.f.node) if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call)
                          and self.external((name_of(n.value.func) or '').split('.')[0]) == 'numpy'
                          for x in n.targets for y in ast.walk(x) if isinstance(y, ast.Name)}
        return self._arrs

    def bindloop(self, x, v, it, env):
        self.bind(x, unwrap(v) if not self.ints(it) else E, None, env)
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name):
            if it.func.id == 'enumerate' and isinstance(x, ast.Tuple) and len(x.elts) == 2 and it.args:
                self.bind(x.elts[0], E, None, env)
                self.bind(x.elts[1], unwrap(self.ev(it.args[0], env)), None, env)
            elif it.func.id == 'zip' and isinstance(x, ast.Tuple) and len(x.elts) == len(it.args):
                for y, a in zip(x.elts, it.args):
                    self.bind(y, unwrap(self.ev(a, env)), None, env)

    @staticmethod
    def ints(it):
        return isinstance(it, ast.Call) and (name_of(it.func) or '').split('.')[-1] in ('range', 'prange', 'arange', 'ndindex')

    def write(self, ps, node, what):
        self.P.sites += 1
        for p in direct(ps):
            if p not in self.f.writes:
                self.f.writes[p] = (getattr(node, 'lineno', 0), what)

    # ------------------------------------------------------------------------------------------ expressions
    def ev(self, e, env):
        t = type(e)
        if e is None or t in (ast.Constant, ast.JoinedStr, ast.FormattedValue):
            return E
        if t is ast.Name:
            return env.get(e.id, E)
        if t in (ast.Tuple, ast.List, ast.Set):
            return frozenset().union(E, *[wrap(self.ev(x, env)) for x in e.elts])
        if t is ast.Dict:
            return frozenset().union(E, *[wrap(self.ev(x, env)) for x in e.values])
        if t is ast.Starred:
            return unwrap(self.ev(e.value, env))
        if t is ast.IfExp:
            self.ev(e.test, env)
            return self.ev(e.body, env) | self.ev(e.orelse, env)
        if t is ast.BoolOp:
            return frozenset().union(*[self.ev(x, env) for x in e.values])
        if t is ast.NamedExpr:
            v = self.ev(e.value, env)
            env[e.target.id] = v
            return v
        if t is ast.BinOp:
            self.ev(e.left, env), self.ev(e.right, env)
            return E
        if t in (ast.UnaryOp,):
            self.ev(e.operand, env)
            return E
        if t is ast.Compare:
            self.ev(e.left, env)
            for c in e.comparators:
                self.ev(c, env)
            return E
        if t is ast.Subscript:
            v = self.ev(e.value, env)
            self.ev(e.slice, env)
            if isinstance(e.slice, ast.Slice):
                return v
            return unwrap(v) if v and self.viewing(e.slice, env) else frozenset(x[1:] for x in v if x[0] == '@')
        if t is ast.Slice:
            for x in (e.lower, e.upper, e.step):
                self.ev(x, env)
            return E
        if t is ast.Attribute:
            v = self.ev(e.value, env)
            return E if e.attr in ASCALAR else direct(v)
        if t is ast.Lambda:
            return E
        if t in (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp):
            en = dict(env)
            for g in e.generators:
                self.bindloop(g.target, self.ev(g.iter, en), g.iter, en)
                for c in g.ifs:
                    self.ev(c, en)
            if t is ast.DictComp:
                self.ev(e.key, en)
                return wrap(self.ev(e.value, en))
            return wrap(self.ev(e.elt, en))
        if t is ast.Call:
            return self.call(e, env)
        if t in (ast.Await, ast.Yield, ast.YieldFrom):
            if e.value is not None:
                v = self.ev(e.value, env)
                if t is not ast.Await:
                    self.f.shares |= v
                return v
            return E
        return E

    def viewing(self, s, env):
        """an index that yields a view (or an element of a container) for certain"""
        if isinstance(s, ast.Tuple):
            return all(self.viewing(x, env) for x in s.elts)
        if isinstance(s, (ast.Slice, ast.Constant)):
            return True
        if isinstance(s, ast.UnaryOp):
            return isinstance(s.op, ast.USub) and self.viewing(s.operand, env)
        if isinstance(s, ast.BinOp):
            return self.viewing(s.left, env) and self.viewing(s.right, env)
        if isinstance(s, ast.Name):
            return s.id in self.intnames()
        if isinstance(s, ast.Call):
            return (name_of(s.func) or '').split('.')[-1] in ('len', 'int', 'slice', 'randint')
        if isinstance(s, ast.Attribute):
            return s.attr in ('newaxis', 'ndim', 'size', 'child_axis')
        if isinstance(s, ast.Subscript):
            return isinstance(s.value, ast.Attribute) and s.value.attr == 'shape'
        return False

    def intnames(self):
        if not hasattr(self, '_ints'):
            out = set()
            other = set()

            def intval(v):
                return isinstance(v, ast.Constant) and (type(v.value) is int or v.value is None) or isinstance(v, ast.Call) and \
                    (name_of(v.func) or '').split('.')[-1] in ('len', 'int', 'slice') or \
                    isinstance(v, ast.Subscript) and isinstance(v.value, ast.Attribute) and v.value.attr == 'shape'
            for n in ast.walk(self.f.node):
                if isinstance(n, (ast.For, ast.comprehension)):
                    x = n.target
                    if self.ints(n.iter) and isinstance(x, ast.Name):
                        out.add(x.id)
                    elif isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == 'enumerate' and isinstance(x, ast.Tuple) \
                            and isinstance(x.elts[0], ast.Name):
                        out.add(x.elts[0].id)
                    else:
                        other |= {y.id for y in ast.walk(x) if isinstance(y, ast.Name)}
                elif isinstance(n, ast.Assign):
                    for x in n.targets:
                        if isinstance(x, ast.Name):
                            (out if intval(n.value) else other).add(x.id)
                        elif isinstance(x, ast.Tuple) and isinstance(n.value, ast.Attribute) and n.value.attr == 'shape':
                            out |= {y.id for y in x.elts if isinstance(y, ast.Name)}
                        else:
                            other |= {y.id for y in ast.walk(x) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
            for p in self.f.params:
                if p in ('l', 'n', 'd', 'm', 'i', 'j', 'k', 'axis', 'l_prime'):
                    out.add(p)
            self._ints = out - other
        return self._ints

    def call(self, e, env):
        args = [self.ev(a, env) for a in e.args]
        kws = {k.arg: self.ev(k.value, env) for k in e.keywords}
        nm = name_of(e.func)
        for k in e.keywords:
            if k.arg == 'out':
                self.write(kws['out'], e, 'given as the output of "%s"' % ast.unparse(e)[:60])
        f = e.func
        target = self.resolve(f)
        if target is not None:
            return self.apply(target, e, args, kws, env)
        if nm and '.' in nm and self.external(nm.split('.')[0]) in ('numpy', 'np', 'random'):
            rest = nm.split('.', 1)[1]
            if self.external(nm.split('.')[0]) == 'random':
                rest = 'random.' + rest
            if rest in NPMUT and NPMUT[rest] is not None and args:
                self.write(args[0], e, 'written by %s' % nm)
                return E
            last = rest.split('.')[-1]
            if last == 'at' and args:
                self.write(args[0], e, 'written by %s' % nm)
                return E
            k = UFUNCS.get(rest)
            if k is not None and len(args) > k:
                self.write(args[k], e, 'given as the output of %s' % nm)
                return args[k]
            if last in VIEWS:
                return direct(args[0]) if args else E
            nocopy = next((x.value for x in e.keywords if x.arg == 'copy'), None)
            if last in ('array', 'nan_to_num') and isinstance(nocopy, ast.Constant) and not nocopy.value and args:
                if last == 'nan_to_num':
                    self.write(args[0], e, 'written by %s' % nm)
                return args[0]
            return kws.get('out', E)
        if isinstance(f, ast.Attribute):
            base = self.ev(f.value, env)
            if f.attr in MUTATE and base:
                self.write(base, e, 'written by .%s()' % f.attr)
                return E
            if f.attr in LMUTATE and isinstance(f.value, ast.Name):
                if direct(base):
                    self.write(base, e, 'changed by .%s()' % f.attr)
                r = frozenset().union(E, *args)
                if f.attr != 'extend':
                    r = wrap(r)
                if r:
                    env[f.value.id] = base | r
                return unwrap(base) if f.attr in ('pop', 'setdefault', 'popitem') else E
            if f.attr == 'astype' and any(k.arg == 'copy' and isinstance(k.value, ast.Constant) and not k.value.value for k in e.keywords):
                return base
            if f.attr in MVIEWS:
                return base
            if f.attr in ('get', 'values', 'items'):
                return unwrap(base)
            if not args and not kws and direct(base) and f.attr in ACCESS:
                return direct(base)
            return E
        if isinstance(f, ast.Name):
            if f.id in ('setattr', 'delattr'):
                return E
            if f.id in ('zip', 'enumerate', 'map', 'filter'):
                return wrap(wrap(frozenset().union(E, *map(unwrap, args))))
            if f.id in ITER:
                return wrap(frozenset().union(E, *map(unwrap, args)))
            if f.id in ('next', 'memoryview'):
                return frozenset().union(E, *map(unwrap, args))
            if f.id not in ('deepcopy',) and env.get(f.id):
                # a callable argument (mat() gives the stored array)
                return direct(env[f.id]) if not args else E
            return E
        if isinstance(f, ast.Call) or isinstance(f, ast.Subscript):
            self.ev(f, env)
        return E

    def external(self, head):
        i = self.P.mods.imps[self.f.mod].get(head)
        return head if i is None else i[0].split('.')[0] if i[1] is None else i[0]

    def resolve(self, f):
        r = self.P.mods.resolve(self.f.mod, f, self.f.scopes + [self.f.node])
        if r is None:
            return None
        node = r[1] if isinstance(r, tuple) else r
        return self.P.bynode.get(node)

    def apply(self, g, e, args, kws, env):
        bound = {}
        if any(isinstance(a, ast.Starred) for a in e.args):
            for p in g.params:
                bound[p] = frozenset().union(E, *args)
        else:
            for p, a in zip(g.params, args):
                bound[p] = a
            if g.vararg and len(args) > len(g.params):
                bound[g.vararg] = frozenset().union(E, *args[len(g.params):])
        for k, a in kws.items():
            if k in g.params:
                bound[k] = a
            elif g.kwarg:
                bound[g.kwarg] = bound.get(g.kwarg, E) | a
        for p in list(g.writes) + [x.lstrip('@') for x in g.shares] + [x[0] for x in g.sets]:
            if p[0] == '^':
                bound[p] = env.get(p[1:], E)
        for p, (line, what) in g.writes.items():
            if bound.get(p):
                self.write(bound[p], e, 'passed to %s, where it is %s' % (g.qual.split('.')[-1], what))
        for (p, at), line in g.sets.items():
            for q in direct(bound.get(p, E)):
                self.f.sets.setdefault((q, at), e.lineno)
        out = E
        for p in g.shares:
            v = bound.get(p.lstrip('@'), E)
            for _ in range(len(p) - len(p.lstrip('@'))):
                v = wrap(v)
            out |= v
        return out


def table(root):
    """what every named function may write (used once, to record the designated writers)"""
    P = Purity(root)
    return {f.qual: (sorted(x for x in f.writes), sorted(p for p, a in f.sets if a == 'val')) for f in P.fns.values() if "'" not in f.qual}

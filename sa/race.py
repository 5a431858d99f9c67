"""Dependence analysis of parallel loops over the syntax trees of the package.

For every prange loop of a function compiled with parallel execution: no scalar is carried from one iteration to another (sums
and products excepted), and no array element is written by one iteration and read or written by another one.  Helper functions
are followed by substituting their parameters.  An access is reported only when the subscript shows that iterations meet:
subscripts that depend on the loop variable in a way that is not understood are left open.
"""
import ast
import os
from .engine import Liveness, assigned_names, names_read

PURE = {'shape', 'dtype', 'size', 'ndim', 'nbytes', 'itemsize'}
NPREAD = {'sum', 'any', 'all', 'dot', 'max', 'min', 'mean', 'prod', 'count_nonzero', 'argmax', 'argmin', 'argsort', 'cumsum', 'var',
          'std', 'abs', 'exp', 'log', 'where', 'array', 'copy', 'sort', 'unique'}
INPLACE = {'fill', 'sort', 'put', 'append', 'extend', 'insert', 'pop', 'remove', 'partition', 'itemset', 'resize'}


class Acc:
    """access to the array `base`; idx: list of expressions, ':' for a slice; None at the end: all remaining axes"""
    __slots__ = ('base', 'idx', 'write', 'node', 'aug')

    def __init__(self, base, idx, write, node, aug=False):
        self.base, self.idx, self.write, self.node, self.aug = base, idx, write, node, aug


class View:
    def __init__(self, base, idx):
        self.base, self.idx = base, idx


class Mods:
    def __init__(self, repo):
        self.trees, self.funcs, self.imps = {}, {}, {}
        for root, _, fs in sorted(os.walk(os.path.join(repo, 'lom'))):
            for f in sorted(fs):
                if f.endswith('.py'):
                    p = os.path.join(root, f)
                    rel = os.path.relpath(p, repo)
                    mod = rel[:-3].replace(os.sep, '.')
                    if mod.endswith('.__init__'):
                        mod = mod[:-9]
                    t = ast.parse(open(p).read(), p)
                    self.trees[mod] = (rel, t)
                    self.funcs[mod] = {n.name: n for n in t.body if isinstance(n, ast.FunctionDef)}
                    im = self.imps[mod] = {}
                    for n in ast.walk(t):
                        if isinstance(n, ast.ImportFrom) and n.module and not n.level:
                            for a in n.names:
                                im[a.asname or a.name] = (n.module, a.name)
                        elif isinstance(n, ast.Import):
                            for a in n.names:
                                im[a.asname or a.name.split('.')[0]] = (a.name, None)

    def resolve(self, mod, f, scopes):
        """function definition a call refers to"""
        if isinstance(f, ast.Name):
            for s in reversed(scopes):
                for n in s.body:
                    if isinstance(n, ast.FunctionDef) and n.name == f.id:
                        return mod, n
                if f.id in assigned_names(s.body) or f.id in {a.arg for a in s.args.args}:
                    return None
            n = self.funcs[mod].get(f.id)
            if n is not None:
                return mod, n
            i = self.imps[mod].get(f.id)
            if i and i[1] and i[0] in self.funcs and i[1] in self.funcs[i[0]]:
                return i[0], self.funcs[i[0]][i[1]]
        elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name):
            i = self.imps[mod].get(f.value.id)
            if i and i[1] is None and f.attr in self.funcs.get(i[0], {}):
                return i[0], self.funcs[i[0]][f.attr]
            if i and i[1] and f.attr in self.funcs.get(i[0] + '.' + i[1], {}):
                return i[0] + '.' + i[1], self.funcs[i[0] + '.' + i[1]][f.attr]
        return None


def is_prange(call):
    return isinstance(call, ast.Call) and (isinstance(call.func, ast.Name) and call.func.id == 'prange' or
                                           isinstance(call.func, ast.Attribute) and call.func.attr == 'prange')


def parallel(fn):
    """compiled with parallel execution"""
    for d in fn.decorator_list:
        if isinstance(d, ast.Call):
            for k in d.keywords:
                if k.arg == 'parallel':
                    return not (isinstance(k.value, ast.Constant) and not k.value.value)
    return False


def idx_elts(s):
    e = list(s.elts) if isinstance(s, ast.Tuple) else [s]
    return [':' if isinstance(x, ast.Slice) and x.lower is None and x.upper is None and x.step is None else x for x in e]


class Body:
    """accesses and scalar effects of a statement list, calls followed"""

    def __init__(self, mods, mod, scopes, depth=0):
        self.mods, self.mod, self.scopes, self.depth = mods, mod, scopes, depth
        self.accs = []
        self.views = {}
        self.private = set()
        self.unknown = []

    # views
    def view(self, e):
        """View of an expression that denotes (part of) an array, or None"""
        if isinstance(e, ast.Name):
            if e.id in self.views:
                return self.views[e.id]
            return View(e.id, [])
        if isinstance(e, ast.Subscript):
            v = self.view(e.value)
            if v is None:
                return None
            return View(v.base, compose(v.idx, idx_elts(e.slice)))
        if isinstance(e, ast.Attribute) and e.attr == 'T':
            v = self.view(e.value)
            return v and View(v.base, v.idx + [None])
        if isinstance(e, ast.Attribute):
            s = ast.unparse(e)
            return View(s, [])
        return None

    def read(self, e):
        """records the array reads of an expression"""
        if e is None:
            return
        if isinstance(e, ast.Attribute) and e.attr in PURE:
            return
        if isinstance(e, ast.Call):
            self.callx(e)
            return
        if isinstance(e, ast.Subscript):
            v = self.view(e)
            if v is not None:
                self.accs.append(Acc(v.base, v.idx, False, e))
                x = e
                while isinstance(x, ast.Subscript):
                    for s in ast.iter_child_nodes(x.slice) if not isinstance(x.slice, ast.Name) else [x.slice]:
                        if isinstance(s, ast.expr):
                            self.read(s)
                    x = x.value
                return
        if isinstance(e, ast.Name):
            v = self.view(e)
            self.accs.append(Acc(v.base, v.idx + [None], False, e))
            return
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            for c in ast.walk(e):
                if isinstance(c, (ast.Subscript,)) and isinstance(c.ctx, ast.Load):
                    v = self.view(c)
                    if v is not None:
                        self.accs.append(Acc(v.base, v.idx, False, c))
            return
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.read(c)

    def callx(self, e):
        f = e.func
        if isinstance(f, ast.Name) and f.id == 'len':
            return
        if isinstance(f, ast.Attribute) and not isinstance(f.value, ast.Name) or \
                isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id not in self.mods.imps[self.mod]:
            # method of a value
            v = self.view(f.value)
            if v is not None:
                self.accs.append(Acc(v.base, v.idx + [None], f.attr in INPLACE, e, False))
            for a in e.args:
                self.read(a)
            return
        r = self.mods.resolve(self.mod, f, self.scopes)
        if r is not None and self.depth < 4:
            self.inline(e, *r)
            return
        unk = not (isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ('np', 'numpy', 'math')
                   or isinstance(f, ast.Name) and f.id in ('int', 'float', 'abs', 'min', 'max', 'range', 'prange', 'int64', 'float64'))
        for k in e.keywords:
            if k.arg == 'out':
                v = self.view(k.value)
                if v is not None:
                    self.accs.append(Acc(v.base, v.idx + [None], True, e))
        for a in list(e.args) + [k.value for k in e.keywords]:
            if unk:
                v = self.view(a)
                if v is not None:
                    # may read everything behind the reference it is given
                    self.unknown.append((v, e))
                    if isinstance(a, ast.Subscript):
                        self.accs.append(Acc(v.base, v.idx + [None], False, a))
                    continue
            self.read(a)

    def inline(self, e, mod, fn):
        b = Body(self.mods, mod, [fn] if fn in self.mods.funcs[mod].values() else self.scopes[:-1] + [fn], self.depth + 1)
        b.stmts(fn.body)
        params = [a.arg for a in fn.args.args]
        bind = {}
        for p, a in zip(params, e.args):
            bind[p] = a
        for k in e.keywords:
            if k.arg:
                bind[k.arg] = k.value
        loc = assigned_names(fn.body)

        def sub(x):
            if x is None or x == ':':
                return x
            if isinstance(x, ast.AST):
                ns = names_read(x)
                if isinstance(x, ast.Name) and x.id in bind and x.id not in loc:
                    return bind[x.id]
                if ns & loc or ns & set(params):
                    if any(n in bind and n not in loc for n in ns):
                        dep = set()
                        for n in ns:
                            if n in bind:
                                dep |= names_read(bind[n])
                        return Opaque(dep)
                    return Opaque(set())
                return Opaque(set())
            return x
        for a in b.accs:
            if a.base in bind and a.base not in b.private:
                v = self.view(bind[a.base])
                if v is None:
                    continue
                self.accs.append(Acc(v.base, compose(v.idx, [sub(x) for x in a.idx]), a.write, e, a.aug))
        for v, n in b.unknown:
            if v.base in bind:
                w = self.view(bind[v.base])
                if w is not None:
                    self.unknown.append((w, e))
        for a in e.args:
            if not isinstance(a, (ast.Name, ast.Subscript)):
                self.read(a)

    # statements
    def stmts(self, ss):
        for s in ss:
            self.stmt(s)

    def bindname(self, n, val):
        if isinstance(val, (ast.Subscript, ast.Name)) or isinstance(val, ast.Attribute) and val.attr == 'T':
            v = self.view(val)
            if v is not None and not (v.base == n and not v.idx):
                self.views[n] = v
                self.private.discard(n)
                return
        self.views.pop(n, None)
        self.private.add(n)

    def store(self, t, node, aug=False):
        if isinstance(t, ast.Subscript):
            v = self.view(t)
            if v is not None:
                self.accs.append(Acc(v.base, v.idx, True, node, aug))
            self.read(t.slice) if not isinstance(t.slice, ast.Tuple) else [self.read(x) for x in t.slice.elts if not isinstance(x, ast.Slice)]
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.store(x, node)
        elif isinstance(t, ast.Name) and not aug:
            pass

    def stmt(self, s):
        if isinstance(s, ast.Assign):
            self.read(s.value)
            for t in s.targets:
                self.store(t, s)
                if isinstance(t, ast.Name):
                    self.bindname(t.id, s.value)
                elif isinstance(t, ast.Tuple):
                    for x in t.elts:
                        if isinstance(x, ast.Name):
                            self.bindname(x.id, ast.Constant(0))
        elif isinstance(s, ast.AugAssign):
            self.read(s.value)
            if isinstance(s.target, ast.Subscript):
                v = self.view(s.target)
                if v is not None:
                    self.accs.append(Acc(v.base, v.idx, False, s, True))
                self.store(s.target, s, True)
            elif isinstance(s.target, ast.Name):
                v = self.views.get(s.target.id)
                if v is not None:
                    self.accs.append(Acc(v.base, v.idx + [None], True, s, True))
        elif isinstance(s, ast.For):
            self.read(s.iter)
            if isinstance(s.target, ast.Name):
                self.views.pop(s.target.id, None)
            self.stmts(s.body)
            self.stmts(s.orelse)
        elif isinstance(s, ast.While):
            self.read(s.test)
            self.stmts(s.body)
            self.stmts(s.orelse)
        elif isinstance(s, ast.If):
            self.read(s.test)
            self.stmts(s.body)
            self.stmts(s.orelse)
        elif isinstance(s, (ast.FunctionDef, ast.Pass, ast.Break, ast.Continue, ast.Import, ast.ImportFrom)):
            pass
        else:
            for c in ast.iter_child_nodes(s):
                if isinstance(c, ast.expr):
                    self.read(c)
                elif isinstance(c, ast.stmt):
                    self.stmt(c)


class Opaque:
    """subscript value inside a helper; deps: names of the caller it depends on"""

    def __init__(self, deps):
        self.deps = deps


def compose(view, idx):
    """subscripts idx applied to what the view leaves open"""
    out = list(view)
    idx = list(idx)
    open_ = [i for i, x in enumerate(out) if isinstance(x, str) and x == ':']
    if None in out:
        return out
    for i in open_:
        if not idx:
            break
        out[i] = idx.pop(0)
    return out + idx


def derived(body, var):
    """names whose value depends on the loop variable"""
    dep = {var}
    while True:
        n0 = len(dep)
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, ast.Assign) and names_read(n.value) & dep:
                    for t in n.targets:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                                dep.add(x.id)
                elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and names_read(n.value) & dep:
                    dep.add(n.target.id)
                elif isinstance(n, ast.For) and names_read(n.iter) & dep:
                    # the extent may depend on shapes of per-iteration views only
                    it = n.iter
                    if not only_shapes(it, dep):
                        for x in ast.walk(n.target):
                            if isinstance(x, ast.Name):
                                dep.add(x.id)
        if len(dep) == n0:
            return dep


def only_shapes(e, dep):
    """every mention of a dependent name is below .shape / len()"""
    def go(n):
        if isinstance(n, ast.Attribute) and n.attr in PURE:
            return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'len':
            return True
        if isinstance(n, ast.Name) and n.id in dep:
            return False
        return all(go(c) for c in ast.iter_child_nodes(n))
    return go(e)


SIZES = (7, 8)


def image(e, var, body, depth=0):
    """positions the subscript takes in the successive iterations, for two loop lengths: None when it is not an arithmetic
    expression of the loop variable and of values that the loop leaves alone"""
    asg = assigned_names(body)

    def val(x, i, n, d):
        if isinstance(x, ast.Constant):
            if isinstance(x.value, int):
                return x.value
            raise ValueError
        if isinstance(x, ast.Name):
            if x.id == var:
                return i
            if x.id not in asg:
                return n
            defs = [s for b in body for s in ast.walk(b) if isinstance(s, ast.stmt) and not isinstance(
                s, (ast.For, ast.While, ast.If, ast.With)) and x.id in assigned_names([s])]
            loops = [s for b in body for s in ast.walk(b) if isinstance(s, ast.For) and x.id in
                     {y.id for y in ast.walk(s.target) if isinstance(y, ast.Name)}]
            if len(defs) == 1 and not loops and d < 4 and isinstance(defs[0], ast.Assign) and any(defs[0] is b for b in body) \
                    and all(isinstance(t, ast.Name) for t in defs[0].targets):
                return val(defs[0].value, i, n, d + 1)
            raise ValueError
        if isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.USub):
            return -val(x.operand, i, n, d)
        if isinstance(x, ast.BinOp):
            l, r = val(x.left, i, n, d), val(x.right, i, n, d)
            o = {ast.Add: lambda: l + r, ast.Sub: lambda: l - r, ast.Mult: lambda: l * r, ast.FloorDiv: lambda: l // r,
                 ast.Mod: lambda: l % r, ast.LShift: lambda: l << r, ast.RShift: lambda: l >> r}.get(type(x.op))
            if o is None or abs(l) > 99 or abs(r) > 99:
                raise ValueError
            return o()
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and not x.keywords:
            v = [val(a, i, n, d) for a in x.args]
            if x.func.id in ('min', 'max') and len(v) > 1:
                return (min if x.func.id == 'min' else max)(v)
            if x.func.id in ('int', 'abs', 'int64', 'int32') and len(v) == 1:
                return abs(v[0]) if x.func.id == 'abs' else v[0]
        if isinstance(x, ast.Attribute) or isinstance(x, ast.Subscript) and isinstance(x.value, ast.Attribute) \
                and x.value.attr == 'shape':
            return n
        raise ValueError
    try:
        return tuple(tuple(val(e, i, n, 0) for i in range(n)) for n in SIZES)
    except (ValueError, ZeroDivisionError):
        return None


def injective(im):
    return all(len(set(t)) == len(t) for t in im)


def colliding(im):
    return all(len(set(t)) < len(t) for t in im)


def meet(a, b):
    """different iterations reach the same position"""
    return any(x == y for s, t in zip(a, b) for i, x in enumerate(s) for j, y in enumerate(t) if i != j)


def reads_whole(a):
    return not a.idx or a.idx[-1] is None


class Races:
    def __init__(self, repo):
        self.mods = Mods(repo)
        self.out = []
        self.loops = []
        self.open = []

    def run(self):
        for mod, (rel, tree) in self.mods.trees.items():
            self.walk(mod, rel, tree.body, [], False)
        return self

    def walk(self, mod, rel, stmts, scopes, par):
        for s in stmts:
            if isinstance(s, ast.FunctionDef):
                self.function(mod, rel, s, scopes)
            elif isinstance(s, ast.ClassDef):
                self.walk(mod, rel, s.body, scopes, par)
            else:
                for c in ast.iter_child_nodes(s):
                    if isinstance(c, ast.stmt):
                        self.walk(mod, rel, [c], scopes, par)

    def function(self, mod, rel, fn, scopes):
        if parallel(fn):
            lv = LiveOut(fn)
            inner = {id(m) for n in own_nodes(fn) if isinstance(n, ast.For) and is_prange(n.iter) for b in n.body
                     for m in ast.walk(b)}
            for n in own_nodes(fn):
                # a parallel loop inside another one runs serially
                if isinstance(n, ast.For) and is_prange(n.iter) and id(n) not in inner:
                    self.loop(mod, rel, fn, n, scopes + [fn], lv)
        self.walk(mod, rel, fn.body, scopes + [fn], False)

    def loop(self, mod, rel, fn, s, scopes, lv):
        con = '%s:%s' % (rel, '.'.join(f.name for f in scopes))
        self.loops.append('%s:%d' % (con, s.lineno))
        if not isinstance(s.target, ast.Name):
            self.open.append('%s: loop target' % con)
            return
        i = s.target.id

        def rep(rule, msg, node):
            self.out.append((rule, con, 'parallel loop over %s: %s' % (i, msg), '%s:%d' % (rel, node.lineno)))
        # scalars
        asg = assigned_names(s.body)
        before = assigned_before(fn, s) | {a.arg for a in fn.args.args}
        red = self.reductions(s, asg, before)
        exp = exposed(s.body, {i})
        for v in sorted(asg - {i}):
            if v in red:
                continue
            if v in exp and v in before:
                rep('carried', 'variable %s is carried from one iteration to the next' % v, exp[v])
            elif v in lv.after.get(id(s), ()):
                if v in before or v in exp:
                    rep('carried', 'variable %s is assigned by several iterations and used after the loop' % v, s)
        for n in loop_nodes(s):
            if isinstance(n, ast.Break) or isinstance(n, ast.Return):
                rep('carried', 'an iteration may end the whole loop', n)
        # arrays
        b = Body(self.mods, mod, scopes)
        # views taken before the loop
        for st in preceding(fn, s):
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                b.bindname(st.targets[0].id, st.value)
        b.private = set()
        b.accs, b.unknown = [], []
        b.stmts(s.body)
        dep = derived(s.body, i)
        accs = [a for a in b.accs if a.base not in b.private]
        writes = [a for a in accs if a.write]
        seen = set()
        for w in writes:
            if w.base in asg and w.base not in before:
                continue
            k = self.kind(w, i, dep, s.body)
            if k in ('same', 'meet'):
                key = (w.base, w.node.lineno)
                if key not in seen:
                    seen.add(key)
                    rep('write', '%s the same elements of %s' % (
                        'every iteration writes' if k == 'same' else 'several iterations write', w.base), w.node)
                continue
            if k is None:
                self.open.append('%s:%d: subscript of %s' % (rel, w.node.lineno, w.base))
                continue
            p, c = k
            for a in accs:
                if a.base != w.base or a is w:
                    continue
                e = a.idx[p] if p < len(a.idx) else None
                if e is None or isinstance(e, str):
                    bad = True
                elif isinstance(e, Opaque):
                    bad = not e.deps & dep
                    if not bad:
                        continue
                else:
                    o = image(e, i, s.body) if names_read(e) & dep else None
                    if o is not None:
                        bad = meet(c, o)
                    elif names_read(e) & dep:
                        continue
                    else:
                        bad = True
                if bad:
                    key = (w.base, a.node.lineno, a.write)
                    if key not in seen:
                        seen.add(key)
                        rep('write' if a.write else 'read', 'elements of %s that one iteration writes are %s by others' % (
                            w.base, 'written' if a.write else 'read'), a.node)

    def kind(self, a, i, dep, body):
        """(position, image) of a subscript that differs between iterations; 'same' when the subscript does not depend on the
        iteration, 'meet' when it takes one position several times; else None"""
        anydep = False
        col = 0
        for p, e in enumerate(a.idx):
            if e is None:
                break
            if isinstance(e, str):
                continue
            if isinstance(e, Opaque):
                anydep |= bool(e.deps & dep)
                continue
            if not names_read(e) & dep:
                continue
            o = image(e, i, body)
            if o is not None and injective(o):
                return p, o
            if o is not None and colliding(o):
                col += 1
            else:
                anydep = True
        return None if anydep or col > 1 else 'meet' if col else 'same'

    def reductions(self, s, asg, before):
        """variables that are only added to (or multiplied)"""
        out = set()
        for v in asg:
            if v not in before:
                continue
            ok = True
            ops = set()
            skip = set()
            for n in loop_nodes(s):
                if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == v:
                    if v in {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)}:
                        ok = False
                    ops.add(type(n.op).__name__)
                    skip.add(id(n.target))
                elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id == v \
                        and isinstance(n.value, ast.BinOp) and isinstance(n.value.op, (ast.Add, ast.Sub, ast.Mult)):
                    l, r = n.value.left, n.value.right
                    if isinstance(r, ast.Name) and r.id == v and not isinstance(n.value.op, ast.Sub):
                        l, r = r, l
                    if isinstance(l, ast.Name) and l.id == v and v not in names_read(r):
                        ops.add(type(n.value.op).__name__)
                        skip |= {id(l), id(n.targets[0])}
            if not ops or not (ops <= {'Add', 'Sub'} or ops == {'Mult'}):
                continue
            for n in loop_nodes(s):
                if isinstance(n, ast.Name) and n.id == v and id(n) not in skip:
                    ok = False
            if ok:
                out.add(v)
        return out


def loop_nodes(s):
    for b in s.body:
        for n in ast.walk(b):
            if isinstance(n, ast.Break):
                # a break of an inner loop stays inside
                if not inner_break(s, n):
                    yield n
                continue
            yield n


def inner_break(s, brk):
    for b in s.body:
        for n in ast.walk(b):
            if isinstance(n, (ast.For, ast.While)) and any(x is brk for x in ast.walk(n)):
                return True
    return False


def own_nodes(fn):
    todo = list(fn.body)
    while todo:
        n = todo.pop(0)
        yield n
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def preceding(fn, loop):
    """statements textually before the loop in the function"""
    return [n for n in own_nodes(fn) if isinstance(n, ast.stmt) and n.lineno < loop.lineno]


def assigned_before(fn, loop):
    return assigned_names([n for n in preceding(fn, loop) if not isinstance(n, (ast.For, ast.While, ast.If)) or True and
                           isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign))]) | {
        x.id for n in preceding(fn, loop) if isinstance(n, ast.For) and n is not loop for x in ast.walk(n.target)
        if isinstance(x, ast.Name)}


def exposed(body, defd):
    """names that may be read before they are assigned in the same iteration -> node"""
    out = {}

    def rd(e, d):
        if e is None:
            return
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in d:
                out.setdefault(n.id, n)

    def blk(ss, d):
        for s in ss:
            d = st(s, d)
            if d is None:
                return None
        return d

    def tg(t):
        return {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}

    def st(s, d):
        if isinstance(s, ast.Assign):
            rd(s.value, d)
            for t in s.targets:
                if not isinstance(t, ast.Name):
                    rd(t, d)
            r = set(d)
            for t in s.targets:
                r |= tg(t)
            return r
        if isinstance(s, ast.AugAssign):
            rd(s.value, d)
            if isinstance(s.target, ast.Name):
                if s.target.id not in d:
                    out.setdefault(s.target.id, s)
            else:
                rd(s.target, d)
            return d | ({s.target.id} if isinstance(s.target, ast.Name) else set())
        if isinstance(s, ast.If):
            rd(s.test, d)
            a, b = blk(s.body, set(d)), blk(s.orelse, set(d))
            return b if a is None else a if b is None else a & b
        if isinstance(s, ast.For):
            rd(s.iter, d)
            blk(s.body, d | tg(s.target))
            b = blk(s.orelse, set(d))
            return set(d)
        if isinstance(s, ast.While):
            rd(s.test, d)
            blk(s.body, set(d))
            return set(d)
        if isinstance(s, (ast.Continue, ast.Break, ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(s):
                rd(c, d)
            return None
        if isinstance(s, (ast.FunctionDef, ast.Import, ast.ImportFrom)):
            return d | assigned_names([s])
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                rd(c, d)
            elif isinstance(c, ast.stmt):
                st(c, d)
        return d
    blk(body, set(defd))
    return out


class LiveOut(Liveness):
    """names live after each loop"""

    def __init__(self, fn):
        self.after = {}
        Liveness.__init__(self, fn)

    def stmt(self, s, out, brk, cont):
        if isinstance(s, ast.For):
            self.after[id(s)] = frozenset(out)
        return Liveness.stmt(self, s, out, brk, cont)

"""Linkage of the whole package, decided on the syntax tree: names resolve in their scopes, attributes of modules and of the package's
own objects exist, internal calls fit their callee's parameters, compiled signatures fit the parameters, values are unpacked into as
many targets as are returned, and no local is read before any binding can have reached it."""
import ast
import builtins
import importlib.util
import os
import re
import symtable
import sys

NP_DIRS = ['/opt/venv/lib/python3.12/site-packages/numpy']
STD = {'math', 'itertools', 'os', 'sys', 'tempfile', 'subprocess', 'functools', 'time'}
BUILTIN = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__path__', '__package__', '__spec__'}


def stub_names(d, sub=''):
    """names of a numpy module, from its stub"""
    for base in [d]:
        p = os.path.join(base, sub, '__init__.pyi')
        if os.path.exists(p):
            t = ast.parse(open(p).read())
            out = set()

            def top(body):
                for s in body:
                    if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                        out.add(s.name)
                    elif isinstance(s, ast.ImportFrom):
                        for a in s.names:
                            out.add(a.asname or a.name)
                    elif isinstance(s, ast.Import):
                        for a in s.names:
                            out.add((a.asname or a.name).split('.')[0])
                    elif isinstance(s, ast.Assign):
                        for g in s.targets:
                            if isinstance(g, ast.Name):
                                out.add(g.id)
                            if isinstance(g, ast.Name) and g.id == '__all__' and isinstance(s.value, ast.List):
                                out.update(e.value for e in s.value.elts if isinstance(e, ast.Constant))
                    elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                        out.add(s.target.id)
                    elif isinstance(s, ast.If):
                        top(s.body)
                        top(s.orelse)
            top(t.body)
            return out
    return None


def nd_attrs(d):
    """attributes of an array, from the stub"""
    p = os.path.join(d, '__init__.pyi')
    out = set()
    if os.path.exists(p):
        for s in ast.parse(open(p).read()).body:
            if isinstance(s, ast.ClassDef) and s.name in ('ndarray', '_ArrayOrScalarCommon', 'generic'):
                out |= {x.name for x in s.body if isinstance(x, ast.FunctionDef)}
    return out


class Func:
    def __init__(self, node, mod, cls=None, qual=''):
        self.node, self.mod, self.cls, self.qual = node, mod, cls, qual
        a = node.args
        self.pos = [x.arg for x in a.posonlyargs + a.args]
        self.posonly = len(a.posonlyargs)
        self.kw = [x.arg for x in a.kwonlyargs]
        self.ndef = len(a.defaults)
        self.kwreq = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
        self.var, self.varkw = a.vararg, a.kwarg
        self.static = self.cm = False
        self.odd = False
        for d in getattr(node, 'decorator_list', []):
            n = d.func if isinstance(d, ast.Call) else d
            n = n.attr if isinstance(n, ast.Attribute) else getattr(n, 'id', '?')
            if n == 'staticmethod':
                self.static = True
            elif n == 'classmethod':
                self.cm = True
            elif n not in ('jit', 'njit', 'vectorize'):
                self.odd = n

    def mismatch(self, call, bound):
        """why the call does not fit, or None"""
        if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
            return None
        pos = self.pos[1:] if bound else self.pos
        n = len(call.args)
        if n > len(pos) and not self.var:
            return '%d positional arguments for %d parameters' % (n, len(pos))
        got = set(pos[:n])
        for k in call.keywords:
            if k.arg in got and k.arg in pos:
                return 'argument %s given twice' % k.arg
            if k.arg not in pos and k.arg not in self.kw and not self.varkw:
                return 'no parameter %s' % k.arg
            got.add(k.arg)
        req = pos[:len(self.pos) - self.ndef - (1 if bound else 0)] if self.ndef else pos
        miss = [p for p in req + self.kwreq if p not in got]
        return 'no value for parameter %s' % ', '.join(miss) if miss else None

    def ret_arity(self):
        """number of values if every return is a tuple display of the same length"""
        if isinstance(self.node, ast.Lambda):
            return None
        ns = set()
        for x in own_walk(self.node):
            if isinstance(x, ast.Return):
                if isinstance(x.value, ast.Tuple) and not any(isinstance(e, ast.Starred) for e in x.value.elts):
                    ns.add(len(x.value.elts))
                else:
                    return None
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                return None
        return ns.pop() if len(ns) == 1 else None


SCOPES = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)


def own_walk(node):
    """nodes of a scope without those of nested functions and classes (their decorators, defaults and bases included)"""
    body = node.body if isinstance(node.body, list) else [node.body]
    st = list(body)
    while st:
        x = st.pop()
        yield x
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            st += list(getattr(x, 'decorator_list', [])) + x.args.defaults + [d for d in x.args.kw_defaults if d]
            continue
        if isinstance(x, ast.ClassDef):
            st += x.decorator_list + x.bases
            continue
        st += list(ast.iter_child_nodes(x))


class Module:
    def __init__(self, pkg, name, path):
        self.pkg, self.name, self.path = pkg, name, path
        self.src = open(os.path.join(pkg.root, path)).read()
        self.tree = ast.parse(self.src, path)
        self.sym = symtable.symtable(self.src, path, 'exec')
        self.globals = set()
        self.star = []
        self.alias = {}         # global name -> dotted module
        self.froms = {}         # global name -> (module, name)
        self.funcs, self.classes = {}, {}
        self.multi = {}
        for t in self.sym.get_symbols():
            if t.is_assigned() or t.is_imported() or t.is_namespace():
                self.globals.add(t.get_name())

        def rec(st):
            for c in st.get_children():
                for t in c.get_symbols():
                    if t.is_declared_global() and t.is_assigned():
                        self.globals.add(t.get_name())
                rec(c)
        rec(self.sym)
        self.bind = {}
        for x in own_walk(self.tree):
            if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                self.bind[x.name] = self.bind.get(x.name, 0) + 1
                if isinstance(x, ast.FunctionDef):
                    self.funcs[x.name] = Func(x, self, qual=x.name)
                else:
                    self.classes[x.name] = x
            elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                self.bind[x.id] = self.bind.get(x.id, 0) + 5
        self.imports(self.tree, self.alias, self.froms)

    def imports(self, scope, alias, froms):
        for x in own_walk(scope):
            if isinstance(x, ast.Import):
                for a in x.names:
                    alias[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
            elif isinstance(x, ast.ImportFrom) and x.module is not None:
                m = self.resolve_rel(x)
                for a in x.names:
                    if a.name == '*':
                        self.star.append(m)
                    elif (m + '.' + a.name) in self.pkg.names:
                        alias[a.asname or a.name] = m + '.' + a.name
                    else:
                        froms[a.asname or a.name] = (m, a.name)

    def resolve_rel(self, x):
        if not x.level:
            return x.module
        base = self.name.split('.')
        if not self.path.endswith('__init__.py'):
            base = base[:-1]
        base = base[:len(base) - (x.level - 1)]
        return '.'.join(base + ([x.module] if x.module else []))


class Package:
    def __init__(self, root, pkg='lom', skip=('benchmarks',)):
        self.root = root
        self.mods = {}
        self.names = set()
        files = []
        for d, ds, fs in os.walk(os.path.join(root, pkg)):
            ds[:] = sorted(x for x in ds if x != '__pycache__' and x not in skip)
            for f in sorted(fs):
                if f.endswith('.py'):
                    rel = os.path.relpath(os.path.join(d, f), root)
                    n = rel[:-3].replace(os.sep, '.')
                    if n.endswith('.__init__'):
                        n = n[:-9]
                    files.append((n, rel))
                    self.names.add(n)
        self.broken = []
        for n, rel in files:
            self.mods[n] = Module(self, n, rel)
        self.np = {}
        for d in NP_DIRS:
            self.np['numpy'] = stub_names(d)
            for s in ('random', 'linalg', 'fft', 'ma'):
                self.np['numpy.' + s] = stub_names(d, s)
            if self.np['numpy'] is not None:
                self.np['numpy'] |= {'random', 'linalg', 'fft', 'ma', 'testing', '__version__'}
        # attributes that some object of the package can have
        self.attrs = set()
        self.lib_attrs = nd_attrs(NP_DIRS[0])
        for t in (object, type, list, dict, set, tuple, str, int, float, complex, bytes, property, type(len), type(lambda: 0)):
            self.lib_attrs |= set(dir(t))
        self.methods = {}
        for m in self.mods.values():
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    self.attrs.add(x.attr)
                elif isinstance(x, ast.ClassDef):
                    for s in x.body:
                        if isinstance(s, ast.FunctionDef):
                            self.attrs.add(s.name)
                            self.methods.setdefault(s.name, []).append(Func(s, m, x.name, x.name + '.' + s.name))
                        for t in ast.walk(s):
                            if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store):
                                self.attrs.add(t.id)
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'setattr' and len(x.args) > 1 \
                        and isinstance(x.args[1], ast.Constant):
                    self.attrs.add(x.args[1].value)
        self.dyn = any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'setattr'
                       and not (len(x.args) > 1 and isinstance(x.args[1], ast.Constant))
                       for m in self.mods.values() for x in ast.walk(m.tree))

    def members(self, mod, seen=()):
        """names a package module defines"""
        m = self.mods[mod]
        out = set(m.globals)
        for s in m.star:
            if s in self.mods and s not in seen:
                out |= self.members(s, seen + (mod,))
        out |= {n[len(mod) + 1:].split('.')[0] for n in self.names if n.startswith(mod + '.')}
        return out | {'__name__', '__file__', '__doc__', '__dict__', '__path__'}

    def lib_members(self, mod):
        if mod in self.np:
            return self.np[mod]
        if mod in STD:
            return set(dir(__import__(mod)))
        return None

    def lookup(self, mod, name, depth=0):
        """('func', Func) / ('class', Module, ClassDef) / ('mod', dotted) / None for what a name of a package module is"""
        if depth > 5 or mod not in self.mods:
            return None
        m = self.mods[mod]
        if m.bind.get(name, 0) == 1:
            if name in m.funcs:
                return ('func', m.funcs[name])
            if name in m.classes:
                return ('class', m, m.classes[name])
        if m.bind.get(name, 0):
            return None
        if name in m.alias:
            return ('mod', m.alias[name])
        if name in m.froms:
            b, n = m.froms[name]
            if b in self.mods:
                return self.lookup(b, n, depth + 1)
            return None
        if mod + '.' + name in self.mods:
            return ('mod', mod + '.' + name)
        return None


INST = {'self', 'layer', 'mat', 'machine', 'orm', 'parm', 'lr', 'mf', 'factor', 'child', 'parent'}


class Lint:
    def __init__(self, pkg, mod):
        self.p, self.m = pkg, pkg.mods[mod]
        self.out = []
        self.sites = 0
        self.funcs = set()

    def add(self, rule, qual, node, msg):
        self.out.append((rule, '%s:%s' % (self.m.path, qual), msg, '%s:%d in %s' % (self.m.path, node.lineno, qual)))

    def run(self):
        for x in ast.walk(self.m.tree):
            if isinstance(x, ast.ImportFrom) and x.module:
                b = self.m.resolve_rel(x)
                mem = self.p.members(b) if b in self.p.mods else self.p.lib_members(b)
                if b.split('.')[0] == 'lom' and b not in self.p.mods:
                    self.add('import', '<module>', x, 'no module %s' % b)
                for a in x.names:
                    self.sites += 1
                    if mem is not None and a.name != '*' and a.name not in mem:
                        self.add('import', '<module>', x, 'module %s has no %s' % (b, a.name))
            elif isinstance(x, ast.Import):
                for a in x.names:
                    self.sites += 1
                    if a.name.split('.')[0] == 'lom' and a.name not in self.p.mods:
                        self.add('import', '<module>', x, 'no module %s' % a.name)
        self.scope(self.m.tree, '<module>', [], None)
        return self

    # scopes: list of dicts name -> ('func', Func) | ('other',) ; innermost last
    def bindings(self, node):
        """names bound in the scope of a function: name -> list of (kind, node)"""
        b = {}
        if not isinstance(node, ast.Module):
            a = node.args
            for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
                b.setdefault(x.arg, []).append(('param', x))
        if isinstance(node, ast.Lambda):
            body = []
        else:
            body = own_walk(node)
        decl = set()
        for x in body:
            if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                b.setdefault(x.name, []).append(('def', x))
            elif isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                b.setdefault(x.id, []).append(('store', x))
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                for al in x.names:
                    b.setdefault(al.asname or al.name.split('.')[0], []).append(('import', x))
            elif isinstance(x, ast.ExceptHandler) and x.name:
                b.setdefault(x.name, []).append(('store', x))
            elif isinstance(x, (ast.Global, ast.Nonlocal)):
                decl |= set(x.names)
            elif isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                b.setdefault(x.targets[0].id, []).append(('assign', x))
        for d in decl:
            b.pop(d, None)
        return b

    def scope(self, node, qual, chain, cls):
        if not isinstance(node, ast.Module):
            self.funcs.add('%s:%s' % (self.m.path, qual))
        if isinstance(node, ast.ClassDef):
            # class bodies: method names are not visible to methods
            for x in own_walk(node):
                self.visit(x, qual, chain, node)
                if isinstance(x, (ast.FunctionDef, ast.Lambda)):
                    self.scope(x, qual + '.' + getattr(x, 'name', '<lambda>'), chain, node)
            return
        b = self.bindings(node) if not isinstance(node, ast.Module) else {}
        alias, froms = {}, {}
        if not isinstance(node, (ast.Module, ast.Lambda)):
            self.m.imports(node, alias, froms)
        comp = {}
        here = chain + [(node, b, alias, froms)] if not isinstance(node, ast.Module) else chain
        pre = '' if qual == '<module>' else qual + '.'
        for x in own_walk(node):
            self.visit(x, qual, here, cls)
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                self.scope(x, pre + getattr(x, 'name', '<lambda>'), here, cls)
                if isinstance(x, ast.FunctionDef):
                    self.jit(x, pre + x.name)
            elif isinstance(x, ast.ClassDef):
                self.scope(x, pre + x.name, here, x)
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            Unbound(self, node, qual, b).run()

    def resolve(self, e, chain, depth=0):
        """what an expression statically denotes"""
        if depth > 8:
            return None
        if isinstance(e, ast.Name):
            for node, b, alias, froms in reversed(chain):
                if e.id in b:
                    ks = b[e.id]
                    kinds = {k for k, _ in ks}
                    if kinds == {'import'}:
                        if e.id in alias:
                            return ('mod', alias[e.id])
                        if e.id in froms:
                            m, n = froms[e.id]
                            return self.p.lookup(m, n)
                        return None
                    if kinds == {'def'} and len(ks) == 1:
                        x = ks[0][1]
                        return ('func', Func(x, self.m, qual=x.name)) if isinstance(x, ast.FunctionDef) else None
                    if kinds == {'store', 'assign'}:
                        vs = [x.value for k, x in ks if k == 'assign']
                        if len(vs) == len([1 for k, x in ks if k == 'store']):
                            rs = [self.resolve(v, chain, depth + 1) if not isinstance(v, ast.Name) or v.id != e.id else None for v in vs]
                            if all(r and r[0] == 'func' for r in rs):
                                return ('any', [r[1] for r in rs]) if len(rs) > 1 else rs[0]
                    return None
            if self.m.star and e.id not in self.m.globals:
                return None
            return self.p.lookup(self.m.name, e.id)
        if isinstance(e, ast.Attribute):
            r = self.resolve(e.value, chain, depth + 1)
            if r and r[0] == 'mod':
                if r[1] in self.p.mods:
                    return self.p.lookup(r[1], e.attr)
                sub = r[1] + '.' + e.attr
                if sub in self.p.mods or self.p.lib_members(sub) is not None:
                    return ('mod', sub)
        return None

    def local(self, name, chain):
        return any(name in b for _, b, _, _ in chain)

    def visit(self, x, qual, chain, cls):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
            self.sites += 1
            n = x.id
            if self.local(n, chain) or n in self.m.globals or n in BUILTIN or self.m.star:
                return
            if cls is not None and n in {t.id for s in cls.body for t in ast.walk(s) if isinstance(t, ast.Name)
                                         and isinstance(t.ctx, ast.Store)} | {s.name for s in cls.body if hasattr(s, 'name')} \
                    and not chain:
                return
            self.add('name', qual, x, 'name %s is not defined' % n)
        elif isinstance(x, ast.Attribute):
            self.sites += 1
            r = self.resolve(x.value, chain)
            if r and r[0] == 'mod':
                mem = self.p.members(r[1]) if r[1] in self.p.mods else self.p.lib_members(r[1])
                if mem is not None and x.attr not in mem and isinstance(x.ctx, ast.Load) and x.attr not in self.p.attrs:
                    if r[1] in self.p.mods or not x.attr.startswith('__'):
                        self.add('module-attribute', qual, x, 'module %s has no %s' % (r[1], x.attr))
                return
            if isinstance(x.ctx, ast.Load) and not self.p.dyn:
                v = x.value
                inst = (isinstance(v, ast.Name) and v.id in INST and (v.id != 'self' or cls is not None)
                        or isinstance(v, ast.Attribute) and v.attr in INST)
                if inst and isinstance(v, ast.Name) and self.resolve(v, chain) is not None:
                    inst = False
                if inst and x.attr not in self.p.attrs and x.attr not in self.p.lib_attrs:
                    self.add('attribute', qual, x, 'no object of the package has an attribute %s' % x.attr)
        elif isinstance(x, ast.Call):
            self.call(x, qual, chain, cls)
        elif isinstance(x, ast.Assign) and isinstance(x.value, ast.Call) and len(x.targets) == 1 \
                and isinstance(x.targets[0], (ast.Tuple, ast.List)):
            els = x.targets[0].elts
            r = self.resolve(x.value.func, chain)
            if r and r[0] == 'func' and not r[1].odd and not any(isinstance(e, ast.Starred) for e in els):
                n = r[1].ret_arity()
                self.sites += 1
                if n is not None and n != len(els):
                    self.add('unpack', qual, x, '%s returns %d values, %d targets' % (r[1].qual, n, len(els)))

    def call(self, x, qual, chain, cls):
        f = x.func
        r = self.resolve(f, chain)
        self.sites += 1
        if r is None and isinstance(f, ast.Attribute):
            # method
            ms = None
            if isinstance(f.value, ast.Name) and f.value.id == 'self' and cls is not None:
                ms = self.method(cls, f.attr)
                if ms is not None and self.instance_store(f.attr):
                    ms = None
            elif f.attr in self.p.methods and f.attr not in self.p.lib_attrs and not self.resolve(f.value, chain) \
                    and not self.library(f.value, chain) and not self.instance_store(f.attr):
                ms = self.p.methods[f.attr]
            if ms:
                why = [q.mismatch(x, not q.static) for q in ms if not q.odd]
                if len(why) == len(ms) and all(why):
                    self.add('arity', qual, x, 'call of %s: %s' % (ms[0].qual, why[0]))
            return
        if r is None:
            return
        if r[0] == 'func' and not r[1].odd:
            w = r[1].mismatch(x, False)
            if w:
                self.add('arity', qual, x, 'call of %s: %s' % (r[1].qual, w))
        elif r[0] == 'any' and not any(g.odd for g in r[1]):
            ws = [g.mismatch(x, False) for g in r[1]]
            if all(ws):
                self.add('arity', qual, x, 'call of %s: %s' % (r[1][0].qual, ws[0]))
        elif r[0] == 'class':
            ms = self.method(r[2], '__init__', r[1])
            if ms:
                w = ms[0].mismatch(x, True)
                if w:
                    self.add('arity', qual, x, 'construction of %s: %s' % (r[2].name, w))
        elif r[0] == 'mod':
            self.add('arity', qual, x, 'module %s is called' % r[1])

    def library(self, e, chain):
        while isinstance(e, (ast.Attribute, ast.Call, ast.Subscript)):
            e = e.func if isinstance(e, ast.Call) else e.value
        if isinstance(e, ast.Name):
            for node, b, alias, froms in reversed(chain):
                if e.id in b:
                    return e.id in alias or e.id in froms or not (
                        {k for k, _ in b[e.id]} <= {'param'} or e.id in INST)
            return e.id in self.m.alias or e.id in self.m.froms or e.id not in INST
        return True

    def instance_store(self, name):
        """some object gets an attribute of that name: the call may not reach the method"""
        for m in self.p.mods.values():
            for y in ast.walk(m.tree):
                if isinstance(y, ast.Attribute) and y.attr == name and isinstance(y.ctx, ast.Store):
                    return True
        return False

    def method(self, cls, name, mod=None, depth=0):
        """[Func] of a method of a class or its package bases; None if a base is unknown"""
        mod = mod or self.m
        for s in cls.body:
            if isinstance(s, ast.FunctionDef) and s.name == name:
                return [Func(s, mod, cls.name, cls.name + '.' + name)]
        for b in cls.bases:
            if isinstance(b, ast.Name) and b.id in mod.classes and depth < 5:
                r = self.method(mod.classes[b.id], name, mod, depth + 1)
                if r:
                    return r
        return None

    def jit(self, fn, qual):
        for d in fn.decorator_list:
            if isinstance(d, ast.Call) and d.args:
                f = d.func.attr if isinstance(d.func, ast.Attribute) else getattr(d.func, 'id', '')
                if f not in ('jit', 'njit'):
                    continue
                sigs = d.args[0].elts if isinstance(d.args[0], (ast.List, ast.Tuple)) else [d.args[0]]
                for s in sigs:
                    t = const_str(s)
                    if t is None:
                        continue
                    self.sites += 1
                    n = sig_arity(t)
                    have = len(fn.args.posonlyargs) + len(fn.args.args)
                    if n is None:
                        self.add('signature', qual, d, 'compiled signature %r is malformed' % t)
                    elif n != have:
                        self.add('signature', qual, d, 'compiled signature has %d argument types for %d parameters' % (n, have))
                    else:
                        self.sig_dims(fn, qual, d, t)
                        bad = [w for w in re.findall(r'[a-z]+\d*', t) if w not in TYPES]
                        if bad:
                            self.add('signature', qual, d, 'unknown type %s in compiled signature' % bad[0])


    def sig_dims(self, fn, qual, d, t):
        """declared ranks against the ranks the body needs"""
        i = t.index('(')
        ret, args = t[:i].strip(), split_types(t[i + 1:-1])
        decl = {a.arg: rank(x) for a, x in zip(fn.args.posonlyargs + fn.args.args, args)}
        stores = {}
        for x in own_walk(fn):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                stores[x.id] = stores.get(x.id, 0) + 1
        need = {}
        made = {}
        rets = []
        for x in own_walk(fn):
            if isinstance(x, ast.Assign) and len(x.targets) == 1:
                t0, v = x.targets[0], x.value
                if isinstance(t0, (ast.Tuple, ast.List)) and isinstance(v, ast.Attribute) and v.attr == 'shape' \
                        and isinstance(v.value, ast.Name) and not any(isinstance(e, ast.Starred) for e in t0.elts):
                    need.setdefault(v.value.id, set()).add(('=', len(t0.elts)))
                if isinstance(t0, ast.Name) and isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) \
                        and v.func.attr in ('zeros', 'ones', 'empty', 'full') and v.args \
                        and isinstance(v.args[0], (ast.Tuple, ast.List)) \
                        and not any(isinstance(e, ast.Starred) for e in v.args[0].elts):
                    made[t0.id] = len(v.args[0].elts)
            elif isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name):
                if isinstance(x.slice, ast.Tuple) and not any(
                        isinstance(e, ast.Constant) and e.value in (None, Ellipsis) or isinstance(e, (ast.Attribute, ast.Starred))
                        for e in x.slice.elts):
                    need.setdefault(x.value.id, set()).add(('>', len(x.slice.elts)))
                else:
                    need.setdefault(x.value.id, set()).add(('>', 1))
            elif isinstance(x, ast.Return):
                rets.append(x.value)
        for n, r in decl.items():
            if r is None or stores.get(n):
                continue
            for k, m in sorted(need.get(n, ())):
                self.sites += 1
                if k == '=' and m != r or k == '>' and m > r:
                    self.add('signature', qual, d, 'compiled signature declares %s with rank %d, used with rank %d' % (n, r, m))
        for v in rets:
            if isinstance(v, ast.Name) and v.id in made and stores.get(v.id) == 1:
                self.sites += 1
                if rank(ret) is not None and rank(ret) != made[v.id]:
                    self.add('signature', qual, d, 'compiled signature declares a result of rank %d, an array of rank %d is returned'
                             % (rank(ret), made[v.id]))
            if v is not None and ret in ('void', 'none') and not (isinstance(v, ast.Constant) and v.value is None):
                self.add('signature', qual, d, 'compiled signature declares no result, a value is returned')


def split_types(t):
    out, depth, cur = [], 0, ''
    for c in t:
        if c in '([':
            depth += 1
        elif c in ')]':
            depth -= 1
        if c == ',' and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += c
    return out + ([cur] if cur.strip() else [])


def rank(t):
    t = t.strip()
    if '[' not in t:
        return 0 if t in TYPES and t not in ('void', 'none', 'types') else None
    b = t[t.index('['):]
    return b.count(',') + 1 if re.fullmatch(r'\[[:1, ]*\]', b) else None


TYPES = {'void', 'none', 'boolean', 'bool_', 'b1', 'i1', 'i2', 'i4', 'i8', 'u1', 'u2', 'u4', 'u8', 'f4', 'f8', 'float', 'double',
         'int', 'intp', 'uintp', 'int_', 'complex64', 'complex128', 'char', 'uchar', 'short', 'long', 'types', 'unicode_type',
         'optional'} | {'int%d' % b for b in (8, 16, 32, 64)} | {'uint%d' % b for b in (8, 16, 32, 64)} | {'float32', 'float64'}


def const_str(e):
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
        return e.value
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        a, b = const_str(e.left), const_str(e.right)
        return a + b if a is not None and b is not None else None
    return None


def sig_arity(t):
    t = t.strip()
    depth = 0
    i = None
    for j, c in enumerate(t):
        if c == '(':
            i = j
            break
    if i is None or not t.endswith(')'):
        return None
    body = t[i + 1:-1].strip()
    if not body:
        return 0
    n = 1
    for c in body:
        if c in '([':
            depth += 1
        elif c in ')]':
            depth -= 1
            if depth < 0:
                return None
        elif c == ',' and depth == 0:
            n += 1
    if depth:
        return None
    return n - (1 if body.endswith(',') else 0)


class Unbound:
    """reads of a local that no binding can have reached: forward may-be-bound sets over the structured body"""

    def __init__(self, lint, node, qual, b):
        self.l, self.node, self.qual = lint, node, qual
        self.locals = {n for n, ks in b.items() if 'param' not in {k for k, _ in ks}}
        self.params = {n for n, ks in b.items() if 'param' in {k for k, _ in ks}}
        self.seen = set()
        self.exits = []

    def run(self):
        for x in own_walk(self.node):
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                return
        self.report = True
        self.block(self.node.body, set())

    def expr(self, e, s):
        if e is None:
            return
        if isinstance(e, (ast.Lambda,)):
            for d in e.args.defaults:
                self.expr(d, s)
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            names = {t.id for g in e.generators for t in ast.walk(g.target) if isinstance(t, ast.Name)}
            self.expr(e.generators[0].iter, s)
            inner = s | names
            for i, g in enumerate(e.generators):
                if i:
                    self.expr(g.iter, inner)
                for c in g.ifs:
                    self.expr(c, inner)
            for y in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                self.expr(y, inner)
            return
        if isinstance(e, ast.NamedExpr):
            self.expr(e.value, s)
            s.add(e.target.id)
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id in self.locals and e.id not in s and id(e) not in self.seen:
                self.seen.add(id(e))
                self.l.add('unbound', self.qual, e, 'local %s is read before anything is assigned to it' % e.id)
            return
        for c in ast.iter_child_nodes(e):
            self.expr(c, s)

    def bind(self, t, s):
        for x in ast.walk(t):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                s.add(x.id)
        if isinstance(t, (ast.Subscript, ast.Attribute)):
            self.expr(t, s)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                self.bind(e, s)

    def block(self, body, s):
        """updates s; False if the end cannot be reached"""
        live = True
        for x in body:
            if not live:
                return False
            live = self.stmt(x, s)
        return live

    def stmt(self, x, s):
        if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            for d in x.decorator_list:
                self.expr(d, s)
            if isinstance(x, ast.FunctionDef):
                for d in x.args.defaults:
                    self.expr(d, s)
            s.add(x.name)
        elif isinstance(x, ast.Assign):
            self.expr(x.value, s)
            for t in x.targets:
                self.bind(t, s)
        elif isinstance(x, ast.AugAssign):
            self.expr(x.value, s)
            if isinstance(x.target, ast.Name):
                self.expr(ast.copy_location(ast.Name(x.target.id, ast.Load()), x.target), s)
                s.add(x.target.id)
            else:
                self.expr(x.target, s)
        elif isinstance(x, ast.AnnAssign):
            self.expr(x.value, s)
            if x.value is not None:
                self.bind(x.target, s)
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            for a in x.names:
                s.add(a.asname or a.name.split('.')[0])
        elif isinstance(x, ast.If):
            self.expr(x.test, s)
            a, b = set(s), set(s)
            la, lb = self.block(x.body, a), self.block(x.orelse, b)
            s |= (a if la else set()) | (b if lb else set())
            return la or lb
        elif isinstance(x, (ast.For, ast.While)):
            a = set(s)
            if isinstance(x, ast.For):
                self.expr(x.iter, s)
                a = set(s)
                self.bind(x.target, a)
            # bindings of an earlier round may reach every point of the body
            for y in ast.walk(x):
                if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                    a.add(y.id)
                elif isinstance(y, (ast.FunctionDef, ast.ClassDef)):
                    a.add(y.name)
                elif isinstance(y, (ast.Import, ast.ImportFrom)):
                    a |= {z.asname or z.name.split('.')[0] for z in y.names}
            if isinstance(x, ast.While):
                self.expr(x.test, a)
            self.block(x.body, a)
            s |= a
            self.block(x.orelse, s)
            if isinstance(x, ast.While) and isinstance(x.test, ast.Constant) and x.test.value \
                    and not any(isinstance(y, ast.Break) for y in ast.walk(x)):
                return False
        elif isinstance(x, ast.Try):
            a = set(s)
            self.block(x.body, a)
            s |= a
            for h in x.handlers:
                c = set(s)
                self.expr(h.type, c)
                if h.name:
                    c.add(h.name)
                self.block(h.body, c)
                a |= c
            s |= a
            self.block(x.orelse, s)
            return self.block(x.finalbody, s)
        elif isinstance(x, ast.With):
            for i in x.items:
                self.expr(i.context_expr, s)
                if i.optional_vars:
                    self.bind(i.optional_vars, s)
            return self.block(x.body, s)
        elif isinstance(x, ast.Delete):
            for t in x.targets:
                if not isinstance(t, ast.Name):
                    self.expr(t, s)
        elif isinstance(x, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(x):
                self.expr(c, s)
            return False
        elif isinstance(x, (ast.Break, ast.Continue)):
            return False
        else:
            for c in ast.iter_child_nodes(x):
                self.expr(c, s)
        return True


def lint(root, mod=None):
    p = Package(root)
    out = {}
    for n in p.mods:
        if mod is None or n == mod:
            out[n] = Lint(p, n).run()
    return out


if __name__ == '__main__':
    for n, l in lint(sys.argv[1] if len(sys.argv) > 1 else '/repo').items():
        print(n, l.sites, len(l.funcs))
        for f in l.out:
            print('   ', f)

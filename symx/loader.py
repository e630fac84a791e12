"""Loads Python source through an AST rewrite that routes every operation CPython
would do natively (and so could not see a symbolic operand) through symx.rt.

The source text is read from disk on every run: the executed program is the
current /repo tree, nothing is cached.
"""
import ast
import builtins
import importlib.util
import os
import sys
import types

from . import rt

KEEP_CALLS = {'super', 'locals', 'globals', 'vars', 'eval', 'exec', '__import__', 'breakpoint'}


class Rewriter(ast.NodeTransformer):
    def __init__(self, strip_cache=False, record=None):
        self.cls = []
        self.strip_cache = strip_cache
        self.record = record          # module name: function entries are reported to rt.FUNCS
        self.scope = []

    # --- helpers
    def _rt(self, name):
        return ast.Attribute(value=ast.Name('__rt__', ast.Load()), attr=name, ctx=ast.Load())

    def _call(self, name, args, keywords=()):
        return ast.Call(func=self._rt(name), args=list(args), keywords=list(keywords))

    def _mangle(self, name):
        if name.startswith('__') and not name.endswith('__') and self.cls:
            return '_' + self.cls[-1].lstrip('_') + name
        return name

    def visit_ClassDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.bases = [self.visit(b) for b in node.bases]
        node.keywords = [self.visit(k) for k in node.keywords]
        self.cls.append(node.name)
        self.scope.append(node.name)
        node.body = self._body(node.body)
        self.scope.pop()
        self.cls.pop()
        return node

    def _body(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    def _func(self, node):
        decs = node.decorator_list
        if self.strip_cache:
            decs = [d for d in decs if not any(isinstance(n, (ast.Name, ast.Attribute)) and
                                               (getattr(n, 'id', None) or getattr(n, 'attr', None)) in ('lru_cache', 'cache')
                                               for n in ast.walk(d))]
        node.decorator_list = [self.visit(d) for d in decs]
        a = node.args
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d is not None else None for d in a.kw_defaults]
        for arg in a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]:
            arg.annotation = None
        node.returns = None
        self.scope.append(node.name)
        node.body = self._body(node.body)
        if self.record:
            at = 1 if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) else 0
            node.body.insert(at, ast.Expr(self._call('enter', [ast.Constant(self.record + ':' + '.'.join(self.scope))])))
        self.scope.pop()
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_AnnAssign(self, node):
        node.annotation = ast.Constant(None)
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    # --- expressions
    def visit_Call(self, node):
        f = node.func
        args = [self.visit(a) for a in node.args]
        kws = [self.visit(k) for k in node.keywords]
        if isinstance(f, ast.Name):
            if f.id in KEEP_CALLS:
                return ast.copy_location(ast.Call(func=f, args=args, keywords=kws), node)
            return ast.copy_location(self._call('call', [f] + args, kws), node)
        if isinstance(f, ast.Attribute):
            obj = self.visit(f.value)
            return ast.copy_location(self._call('cm', [obj, ast.Constant(self._mangle(f.attr))] + args, kws), node)
        return ast.copy_location(self._call('call', [self.visit(f)] + args, kws), node)

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and node.attr in rt.METHOD_NAMES:
            return ast.copy_location(self._call('attr', [node.value, ast.Constant(node.attr)]), node)
        return node

    def visit_Delete(self, node):
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
                out.append(ast.Expr(self._call('delitem', [self.visit(t.value), self.visit(t.slice)])))
            else:
                out.append(ast.Delete([self.visit(t)]))
        return [ast.copy_location(s, node) for s in out]

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(self._call('mod', [node.left, node.right]), node)
        op = {ast.Sub: '-', ast.BitAnd: '&', ast.BitOr: '|'}.get(type(node.op))
        if op:
            return ast.copy_location(self._call('setop', [ast.Constant(op), node.left, node.right]), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        names = {ast.In: 'contains', ast.NotIn: 'notcontains', ast.Is: 'is_', ast.IsNot: 'isnot'}
        if len(node.ops) == 1:
            n = names.get(type(node.ops[0]))
            if n:
                return ast.copy_location(self._call(n, [node.left, node.comparators[0]]), node)
            if not any(isinstance(x, ast.Constant) for x in (node.left, node.comparators[0])):
                op = {ast.Eq: '==', ast.NotEq: '!=', ast.LtE: '<=', ast.Lt: '<', ast.GtE: '>=', ast.Gt: '>'}[type(node.ops[0])]
                return ast.copy_location(self._call('cmp', [ast.Constant(op), node.left, node.comparators[0]]), node)
            return node
        if any(type(o) in names for o in node.ops):
            ops = {ast.In: 'in', ast.NotIn: 'notin', ast.Is: 'is', ast.IsNot: 'isnot', ast.Eq: 'eq', ast.NotEq: 'ne',
                   ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt', ast.GtE: 'ge'}
            parts = []
            for o, c in zip(node.ops, node.comparators):
                lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=c)
                parts.append(ast.Tuple([ast.Constant(ops[type(o)]), lam], ast.Load()))
            return ast.copy_location(self._call('chain', [node.left] + parts), node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(self._call('getitem', [node.value, self._slice(node.slice)]), node)
        return node

    def _slice(self, s):
        if isinstance(s, ast.Slice):
            n = ast.Constant(None)
            return ast.Call(func=ast.Name('slice', ast.Load()), args=[s.lower or n, s.upper or n, s.step or n], keywords=[])
        if isinstance(s, ast.Tuple) and any(isinstance(e, ast.Slice) for e in s.elts):
            return ast.Tuple([self._slice(e) for e in s.elts], ast.Load())
        return s

    def visit_Assign(self, node):
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            val = self.visit(node.value)
            obj = self.visit(t.value)
            key = self._slice(self.visit(t.slice) if not isinstance(t.slice, ast.Slice) else self.generic_visit(t.slice))
            return ast.copy_location(ast.Expr(self._call('setitem', [obj, key, val])), node)
        return self.generic_visit(node)

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            return ast.copy_location(ast.Assign([node.target], self._call('mod', [ast.Name(node.target.id, ast.Load()), node.value])), node)
        if isinstance(node.op, (ast.BitOr, ast.Sub, ast.BitAnd)) and isinstance(node.target, ast.Name):
            op = {ast.Sub: '-', ast.BitAnd: '&', ast.BitOr: '|'}[type(node.op)]
            return ast.copy_location(ast.Assign([node.target], self._call('setop', [ast.Constant(op), ast.Name(node.target.id, ast.Load()), node.value])), node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                conv = ast.Constant({-1: None, 115: 's', 114: 'r', 97: 'a'}[v.conversion])
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant('')
                parts.append(ast.Tuple([val, conv, spec], ast.Load()))
        return ast.copy_location(self._call('fstr', parts), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(self._call('mkset', [ast.Tuple(node.elts, ast.Load())]), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(self._call('mkset', [ast.GeneratorExp(node.elt, node.generators)]), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(self._call('mkdict', [ast.GeneratorExp(ast.Tuple([node.key, node.value], ast.Load()), node.generators)]), node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        if any(k is None for k in node.keys) or all(isinstance(k, ast.Constant) for k in node.keys):
            return node
        return ast.copy_location(self._call('mkdict', [ast.Tuple([ast.Tuple([k, v], ast.Load()) for k, v in zip(node.keys, node.values)], ast.Load())]), node)


def transform(source, filename, strip_cache=False, record=None):
    tree = ast.parse(source, filename)
    tree = Rewriter(strip_cache, record).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)


# ------------------------------------------------------------------ imports

IMPORT_MAP = {}          # module name -> module object given to transformed code
LAZY_MAP = {}            # module name -> callable producing it


def _lookup(name):
    m = IMPORT_MAP.get(name)
    if m is None and name in LAZY_MAP:
        m = IMPORT_MAP[name] = LAZY_MAP[name]()
    return m


def sym_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        if fromlist:
            m = _lookup(name)
            if m is not None:
                for f in fromlist:
                    if not hasattr(m, f):
                        sub = _lookup(name + '.' + f)
                        if sub is not None:
                            setattr(m, f, sub)
                return m
        else:
            head = name.split('.')[0]
            m = _lookup(name)
            if m is not None and '.' not in name:
                return m
            if m is not None:
                top = _lookup(head)
                if top is not None:
                    return top
                real = __import__(name)
                proxy = types.SimpleNamespace(**{k: getattr(real, k) for k in dir(real) if not k.startswith('__')})
                o = proxy
                for part in name.split('.')[1:-1]:
                    o = getattr(o, part)
                setattr(o, name.split('.')[-1], m)
                return proxy
            top = _lookup(head)
            if top is not None:
                return top
    return builtins.__import__(name, globals, locals, fromlist, level)


BUILTINS = dict(vars(builtins))
BUILTINS['__import__'] = sym_import


def exec_module_source(module, path, strip_cache=False, source=None, record=None):
    if source is None:
        with open(path, 'rb') as f:
            source = f.read()
    code = transform(source, path, strip_cache, record)
    module.__dict__['__rt__'] = rt
    module.__dict__['__builtins__'] = BUILTINS
    exec(code, module.__dict__)
    return module


def load_copy(name, path, extra=None):
    """A private transformed copy of a (stdlib / third-party) module, not put in sys.modules."""
    m = types.ModuleType(name)
    m.__file__ = path
    if extra:
        m.__dict__.update(extra)
    return exec_module_source(m, path, strip_cache=True)


LOADED = []


class Finder:
    """meta_path finder: every module below the given roots is executed transformed."""

    def __init__(self, roots):
        self.roots = roots     # {top-level package or module name: directory or file}

    def find_spec(self, fullname, path=None, target=None):
        head = fullname.split('.')[0]
        root = self.roots.get(head)
        if root is None:
            return None
        rel = fullname.split('.')[1:]
        base = os.path.join(root, *rel)
        if os.path.isdir(base) and os.path.exists(os.path.join(base, '__init__.py')):
            fn, pkg = os.path.join(base, '__init__.py'), [base]
        elif os.path.exists(base + '.py'):
            fn, pkg = base + '.py', None
        elif not rel and os.path.isfile(root):
            fn, pkg = root, None
        else:
            return None
        spec = importlib.util.spec_from_loader(fullname, self, origin=fn, is_package=pkg is not None)
        if pkg:
            spec.submodule_search_locations = pkg
        spec.has_location = True
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        LOADED.append(module)
        name = module.__spec__.name
        exec_module_source(module, module.__spec__.origin, record=name if name.split('.')[0] in ('soapfish', 'iso8601') else None)

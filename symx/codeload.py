"""Executes generated Python source whose text is partly symbolic.

A lexer walks the source. Symbolic characters inside string literals stay symbolic as long as they are none that would end or
escape the literal (both possibilities are explored); symbolic characters anywhere else (names, numbers) take every value in turn.
"""
import ast
import sys
import types

from . import engine, loader, rt

BASE = 0x4E00
LOADED = []
_N = [0]


def lex(cps):
    """the characters, with symbolic ones left only where they are part of the value of a string literal"""
    out, i, n = [], 0, len(cps)
    ctx = engine.ctx()
    cps = list(cps)

    def at(k):
        """concrete character"""
        c = cps[k]
        if type(c) is not int:
            c = cps[k] = ctx.concretize(c)
        return chr(c)

    def same(k, ch):
        return k < n and bool(engine.cp_eq(cps[k], ord(ch)))

    while i < n:
        c = at(i)
        if c == '#':
            while i < n:
                if same(i, '\n') or same(i, '\r'):
                    break
                out.append(cps[i] if type(cps[i]) is int else ord('?'))
                i += 1
            continue
        if c not in '"\'':
            out.append(ord(c))
            i += 1
            continue
        q = c * 3 if i + 2 < n and same(i + 1, c) and same(i + 2, c) else c
        out.extend(map(ord, q))
        i += len(q)
        special = [(ord(x), ord(x)) for x in sorted('\0\n\r\\' + c)]
        while i < n:
            if type(cps[i]) is not int and not engine.in_ranges(cps[i], special):
                out.append(cps[i])
                i += 1
                continue
            if same(i, c) and (len(q) == 1 or (i + 2 < n and same(i + 1, c) and same(i + 2, c))):
                out.extend(map(ord, q))
                i += len(q)
                break
            if same(i, '\\'):
                out.append(ord('\\'))
                i += 1
                if i < n:
                    out.append(ord(at(i)))
                    i += 1
                continue
            if same(i, '\r') or same(i, '\n') or same(i, '\0') or (len(q) == 3 and same(i, c)):
                out.append(ord(at(i)))
            else:
                out.append(cps[i])
            i += 1
    return out


class Fill(ast.NodeTransformer):
    def __init__(self, table):
        self.table = table
        self.values = {}

    def visit_Constant(self, node):
        v = node.value
        if type(v) is str and any(BASE <= ord(c) < BASE + len(self.table) for c in v):
            name = '__sym%d__' % len(self.values)
            self.values[name] = engine.mkstr([self.table[ord(c) - BASE] if BASE <= ord(c) < BASE + len(self.table) else ord(c) for c in v])
            return ast.copy_location(ast.Name(name, ast.Load()), node)
        return node


def load(code, **names):
    """the module made of the source"""
    if isinstance(code, engine.SymBytes):
        code = code.s
    elif isinstance(code, bytes):
        code = code.decode('utf-8')
    table, text = [], []
    for c in lex(engine.cps_of(code)):
        if type(c) is int:
            text.append(chr(c))
        else:
            text.append(chr(BASE + len(table)))
            table.append(c)
    _N[0] += 1
    m = types.ModuleType('generated_%d' % _N[0])
    fill = Fill(table)
    text = ''.join(text)
    tree = fill.visit(ast.parse(text, m.__name__))
    tree = loader.Rewriter().visit(tree)
    ast.fix_missing_locations(tree)
    m.__dict__.update(fill.values)
    m.__dict__.update(names)
    m.__dict__['__rt__'] = rt
    m.__dict__['__builtins__'] = loader.BUILTINS
    sys.modules[m.__name__] = m
    LOADED.append(m.__name__)
    exec(compile(tree, m.__name__, 'exec', dont_inherit=True), m.__dict__)
    return m


def unload():
    while LOADED:
        sys.modules.pop(LOADED.pop(), None)

"""Symbolic `re`: a backtracking matcher over CPython's own regex parse tree."""
import re as real
import types
from re import _constants as C
from re import _parser as P

import z3

from . import engine
from .engine import SymBytes, SymStr, Unsupported, cp_eq, cps_of, in_ranges_e, is_sym, mkbool, mkstr
from .engine import DIGIT_RANGES, WORD_RANGES, WS_RANGES

CATS = {
    C.CATEGORY_DIGIT: (DIGIT_RANGES, [(48, 57)]), C.CATEGORY_SPACE: (WS_RANGES, [(9, 13), (32, 32)]),
    C.CATEGORY_WORD: (WORD_RANGES, [(48, 57), (65, 90), (95, 95), (97, 122)]),
}
NOTCATS = {C.CATEGORY_NOT_DIGIT: C.CATEGORY_DIGIT, C.CATEGORY_NOT_SPACE: C.CATEGORY_SPACE, C.CATEGORY_NOT_WORD: C.CATEGORY_WORD}


def _cat(cp, cat, flags):
    if cat in NOTCATS:
        return z3.Not(_cat(cp, NOTCATS[cat], flags))
    u, a = CATS[cat]
    return in_ranges_e(cp, a if flags & real.ASCII else u)


def _lit(cp, ch, flags):
    if flags & real.IGNORECASE:
        vs = {ord(x) for x in (chr(ch).lower(), chr(ch).upper()) if len(x) == 1} | {ch}
        return z3.Or(*[_lit(cp, v, 0) for v in sorted(vs)])
    return z3.BoolVal(cp == ch) if type(cp) is int else cp == ch


def _in(cp, items, flags):
    neg, es = False, []
    for op, av in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            es.append(_lit(cp, av, flags))
        elif op is C.RANGE:
            rs = [av]
            if flags & real.IGNORECASE:
                lo, hi = av
                for a, b, d in ((65, 90, 32), (97, 122, -32)):
                    x, y = max(lo, a), min(hi, b)
                    if x <= y:
                        rs.append((x + d, y + d))
            es.append(in_ranges_e(cp, rs))
        elif op is C.CATEGORY:
            es.append(_cat(cp, av, flags))
        else:
            raise Unsupported(f'regex set item {op}')
    e = z3.Or(*es) if es else z3.BoolVal(False)
    return z3.Not(e) if neg else e


class Matcher:
    def __init__(self, cps, flags):
        self.cps, self.flags, self.n = cps, flags, len(cps)

    def test(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return engine.ctx().branch(e)

    def seq(self, items, k, pos, g, flags):
        if k == len(items):
            yield pos, g
            return
        op, av = items[k]
        for p2, g2 in self.one(op, av, pos, g, flags):
            yield from self.seq(items, k + 1, p2, g2, flags)

    def one(self, op, av, pos, g, flags):
        cps = self.cps
        if op is C.LITERAL:
            if pos < self.n and self.test(_lit(cps[pos], av, flags)):
                yield pos + 1, g
        elif op is C.NOT_LITERAL:
            if pos < self.n and self.test(z3.Not(_lit(cps[pos], av, flags))):
                yield pos + 1, g
        elif op is C.ANY:
            if pos < self.n and (flags & real.DOTALL or self.test(z3.Not(_lit(cps[pos], 10, 0)))):
                yield pos + 1, g
        elif op is C.IN:
            if pos < self.n and self.test(_in(cps[pos], av, flags)):
                yield pos + 1, g
        elif op is C.BRANCH:
            for alt in av[1]:
                yield from self.seq(list(alt), 0, pos, g, flags)
        elif op is C.SUBPATTERN:
            group, add, dele, p = av
            f2 = (flags | add) & ~dele
            for p2, g2 in self.seq(list(p), 0, pos, g, f2):
                if group is not None:
                    g2 = dict(g2)
                    g2[group] = (pos, p2)
                    g2['last'] = group
                yield p2, g2
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, p = av
            yield from self.rep(list(p), lo, hi, pos, g, flags, op is C.MAX_REPEAT, 0)
        elif op is C.POSSESSIVE_REPEAT:
            lo, hi, p = av
            for r in self.rep(list(p), lo, hi, pos, g, flags, True, 0):
                yield r
                return
        elif op is C.ATOMIC_GROUP:
            for r in self.seq(list(av), 0, pos, g, flags):
                yield r
                return
        elif op is C.AT:
            if self.at(av, pos, flags):
                yield pos, g
        elif op is C.GROUPREF:
            if av in g:
                a, b = g[av]
                w = cps[a:b]
                if pos + len(w) <= self.n and all(bool(cp_eq(x, y)) for x, y in zip(w, cps[pos:])):
                    yield pos + len(w), g
        elif op is C.GROUPREF_EXISTS:
            grp, yes, no = av
            if grp in g:
                yield from self.seq(list(yes), 0, pos, g, flags)
            elif no is not None:
                yield from self.seq(list(no), 0, pos, g, flags)
            else:
                yield pos, g
        elif op in (C.ASSERT, C.ASSERT_NOT):
            d, p = av
            if d < 0:
                lo, hi = p.getwidth()
                if lo != hi or pos - lo < 0:
                    ok = None
                else:
                    ok = next(((p2, g2) for p2, g2 in self.seq(list(p), 0, pos - lo, g, flags) if p2 == pos), None)
            else:
                ok = next(self.seq(list(p), 0, pos, g, flags), None)
            if op is C.ASSERT and ok is not None:
                yield pos, ok[1]
            elif op is C.ASSERT_NOT and ok is None:
                yield pos, g
        elif op is C.FAILURE:
            return
        else:
            raise Unsupported(f'regex op {op}')

    def rep(self, p, lo, hi, pos, g, flags, greedy, n):
        def more():
            if hi is C.MAXREPEAT or n < hi:
                for p2, g2 in self.seq(p, 0, pos, g, flags):
                    if p2 == pos and n >= lo:
                        continue
                    yield from self.rep(p, lo, hi, p2, g2, flags, greedy, n + 1)
        if n < lo:
            yield from more()
        elif greedy:
            yield from more()
            yield pos, g
        else:
            yield pos, g
            yield from more()

    def at(self, av, pos, flags):
        if av is C.AT_BEGINNING and not flags & real.MULTILINE or av is C.AT_BEGINNING_STRING:
            return pos == 0
        if av is C.AT_BEGINNING:
            return pos == 0 or self.test(_lit(self.cps[pos - 1], 10, 0))
        if av is C.AT_END_STRING:
            return pos == self.n
        if av is C.AT_END:
            if pos == self.n:
                return True
            if flags & real.MULTILINE:
                return self.test(_lit(self.cps[pos], 10, 0))
            return pos == self.n - 1 and self.test(_lit(self.cps[pos], 10, 0))
        if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
            w = lambda i: 0 <= i < self.n and self.test(_cat(self.cps[i], C.CATEGORY_WORD, flags))
            r = w(pos - 1) != w(pos)
            return r if av is C.AT_BOUNDARY else not r
        raise Unsupported(f'regex at {av}')


class SymMatch:
    def __init__(self, pat, s, start, end, g, endpos=None):
        self.re, self.string, self.pos, self.endpos = pat, s, 0, len(s)
        self._g = dict(g)
        self._g[0] = (start, end)
        self.lastindex = g.get('last')
        self.lastgroup = next((k for k, v in pat.groupindex.items() if v == self.lastindex), None)

    def _idx(self, n):
        if isinstance(n, str):
            if n not in self.re.groupindex:
                raise IndexError('no such group')
            return self.re.groupindex[n]
        if not 0 <= n <= self.re.groups:
            raise IndexError('no such group')
        return n

    def _get(self, n, default=None):
        n = self._idx(n)
        if n not in self._g:
            return default
        a, b = self._g[n]
        return self.string[a:b]

    def group(self, *ns):
        if not ns:
            return self._get(0)
        if len(ns) == 1:
            return self._get(ns[0])
        return tuple(self._get(n) for n in ns)

    def __getitem__(self, n):
        return self._get(n)

    def groups(self, default=None):
        return tuple(self._get(i, default) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: self._get(v, default) for k, v in self.re.groupindex.items()}

    def start(self, n=0): return self._g.get(self._idx(n), (-1, -1))[0]
    def end(self, n=0): return self._g.get(self._idx(n), (-1, -1))[1]
    def span(self, n=0): return self._g.get(self._idx(n), (-1, -1))

    def expand(self, template):
        raise Unsupported('Match.expand')


def plain(s):
    """the characters of a document that was written"""
    return s.chars() if type(s).__name__ == 'SerializedXML' and s.text else s


class SymPattern:
    def __init__(self, pattern, flags=0):
        if is_sym(pattern):
            pattern = pattern.force()
            if is_sym(pattern):
                raise Unsupported('symbolic regex')
        self.real = pattern if isinstance(pattern, real.Pattern) else real.compile(pattern, flags)
        self.pattern = self.real.pattern
        self.flags = self.real.flags
        self.groups = self.real.groups
        self.groupindex = dict(self.real.groupindex)
        self._tree = None

    @property
    def tree(self):
        if self._tree is None:
            self._tree = list(P.parse(self.pattern, self.flags & ~real.UNICODE if isinstance(self.pattern, str) else self.flags))
        return self._tree

    def __eq__(self, o):
        return isinstance(o, SymPattern) and o.pattern == self.pattern and o.flags == self.flags

    def __hash__(self):
        return hash((self.pattern, self.flags))

    def _run(self, s, start, mode, endpos=None):
        if isinstance(s, SymBytes):
            raise Unsupported('regex on symbolic bytes')
        if not isinstance(s, str):
            raise TypeError(f"expected string or bytes-like object, got '{type(s).__name__}'")
        if endpos is not None:
            s = s[:endpos]
        m = Matcher(s.cps, self.flags)
        starts = [start] if mode != 'search' else range(start, m.n + 1)
        for st in starts:
            for p, g in m.seq(self.tree, 0, st, {}, self.flags):
                if mode == 'full' and p != m.n:
                    continue
                return SymMatch(self, s, st, p, g)
        return None

    def _do(self, s, mode, pos=0, endpos=None):
        s = plain(s)
        if not is_sym(s):
            f = {'match': self.real.match, 'full': self.real.fullmatch, 'search': self.real.search}[mode]
            return f(s, pos, endpos) if endpos is not None else f(s, pos)
        return self._run(s, pos, mode, endpos)

    def match(self, s, pos=0, endpos=None): return self._do(s, 'match', pos, endpos)
    def fullmatch(self, s, pos=0, endpos=None): return self._do(s, 'full', pos, endpos)
    def search(self, s, pos=0, endpos=None): return self._do(s, 'search', pos, endpos)

    def finditer(self, s, pos=0, endpos=None):
        s = plain(s)
        if not is_sym(s):
            yield from self.real.finditer(s, pos)
            return
        if self.real.match('') is not None or P.parse(self.pattern, self.flags & ~real.UNICODE).getwidth()[0] == 0:
            raise Unsupported('finditer with possibly-empty pattern')
        n = len(s)
        while pos <= n:
            m = self._run(s, pos, 'search')
            if m is None:
                return
            yield m
            pos = m.span()[1]

    def findall(self, s, pos=0, endpos=None):
        out = []
        for m in self.finditer(s, pos, endpos):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                out.append(m.group(1) or '')
            else:
                out.append(m.groups(''))
        return out

    def sub(self, repl, s, count=0):
        return self.subn(repl, s, count)[0]

    def subn(self, repl, s, count=0):
        from . import rt
        s = plain(s)
        fn = callable(repl) and not isinstance(repl, str)
        if not is_sym(s) and not fn and not is_sym(repl):
            return self.real.subn(repl, s, count)
        if not fn and not is_sym(repl) and '\\' in repl:
            raise Unsupported('sub template on symbolic string')
        if is_sym(repl) and repl.find('\\') >= 0:
            raise Unsupported('backslash in symbolic sub template')
        out, pos, n = [], 0, 0
        for m in self.finditer(s):
            if count and n >= count:
                break
            a, b = m.span()
            out.append(s[pos:a])
            out.append(rt.call(repl, m) if fn else repl)
            pos, n = b, n + 1
        out.append(s[pos:])
        return rt.cm('', 'join', out), n

    def split(self, s, maxsplit=0):
        s = plain(s)
        if not is_sym(s):
            return self.real.split(s, maxsplit)
        out, pos, n = [], 0, 0
        for m in self.finditer(s):
            if maxsplit and n >= maxsplit:
                break
            a, b = m.span()
            out.append(s[pos:a])
            out.extend(m.groups())
            pos, n = b, n + 1
        out.append(s[pos:])
        return out


_cache = {}


def compile(pattern, flags=0):
    if isinstance(pattern, SymPattern):
        return pattern
    if is_sym(pattern):
        return SymPattern(pattern, flags)
    key = (type(pattern), pattern, int(flags)) if not isinstance(pattern, real.Pattern) else None
    if key is None:
        return SymPattern(pattern)
    p = _cache.get(key)
    if p is None:
        p = _cache[key] = SymPattern(pattern, flags)
    return p


def escape(s):
    if not is_sym(s):
        return real.escape(s)
    out = []
    special = [ord(c) for c in '()[]{}?*+-|^$\\.&~# \t\n\r\v\f']
    for c in s.cps:
        if type(c) is int:
            out.extend(map(ord, real.escape(chr(c))))
        elif engine.ctx().branch(z3.Or(*[c == x for x in special])):
            out.extend([92, c])
        else:
            out.append(c)
    return mkstr(out)


def make_module():
    m = types.ModuleType('re')
    for n in dir(real):
        if not n.startswith('__'):
            setattr(m, n, getattr(real, n))
    m.compile = compile
    m.escape = escape
    m.match = lambda p, s, flags=0: compile(p, flags).match(s)
    m.fullmatch = lambda p, s, flags=0: compile(p, flags).fullmatch(s)
    m.search = lambda p, s, flags=0: compile(p, flags).search(s)
    m.sub = lambda p, r, s, count=0, flags=0: compile(p, flags).sub(r, s, count)
    m.subn = lambda p, r, s, count=0, flags=0: compile(p, flags).subn(r, s, count)
    m.split = lambda p, s, maxsplit=0, flags=0: compile(p, flags).split(s, maxsplit)
    m.findall = lambda p, s, flags=0: compile(p, flags).findall(s)
    m.finditer = lambda p, s, flags=0: compile(p, flags).finditer(s)
    m.Pattern = SymPattern
    return m

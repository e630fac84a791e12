"""Runtime the transformed code calls into (see loader.py)."""
import builtins
import decimal
import enum
import functools
import operator
import re as real_re

from . import engine
from .engine import (Sym, SymBool, SymBytes, SymDec, SymInt, SymStr, IntPart, OpaquePart, Unsupported, and_, concat,
                     cps_of, ctx, in_ranges, is_sym, mkbool, mkint, mkstr, not_, or_, render_int, DIGIT_RANGES, WS_RANGES)

_real_isinstance = isinstance
FUNCS = set()
enter = FUNCS.add
PROXIES = (SymBool, SymBytes, SymDec, SymInt, SymStr)


# ------------------------------------------------------------------ conversions

def r_isinstance(x, t):
    if is_sym(x):
        c = x.__class__
        if _real_isinstance(t, tuple):
            return any(r_isinstance(x, y) for y in t)
        if type(t).__name__ == 'UnionType':
            return any(r_isinstance(x, y) for y in t.__args__)
        return issubclass(c, t)
    return _real_isinstance(x, t)


def r_type(*a, **k):
    if len(a) == 1 and is_sym(a[0]):
        return a[0].__class__
    return type(*a, **k)


def r_str(*a, **k):
    if not a and 'object' not in k:
        return str(**k)
    x = a[0] if a else None
    if len(a) > 1 or k:
        if 'object' in k:
            return r_str(k.pop('object'), *a, **k)
        if _real_isinstance(x, SymBytes) or type(x).__name__ == 'SerializedXML':
            return x.decode(*a[1:], **k)
        return str(*a, **k)
    if _real_isinstance(x, SymStr):
        return x
    if _real_isinstance(x, SymBool):
        return 'True' if x else 'False'
    if _real_isinstance(x, SymInt):
        return concat([IntPart(x, '')])
    if _real_isinstance(x, SymDec):
        return concat([x])
    if _real_isinstance(x, SymBytes):
        raise Unsupported('str(bytes)')
    f = getattr(type(x), '__str__', None)
    if _real_isinstance(x, BaseException) and f in (BaseException.__str__, Exception.__str__, ValueError.__str__,
                                                    OSError.__str__, KeyError.__str__):
        if f is not KeyError.__str__ and f is not OSError.__str__:
            if len(x.args) == 0:
                return ''
            if len(x.args) == 1:
                return r_str(x.args[0])
        if any(is_sym(v) for v in x.args):
            return concat([OpaquePart(x)])
        return str(x)
    if f is not None and type(f).__name__ == 'function':
        return f(x)
    if f is object.__str__:
        return r_repr(x)
    if _real_isinstance(x, (list, tuple, dict, set, frozenset)):
        return r_repr(x)
    return str(x)


def has_sym(x, depth=3):
    if is_sym(x):
        return True
    if depth == 0:
        return False
    if _real_isinstance(x, (list, tuple, set, frozenset)):
        return any(has_sym(v, depth - 1) for v in x)
    if _real_isinstance(x, dict):
        return any(has_sym(k, depth - 1) or has_sym(v, depth - 1) for k, v in x.items())
    return False


def r_repr(x):
    if is_sym(x):
        if _real_isinstance(x, SymInt):
            return concat([IntPart(x, '')])
        if _real_isinstance(x, SymBool):
            return 'True' if x else 'False'
        return concat([OpaquePart(x)])
    if _real_isinstance(x, (list, tuple, dict, set, frozenset, BaseException)):
        # containers: opaque when anything symbolic can be inside, but for plain lists
        if type(x) is list and has_sym(x, 1) and all(_real_isinstance(v, (SymStr, SymInt)) or type(v) in (str, int, type(None)) for v in x):
            parts = []
            for i, v in enumerate(x):
                parts += [', ' if i else '[', r_repr(v)]
            return concat(parts + [']'])
        if _real_isinstance(x, BaseException):
            return concat([OpaquePart(x)]) if has_sym(x.args) else repr(x)
        if has_sym(x) or any(not _real_isinstance(v, (str, int, float, type(None))) for v in _flat(x)):
            return concat([OpaquePart(x)])
        return repr(x)
    f = getattr(type(x), '__repr__', None)
    if f is not None and type(f).__name__ == 'function':
        r = f(x)
        return r
    return repr(x)


def r_ascii(x):
    if has_sym(x):
        return concat([OpaquePart(x)])
    return ascii(x)


def _flat(x):
    if _real_isinstance(x, dict):
        for k, v in x.items():
            yield from _flat(k)
            yield from _flat(v)
    elif _real_isinstance(x, (list, tuple, set, frozenset)):
        for v in x:
            yield from _flat(v)
    else:
        yield x


def _digit_value(c):
    """value of a decimal digit code point (symbolic), c known to be in DIGIT_RANGES"""
    import z3
    if type(c) is int:
        return int(chr(c))
    # every decimal-digit range up to MAXCP is a run of ten
    e = None
    for a, b in DIGIT_RANGES:
        if a == 0x30 and ctx().branch(z3.And(c >= 0x30, c <= 0x39)):
            return mkint(c - 0x30)
        if a != 0x30:
            for s in range(a, b + 1, 10):
                if ctx().branch(z3.And(c >= s, c <= s + 9)):
                    return mkint(c - s)
    raise Unsupported('digit range')


def parse_int(s, base=10):
    if base != 10:
        raise Unsupported('int() base')
    def bad():
        return ValueError(concat(["invalid literal for int() with base 10: ", OpaquePart(s)]))
    t = s.strip()
    cps = list(cps_of(t))
    if not cps:
        raise bad()
    neg = False
    if engine.cp_eq(cps[0], 45):
        neg = True
        cps = cps[1:]
    elif engine.cp_eq(cps[0], 43):
        cps = cps[1:]
    if not cps:
        raise bad()
    total, prev_us, seen = 0, True, False
    for c in cps:
        if in_ranges(c, DIGIT_RANGES):
            total = total * 10 + _digit_value(c)
            prev_us = False
        elif not prev_us and engine.cp_eq(c, 95):
            prev_us = True
        else:
            raise bad()
    if prev_us:
        raise bad()
    return -total if neg else total


def r_int(*a, **k):
    if not a:
        return int(**k)
    x = a[0]
    if _real_isinstance(x, SymInt):
        return x
    if _real_isinstance(x, SymBool):
        return x.as_int()
    if _real_isinstance(x, SymStr):
        return parse_int(x, *a[1:])
    if _real_isinstance(x, SymBytes):
        return parse_int(x.s, *a[1:])
    if _real_isinstance(x, SymDec):
        return x._trunc()
    return int(*a, **k)


def parse_decimal(s, kind):
    """float()/Decimal() of a symbolic string: plain decimal notation; exponent/inf/nan out of bound."""
    def bad():
        if kind == 'float':
            return ValueError(concat(['could not convert string to float: ', OpaquePart(s)]))
        return decimal.InvalidOperation('bad decimal')
    t = s.strip()
    cps = list(cps_of(t))
    neg = False
    if cps and engine.cp_eq(cps[0], 45):
        neg, cps = True, cps[1:]
    elif cps and engine.cp_eq(cps[0], 43):
        cps = cps[1:]
    total, scale, digits, dot, prev_digit = 0, 0, 0, False, False
    for i, c in enumerate(cps):
        if in_ranges(c, DIGIT_RANGES):
            total = total * 10 + _digit_value(c)
            digits += 1
            prev_digit = True
            if dot:
                scale += 1
        elif not dot and engine.cp_eq(c, 46):
            dot, prev_digit = True, False
        elif in_ranges(c, [(ord('e'), ord('e')), (ord('E'), ord('E')), (95, 95)]) and digits:
            raise Unsupported('float literal with exponent/underscore')
        elif digits == 0 and not dot and in_ranges(c, [(ord(x), ord(x)) for x in 'iInNsS']):
            raise Unsupported('inf/nan literal')
        else:
            raise bad()
    if not digits:
        raise bad()
    if digits > 15 and kind == 'float':
        raise Unsupported('float literal beyond 15 digits')
    m = -total if neg else total
    if not is_sym(m):
        d = decimal.Decimal(m).scaleb(-scale)
        return float(d) if kind == 'float' else d
    if neg and bool(m == 0):
        return -0.0 if kind == 'float' else decimal.Decimal('-0').scaleb(-scale)
    return SymDec(m, scale, kind)


def r_float(*a, **k):
    if a:
        x = a[0]
        if _real_isinstance(x, SymStr):
            return parse_decimal(x, 'float')
        if _real_isinstance(x, SymDec):
            return SymDec(x.m, x.scale, 'float')
        if _real_isinstance(x, (SymInt, SymBool)):
            return SymDec(x if _real_isinstance(x, SymInt) else x.as_int(), 0, 'float')
    return float(*a, **k)


def r_decimal(*a, **k):
    if a:
        x = a[0]
        if _real_isinstance(x, SymStr):
            return parse_decimal(x, 'decimal')
        if _real_isinstance(x, SymDec):
            return SymDec(x.m, x.scale, 'decimal')
        if _real_isinstance(x, SymInt):
            return SymDec(x, 0, 'decimal')
    return decimal.Decimal(*a, **k)


def r_bool(*a):
    if a and is_sym(a[0]):
        if _real_isinstance(a[0], SymBool):
            return a[0]
        if _real_isinstance(a[0], SymInt):
            return a[0] != 0
    return bool(*a)


def r_len(x):
    return len(x)


def r_abs(x):
    return abs(x)


def r_ord(x):
    if _real_isinstance(x, SymStr):
        if len(x) != 1:
            raise TypeError('ord() expected a character')
        c = x.cps[0]
        return c if type(c) is int else mkint(c)
    return ord(x)


def r_chr(x):
    if _real_isinstance(x, SymInt):
        return mkstr((x.e,))
    return chr(x)


def r_format(x, spec=''):
    return fstr_piece(x, None, spec)


def r_bytes(*a, **k):
    x = a[0] if a else None
    if _real_isinstance(x, SymStr):
        return x.encode(*a[1:], **k)
    if len(a) == 1 and (_real_isinstance(x, SymBytes) or type(x).__name__ == 'SerializedXML'):
        return x
    if has_sym(x, 1):
        raise Unsupported('bytes() of symbolic values')
    return bytes(*a, **k)


def r_bytearray(*a, **k):
    if has_sym(a, 2):
        raise Unsupported('bytearray of a symbolic value')
    return bytearray(*a, **k)


def r_hash(x):
    if is_sym(x):
        raise Unsupported('hash of a symbolic value')
    if _real_isinstance(x, tuple) and has_sym(x):
        raise Unsupported('hash of a symbolic value')
    f = getattr(type(x), '__hash__', None)
    if type(f).__name__ == 'function':
        return f(x)
    return hash(x)


def r_list(*a):
    return list(*a)


def r_sum(it, start=0):
    for v in it:
        start = start + v
    return start


def r_round(x, n=None):
    if is_sym(x):
        if _real_isinstance(x, SymInt) and n is None:
            return x
        raise Unsupported('round')
    return round(x, n) if n is not None else round(x)


def r_issubclass(c, t):
    return issubclass(c, t)


def r_callable(x):
    return callable(x)


# ------------------------------------------------------------------ formatting

def fstr_piece(v, conv, spec):
    if conv == 'r':
        v = r_repr(v)
    elif conv == 's':
        v = r_str(v)
    elif conv == 'a':
        v = r_ascii(v)
    if is_sym(spec):
        spec = spec.force()
        if is_sym(spec):
            raise Unsupported('symbolic format spec')
    if _real_isinstance(v, SymStr):
        if spec in ('', 's'):
            return v
        m = real_re.fullmatch(r'(?:(.)?([<>^]))?(\d+)?(?:\.(\d+))?s?', spec)
        if m:
            w = int(m.group(3) or 0)
            fill = m.group(1) or ' '
            if m.group(4):
                v = v[:int(m.group(4))]
                if not _real_isinstance(v, SymStr):
                    return format(v, fill + (m.group(2) or '<') + str(w))
            if m.group(2) == '^':
                n = max(0, w - len(v))
                return concat([fill * (n // 2), v, fill * (n - n // 2)])
            return v.rjust(w, fill) if m.group(2) == '>' else v.ljust(w, fill)
        raise Unsupported('format spec for string ' + spec)
    if _real_isinstance(v, SymBool) and spec == '':
        return 'True' if v else 'False'
    if _real_isinstance(v, (SymInt, SymBool)):
        return concat([IntPart(v if _real_isinstance(v, SymInt) else v.as_int(), spec)])
    if _real_isinstance(v, SymDec):
        if spec:
            m = real_re.fullmatch(r'(\.(\d+))?f', spec)
            if m:
                n = int(m.group(2) or 6)
                if n >= v.scale:
                    return SymDec(v.m * 10 ** (n - v.scale), n, 'decimal').render()
            raise Unsupported('decimal format spec')
        return concat([v])
    if spec == '':
        f = getattr(type(v), '__format__', None)
        if f is object.__format__ or _real_isinstance(v, BaseException) or _real_isinstance(v, (list, tuple, dict)):
            return r_str(v)
    if type(v).__format__ is not object.__format__ and type(type(v).__format__).__name__ == 'function':
        return type(v).__format__(v, spec)
    return format(v, spec)


def fstr(*pieces):
    """pieces: str | (value, conversion, spec)"""
    out = []
    for p in pieces:
        out.append(p if type(p) is str else fstr_piece(*p))
    return concat(out)


_PCT = real_re.compile(r'%(?:\((?P<key>[^)]*)\))?(?P<flags>[#0\- +]*)(?P<width>\*|\d+)?(?:\.(?P<prec>\*|\d+))?[hlL]?(?P<conv>[diouxXeEfFgGcrsa%])')


def mod(a, b):
    if not _real_isinstance(a, (str, SymStr)) :
        return a % b
    if not has_sym(a) and not _deep_sym(b):
        return a % b
    if is_sym(a):
        raise Unsupported('symbolic % template')
    out, pos, idx = [], 0, 0
    args = b if type(b) is tuple else (b,)
    for m in _PCT.finditer(a):
        out.append(a[pos:m.start()])
        pos = m.end()
        conv = m.group('conv')
        if conv == '%':
            out.append('%')
            continue
        if m.group('key') is not None:
            v = getitem(b, m.group('key'))
        else:
            if idx >= len(args):
                raise TypeError('not enough arguments for format string')
            v = args[idx]
            idx += 1
        if not is_sym(v) and conv not in 'sra':
            out.append(m.group(0).replace('(%s)' % m.group('key') if m.group('key') is not None else '', '') % (v,))
            continue
        width, flags = m.group('width') or '', m.group('flags') or ''
        if conv == 's':
            v = r_str(v)
            if width:
                v = v.ljust(int(width)) if '-' in flags else v.rjust(int(width))
        elif conv in 'ra':
            v = r_repr(v)
        elif conv in 'di':
            if _real_isinstance(v, SymDec):
                v = v._trunc()
            if not _real_isinstance(v, (int,)):
                raise TypeError('%d format: a real number is required, not ' + type(v).__name__)
            v = concat([IntPart(v, ('0' if '0' in flags else '') + width)]) if is_sym(v) else ('%' + flags + width + 'd') % v
        elif conv == 'f' and _real_isinstance(v, SymDec):
            v = fstr_piece(v, None, '.%df' % int(m.group('prec') or 6))
        else:
            raise Unsupported('%' + conv)
        out.append(v)
    out.append(a[pos:])
    if type(b) is tuple and idx < len(args):
        raise TypeError('not all arguments converted during string formatting')
    return concat(out)


def _deep_sym(x):
    if has_sym(x):
        return True
    for v in _flat(x):
        if _real_isinstance(v, BaseException) and has_sym(v.args):
            return True
        if type(getattr(type(v), '__str__', None)).__name__ == 'function' or \
                type(getattr(type(v), '__repr__', None)).__name__ == 'function' and not _real_isinstance(v, type):
            return True
    return False


# ------------------------------------------------------------------ containers

def contains(item, container):
    if _real_isinstance(container, SymStr):
        return container.find(item) >= 0 if _real_isinstance(item, str) else container.__contains__(item)
    if is_sym(item):
        if _real_isinstance(container, (str,)):
            if not _real_isinstance(item, SymStr):
                raise TypeError("'in <string>' requires string as left operand")
            return SymStr(cps_of(container)).find(item) >= 0
        if _real_isinstance(container, bytes):
            return contains(item.s, container.decode(item.enc))
        if _real_isinstance(container, (dict, set, frozenset, type({}.keys()))):
            return or_(*[item == k for k in container])
        if _real_isinstance(container, (list, tuple)):
            return or_(*[_eqv(item, k) for k in container])
        f = getattr(type(container), '__contains__', None)
        if f is not None:
            return f(container, item)
        return any(item == k for k in container)
    if _real_isinstance(container, (dict, set, frozenset, type({}.keys()))):
        if engine.CTX is not None and engine.CTX.symhash and any(has_sym(k) for k in container):
            return or_(*[_eqv(item, k) for k in container])
        if _real_isinstance(item, tuple) and has_sym(item):
            return or_(*[_eqv(item, k) for k in container])
        return item in container
    if _real_isinstance(container, (list, tuple)):
        if any(is_sym(k) for k in container):
            return or_(*[_eqv(item, k) for k in container])
    return item in container


def _eqv(a, b):
    if a is b:
        return True
    r = a == b
    return r


def notcontains(item, container):
    return not_(contains(item, container))


def is_(a, b):
    if _real_isinstance(a, SymBool) and (b is True or b is False):
        return a == b
    if _real_isinstance(b, SymBool) and (a is True or a is False):
        return b == a
    if _real_isinstance(a, SymBool) and _real_isinstance(b, SymBool):
        return a == b
    return a is b


def isnot(a, b):
    return not_(is_(a, b))


_MISSING = object()


def dict_lookup(d, key):
    """Symbolic-aware dict lookup; _MISSING when absent."""
    for k in list(dict.keys(d)):
        if k is key:
            return dict.__getitem__(d, k)
    for k, v in list(dict.items(d)):
        if _eqv(key, k):
            return v
    return _MISSING


def _symdict(d, key):
    return has_sym(key, 2) or (engine.CTX is not None and engine.CTX.symhash and any(has_sym(k, 2) for k in d))


def getitem(o, k):
    t = type(o)
    if t is dict or (_real_isinstance(o, dict) and t.__getitem__ is dict.__getitem__):
        if _symdict(o, k):
            r = dict_lookup(o, k)
            if r is _MISSING:
                if hasattr(t, '__missing__'):
                    return o.__missing__(k)
                raise KeyError(k)
            return r
        return o[k]
    if is_sym(k):
        if _real_isinstance(k, SymInt):
            if _real_isinstance(o, (list, tuple, str, bytes)) and not is_sym(o):
                n = len(o)
                i = ctx_index(k, n)
                return o[i]
    if t is str and _real_isinstance(k, slice) and any(is_sym(x) for x in (k.start, k.stop, k.step)):
        return SymStr(cps_of(o))[slice(*[x.__index__() if is_sym(x) else x for x in (k.start, k.stop, k.step)])]
    return o[k]


def ctx_index(k, n):
    """index into a sequence of length n, raising IndexError out of range without unbounded concretisation"""
    if not bool(and_(k < n, k >= -n)):
        raise IndexError('index out of range')
    return k.__index__()


def setitem(o, k, v):
    if _real_isinstance(o, dict) and type(o).__setitem__ is dict.__setitem__ and _symdict(o, k):
        for kk in list(dict.keys(o)):
            if _eqv(k, kk):
                dict.__setitem__(o, kk, v)
                return
        ctx().symhash = True
        dict.__setitem__(o, k, v)
        return
    o[k] = v


def setop(op, a, b):
    A = _real_isinstance(a, (set, frozenset, type({}.keys())))
    B = _real_isinstance(b, (set, frozenset, type({}.keys())))
    if A and B and (any(has_sym(x, 2) for x in a) or any(has_sym(x, 2) for x in b)):
        if op == '-':
            return {x for x in a if not contains(x, b)}
        if op == '&':
            return {x for x in a if contains(x, b)}
        r = list(a)
        for x in b:
            if not contains(x, r):
                r.append(x)
        return set(r)
    return a - b if op == '-' else a & b if op == '&' else a | b


def mkset(items):
    items = list(items)
    if not any(has_sym(x, 2) for x in items):
        return set(items)
    out = []
    for x in items:
        if not contains(x, out):
            out.append(x)
    return set(out)


def mkdict(pairs):
    d = {}
    for k, v in pairs:
        setitem(d, k, v)
    return d


def chain(left, *ops):
    res = True
    for op, thunk in ops:
        right = thunk()
        if op == 'in':
            r = contains(left, right)
        elif op == 'notin':
            r = notcontains(left, right)
        elif op == 'is':
            r = is_(left, right)
        elif op == 'isnot':
            r = isnot(left, right)
        else:
            r = getattr(operator, op)(left, right)
        if not r:
            return r
        res = r
        left = right
    return res


# ------------------------------------------------------------------ calls

OVERRIDES = {}
METHOD_OVERRIDES = {}      # (real type, name) -> function(self, *a, **k)


def call(f, /, *a, **k):
    try:
        g = OVERRIDES.get(f)
    except TypeError:
        g = None
    if g is not None:
        return g(*a, **k)
    if type(f) is enum.EnumMeta and len(a) == 1 and not k and is_sym(a[0]):
        for m in f:
            if _eqv(a[0], m.value):
                return m
        raise ValueError(f'{a[0]!r} is not a valid {f.__qualname__}')
    return f(*a, **k)


def _any_sym(a, k):
    for x in a:
        if is_sym(x) or (type(x) in (list, tuple) and any(is_sym(y) for y in x)):
            return True
    for x in k.values():
        if is_sym(x):
            return True
    return False


_STR_METHODS_SAFE = frozenset(n for n in dir(str) if not n.startswith('_'))


def cm(obj, name, /, *a, **k):
    """obj.name(*a, **k)"""
    t = type(obj)
    if name == '__contains__' and t in _POLY:
        return bool(contains(a[0], obj))
    if name == '__getitem__' and t in _POLY:
        return getitem(obj, a[0])
    if t is str:
        if name == 'format_map' and _deep_sym(a[0]):
            return str_format(obj, (), a[0])
        if name == 'join':
            items = list(a[0])
            if any(is_sym(x) for x in items):
                return SymStr(cps_of(obj)).join(items)
            return obj.join(items)
        if name == 'format':
            if _any_sym(a, k) or _deep_sym(a) or _deep_sym(k):
                return str_format(obj, a, k)
            return obj.format(*a, **k)
        if _any_sym(a, k):
            return getattr(SymStr(cps_of(obj)), name)(*a, **k)
        return getattr(obj, name)(*a, **k)
    if t is bytes:
        if name == 'join':
            items = list(a[0])
            if any(is_sym(x) for x in items):
                r = SymStr(cps_of(obj.decode())).join([x.s if is_sym(x) else x.decode() for x in items])
                return SymBytes(r) if is_sym(r) else r.encode()
            if any(type(x).__name__ == 'SerializedXML' for x in items):
                return type(items[0]).join_docs(obj, items)
            return obj.join(items)
        if _any_sym(a, k):
            return getattr(SymBytes(SymStr(cps_of(obj.decode()))), name)(*a, **k)
        return getattr(obj, name)(*a, **k)
    if _real_isinstance(obj, dict):
        h = _DICT.get(name)
        if h is not None and getattr(t, name, None) is getattr(dict, name):
            if name in ('keys', 'items', 'values', 'copy'):
                return getattr(obj, name)()
            return h(obj, *a, **k)
    elif t is set or t is frozenset:
        h = _SET.get(name)
        if h is not None:
            return h(obj, *a, **k)
    elif t is list:
        if name in ('index', 'count', 'remove') and (_any_sym(a, k) or any(is_sym(x) for x in obj)):
            return _LIST[name](obj, *a)
    elif (t is type and obj in _POLY) or (t is _Module and name in ('attrgetter', 'itemgetter')):
        f = attr(obj, name)
        return call(f, *a, **k)
    f = getattr(obj, name)
    return call(f, *a, **k)


_Module = type(functools)
_POLY = frozenset([str, bytes, dict, set, list])
METHOD_NAMES = frozenset(n for t in _POLY for n in dir(t) if n[:1] != '_' or n in ('__contains__', '__getitem__'))
_UNBOUND = {}


def attr(o, name):
    """o.name where the method is not called at once: str.strip, d.get, ','.join"""
    t = type(o)
    if t in _POLY:
        return functools.partial(cm, o, name) if hasattr(o, name) else getattr(o, name)
    if t is type and o in _POLY:
        f = getattr(o, name)
        if type(f).__name__ not in ('method_descriptor', 'wrapper_descriptor'):
            return f
        w = _UNBOUND.get((o, name))
        if w is None:
            def w(obj, /, *a, **k):
                if o is dict and name in _DICT:
                    return _DICT[name](obj, *a, **k)
                if is_sym(obj) or type(obj) is o:
                    if not issubclass(obj.__class__, o):
                        raise TypeError(f"descriptor '{name}' for '{o.__name__}' objects doesn't apply to a '{obj.__class__.__name__}' object")
                    return cm(obj, name, *a, **k)
                return f(obj, *a, **k)
            w.__name__ = name
            _UNBOUND[o, name] = w
        return w
    return getattr(o, name)


def str_format(tpl, a, k):
    import string
    out, auto = [], 0
    for lit, field, spec, conv in string.Formatter().parse(tpl):
        out.append(lit)
        if field is None:
            continue
        if field == '':
            v = a[auto]
            auto += 1
        else:
            m = real_re.match(r'(\w+)(.*)', field)
            head, rest = m.group(1), m.group(2)
            v = a[int(head)] if head.isdigit() else k[head]
            for attr in real_re.findall(r'\.(\w+)|\[(\w+)\]', rest):
                v = getattr(v, attr[0]) if attr[0] else getitem(v, int(attr[1]) if attr[1].isdigit() else attr[1])
        out.append(fstr_piece(v, conv, spec or ''))
    return concat(out)


def _dget(d, key, default=None):
    if _symdict(d, key):
        r = dict_lookup(d, key)
        return default if r is _MISSING else r
    return d.get(key, default)


def _dsetdefault(d, key, default=None):
    if _symdict(d, key):
        r = dict_lookup(d, key)
        if r is not _MISSING:
            return r
        setitem(d, key, default)
        return default
    return d.setdefault(key, default)


def _dpop(d, key, *default):
    if _symdict(d, key):
        for kk in list(d):
            if _eqv(key, kk):
                return d.pop(kk)
        if default:
            return default[0]
        raise KeyError(key)
    return d.pop(key, *default)


def _dupdate(d, *a, **k):
    for x in a:
        items = x.items() if hasattr(x, 'items') else x
        for kk, v in items:
            setitem(d, kk, v)
    for kk, v in k.items():
        setitem(d, kk, v)


_DICT = {'get': _dget, 'setdefault': _dsetdefault, 'pop': _dpop, 'update': _dupdate}


def _sadd(s, x):
    if has_sym(x, 2) or (engine.CTX is not None and engine.CTX.symhash and any(has_sym(y, 2) for y in s)):
        if not contains(x, s):
            s.add(x)
        return
    s.add(x)


def _supdate(s, *its):
    for it in its:
        for x in it:
            _sadd(s, x)


def _sremove(s, x):
    if not contains(x, s):
        raise KeyError(x)
    _sdiscard(s, x)


def _sdiscard(s, x):
    for y in list(s):
        if _eqv(x, y):
            s.discard(y)
            return


_SET = {'add': _sadd, 'update': _supdate, 'discard': _sdiscard,
        'union': lambda s, *o: functools.reduce(lambda a, b: setop('|', a, set(b)), o, s),
        'intersection': lambda s, *o: functools.reduce(lambda a, b: setop('&', a, mkset(b)), o, s),
        'difference': lambda s, *o: functools.reduce(lambda a, b: setop('-', a, mkset(b)), o, s),
        'issubset': lambda s, o: all(contains(x, mkset(o)) for x in s),
        'issuperset': lambda s, o: all(contains(x, s) for x in o),
        'isdisjoint': lambda s, o: not any(contains(x, s) for x in o),
        'remove': lambda s, x: _sremove(s, x), 'symmetric_difference': lambda s, o: setop('-', setop('|', s, mkset(o)), setop('&', s, mkset(o)))}


def _lindex(l, x, *a):
    for i, y in enumerate(l):
        if _eqv(x, y):
            return i
    raise ValueError('not in list')


def _lcount(l, x):
    return sum(1 for y in l if _eqv(x, y))


def _lremove(l, x):
    for i, y in enumerate(l):
        if _eqv(x, y):
            del l[i]
            return
    raise ValueError('list.remove(x): x not in list')


_LIST = {'index': _lindex, 'count': _lcount, 'remove': _lremove}


def r_set(*a):
    return mkset(a[0]) if a else set()


def r_dict(*a, **k):
    if a and not _real_isinstance(a[0], dict):
        d = mkdict(a[0])
        d.update(k)
        return d
    return dict(*a, **k)


def r_range(*a):
    return range(*[x.__index__() if is_sym(x) else x for x in a])


def each_value(s):
    """the string, every value on a path of its own"""
    if not is_sym(s):
        return s
    ctx = engine.ctx()
    return ''.join(chr(c if type(c) is int else ctx.concretize(c)) for c in engine.cps_of(s))


def r_getattr(o, name, *d):
    return getattr(o, each_value(name) if is_sym(name) else name, *d)


def _eachname(f):
    def g(o, name, *a):
        return f(o, each_value(name) if is_sym(name) else name, *a)
    return g


def r_concat(a, b):
    return a + b


def r_delitem(o, k):
    if _real_isinstance(o, dict):
        _dpop(o, k)
    else:
        del o[k]


def r_fromkeys(it, v=None):
    return mkdict((k, v) for k in it)


def r_itemgetter(*keys):
    return lambda o: getitem(o, keys[0]) if len(keys) == 1 else tuple(getitem(o, k) for k in keys)


def r_pow(a, b, m=None):
    return pow(a, b) if m is None else pow(a, b, m)


def cmp(op, a, b):
    """comparison of two values that can be sets"""
    A, B = type(a), type(b)
    if (A is set or A is frozenset or A is _KEYS) and (B is set or B is frozenset or B is _KEYS) and (
            any(has_sym(x, 2) for x in a) or any(has_sym(x, 2) for x in b)):
        sub = lambda x, y: all([contains(v, list(y)) for v in x])
        if op == '==' or op == '!=':
            r = sub(a, b) and sub(b, a)
            return r if op == '==' else not r
        if op in ('<=', '<'):
            return sub(a, b) and (op == '<=' or not sub(b, a))
        return sub(b, a) and (op == '>=' or not sub(a, b))
    return _CMP[op](a, b)


_KEYS = type({}.keys())
_CMP = {'==': operator.eq, '!=': operator.ne, '<=': operator.le, '<': operator.lt, '>=': operator.ge, '>': operator.gt}


def delitem(o, k):
    if _real_isinstance(o, dict) and type(o).__delitem__ is dict.__delitem__:
        _dpop(o, k)
    else:
        del o[k]


def r_min(*a, **k):
    return min(*a, **k)


class LruCache:
    """functools.lru_cache/cache stand-in, emptied at the start of every path."""
    ALL = []

    def __init__(self, f):
        functools.update_wrapper(self, f)
        self.f, self.store = f, []
        LruCache.ALL.append(self)

    def __call__(self, *a, **k):
        key = (a, tuple(sorted(k.items())))
        for kk, v in self.store:
            if len(kk[0]) == len(a) and _eqv(kk, key):
                return v
        v = self.f(*a, **k)
        self.store.append((key, v))
        return v

    def __get__(self, obj, typ=None):
        return self if obj is None else functools.partial(self, obj)

    def cache_clear(self):
        self.store.clear()


def r_lru_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return LruCache(maxsize)
    return LruCache


def r_partial(f, /, *a, **k):
    try:
        f = OVERRIDES.get(f, f)
    except TypeError:
        pass
    return functools.partial(f, *a, **k)


def r_map(f, /, *its):
    return (call(f, *xs) for xs in zip(*its))


def r_filter(f, it):
    if f is None:
        return (x for x in it if x)
    return (x for x in it if call(f, x))


def r_sorted(it, *, key=None, reverse=False):
    return sorted(it, key=(lambda x: call(key, x)) if key is not None else None, reverse=reverse)


OVERRIDES.update({
    isinstance: r_isinstance, type: r_type, str: r_str, repr: r_repr, int: r_int, float: r_float, bool: r_bool,
    ord: r_ord, chr: r_chr, format: r_format, hash: r_hash, sum: r_sum, round: r_round, set: r_set, dict: r_dict,
    range: r_range, getattr: r_getattr, decimal.Decimal: r_decimal,
    functools.lru_cache: r_lru_cache, functools.cache: LruCache, functools.partial: r_partial,
    map: r_map, filter: r_filter, sorted: r_sorted, bytes: r_bytes, bytearray: r_bytearray, ascii: r_ascii,
    hasattr: _eachname(hasattr), setattr: _eachname(setattr), delattr: _eachname(delattr),
    operator.contains: lambda a, b: bool(contains(b, a)), operator.getitem: getitem, operator.setitem: setitem, operator.delitem: r_delitem,
    operator.concat: r_concat, operator.is_: is_, operator.is_not: isnot, operator.itemgetter: r_itemgetter, dict.fromkeys: r_fromkeys,
})

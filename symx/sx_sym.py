"""The harness API `sx`, symbolic implementation (sx_conc.py is its concrete twin)."""
import types

import z3

from . import engine, rt
from .engine import SymBool, SymDec, SymInt, SymStr, SymBytes, PathEnd, Violation, Unsupported, is_sym, mkstr, tobool

ALPHA = {
    'xml': [(0x9, 0xA), (0xD, 0xD), (0x20, 0x7FF)],
    'any': [(0, 0x7FF)],
    'ascii': [(0x20, 0x7E)],
    'lower': [(97, 122)],
    'alpha': [(65, 90), (97, 122)],
    'name': [(65, 90), (97, 122), (48, 57), (95, 95)],
    'digits': [(48, 57)],
    'latin': [(0x20, 0xFF)],
}

TIER = 'quick'
CASES = {}


class Outcome:
    def __init__(self, ok, value=None, exc=None):
        self.ok, self.value, self.exc = ok, value, exc

    def raised(self, *types_):
        return (not self.ok) and isinstance(self.exc, types_)

    @property
    def kind(self):
        return 'ok' if self.ok else type(self.exc).__name__


def ranges_of(alphabet):
    if alphabet in ALPHA:
        return ALPHA[alphabet]
    return sorted((ord(c), ord(c)) for c in set(alphabet))


def _register(name, dec):
    c = engine.ctx()
    if name in c.inputs:
        raise RuntimeError('duplicate input ' + name)
    c.inputs[name] = dec
    c.order.append(name)


def str_(name, lo, hi, alphabet='xml', first=None):
    c = engine.ctx()
    n = lo + c.choose(hi - lo + 1)
    rs = ranges_of(alphabet)
    cps = []
    for i in range(n):
        v = z3.Int(f'{name}[{i}]')
        c.add(engine.in_ranges_e(v, ranges_of(first) if first is not None and i == 0 else rs))
        cps.append(v)
        c.vars.append(v)
    c.model = None
    _register(name, lambda m: ''.join(chr(m.eval(v, model_completion=True).as_long()) for v in cps))
    return mkstr(cps)


def int_(name, lo, hi):
    c = engine.ctx()
    v = z3.Int(name)
    c.vars.append(v)
    c.add(z3.And(v >= lo, v <= hi))
    c.model = None
    _register(name, lambda m: m.eval(v, model_completion=True).as_long())
    return SymInt(v)


def bool_(name):
    v = z3.Bool(name)
    engine.ctx().vars.append(v)
    _register(name, lambda m: z3.is_true(m.eval(v, model_completion=True)))
    return SymBool(v)


def choice(name, options):
    options = list(options)
    i = engine.ctx().choose(len(options))
    _register(name, lambda m: i)
    return options[i]


def flag(name):
    return choice(name, [False, True])


def decimal_(name, digits, scale):
    c = engine.ctx()
    v = z3.Int(name)
    c.vars.append(v)
    c.add(z3.And(v > -10 ** digits, v < 10 ** digits))
    c.model = None
    _register(name, lambda m: m.eval(v, model_completion=True).as_long())
    return SymDec(SymInt(v), scale, 'decimal')


def float_(name, digits, scale):
    d = decimal_(name, digits, scale)
    return SymDec(d.m, scale, 'float')


def assume(cond):
    engine.ctx().assume(cond)


def check(cond, label, known=()):
    engine.ctx().check(cond, label, [(k, p) for k, p in known if k in KNOWN])


KNOWN = frozenset()


def fail(label, known=()):
    check(False, label, known)


def outcome(f, /, *a, **k):
    try:
        return Outcome(True, rt.call(f, *a, **k))
    except Exception as e:
        import traceback
        engine.ctx().last_exc = traceback.format_exc()[-1800:]
        return Outcome(False, exc=e)


def reach(label):
    engine.ctx().reached.append(label)


def each(s):
    """the string, every value on a path of its own"""
    return rt.each_value(s)


def observe(label, value):
    engine.ctx().observed.append((label, value))


def case(params=None, reach=(), max_paths=None, **meta):
    def deco(f):
        for i, p in enumerate(params or [{}]):
            name = f.__name__ + ('[' + ','.join(str(v) for v in p.values()) + ']' if p else '')
            CASES[name] = {'fn': f, 'params': p, 'reach': list(reach), 'max_paths': max_paths, **meta}
        return f
    return deco


def concrete(v, model):
    """Value of a (nested) symbolic value under a model, JSON-able."""
    ev = lambda e: model.eval(e, model_completion=True)
    if isinstance(v, SymStr):
        try:
            v.cps
        except Unsupported:
            return '\x00opaque'
        return ''.join(chr(c) if type(c) is int else chr(ev(c).as_long()) for c in v.cps)
    if isinstance(v, SymBool):
        return z3.is_true(ev(v.e))
    if isinstance(v, SymInt):
        return ev(v.e).as_long()
    if isinstance(v, SymDec):
        m = concrete(v.m, model)
        from fractions import Fraction
        return str(Fraction(m, 10 ** v.scale))
    if isinstance(v, SymBytes):
        return concrete(v.s, model)
    if isinstance(v, (list, tuple)):
        return [concrete(x, model) for x in v]
    if isinstance(v, dict):
        return {str(concrete(k, model)): concrete(x, model) for k, x in v.items()}
    if isinstance(v, bytes):
        return v.decode('utf-8', 'replace')
    if v is None or isinstance(v, (str, int, bool)):
        return v
    if isinstance(v, float):
        from fractions import Fraction
        from decimal import Decimal
        return str(Fraction(Decimal(repr(v))))
    import decimal
    if isinstance(v, decimal.Decimal):
        from fractions import Fraction
        return str(Fraction(v))
    return type(v).__name__


def force(v):
    """Bring everything observed into the path condition before a model is taken."""
    if isinstance(v, (SymStr, SymBytes)):
        try:
            (v.s if isinstance(v, SymBytes) else v).force()
        except Unsupported:
            pass               # text of unmodelled parts (tracebacks, reprs): not compared
    elif isinstance(v, (list, tuple)):
        for x in v:
            force(x)
    elif isinstance(v, dict):
        for k, x in v.items():
            force(k)
            force(x)


def scaled(n, scale):
    """The float nearest n / 10**scale."""
    return SymDec(n if isinstance(n, SymInt) else SymInt(z3.IntVal(n)), scale, 'float')


def implies(a, b):
    return engine.or_(engine.not_(a), b)


def truth(x):
    return bool(x)


def is_symbolic():
    return True


def patch(mod, name, value):
    """Set mod.name for this path (restored by the next path's reset)."""
    PATCHED.append((mod, name, getattr(mod, name, PATCHED)))
    setattr(mod, name, value)


PATCHED = []


def load(code, **names):
    from . import codeload
    return codeload.load(code, **names)


def unpatch():
    from . import codeload
    codeload.unload()
    while PATCHED:
        m, n, v = PATCHED.pop()
        if v is PATCHED:
            vars(m).pop(n, None)
        else:
            setattr(m, n, v)


def during(name, first, second):
    """run `second` while `first` is about to run any one of its statements, or after it"""
    from . import interleave
    return interleave.during(int_(name, 0, interleave.LAST), truth, outcome, first, second)


def module():
    m = types.ModuleType('sx')
    m.str = str_
    m.int = int_
    m.bool = bool_
    m.decimal = decimal_
    m.float = float_
    m.scaled = scaled
    m.and_, m.or_, m.not_ = engine.and_, engine.or_, engine.not_
    for n in ('choice', 'flag', 'assume', 'check', 'fail', 'outcome', 'reach', 'observe', 'each', 'case', 'implies', 'truth',
              'is_symbolic', 'patch', 'load', 'Outcome', 'during'):
        setattr(m, n, globals()[n])
    m.tier = lambda: TIER
    return m

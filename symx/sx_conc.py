"""The harness API `sx`, concrete implementation: runs a harness on one witness
against the real soapfish / lxml / datetime."""
import decimal as _decimal
import sys
import types
from fractions import Fraction


class Stop(BaseException):
    pass


class AssumeFailed(Stop):
    pass


class Violated(Stop):
    def __init__(self, label):
        super().__init__(label)
        self.label = label


class KnownFinding(Stop):
    pass


WITNESS = {}
OBSERVED = []
CASES = {}
TIER = 'quick'
KNOWN = frozenset()
KNOWN_HITS = []


class Outcome:
    def __init__(self, ok, value=None, exc=None):
        self.ok, self.value, self.exc = ok, value, exc

    def raised(self, *types_):
        return (not self.ok) and isinstance(self.exc, types_)

    @property
    def kind(self):
        return 'ok' if self.ok else type(self.exc).__name__


FIRST = {'xml': 'a', 'any': 'a', 'ascii': 'a', 'lower': 'a', 'alpha': 'a', 'name': 'a', 'digits': '0', 'latin': 'a'}


def _get(name, default):
    # inputs the explored path never asked for (it stopped before): any value will do
    return WITNESS.get(name, default)


def assume(c):
    if not c:
        raise AssumeFailed()


def check(cond, label, known=()):
    if not cond:
        for k, p in known:
            if k in KNOWN and p:
                KNOWN_HITS.append((k, label))
                return
        raise Violated(label)


def fail(label, known=()):
    check(False, label, known)


def outcome(f, /, *a, **k):
    try:
        return Outcome(True, f(*a, **k))
    except Exception as e:
        return Outcome(False, exc=e)


def case(params=None, reach=(), max_paths=None, **meta):
    def deco(f):
        for i, p in enumerate(params or [{}]):
            name = f.__name__ + ('[' + ','.join(str(v) for v in p.values()) + ']' if p else '')
            CASES[name] = {'fn': f, 'params': p}
        return f
    return deco


def norm(v):
    if isinstance(v, bool) or v is None:
        return v
    if isinstance(v, str):
        return str.__str__(v)
    if isinstance(v, int):
        return int(v)
    if isinstance(v, float):
        return str(Fraction(_decimal.Decimal(repr(v))))
    if isinstance(v, _decimal.Decimal):
        return str(Fraction(v))
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    if isinstance(v, dict):
        return {str(norm(k)): norm(x) for k, x in v.items()}
    if isinstance(v, bytes):
        return v.decode('utf-8', 'replace')
    return type(v).__name__


PATCHED = []


def patch(mod, name, value):
    PATCHED.append((mod, name, getattr(mod, name, PATCHED)))
    setattr(mod, name, value)


LOADED = []


def load(code, **names):
    """the module made of generated source"""
    m = types.ModuleType('generated_%d' % len(LOADED))
    m.__dict__.update(names)
    sys.modules[m.__name__] = m
    LOADED.append(m.__name__)
    exec(compile(code, m.__name__, 'exec', dont_inherit=True), m.__dict__)
    return m


def unpatch():
    while LOADED:
        sys.modules.pop(LOADED.pop(), None)
    while PATCHED:
        m, n, v = PATCHED.pop()
        if v is PATCHED:
            delattr(m, n)
        else:
            setattr(m, n, v)


def during(name, first, second):
    from symx import interleave
    return interleave.during(_get(name, 0), bool, outcome, first, second)


def module():
    m = types.ModuleType('sx')
    m.str = lambda name, lo, hi, alphabet='xml', first=None: _get(name, (FIRST.get(first, first[0]) if first and lo else '') + FIRST.get(alphabet, alphabet[0]) * (lo - (1 if first and lo else 0)))
    m.int = lambda name, lo, hi: _get(name, max(lo, min(hi, 0)))
    m.bool = lambda name: _get(name, False)
    m.choice = lambda name, options: list(options)[_get(name, 0)]
    m.flag = lambda name: bool(_get(name, 0))
    m.decimal = lambda name, digits, scale: _decimal.Decimal(_get(name, 0)).scaleb(-scale)
    m.float = lambda name, digits, scale: float(_decimal.Decimal(_get(name, 0)).scaleb(-scale))
    m.scaled = lambda n, scale: float(Fraction(n, 10 ** scale))
    m.and_ = lambda *xs: all(bool(x) for x in xs)
    m.or_ = lambda *xs: any(bool(x) for x in xs)
    m.not_ = lambda x: not x
    m.implies = lambda a, b: (not a) or bool(b)
    m.truth = bool
    m.is_symbolic = lambda: False
    m.reach = lambda label: None
    m.observe = lambda label, value: OBSERVED.append([label, norm(value)])
    m.each = lambda s: s
    m.tier = lambda: TIER
    for n in ('assume', 'check', 'fail', 'outcome', 'case', 'patch', 'load', 'Outcome', 'during'):
        setattr(m, n, globals()[n])
    return m

"""Symbolic path explorer and symbolic value proxies on top of z3.

One *path* is one execution of a harness.  Every branch on a symbolic condition
(`SymBool.__bool__`) is decided from a recorded decision prefix, then by the
current model; the other side is handed to the solver and, if satisfiable, its
decision prefix goes on the work list.  A harness assertion asks the solver for
a model of (path condition AND NOT assertion).
"""
import time
import z3

MAXCP = 0x7FF


class EngineStop(BaseException):
    """Base of everything the engine uses for control flow (never caught by code under test)."""


class PathEnd(EngineStop):
    """assume() failed / infeasible."""


class Unsupported(EngineStop):
    """The executed code did something the encoding does not model."""


class Violation(EngineStop):
    def __init__(self, label, witness, detail=''):
        super().__init__(label)
        self.label, self.witness, self.detail = label, witness, detail


class Budget(EngineStop):
    """Path ran over its per-path limits."""


CTX = None


def ctx():
    if CTX is None:
        raise Unsupported('symbolic operation outside a path')
    return CTX


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0


class Path:
    MAX_BRANCHES = 4000

    def __init__(self, prefix=(), seed=1, stats=None, timeout_ms=10000):
        self.prefix = list(prefix)
        self.taken = []
        self.pending = []          # alternative prefixes discovered
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.solver.set('random_seed', seed)
        self.stats = stats or Stats()
        self.model = None
        self.inputs = {}           # name -> decoder(model)->json value
        self.order = []
        self.fresh = 0
        self.symhash = False
        self.checks = 0
        self.observed = []
        self.reached = []
        self.knowns = []
        self.digits = {}
        self.notes = set()
        self.deadline = None
        self.decided = {}
        self.entail = {}
        self.vars = []             # solver variables of the inputs
        self.confirm = None        # witness -> does the real code fail as well?
        self.spurious = []

    # -- solver plumbing
    def _check(self, *extra):
        t = time.time()
        self.stats.queries += 1
        r = self.solver.check(*extra)
        self.stats.solver_s += time.time() - t
        if r == z3.unknown:
            self.stats.unknown += 1
        return r

    def ensure_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.unsat:
                raise PathEnd()
            if r == z3.unknown:
                raise Unsupported('solver unknown')
            self.model = self.solver.model()
        return self.model

    def add(self, cond):
        self.solver.add(cond)

    def eval_bool(self, cond):
        m = self.ensure_model()
        v = m.eval(cond, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def branch(self, cond):
        """Decide a z3 Bool on this path."""
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        hit = self.decided.get(cond.get_id())
        if hit is not None and hit[0].eq(cond):
            return hit[1]
        d = self._branch(cond)
        self.decided[cond.get_id()] = (cond, d)
        return d

    def _branch(self, cond):
        i = len(self.taken)
        if i >= self.MAX_BRANCHES:
            raise Budget('branch limit')
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget('time limit')
        if i < len(self.prefix):
            d = self.prefix[i]
            self.taken.append(d)
            self.add(cond if d else z3.Not(cond))
            self.model = None
            return bool(d)
        side = self.eval_bool(cond)
        if side is None:
            r = self._check(cond)
            side = (r != z3.unsat)
            if not side:
                pass
        other = z3.Not(cond) if side else cond
        r = self._check(other)
        if r != z3.unsat:
            self.pending.append(tuple(self.taken) + (0 if side else 1,))
        self.taken.append(1 if side else 0)
        self.add(cond if side else z3.Not(cond))
        return side

    def choose(self, n):
        """Unconstrained n-way decision (structure of the input)."""
        if n <= 1:
            return 0
        i = len(self.taken)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.taken.append(d)
            return d
        for k in range(n - 1, 0, -1):
            self.pending.append(tuple(self.taken) + (k,))
        self.taken.append(0)
        return 0

    def assume(self, cond):
        if isinstance(cond, SymBool):
            cond = cond.e
        elif not isinstance(cond, z3.BoolRef):
            if not cond:
                raise PathEnd()
            return
        self.add(cond)
        if self.model is not None and len(self.taken) >= len(self.prefix):
            v = self.model.eval(cond, model_completion=True)
            if z3.is_true(v):
                return
        self.model = None
        if len(self.taken) >= len(self.prefix):
            self.ensure_model()

    def concretize(self, e, limit=80):
        """Return an int for e, forking over all its values."""
        for _ in range(limit):
            i = len(self.taken)
            if i < len(self.prefix):
                # prefix stores a pair ('v', value, taken?) flattened in one decision
                d = self.prefix[i]
                self.taken.append(d)
                kind, v = d
                if kind == 'eq':
                    self.add(e == v)
                    self.model = None
                    return v
                self.add(e != v)
                self.model = None
                continue
            m = self.ensure_model()
            v = m.eval(e, model_completion=True)
            if not z3.is_int_value(v):
                raise Unsupported('concretize non-int')
            v = v.as_long()
            if self._check(e != v) != z3.unsat:
                self.pending.append(tuple(self.taken) + (('ne', v),))
            self.taken.append(('eq', v))
            self.add(e == v)
            return v
        raise Unsupported('too many values to concretise')

    def entailed(self, cond):
        """Does the path condition imply cond?  (memoised; a pure query, no decision is recorded)"""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        hit = self.entail.get(cond.get_id())
        if hit is not None and hit[0].eq(cond):
            return hit[1]
        r = self._check(z3.Not(cond)) == z3.unsat
        self.entail[cond.get_id()] = (cond, r)
        return r

    def fresh_int(self, hint='t'):
        self.fresh += 1
        return z3.Int(f'!{hint}{self.fresh}')

    def witness(self, model):
        return {k: self.inputs[k](model) for k in self.order}

    def check(self, cond, label, known=()):
        """Assert; known = [(kf_id, predicate)] regions recorded as known findings."""
        self.checks += 1
        e = tobool(cond)
        neg = z3.Not(e)
        live = []
        for kid, pred in known:
            p = tobool(pred)
            live.append((kid, p))
        out = [neg] + [z3.Not(p) for _, p in live]
        out = z3.simplify(z3.And(*out))
        if z3.is_false(out):
            r = z3.unsat
        else:
            r = self._check(out)
        if r == z3.sat:
            self.counterexample(out, label)
        if r == z3.unknown:
            self.notes.add('assertion undecided: ' + label)
        for kid, p in live:
            q = z3.simplify(z3.And(neg, p))
            if not z3.is_false(q) and self._check(q) == z3.sat:
                self.knowns.append((kid, label, self.witness(self.solver.model())))
        # continue under the assertion (when possible)
        if not z3.is_true(z3.simplify(e)):
            if r == z3.sat and (z3.is_false(z3.simplify(e)) or self._check(e) != z3.sat):
                return             # it fails in the model of the code only: go on without it
            self.add(e)
            self.model = None
            if len(self.taken) >= len(self.prefix):
                self.ensure_model()

    def counterexample(self, out, label):
        """Raise Violation, unless none of a few witnesses fails on the real code."""
        w = self.witness(self.solver.model())
        if self.confirm is None or len(self.spurious) >= 8:
            if self.confirm is None:
                raise Violation(label, w)
            return
        differ = []
        for _ in range(4):
            if self.confirm(w):
                raise Violation(label, w)
            m = self.solver.model()
            now = [v != m.eval(v, model_completion=True) for v in self.vars]
            if not now:
                break
            # all inputs different from the last witness, or else at least one
            if self._check(out, *differ, *now) != z3.sat:
                differ.append(z3.Or(*now))
                if self._check(out, *differ) != z3.sat:
                    break
            w = self.witness(self.solver.model())
        self.spurious.append((label, w))


# --------------------------------------------------------------------------- proxies

def tobool(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, z3.BoolRef):
        return x
    return z3.BoolVal(bool(x))


def is_sym(x):
    return isinstance(x, Sym)


class Sym:
    def __getattr__(self, name):
        # what the concrete type has and the model lacks ends the path as unsupported, it is no AttributeError
        if name[:2] != '__' and hasattr(self.__class__, name):
            raise Unsupported(f'{self.__class__.__name__}.{name} of a symbolic value')
        raise AttributeError(f"'{self.__class__.__name__}' object has no attribute '{name}'")

    __slots__ = ()


class SymBool(Sym):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return ctx().branch(self.e)

    def as_int(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return mkbool(self.e == o.e)
        if o is True:
            return mkbool(self.e)
        if o is False:
            return mkbool(z3.Not(self.e))
        if type(o) is int or isinstance(o, (SymInt, float)):
            return self.as_int() == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def __hash__(self):
        ctx().symhash = True
        return 0x5EED

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(z3.And(self.e, tobool(o)))
        return self.as_int() & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(z3.Or(self.e, tobool(o)))
        return NotImplemented
    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.e, tobool(o)))
    __rxor__ = __xor__

    def __index__(self):
        return 1 if self else 0
    __int__ = __index__

    def __add__(self, o): return self.as_int() + o
    __radd__ = __add__
    def __sub__(self, o): return self.as_int() - o
    def __rsub__(self, o): return o - self.as_int()
    def __mul__(self, o): return self.as_int() * o
    __rmul__ = __mul__
    def __lt__(self, o): return self.as_int() < o
    def __le__(self, o): return self.as_int() <= o
    def __gt__(self, o): return self.as_int() > o
    def __ge__(self, o): return self.as_int() >= o

    def __repr__(self):
        return '<SymBool>'


def mkbool(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def not_(x):
    if isinstance(x, SymBool):
        return mkbool(z3.Not(x.e))
    return not x


def and_(*xs):
    es = []
    for x in xs:
        if isinstance(x, SymBool):
            es.append(x.e)
        elif not x:
            return False
    if not es:
        return True
    return SymBool(z3.And(*es) if len(es) > 1 else es[0])


def or_(*xs):
    es = []
    for x in xs:
        if isinstance(x, SymBool):
            es.append(x.e)
        elif x:
            return True
    if not es:
        return False
    return SymBool(z3.Or(*es) if len(es) > 1 else es[0])


def iexpr(x):
    """z3 Int expression of an int-like value or None."""
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, SymBool):
        return x.as_int().e
    if type(x) is int or type(x) is bool:
        return z3.IntVal(int(x))
    if isinstance(x, int) and not is_sym(x):
        return z3.IntVal(int(x))
    return None


def mkint(e):
    if z3.is_int_value(e):
        return e.as_long()
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


class SymInt(Sym):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return int

    def _bin(self, o, f):
        oe = iexpr(o)
        if oe is None:
            return NotImplemented
        return mkint(f(self.e, oe))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (str, bytes, list, tuple)) and not isinstance(o, int):
            return o * self.__index__()
        oe = iexpr(o)
        if oe is None:
            return NotImplemented
        if not z3.is_int_value(oe) and not z3.is_int_value(self.e):
            raise Unsupported('non-linear multiplication')
        return mkint(self.e * oe)
    __rmul__ = __mul__

    def _divmod(self, o):
        oe = iexpr(o)
        if oe is None:
            return None
        if not z3.is_int_value(oe):
            raise Unsupported('division by symbolic value')
        c = oe.as_long()
        if c == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if c > 0:      # z3 div is floor for positive divisor
            q = self.e / c
        else:          # floor division by negative
            q = (-self.e) / (-c)
        return mkint(q), mkint(self.e - q * c)

    def __floordiv__(self, o):
        r = self._divmod(o)
        return NotImplemented if r is None else r[0]

    def __mod__(self, o):
        r = self._divmod(o)
        return NotImplemented if r is None else r[1]

    def __divmod__(self, o):
        r = self._divmod(o)
        return NotImplemented if r is None else r

    def __rfloordiv__(self, o):
        return o // self.__index__()

    def __rmod__(self, o):
        return o % self.__index__()

    def __rdivmod__(self, o):
        return divmod(o, self.__index__())

    def __truediv__(self, o):
        raise Unsupported('true division')
    __rtruediv__ = __truediv__

    def __pow__(self, o, m=None):
        if type(o) is int and o == 0:
            return 1
        if type(o) is int and o == 1:
            return self
        if type(o) is int and 1 < o < 5 and m is None:
            return self * self ** (o - 1)
        raise Unsupported('pow')

    def __rpow__(self, o):
        return o ** self.__index__()

    def __lshift__(self, o):
        if type(o) is int:
            return self * (1 << o)
        raise Unsupported('shift')

    def __rshift__(self, o):
        if type(o) is int:
            return self // (1 << o)
        raise Unsupported('shift')

    def __and__(self, o):
        if type(o) is int and o >= 0 and (o & (o + 1)) == 0:
            return self % (o + 1)
        raise Unsupported('bitand')
    __rand__ = __and__

    def __or__(self, o):
        raise Unsupported('bitor')
    __ror__ = __or__

    def __neg__(self): return mkint(-self.e)
    def __pos__(self): return self
    def __abs__(self): return mkint(z3.If(self.e >= 0, self.e, -self.e))
    def __invert__(self): return mkint(-self.e - 1)

    def _cmp(self, o, f):
        oe = iexpr(o)
        if oe is None:
            if isinstance(o, SymDec):
                return NotImplemented
            if isinstance(o, float):
                import math
                if math.isinf(o) or math.isnan(o):
                    return {'lt': o > 0, 'le': o > 0, 'gt': o < 0, 'ge': o < 0, 'eq': False}[f] and not math.isnan(o)
                return getattr(SymDec(self, 0), f'__{f}__')(o)
            import decimal
            if isinstance(o, decimal.Decimal) and not is_sym(o):
                if not o.is_finite():
                    return {'lt': o > 0, 'le': o > 0, 'gt': o < 0, 'ge': o < 0, 'eq': False}[f] and not o.is_nan()
                return getattr(SymDec(self, 0), f'__{f}__')(o)
            return NotImplemented
        a = self.e
        return mkbool(z3.simplify({'lt': a < oe, 'le': a <= oe, 'gt': a > oe, 'ge': a >= oe, 'eq': a == oe}[f]))

    def __lt__(self, o): return self._cmp(o, 'lt')
    def __le__(self, o): return self._cmp(o, 'le')
    def __gt__(self, o): return self._cmp(o, 'gt')
    def __ge__(self, o): return self._cmp(o, 'ge')
    def __eq__(self, o): return self._cmp(o, 'eq')

    def __ne__(self, o):
        r = self._cmp(o, 'eq')
        return r if r is NotImplemented else not_(r)

    def __hash__(self):
        ctx().symhash = True
        return 0x5EED

    def __bool__(self):
        return ctx().branch(self.e != 0)

    def __index__(self):
        return ctx().concretize(self.e)

    def __int__(self):
        return ctx().concretize(self.e)

    def __float__(self):
        raise Unsupported('float(SymInt)')

    def bit_length(self):
        raise Unsupported('bit_length')

    def __repr__(self):
        return '<SymInt>'

    def __str__(self):
        raise Unsupported('C-level str() of a symbolic int')

    def __format__(self, spec):
        raise Unsupported('C-level format() of a symbolic int')

    @property
    def real(self): return self

    @property
    def numerator(self): return self

    @property
    def denominator(self): return 1

    # -- decimal digits
    def digits(self, maxdigits=24):
        """(negative?, [digit exprs]) with no leading zero; forks on sign and count."""
        c = ctx()
        key = self.e.get_id()
        hit = c.digits.get(key)
        if hit is not None and hit[0].eq(self.e):
            return hit[1]
        neg = c.branch(self.e < 0)
        a = -self.e if neg else self.e
        n = 1
        while n < maxdigits and c.branch(a >= 10 ** n):
            n += 1
        if n >= maxdigits:
            raise Unsupported('integer too wide to render')
        ds = []
        if n == 1:
            ds = [z3.simplify(a)]
        else:
            total = z3.IntVal(0)
            for i in range(n):
                d = c.fresh_int('d')
                c.add(z3.And(d >= (1 if i == 0 else 0), d <= 9))
                ds.append(d)
                total = total + d * (10 ** (n - 1 - i))
            c.add(a == total)
            c.model = None
        res = (neg, ds)
        c.digits[key] = (self.e, res)
        return res


def render_int(v, spec=''):
    """String (SymStr or str) of an int with a simple format spec."""
    if not isinstance(v, SymInt):
        if isinstance(v, SymBool):
            v = v.as_int()
            if not isinstance(v, SymInt):
                return format(v, spec)
        else:
            return format(v, spec)
    if len(spec) in (2, 3) and spec[0] == '0' and spec[1].isdigit() and spec[2:] in ('', 'd'):
        w = int(spec[1])
        if ctx().entailed(z3.And(v.e >= 0, v.e < 10 ** w)):
            return _fixed(v, w)
    neg, ds = v.digits()
    cps = [z3.simplify(d + 48) for d in ds]
    cps = [c.as_long() if z3.is_int_value(c) else c for c in cps]
    if spec in ('', 'd', 's'):
        return mkstr(([45] if neg else []) + cps)
    import re
    m = re.fullmatch(r'([+ -])?(0)?(\d+)?d?', spec)
    if not m:
        raise Unsupported('format spec ' + spec)
    sign = [45] if neg else ([43] if m.group(1) == '+' else [32] if m.group(1) == ' ' else [])
    w = int(m.group(3) or 0)
    padn = max(0, w - len(cps) - len(sign))
    if m.group(2):
        return mkstr(sign + [48] * padn + cps)
    return mkstr([32] * padn + sign + cps)


# --------------------------------------------------------------------------- decimals

class SymDec(Sym):
    """mantissa / 10**scale, scale concrete.  kind 'float' or 'decimal'.

    kind 'float' models an IEEE double holding a decimal of <= 15 significant
    digits: comparisons and shortest repr coincide with those of the decimal.
    """
    __slots__ = ('m', 'scale', 'kind')

    def __init__(self, m, scale, kind='float'):
        self.m, self.scale, self.kind = m, scale, kind

    @property
    def __class__(self):
        if self.kind == 'float':
            return float
        import decimal
        return decimal.Decimal

    @staticmethod
    def lift(o):
        import decimal
        if isinstance(o, SymDec):
            return o
        if isinstance(o, (SymInt, SymBool)) or (isinstance(o, int) and not is_sym(o)):
            return SymDec(o, 0)
        if isinstance(o, float):
            import math
            if math.isinf(o) or math.isnan(o):
                return None
            o = decimal.Decimal(repr(o))
        if isinstance(o, decimal.Decimal):
            if not o.is_finite():
                return None
            sign, ds, exp = o.as_tuple()
            m = int(''.join(map(str, ds)) or '0') * (-1 if sign else 1)
            if exp > 0:
                m, exp = m * 10 ** exp, 0
            return SymDec(m, -exp)
        return None

    def _align(self, o):
        s = max(self.scale, o.scale)
        return self.m * 10 ** (s - self.scale), o.m * 10 ** (s - o.scale)

    def _cmp(self, o, f):
        import decimal
        if isinstance(o, (float, decimal.Decimal)) and not is_sym(o):
            import math
            if isinstance(o, float) and (math.isinf(o) or math.isnan(o)) or isinstance(o, decimal.Decimal) and not o.is_finite():
                if o != o:
                    return False
                return {'lt': o > 0, 'le': o > 0, 'gt': o < 0, 'ge': o < 0, 'eq': False}[f]
        l = SymDec.lift(o)
        if l is None:
            return NotImplemented
        a, b = self._align(l)
        return {'lt': lambda: a < b, 'le': lambda: a <= b, 'gt': lambda: a > b, 'ge': lambda: a >= b, 'eq': lambda: a == b}[f]()

    def __lt__(self, o): return self._cmp(o, 'lt')
    def __le__(self, o): return self._cmp(o, 'le')
    def __gt__(self, o): return self._cmp(o, 'gt')
    def __ge__(self, o): return self._cmp(o, 'ge')
    def __eq__(self, o): return self._cmp(o, 'eq')

    def __ne__(self, o):
        r = self._cmp(o, 'eq')
        return r if r is NotImplemented else not_(r)

    def __hash__(self):
        ctx().symhash = True
        return 0x5EED

    def __bool__(self):
        return bool(self.m != 0)

    def __abs__(self):
        return SymDec(abs(self.m), self.scale, self.kind)

    def __neg__(self):
        return SymDec(-self.m, self.scale, self.kind)

    def _trunc(self):
        p = 10 ** self.scale
        if self.m >= 0:
            return self.m // p
        return -((-self.m) // p)

    __trunc__ = _trunc

    def is_integer(self):
        return self.m % (10 ** self.scale) == 0

    def is_finite(self): return True
    def is_nan(self): return False
    def is_infinite(self): return False

    def __mul__(self, o):
        l = SymDec.lift(o)
        if l is None:
            return NotImplemented
        return SymDec(self.m * l.m, self.scale + l.scale, self.kind)
    __rmul__ = __mul__

    def __add__(self, o):
        l = SymDec.lift(o)
        if l is None:
            return NotImplemented
        a, b = self._align(l)
        return SymDec(a + b, max(self.scale, l.scale), self.kind)
    __radd__ = __add__

    def __mod__(self, o):
        l = SymDec.lift(o)
        if l is None or self.kind == 'float' or is_sym(l.m) or l.m <= 0:
            return NotImplemented
        a, b = self._align(l)
        sign = -1 if bool(a < 0) else 1
        return SymDec(sign * (abs(a) % b), max(self.scale, l.scale), self.kind)

    def to_integral_value(self, rounding=None):
        if bool(self.m % 10 ** self.scale == 0):
            return SymDec(self.m // 10 ** self.scale, 0, self.kind)
        raise Unsupported('rounding')

    def as_tuple(self):
        import decimal
        a = abs(self.m)
        if not is_sym(a):
            ds = tuple(map(int, str(a)))
        else:
            n = 1
            while not bool(a < 10 ** n):
                n += 1
            ds = tuple(a // 10 ** (n - 1 - i) % 10 for i in range(n))
        return decimal.DecimalTuple(1 if bool(self.m < 0) else 0, ds, -self.scale)

    def is_signed(self): return self.m < 0
    def is_zero(self): return self.m == 0
    def is_nan(self): return False
    def is_infinite(self): return False
    def is_finite(self): return True
    def is_integer(self): return self.m % 10 ** self.scale == 0
    def copy_abs(self): return SymDec(abs(self.m), self.scale, self.kind)

    def adjusted(self):
        return len(self.as_tuple()[1]) - 1 - self.scale

    def __int__(self):
        r = self._trunc()
        return r if type(r) is int else r.__index__()

    def __float__(self):
        raise Unsupported('C-level float()')

    def __repr__(self):
        return '<SymDec>'

    def __str__(self):
        raise Unsupported('C-level str() of a symbolic decimal')

    def __format__(self, spec):
        raise Unsupported('C-level format() of a symbolic decimal')

    def render(self):
        """repr(float) / str(Decimal) for the modelled range."""
        m, s = self.m, self.scale
        if isinstance(m, int) and not is_sym(m):
            import decimal
            d = decimal.Decimal(m).scaleb(-s)
            if self.kind == 'float':
                return repr(float(d))
            return str(d)
        neg = bool(m < 0)
        a = -m if neg else m
        if self.kind == 'decimal':
            if s == 0:
                return ('-' if neg else '') + render_int(a)
            ip, fp = a // 10 ** s, a % 10 ** s
            if s > 6:
                raise Unsupported('decimal scale')
            return ('-' if neg else '') + render_int(ip) + '.' + _fixed(fp, s)
        # float: shortest repr
        if not bool(a < 10 ** (15 + 0)):
            raise Unsupported('float beyond 15 significant digits')
        ip, fp = a // 10 ** s, a % 10 ** s
        if s > 4 and not bool(m == 0) and bool(a < 10 ** (s - 4)):
            raise Unsupported('float repr uses exponent')
        # drop trailing zeros of the fraction
        k = s
        while k > 0 and bool(fp % 10 == 0):
            fp = fp // 10
            k -= 1
        if k == 0:
            return ('-' if neg else '') + render_int(ip) + '.0'
        return ('-' if neg else '') + render_int(ip) + '.' + _fixed(fp, k)


def _fixed(v, n):
    """exactly n digits of v (0 <= v < 10**n)"""
    if isinstance(v, int) and not is_sym(v):
        return str(v).rjust(n, '0')
    c = ctx()
    ds, total = [], z3.IntVal(0)
    key = ('fixed', v.e.get_id(), n)
    hit = c.digits.get(key)
    if hit is not None:
        return hit[1]
    for i in range(n):
        d = c.fresh_int('f')
        c.add(z3.And(d >= 0, d <= 9))
        ds.append(d + 48)
        total = total + d * 10 ** (n - 1 - i)
    c.add(total == v.e)
    c.model = None
    r = mkstr(ds)
    c.digits[key] = (v.e, r)
    return r


# --------------------------------------------------------------------------- strings

import unicodedata


def _ranges(pred):
    out, start = [], None
    for i in range(MAXCP + 2):
        p = i <= MAXCP and pred(chr(i))
        if p and start is None:
            start = i
        elif not p and start is not None:
            out.append((start, i - 1))
            start = None
    return out


WS_RANGES = _ranges(str.isspace)
DIGIT_RANGES = _ranges(lambda c: unicodedata.decimal(c, None) is not None)
LINE_RANGES = [(10, 13), (0x1C, 0x1E), (0x85, 0x85), (0x2028, 0x2029)]
WORD_RANGES = _ranges(lambda c: c.isalnum() or c == '_')


_RANGES = {}


def _cached_ranges(name, pred):
    if name not in _RANGES:
        _RANGES[name] = _ranges(pred)
    return _RANGES[name]


def in_ranges(cp, ranges):
    """bool / SymBool: code point in the ranges."""
    if type(cp) is int:
        return any(a <= cp <= b for a, b in ranges)
    return mkbool(in_ranges_e(cp, ranges))


def in_ranges_e(cp, ranges):
    if type(cp) is int:
        return z3.BoolVal(any(a <= cp <= b for a, b in ranges))
    if not ranges:
        return z3.BoolVal(False)
    return z3.Or(*[cp == a if a == b else z3.And(cp >= a, cp <= b) for a, b in ranges])


def mkstr(cps):
    cps = tuple(cps)
    for c in cps:
        if type(c) is not int:
            return SymStr(cps)
    return ''.join(map(chr, cps))


def cps_of(s):
    if isinstance(s, SymStr):
        return s.cps
    return tuple(map(ord, s))


def cp_eq(a, b):
    if type(a) is int and type(b) is int:
        return a == b
    return mkbool(a == b)


class IntPart:
    __slots__ = ('v', 'spec')

    def __init__(self, v, spec):
        self.v, self.spec = v, spec


class OpaquePart:
    """repr() of something symbolic: never looked into."""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


def repr_cps(s):
    out, quotes = [], set()
    for c in s.cps:
        if type(c) is not int and not in_ranges(c, [(0x20, 0x21), (0x23, 0x26), (0x28, 0x5b), (0x5d, 0x7e)]):
            c = ctx().concretize(c, 40)
        out.append(c)
        if c in (0x22, 0x27):
            quotes.add(c)
    q = '"' if quotes == {0x27} else "'"
    res = [ord(q)]
    for c in out:
        if type(c) is not int:
            res.append(c)
        elif chr(c) == q:
            res += [0x5c, c]
        elif c in (0x22, 0x27):
            res.append(c)
        else:
            res += map(ord, repr(chr(c))[1:-1])
    return res + [ord(q)]


class SymStr(Sym):
    """String of concrete length (per path) over possibly symbolic code points."""
    __slots__ = ('_cps', '_parts')

    def __init__(self, cps=None, parts=None):
        self._cps = cps
        self._parts = parts

    @property
    def __class__(self):
        return str

    @property
    def cps(self):
        if self._cps is None:
            out = []
            for p in self._parts:
                if isinstance(p, str) and not is_sym(p):
                    out.extend(map(ord, p))
                elif isinstance(p, SymStr):
                    out.extend(p.cps)
                elif isinstance(p, IntPart):
                    out.extend(cps_of(render_int(p.v, p.spec)))
                elif isinstance(p, SymDec):
                    out.extend(cps_of(p.render()))
                elif isinstance(p.v, SymStr):
                    out.extend(repr_cps(p.v))
                else:
                    raise Unsupported('content of a repr() of a symbolic value')
            self._cps = tuple(out)
        return self._cps

    def force(self):
        return mkstr(self.cps)

    def __len__(self):
        return len(self.cps)

    def __bool__(self):
        return len(self.cps) > 0

    def __iter__(self):
        for c in self.cps:
            yield mkstr((c,))

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mkstr(self.cps[i])
        if is_sym(i):
            i = i.__index__()
        return mkstr((self.cps[i],))

    def __eq__(self, o):
        if o is self:
            return True
        if isinstance(o, SymStr):
            if self._cps is None and o._cps is None:
                a, b = self._parts, o._parts
                if len(a) == len(b) and all(_part_same(x, y) for x, y in zip(a, b)):
                    return True
            b = o.cps
        elif isinstance(o, str):
            b = tuple(map(ord, o))
        else:
            return NotImplemented
        a = self.cps
        if len(a) != len(b):
            return False
        es = []
        for x, y in zip(a, b):
            if type(x) is int and type(y) is int:
                if x != y:
                    return False
            elif type(x) is not int and type(y) is not int and x.eq(y):
                continue
            else:
                es.append(x == y)
        if not es:
            return True
        return mkbool(z3.simplify(z3.And(*es)))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def _lt(self, o):
        if not isinstance(o, str):
            return NotImplemented
        a, b = self.cps, cps_of(o)
        for x, y in zip(a, b):
            if cp_eq(x, y):
                continue
            return mkbool(x < y) if not (type(x) is int and type(y) is int) else x < y
        return len(a) < len(b)

    def __lt__(self, o): return self._lt(o)

    def __gt__(self, o):
        if isinstance(o, SymStr):
            return o._lt(self)
        if isinstance(o, str):
            return SymStr(cps_of(o))._lt(self)
        return NotImplemented

    def __le__(self, o):
        r = self.__gt__(o)
        return r if r is NotImplemented else not_(r)

    def __ge__(self, o):
        r = self._lt(o)
        return r if r is NotImplemented else not_(r)

    def __hash__(self):
        ctx().symhash = True
        return 0x5EED

    def __add__(self, o):
        if isinstance(o, SymStr):
            return concat([self, o])
        if isinstance(o, str):
            return concat([self, o]) if o else self
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, str):
            return concat([o, self]) if o else self
        return NotImplemented

    def __mul__(self, n):
        if is_sym(n):
            n = n.__index__()
        return mkstr(self.cps * n)
    __rmul__ = __mul__

    def __contains__(self, o):
        if not isinstance(o, str):
            raise TypeError('in <string> requires string as left operand')
        return self.find(o) >= 0

    def __repr__(self):
        return '<SymStr>'

    def __str__(self):
        raise Unsupported('C-level str() of a symbolic string')

    def __format__(self, spec):
        raise Unsupported('C-level format() of a symbolic string')

    # -- searching
    def _at(self, i, sub):
        a = self.cps
        return and_(*[cp_eq(a[i + k], c) for k, c in enumerate(sub)])

    def find(self, sub, start=0, end=None):
        s = cps_of(sub)
        n = len(self.cps)
        start, end, _ = slice(start, end).indices(n)
        for i in range(start, end - len(s) + 1):
            if self._at(i, s):
                return i
        return -1

    def rfind(self, sub, start=0, end=None):
        s = cps_of(sub)
        n = len(self.cps)
        start, end, _ = slice(start, end).indices(n)
        for i in range(end - len(s), start - 1, -1):
            if self._at(i, s):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rindex(self, sub, *a):
        r = self.rfind(sub, *a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, sub, start=0, end=None):
        s = cps_of(sub)
        i, end, _ = slice(start, end).indices(len(self.cps))
        n = 0
        if not s:
            return max(0, end - i + 1)
        while True:
            i = self.find(sub, i, end)
            if i < 0:
                return n
            n += 1
            i += len(s)

    def startswith(self, p, start=0, end=None):
        if isinstance(p, tuple):
            return or_(*[self.startswith(x, start, end) for x in p])
        s = self.cps[start:end]
        q = cps_of(p)
        if len(q) > len(s):
            return False
        return and_(*[cp_eq(a, b) for a, b in zip(s, q)])

    def endswith(self, p, start=0, end=None):
        if isinstance(p, tuple):
            return or_(*[self.endswith(x, start, end) for x in p])
        s = self.cps[start:end]
        q = cps_of(p)
        if len(q) > len(s):
            return False
        return and_(*[cp_eq(a, b) for a, b in zip(s[len(s) - len(q):], q)])

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:len(self) - len(p)] if len(p) and self.endswith(p) else self

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return self._wssplit(maxsplit)
        if len(sep) == 0:
            raise ValueError('empty separator')
        out, start = [], 0
        while maxsplit != 0:
            i = self.find(sep, start)
            if i < 0:
                break
            out.append(mkstr(self.cps[start:i]))
            start = i + len(sep)
            maxsplit -= 1
        out.append(mkstr(self.cps[start:]))
        return out

    def _wssplit(self, maxsplit):
        out, cur = [], []
        cps = self.cps
        i, n = 0, len(cps)
        while i < n:
            while i < n and in_ranges(cps[i], WS_RANGES):
                i += 1
            if i >= n:
                break
            if maxsplit == 0:
                out.append(mkstr(cps[i:]).rstrip())
                return out
            j = i
            while j < n and not in_ranges(cps[j], WS_RANGES):
                j += 1
            out.append(mkstr(cps[i:j]))
            maxsplit -= 1
            i = j
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            if maxsplit < 0:
                return self._wssplit(-1)
            raise Unsupported('rsplit(None, n)')
        out, end = [], len(self.cps)
        while maxsplit != 0:
            i = self.rfind(sep, 0, end)
            if i < 0:
                break
            out.append(mkstr(self.cps[i + len(sep):end]))
            end = i
            maxsplit -= 1
        out.append(mkstr(self.cps[:end]))
        out.reverse()
        return out

    def splitlines(self, keepends=False):
        out, start, i, cps = [], 0, 0, self.cps
        while i < len(cps):
            if in_ranges(cps[i], LINE_RANGES):
                end = i
                i += 1
                if i < len(cps) and cp_eq(cps[end], 13) and cp_eq(cps[i], 10):
                    i += 1
                out.append(mkstr(cps[start:i if keepends else end]))
                start = i
            else:
                i += 1
        if start < len(cps):
            out.append(mkstr(cps[start:]))
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, '', '')
        return (self[:i], sep, self[i + len(sep):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ('', '', self)
        return (self[:i], sep, self[i + len(sep):])

    def _strippred(self, chars):
        if chars is None:
            return lambda c: in_ranges(c, WS_RANGES)
        cs = cps_of(chars)
        return lambda c: or_(*[cp_eq(c, x) for x in cs])

    def lstrip(self, chars=None):
        p = self._strippred(chars)
        i = 0
        while i < len(self.cps) and p(self.cps[i]):
            i += 1
        return mkstr(self.cps[i:])

    def rstrip(self, chars=None):
        p = self._strippred(chars)
        i = len(self.cps)
        while i > 0 and p(self.cps[i - 1]):
            i -= 1
        return mkstr(self.cps[:i])

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars)

    def replace(self, old, new, count=-1):
        o, n = cps_of(old), cps_of(new)
        if not o:
            raise Unsupported('replace empty')
        out, i, cps = [], 0, self.cps
        while i < len(cps):
            if count != 0 and i + len(o) <= len(cps) and self._at(i, o):
                out.extend(n)
                i += len(o)
                count -= 1
            else:
                out.append(cps[i])
                i += 1
        return mkstr(out)

    def join(self, items):
        out = []
        for k, it in enumerate(items):
            if k:
                out.append(self)
            if not isinstance(it, str):
                raise TypeError(f'sequence item {k}: expected str instance, {type(it).__name__} found')
            out.append(it)
        return concat(out)

    def _case(self, upper):
        out = []
        for c in self.cps:
            if type(c) is int:
                out.extend(map(ord, chr(c).upper() if upper else chr(c).lower()))
                continue
            lo, hi = (97, 122) if upper else (65, 90)
            if ctx().branch(c <= 127):
                out.append(z3.simplify(z3.If(z3.And(c >= lo, c <= hi), c - 32 if upper else c + 32, c)))
            else:
                raise Unsupported('case mapping of non-ASCII symbolic character')
        return mkstr(out)

    def upper(self): return self._case(True)
    def lower(self): return self._case(False)
    casefold = lower

    def capitalize(self):
        return self[:1].upper() + self[1:].lower() if len(self) else self

    def _one(self, c, upper):
        return cps_of(mkstr((c,))._case(upper)) if type(c) is not int else tuple(map(ord, chr(c).upper() if upper else chr(c).lower()))

    def title(self):
        out, before = [], False
        for c in self.cps:
            out.extend(self._one(c, not before))
            if not in_ranges(c, [(0, 127)]):
                raise Unsupported('title')
            before = bool(in_ranges(c, [(65, 90), (97, 122)]))
        return mkstr(out)

    def swapcase(self):
        out = []
        for c in self.cps:
            if not in_ranges(c, [(0, 127)]):
                raise Unsupported('swapcase')
            out.extend(self._one(c, not in_ranges(c, [(65, 90)])))
        return mkstr(out)

    def istitle(self):
        before = some = False
        for c in self.cps:
            if not in_ranges(c, [(0, 127)]):
                raise Unsupported('istitle')
            if in_ranges(c, [(65, 90)]):
                if before:
                    return False
                before = some = True
            elif in_ranges(c, [(97, 122)]):
                if not before:
                    return False
            else:
                before = False
        return some

    def _all(self, ranges):
        if not self.cps:
            return False
        return and_(*[in_ranges(c, ranges) for c in self.cps])

    def isdigit(self):
        return self._all(_cached_ranges('isdigit', str.isdigit))

    def isdecimal(self): return self._all(DIGIT_RANGES)
    def isnumeric(self): return self._all(_cached_ranges('isnumeric', str.isnumeric))
    def isspace(self): return self._all(WS_RANGES)
    def isalpha(self): return self._all(_cached_ranges('isalpha', str.isalpha))
    def isalnum(self): return self._all(_cached_ranges('isalnum', str.isalnum))
    def isascii(self): return and_(*[in_ranges(c, [(0, 127)]) for c in self.cps])

    def isprintable(self): return and_(True, *[in_ranges(c, _cached_ranges('isprintable', str.isprintable)) for c in self.cps])

    def isidentifier(self):
        if not self.cps:
            return False
        start = _cached_ranges('id', str.isidentifier)
        rest = _cached_ranges('id2', lambda c: ('a' + c).isidentifier())
        return and_(in_ranges(self.cps[0], start), *[in_ranges(c, rest) for c in self.cps[1:]])

    def _cased(self, good, bad):
        # some character of the one case and none of the other
        good, bad = _cached_ranges(good, getattr(str, good)), _cached_ranges(bad, lambda c: getattr(c, bad)() or c.istitle() and not getattr(c, good)())
        return and_(or_(*[in_ranges(c, good) for c in self.cps]), *[not_(in_ranges(c, bad)) for c in self.cps]) if self.cps else False

    def isupper(self):
        return self._cased('isupper', 'islower')

    def islower(self):
        return self._cased('islower', 'isupper')

    def expandtabs(self, n=8):
        if '\t' in self:
            raise Unsupported('expandtabs')
        return self

    def center(self, w, fill=' '):
        n = len(self.cps)
        if n >= w:
            return self
        left = (w - n) // 2 + ((w - n) & w & 1)
        return mkstr((ord(fill),) * left + self.cps + (ord(fill),) * (w - n - left))

    def zfill(self, w):
        n = len(self.cps)
        if n >= w:
            return self
        if n and or_(cp_eq(self.cps[0], 43), cp_eq(self.cps[0], 45)):
            return mkstr((self.cps[0],) + (48,) * (w - n) + self.cps[1:])
        return mkstr((48,) * (w - n) + self.cps)

    def ljust(self, w, fill=' '):
        return mkstr(self.cps + (ord(fill),) * max(0, w - len(self.cps)))

    def rjust(self, w, fill=' '):
        return mkstr((ord(fill),) * max(0, w - len(self.cps)) + self.cps)

    def encode(self, encoding='utf-8', errors='strict'):
        enc = _codec(encoding)
        if enc == 'utf-8':
            if self._cps is not None:
                for c in self._cps:
                    if type(c) is not int and in_ranges(c, [(0xD800, 0xDFFF)]):
                        raise Unsupported('encoding of surrogates')
            return SymBytes(self, enc)
        top = {'ascii': 127, 'latin-1': 255}.get(enc)
        if top is None:
            raise Unsupported('encoding ' + encoding)
        out, changed = [], False
        for i, c in enumerate(self.cps):
            if in_ranges(c, [(0, top)]):
                out.append(c)
            elif errors == 'strict':
                raise UnicodeEncodeError(enc, '\ufffd' * len(self.cps), i, i + 1, f'ordinal not in range({top + 1})')
            elif errors in ('replace', 'ignore'):
                changed = True
                out.extend([63] if errors == 'replace' else [])
            else:
                raise Unsupported('encoding errors=' + errors)
        s = mkstr(out) if changed else self
        return SymBytes(s, enc) if is_sym(s) else s.encode(enc)

    def translate(self, table):
        out = []
        for c in self.cps:
            if type(c) is int:
                r = table.get(c, c) if hasattr(table, 'get') else table[c]
                out.extend([] if r is None else [r] if type(r) is int else map(ord, r))
                continue
            done = False
            for k, r in table.items():
                if cp_eq(c, k):
                    out.extend([] if r is None else [r] if type(r) is int else cps_of(r))
                    done = True
                    break
            if not done:
                out.append(c)
        return mkstr(out)

    def __mod__(self, args):
        from . import rt
        return rt.mod(self, args)

    def format(self, *a, **k):
        raise Unsupported('str.format on symbolic template')


def _part_same(x, y):
    if x is y:
        return True
    if isinstance(x, IntPart) and isinstance(y, IntPart):
        return x.spec == y.spec and (x.v is y.v or is_sym(x.v) and is_sym(y.v) and x.v.e.eq(y.v.e))
    if isinstance(x, OpaquePart) and isinstance(y, OpaquePart):
        return x.v is y.v
    if is_sym(x) or is_sym(y):
        if isinstance(x, SymStr) and isinstance(y, SymStr) and x._cps is not None and y._cps is not None:
            return len(x._cps) == len(y._cps) and all(
                (a == b) if type(a) is int and type(b) is int else (type(a) is not int and type(b) is not int and a.eq(b))
                for a, b in zip(x._cps, y._cps))
        return False
    return type(x) is str and type(y) is str and x == y


def concat(parts):
    """Join str/SymStr/IntPart/OpaquePart lazily."""
    out = []
    for p in parts:
        if isinstance(p, SymStr) and p._cps is None:
            out.extend(p._parts)
        elif type(p) is str:
            if p:
                if out and type(out[-1]) is str:
                    out[-1] = out[-1] + p
                else:
                    out.append(p)
        elif isinstance(p, (SymStr, IntPart, OpaquePart, SymDec)):
            out.append(p)
        elif isinstance(p, str):      # str subclass (enum, Markup)
            out.append(str.__str__(p))
        else:
            raise Unsupported('concat of ' + type(p).__name__)
    if not out:
        return ''
    if len(out) == 1 and type(out[0]) is str:
        return out[0]
    if all(type(p) is str for p in out):
        return ''.join(out)
    if all(type(p) is str or (isinstance(p, SymStr) and p._cps is not None) for p in out):
        cps = []
        for p in out:
            cps.extend(cps_of(p))
        return mkstr(cps)
    return SymStr(parts=out)


def _codec(name):
    import codecs
    n = codecs.lookup(name).name
    return {'iso8859-1': 'latin-1', 'utf-8-sig': 'utf-8-sig'}.get(n, n)


class SymBytes(Sym):
    """encode() of a symbolic string (UTF-8, or Latin-1 and ASCII, where a character is a byte)."""
    __slots__ = ('s', 'enc')

    def __init__(self, s, enc='utf-8'):
        self.s, self.enc = s, enc

    @property
    def __class__(self):
        return bytes

    def decode(self, encoding='utf-8', errors='strict'):
        enc = _codec(encoding)
        if enc == self.enc or (enc == 'utf-8-sig' and self.enc == 'utf-8' and self.s._cps is None):
            return self.s
        if self.s._cps is None and all(type(p) is str and p.isascii() or isinstance(p, (IntPart, SymDec)) for p in self.s._parts):
            return self.s
        if self.s.isascii():
            return self.s
        if enc == 'ascii' and errors == 'strict':
            raise UnicodeDecodeError('ascii', b'\xc3', 0, 1, 'ordinal not in range(128)')
        if enc == 'latin-1' and self.enc == 'utf-8':
            return mkstr(self.bytes())
        if enc == 'utf-8-sig' and self.enc == 'utf-8':
            return self.s[1:] if cp_eq(self.s.cps[0], 0xFEFF) else self.s
        raise Unsupported(f'{self.enc} text decoded as {encoding}')

    def bytes(self):
        """the values of the bytes; the path forks on the length of every character"""
        out = []
        for c in self.s.cps:
            if self.enc != 'utf-8' or in_ranges(c, [(0, 0x7F)]):
                out.append(c)
            elif type(c) is int:
                out.extend(chr(c).encode())
            elif in_ranges(c, [(0x80, 0x7FF)]):
                out.extend([0xC0 + c / 64, 0x80 + c % 64])
            elif in_ranges(c, [(0x800, 0xFFFF)]):
                out.extend([0xE0 + c / 4096, 0x80 + (c / 64) % 64, 0x80 + c % 64])
            else:
                out.extend([0xF0 + c / 262144, 0x80 + (c / 4096) % 64, 0x80 + (c / 64) % 64, 0x80 + c % 64])
        return [c if type(c) is int else z3.simplify(c) for c in out]

    def __eq__(self, o):
        if isinstance(o, SymBytes):
            if o.enc != self.enc and not (self.s.isascii() and o.s.isascii()):
                raise Unsupported('bytes of different encodings compared')
            return self.s == o.s
        if isinstance(o, bytes):
            try:
                return self.s == o.decode(self.enc)
            except UnicodeDecodeError:
                return False
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def __hash__(self):
        ctx().symhash = True
        return 0x5EED

    def _same(self, o):
        """the text of another byte string, in this one's encoding"""
        if isinstance(o, SymBytes):
            if o.enc != self.enc and not o.s.isascii():
                raise Unsupported('bytes of different encodings joined')
            return o.s
        return o.decode(self.enc)

    def _bytes(self, s):
        return SymBytes(s, self.enc) if is_sym(s) else s.encode(self.enc)

    def _ascii(self):
        if not self.s.isascii():
            raise Unsupported('part of non-ASCII encoded symbolic bytes')

    def __len__(self):
        if self.enc != 'utf-8':
            return len(self.s)
        return len(self.bytes())

    def __bool__(self):
        return len(self.s) > 0

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i == slice(None):
                return self
            self._ascii()
            return self._bytes(self.s[i])
        b = self.bytes()[i]
        return b if type(b) is int else SymInt(b)

    def __iter__(self):
        return iter([b if type(b) is int else SymInt(b) for b in self.bytes()])

    def __add__(self, o):
        return SymBytes(self.s + self._same(o), self.enc)

    def __radd__(self, o):
        return SymBytes(self._same(o) + self.s, self.enc)

    def strip(self, *a):
        return self._bytes(self.s.strip(*[self._same(x) for x in a or (b' \t\n\r\x0b\f',)]))

    def lstrip(self, *a):
        return self._bytes(self.s.lstrip(*[self._same(x) for x in a or (b' \t\n\r\x0b\f',)]))

    def rstrip(self, *a):
        return self._bytes(self.s.rstrip(*[self._same(x) for x in a or (b' \t\n\r\x0b\f',)]))

    def lower(self):
        self._ascii()
        return self._bytes(self.s.lower())

    def upper(self):
        self._ascii()
        return self._bytes(self.s.upper())

    def split(self, *a):
        return [self._bytes(x) for x in self.s.split(*[x if type(x) is int or x is None else self._same(x) for x in a])]

    def partition(self, sep):
        return tuple(self._bytes(x) for x in self.s.partition(self._same(sep)))

    def rpartition(self, sep):
        return tuple(self._bytes(x) for x in self.s.rpartition(self._same(sep)))

    def startswith(self, p):
        return self.s.startswith(tuple(self._same(x) for x in p) if isinstance(p, tuple) else self._same(p))

    def endswith(self, p):
        return self.s.endswith(tuple(self._same(x) for x in p) if isinstance(p, tuple) else self._same(p))

    def find(self, p, *a):
        self._ascii()
        return self.s.find(self._same(p), *a)

    def replace(self, a, b):
        return self._bytes(self.s.replace(self._same(a), self._same(b)))

    def __contains__(self, o):
        return self._same(o) in self.s

    def __repr__(self):
        return '<SymBytes>'

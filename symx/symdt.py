"""Model of the `datetime` module over symbolic integers.

Same class names, constructors, validation, strftime subset (glibc conventions:
%Y is not zero padded), comparison and offset semantics as CPython's datetime.
Anything outside the subset is delegated to the real module when concrete and
raises Unsupported otherwise.
"""
import datetime as real

import z3

from . import engine
from .engine import Sym, SymInt, SymDec, Unsupported, and_, concat, IntPart, is_sym, mkbool, mkint, or_, not_, iexpr

MINYEAR, MAXYEAR = 1, 9999


def _isint(x):
    return isinstance(x, int)


def _conc(*xs):
    return not any(is_sym(x) for x in xs)


def _e(x):
    return iexpr(x)


def _between(x, lo, hi):
    return and_(x >= lo, x <= hi)


class timedelta:
    def __init__(self, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        args = (days, seconds, microseconds, milliseconds, minutes, hours, weeks)
        if all(_isint(a) for a in args):
            self._us = ((weeks * 7 + days) * 86400 + hours * 3600 + minutes * 60 + seconds) * 1000000 + milliseconds * 1000 + microseconds
        elif _conc(*args):
            r = real.timedelta(*args)
            self._us = r // real.timedelta(microseconds=1)
        else:
            raise Unsupported('timedelta of non-int symbolic')
        if not bool(_between(self._us, -999999999 * 86400000000, (999999999 + 1) * 86400000000 - 1)):
            raise OverflowError('days out of range')

    @classmethod
    def _mk(cls, us):
        o = cls.__new__(timedelta)
        o._us = us
        return o

    @property
    def days(self): return self._us // 86400000000
    @property
    def seconds(self): return (self._us // 1000000) % 86400
    @property
    def microseconds(self): return self._us % 1000000

    def total_seconds(self):
        if _conc(self._us):
            return self._us / 10**6
        if bool(self._us % 1000000 == 0):
            return SymDec(self._us // 1000000, 0, 'float')
        return SymDec(self._us, 6, 'float')

    def __neg__(self): return timedelta._mk(-self._us)
    def __pos__(self): return self

    def __abs__(self):
        return timedelta._mk(abs(self._us))

    def __add__(self, o):
        return timedelta._mk(self._us + o._us) if isinstance(o, timedelta) else NotImplemented

    def __sub__(self, o):
        return timedelta._mk(self._us - o._us) if isinstance(o, timedelta) else NotImplemented

    def __mul__(self, o):
        return timedelta._mk(self._us * o) if _isint(o) else NotImplemented
    __rmul__ = __mul__

    def __floordiv__(self, o):
        if isinstance(o, timedelta):
            return self._us // o._us
        return timedelta._mk(self._us // o) if _isint(o) else NotImplemented

    def __mod__(self, o):
        return timedelta._mk(self._us % o._us) if isinstance(o, timedelta) else NotImplemented

    def __divmod__(self, o):
        if isinstance(o, timedelta):
            q, r = divmod(self._us, o._us)
            return q, timedelta._mk(r)
        return NotImplemented

    def __truediv__(self, o):
        if isinstance(o, timedelta) and _conc(self._us, o._us):
            return self._us / o._us
        raise Unsupported('timedelta /')

    def _c(self, o, f):
        if not isinstance(o, timedelta):
            return NotImplemented
        return f(self._us, o._us)

    def __eq__(self, o): return self._c(o, lambda a, b: a == b)
    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)
    def __lt__(self, o): return self._c(o, lambda a, b: a < b)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b)
    def __bool__(self): return bool(self._us != 0)
    def __hash__(self): return 7

    def __repr__(self):
        return '<timedelta>' if is_sym(self._us) else repr(real.timedelta(microseconds=self._us))

    def __str__(self):
        if is_sym(self._us):
            raise Unsupported('str(timedelta)')
        return str(real.timedelta(microseconds=self._us))


timedelta.min = timedelta._mk(-999999999 * 86400000000)
timedelta.max = timedelta._mk(1000000000 * 86400000000 - 1)
timedelta.resolution = timedelta._mk(1)


class tzinfo:
    def tzname(self, dt): raise NotImplementedError('tzinfo subclass must override tzname()')
    def utcoffset(self, dt): raise NotImplementedError('tzinfo subclass must override utcoffset()')
    def dst(self, dt): raise NotImplementedError('tzinfo subclass must override dst()')


_OMIT = object()


class timezone(tzinfo):
    def __new__(cls, offset, name=_OMIT):
        if not isinstance(offset, timedelta):
            raise TypeError('offset must be a timedelta')
        if name is not _OMIT and not isinstance(name, str):
            raise TypeError('name must be a string')
        if not bool(and_(offset._us > -86400000000, offset._us < 86400000000)):
            raise ValueError('offset must be a timedelta strictly between -timedelta(hours=24) and timedelta(hours=24).')
        o = tzinfo.__new__(cls)
        o._offset = offset
        o._name = None if name is _OMIT else name
        return o

    def __eq__(self, o):
        return self._offset == o._offset if isinstance(o, timezone) else NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def __hash__(self): return 11

    def utcoffset(self, dt):
        if dt is None or isinstance(dt, datetime):
            return self._offset
        raise TypeError('utcoffset() argument must be a datetime instance or None')

    def dst(self, dt): return None

    def tzname(self, dt):
        if self._name is not None:
            return self._name
        us = self._offset._us
        if bool(us == 0):
            return 'UTC'
        neg = bool(us < 0)
        a = (-us if neg else us) // 60000000
        return concat(['UTC-' if neg else 'UTC+', *_ip(a // 60, 2), ':', *_ip(a % 60, 2)])

    def __repr__(self):
        return '<timezone>'

    def __str__(self):
        return self.tzname(None)

    def fromutc(self, dt):
        return dt + self._offset


timezone.utc = timezone(timedelta(0))
UTC = timezone.utc
timezone.min = timezone(-timedelta(hours=23, minutes=59))
timezone.max = timezone(timedelta(hours=23, minutes=59))


def _ip(v, w):
    return [IntPart(v, '0%d' % w)] if is_sym(v) else ['%0*d' % (w, v)]


def _dim(y, m):
    """days in month as int / SymInt"""
    if _conc(y, m):
        import calendar
        return calendar.monthrange(y, m)[1]
    y, m = _e(y), _e(m)
    leap = z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0))
    return mkint(z3.If(m == 2, z3.If(leap, z3.IntVal(29), z3.IntVal(28)),
                       z3.If(z3.Or(m == 4, m == 6, m == 9, m == 11), z3.IntVal(30), z3.IntVal(31))))


def _check_date(y, m, d):
    for v in (y, m, d):
        if not _isint(v):
            raise TypeError(f"'{type(v).__name__}' object cannot be interpreted as an integer")
    if not bool(_between(y, MINYEAR, MAXYEAR)):
        raise ValueError('year is out of range')
    if not bool(_between(m, 1, 12)):
        raise ValueError('month must be in 1..12')
    if not bool(_between(d, 1, _dim(y, m))):
        raise ValueError('day is out of range for month')


def _check_time(h, mi, s, us):
    for v in (h, mi, s, us):
        if not _isint(v):
            raise TypeError(f"'{type(v).__name__}' object cannot be interpreted as an integer")
    if not bool(_between(h, 0, 23)):
        raise ValueError('hour must be in 0..23')
    if not bool(_between(mi, 0, 59)):
        raise ValueError('minute must be in 0..59')
    if not bool(_between(s, 0, 59)):
        raise ValueError('second must be in 0..59')
    if not bool(_between(us, 0, 999999)):
        raise ValueError('microsecond must be in 0..999999')


def _check_tz(tz):
    if tz is not None and not isinstance(tz, tzinfo):
        raise TypeError('tzinfo argument must be None or of a tzinfo subclass')


def _ordinal(y, m, d):
    if _conc(y, m, d):
        return real.date(y, m, d).toordinal()
    y, m, d = _e(y), _e(m), _e(d)
    y1 = y - 1
    leap = z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0))
    cum = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
    e = z3.IntVal(334)
    for i in range(10, -1, -1):
        e = z3.If(m == i + 1, z3.IntVal(cum[i]), e)
    e = e + z3.If(z3.And(m > 2, leap), z3.IntVal(1), z3.IntVal(0))
    return mkint(y1 * 365 + y1 / 4 - y1 / 100 + y1 / 400 + e + d)


def _offstr(off, sep=':'):
    if off is None:
        return []
    us = off._us
    neg = bool(us < 0)
    a = -us if neg else us
    mins, rest = a // 60000000, a % 60000000
    out = ['-' if neg else '+', *_ip(mins // 60, 2), sep, *_ip(mins % 60, 2)]
    if not bool(rest == 0):
        out += [sep, *_ip(rest // 1000000, 2)]
        if not bool(rest % 1000000 == 0):
            out += ['.', *_ip(rest % 1000000, 6)]
    return out


def _strftime(fmt, y, m, d, h=0, mi=0, s=0, us=0, owner=None):
    if engine.is_sym(fmt):
        fmt = fmt.force()
        if is_sym(fmt):
            raise Unsupported('symbolic strftime format')
    out, i = [], 0
    while i < len(fmt):
        c = fmt[i]
        if c != '%':
            out.append(c)
            i += 1
            continue
        i += 1
        k = fmt[i] if i < len(fmt) else ''
        i += 1
        if k == 'Y':
            out.append(IntPart(y, '') if is_sym(y) else str(y))
        elif k == 'm':
            out += _ip(m, 2)
        elif k == 'd':
            out += _ip(d, 2)
        elif k == 'H':
            out += _ip(h, 2)
        elif k == 'M':
            out += _ip(mi, 2)
        elif k == 'S':
            out += _ip(s, 2)
        elif k == 'f':
            out += _ip(us, 6)
        elif k == 'F':
            out += [IntPart(y, '') if is_sym(y) else str(y), '-', *_ip(m, 2), '-', *_ip(d, 2)]
        elif k == 'T':
            out += [*_ip(h, 2), ':', *_ip(mi, 2), ':', *_ip(s, 2)]
        elif k == 'R':
            out += [*_ip(h, 2), ':', *_ip(mi, 2)]
        elif k == 'I':
            out += _ip((h + 11) % 12 + 1, 2)
        elif k == 'p':
            out.append('AM' if h < 12 else 'PM')
        elif k == 'y':
            out += _ip(y % 100, 2)
        elif k == 'z':
            out += _offstr(owner.utcoffset() if owner is not None and hasattr(owner, 'utcoffset') else None, '')
        elif k == '%':
            out.append('%')
        else:
            if _conc(y, m, d, h, mi, s, us):
                out.append(real.datetime(y, m, d, h, mi, s, us).strftime('%' + k))
            else:
                raise Unsupported('strftime %' + k)
    return concat(out)


_DAY = 86400000000


def _shift(f, days):
    """the date some days later, at most one where something is symbolic"""
    if _conc(*f, days):
        try:
            r = real.date.fromordinal(real.date(*f).toordinal() + days)
        except ValueError:
            raise OverflowError('date value out of range') from None
        return r.year, r.month, r.day
    y, m, d = f
    if bool(days == 0):
        return f
    if bool(days == 1):
        if bool(d < _days(y, m)):
            return y, m, d + 1
        if bool(m < 12):
            return y, m + 1, 1
        if bool(y == 9999):
            raise OverflowError('date value out of range')
        return y + 1, 1, 1
    if bool(days == -1):
        if bool(d > 1):
            return y, m, d - 1
        if bool(m > 1):
            return y, m - 1, _days(y, m - 1)
        if bool(y == 1):
            raise OverflowError('date value out of range')
        return y - 1, 12, 31
    raise Unsupported('date some days away')


def _days(y, m):
    if bool(or_(*[m == k for k in (1, 3, 5, 7, 8, 10, 12)])):
        return 31
    if bool(m == 2):
        return 29 if bool(or_(and_(y % 4 == 0, y % 100 != 0), y % 400 == 0)) else 28
    return 30


class date:
    def __new__(cls, year, month=None, day=None):
        _check_date(year, month, day)
        o = object.__new__(cls)
        o._f = (year, month, day)
        return o

    @classmethod
    def _real(cls, r):
        return date(r.year, r.month, r.day)

    @classmethod
    def today(cls): return cls._real(real.date.today())

    @classmethod
    def fromisoformat(cls, s):
        if is_sym(s):
            try:
                return date(*_iso_date(s))
            except ValueError:
                raise ValueError('Invalid isoformat string') from None
        return cls._real(real.date.fromisoformat(s))

    @classmethod
    def fromordinal(cls, n):
        if is_sym(n):
            raise Unsupported('fromordinal')
        return cls._real(real.date.fromordinal(n))

    @property
    def year(self): return self._f[0]
    @property
    def month(self): return self._f[1]
    @property
    def day(self): return self._f[2]

    def replace(self, year=None, month=None, day=None):
        p = lambda a, b: b if a is None else a
        return date(p(year, self.year), p(month, self.month), p(day, self.day))

    def toordinal(self): return _ordinal(*self._f[:3])
    def weekday(self): return (self.toordinal() + 6) % 7
    def isoweekday(self): return self.weekday() + 1

    def isoformat(self):
        y, m, d = self._f
        return concat([*_ip(y, 4), '-', *_ip(m, 2), '-', *_ip(d, 2)])

    __str__ = isoformat

    def strftime(self, fmt): return _strftime(fmt, *self._f, owner=self)

    def __format__(self, spec):
        return self.strftime(spec) if spec else self.isoformat()

    def timetuple(self):
        raise Unsupported('timetuple')

    def _plain(self, o):
        return isinstance(o, date) and not isinstance(o, datetime)

    def __eq__(self, o):
        if self._plain(o):
            return and_(*[a == b for a, b in zip(self._f, o._f)])
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def __lt__(self, o):
        return self.toordinal() < o.toordinal() if self._plain(o) else NotImplemented
    def __le__(self, o):
        return self.toordinal() <= o.toordinal() if self._plain(o) else NotImplemented
    def __gt__(self, o):
        return self.toordinal() > o.toordinal() if self._plain(o) else NotImplemented
    def __ge__(self, o):
        return self.toordinal() >= o.toordinal() if self._plain(o) else NotImplemented

    def __sub__(self, o):
        if self._plain(o):
            return timedelta(days=self.toordinal() - o.toordinal())
        return self + (-o) if isinstance(o, timedelta) else NotImplemented

    def __add__(self, o):
        return date(*_shift(self._f, o.days)) if isinstance(o, timedelta) else NotImplemented
    __radd__ = __add__

    def __hash__(self): return 13

    def __repr__(self):
        return concat(['datetime.date(', *[p for v in self._f for p in (IntPart(v, '') if is_sym(v) else str(v), ', ')], ')'])


date.min = date(1, 1, 1)
date.max = date(9999, 12, 31)


class time:
    def __new__(cls, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, *, fold=0):
        _check_time(hour, minute, second, microsecond)
        _check_tz(tzinfo)
        o = object.__new__(cls)
        o._t = (hour, minute, second, microsecond)
        o._tz = tzinfo
        o._fold = fold
        return o

    hour = property(lambda s: s._t[0])
    minute = property(lambda s: s._t[1])
    second = property(lambda s: s._t[2])
    microsecond = property(lambda s: s._t[3])
    tzinfo = property(lambda s: s._tz)
    fold = property(lambda s: s._fold)

    @classmethod
    def fromisoformat(cls, s):
        return _iso_time(s)

    def utcoffset(self):
        return None if self._tz is None else self._tz.utcoffset(None)

    def tzname(self):
        return None if self._tz is None else self._tz.tzname(None)

    def dst(self):
        return None if self._tz is None else self._tz.dst(None)

    def replace(self, hour=None, minute=None, second=None, microsecond=None, tzinfo=True, *, fold=None):
        p = lambda a, b: b if a is None else a
        return time(p(hour, self.hour), p(minute, self.minute), p(second, self.second), p(microsecond, self.microsecond),
                    self._tz if tzinfo is True else tzinfo, fold=p(fold, self._fold))

    def isoformat(self, timespec='auto'):
        return concat(_timeparts(self._t, timespec) + _offstr(self.utcoffset()))

    def __str__(self): return self.isoformat()

    def __format__(self, spec):
        return self.strftime(spec) if spec else self.isoformat()

    def strftime(self, fmt): return _strftime(fmt, 1900, 1, 1, *self._t, owner=self)

    def _abs(self):
        h, m, s, us = self._t
        return ((h * 60 + m) * 60 + s) * 1000000 + us

    def __eq__(self, o):
        if not isinstance(o, time):
            return NotImplemented
        a, b = self.utcoffset(), o.utcoffset()
        if (a is None) != (b is None):
            return False
        x, y = self._abs(), o._abs()
        if a is not None:
            x, y = x - a._us, y - b._us
        return x == y

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def __lt__(self, o):
        if not isinstance(o, time):
            return NotImplemented
        return self._abs() < o._abs()

    def __bool__(self): return True
    def __hash__(self): return 17
    def __repr__(self): return '<time>'


time.min, time.max = time(0, 0), time(23, 59, 59, 999999)


def _timeparts(t, timespec):
    h, m, s, us = t
    out = [*_ip(h, 2), ':', *_ip(m, 2)]
    if timespec == 'hours':
        return [*_ip(h, 2)]
    if timespec == 'minutes':
        return out
    out += [':', *_ip(s, 2)]
    if timespec == 'auto':
        timespec = 'seconds' if bool(us == 0) else 'microseconds'
    if timespec == 'milliseconds':
        out += ['.', *_ip(us // 1000, 3)]
    elif timespec == 'microseconds':
        out += ['.', *_ip(us, 6)]
    elif timespec != 'seconds':
        raise ValueError('Unknown timespec value')
    return out


class datetime(date):
    def __new__(cls, year, month=None, day=None, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, *, fold=0):
        _check_date(year, month, day)
        _check_time(hour, minute, second, microsecond)
        _check_tz(tzinfo)
        o = object.__new__(cls)
        o._f = (year, month, day)
        o._t = (hour, minute, second, microsecond)
        o._tz = tzinfo
        o._fold = fold
        return o

    hour = property(lambda s: s._t[0])
    minute = property(lambda s: s._t[1])
    second = property(lambda s: s._t[2])
    microsecond = property(lambda s: s._t[3])
    tzinfo = property(lambda s: s._tz)
    fold = property(lambda s: s._fold)

    @classmethod
    def _realdt(cls, r, tz=None):
        return datetime(r.year, r.month, r.day, r.hour, r.minute, r.second, r.microsecond, tz)

    @classmethod
    def now(cls, tz=None):
        return cls._realdt(real.datetime.now(real.timezone.utc), tz)

    @classmethod
    def utcnow(cls): return cls._realdt(real.datetime.now(real.timezone.utc))
    @classmethod
    def today(cls): return cls._realdt(real.datetime.now())

    @classmethod
    def combine(cls, d, t, tzinfo=True):
        return datetime(d.year, d.month, d.day, t.hour, t.minute, t.second, t.microsecond, t.tzinfo if tzinfo is True else tzinfo)

    @classmethod
    def strptime(cls, *a): raise Unsupported('strptime')
    @classmethod
    def fromisoformat(cls, s): return _iso_datetime(s)
    @classmethod
    def fromtimestamp(cls, *a): raise Unsupported('fromtimestamp')

    def date(self): return date(*self._f)
    def time(self): return time(*self._t, fold=self._fold)
    def timetz(self): return time(*self._t, tzinfo=self._tz, fold=self._fold)

    def utcoffset(self):
        return None if self._tz is None else self._tz.utcoffset(self)

    def tzname(self):
        return None if self._tz is None else self._tz.tzname(self)

    def dst(self):
        return None if self._tz is None else self._tz.dst(self)

    def replace(self, year=None, month=None, day=None, hour=None, minute=None, second=None, microsecond=None, tzinfo=True, *, fold=None):
        p = lambda a, b: b if a is None else a
        return datetime(p(year, self.year), p(month, self.month), p(day, self.day), p(hour, self.hour), p(minute, self.minute),
                        p(second, self.second), p(microsecond, self.microsecond), self._tz if tzinfo is True else tzinfo, fold=p(fold, self._fold))

    def astimezone(self, tz=None):
        if tz is not None and self._tz is not None and tz is self._tz:
            return self
        if tz is not None and self.utcoffset() is not None and bool(self.utcoffset()._us == 0) and bool(tz.utcoffset(None)._us == 0):
            return self.replace(tzinfo=tz)
        if tz is None or self._tz is None:
            raise Unsupported('astimezone')
        return (self - self.utcoffset() + tz.utcoffset(None)).replace(tzinfo=tz)

    def timestamp(self): raise Unsupported('timestamp')

    def isoformat(self, sep='T', timespec='auto'):
        y, m, d = self._f
        return concat([*_ip(y, 4), '-', *_ip(m, 2), '-', *_ip(d, 2), sep] + _timeparts(self._t, timespec) + _offstr(self.utcoffset()))

    def __str__(self): return self.isoformat(' ')

    def strftime(self, fmt): return _strftime(fmt, *self._f, *self._t, owner=self)

    def __format__(self, spec):
        return self.strftime(spec) if spec else str(self)

    def _inst(self, off):
        h, m, s, us = self._t
        v = ((self.toordinal() * 24 + h) * 60 + m) * 60 + s
        return v * 1000000 + us - (off._us if off is not None else 0)

    def __eq__(self, o):
        if not isinstance(o, datetime):
            return NotImplemented
        a, b = self.utcoffset(), o.utcoffset()
        if (a is None) != (b is None):
            return False
        fields = and_(*[x == y for x, y in zip(self._f + self._t, o._f + o._t)])
        if a is None or a is b or self._tz is o._tz:
            return fields
        return self._inst(a) == o._inst(b)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def _cmp(self, o, f):
        if not isinstance(o, datetime):
            return NotImplemented
        a, b = self.utcoffset(), o.utcoffset()
        if (a is None) != (b is None):
            raise TypeError("can't compare offset-naive and offset-aware datetimes")
        return f(self._inst(a), o._inst(b))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __sub__(self, o):
        if isinstance(o, datetime):
            return timedelta(microseconds=self._inst(self.utcoffset()) - o._inst(o.utcoffset()))
        return self + (-o)

    def __add__(self, o):
        if isinstance(o, timedelta):
            if _conc(*self._f, *self._t, o._us):
                return datetime._realdt(real.datetime(*self._f, *self._t) + real.timedelta(microseconds=o._us), self._tz)
            if bool(o._us == 0):
                return self
            h, m, s, us = self._t
            total = ((h * 60 + m) * 60 + s) * 1000000 + us + o._us
            f = _shift(self._f, total // _DAY)
            rest = total % _DAY
            return datetime(*f, rest // 3600000000, rest // 60000000 % 60, rest // 1000000 % 60, rest % 1000000, self._tz)
        return NotImplemented
    __radd__ = __add__

    def __hash__(self): return 19
    def __repr__(self): return '<datetime>'


datetime.min, datetime.max = datetime(1, 1, 1), datetime(9999, 12, 31, 23, 59, 59, 999999)


# ------------------------------------------------------------------ fromisoformat (CPython 3.12)

def _num(s, n=None):
    """the number of n ASCII digits"""
    if n is not None and len(s) != n or len(s) == 0:
        raise ValueError('digits expected')
    v = 0
    for i in range(len(s)):
        c = s[i]
        if not bool(and_(c >= '0', c <= '9')) if is_sym(c) else c not in '0123456789':
            raise ValueError('digit expected')
        v = v * 10 + (mkint(c.cps[0] - 48) if is_sym(c) else int(c))
    return v


def _iso_date(s):
    if len(s) not in (7, 8, 10):
        raise ValueError('length')
    y = _num(s[:4], 4)
    sep = bool(s[4] == '-')
    pos = 4 + sep
    if bool(s[pos:pos + 1] == 'W'):
        if is_sym(s):
            raise Unsupported('fromisoformat of a week')
        r = real.date.fromisoformat(s)
        return r.year, r.month, r.day
    m = _num(s[pos:pos + 2], 2)
    pos += 2
    if bool(s[pos:pos + 1] == '-') != sep:
        raise ValueError('Inconsistent use of dash separator')
    return y, m, _num(s[pos + sep:], 2)


def _at(s, i):
    return s[i] if i < len(s) else '\0'


def _iso_clock(s, p, end):
    """parse_hh_mm_ss_ff of _datetimemodule.c: the parts, and whether something follows"""
    out, sep = [0, 0, 0, 0], True
    for i in range(3):
        out[i] = _num(s[p:p + 2], 2)
        p += 2
        c = _at(s, p)
        p += 1
        if i == 0:
            sep = bool(c == ':')
        if p >= end:
            return out, bool(c != '\0')
        if sep and bool(c == ':'):
            continue
        if bool(c == '.') or bool(c == ','):
            break
        if sep:
            raise ValueError('Malformed time separator')
        p -= 1
    n = min(6, end - p)
    if n > 0:
        out[3] = _num(s[p:p + n], n) * 10 ** (6 - n)
    p += n
    while bool(_at(s, p) >= '0') and bool(_at(s, p) <= '9'):
        p += 1
    return out, bool(_at(s, p) != '\0')


def _iso_time_parts(s):
    n = len(s)
    at = next((i for i in range(n) if bool(s[i] == '-') or bool(s[i] == '+') or bool(s[i] == 'Z')), n)
    parts, more = _iso_clock(s, 0, at)
    if at == n:
        if more:
            raise ValueError('more')
        return parts + [None]
    if bool(s[at] == 'Z'):
        if at + 1 != n:
            raise ValueError('Malformed time zone string')
        return parts + [timezone.utc]
    (h, m, x, us), more = _iso_clock(s, at + 1, n)
    if more:
        raise ValueError('more')
    total = ((h * 60 + m) * 60 + x) * 1000000 + us
    if bool(total == 0):
        return parts + [timezone.utc]
    return parts + [timezone(timedelta(microseconds=-total if bool(s[at] == '-') else total))]


def _iso_time(s):
    if not isinstance(s, str):
        raise TypeError('fromisoformat: argument must be str')
    if not is_sym(s):
        return _of_real_time(real.time.fromisoformat(s))
    try:
        return time(*_iso_time_parts(s[1:] if len(s) and bool(s[0] == 'T') else s))
    except ValueError:
        raise ValueError('Invalid isoformat string') from None


def _of_real_time(r):
    off = r.utcoffset()
    return time(r.hour, r.minute, r.second, r.microsecond, None if off is None else _of_real_zone(off))


def _of_real_zone(off):
    us = off // real.timedelta(microseconds=1)
    return timezone.utc if us == 0 else timezone(timedelta(microseconds=us))


def _iso_datetime(s):
    if not isinstance(s, str):
        raise TypeError('fromisoformat: argument must be str')
    if not is_sym(s):
        r = real.datetime.fromisoformat(s)
        off = r.utcoffset()
        return datetime._realdt(r, None if off is None else _of_real_zone(off))
    n = len(s)
    if n < 7:
        raise ValueError('Invalid isoformat string')
    if bool(s[4] == 'W') or bool(s[4] == '-') and bool(s[5] == 'W'):
        raise Unsupported('fromisoformat of a week')
    at = min(n, 10 if bool(s[4] == '-') else 8)
    try:
        rest = s[at + 1:]
        return datetime(*_iso_date(s[:at]), *(_iso_time_parts(rest) if len(rest) else []))
    except ValueError:
        raise ValueError('Invalid isoformat string') from None

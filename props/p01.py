"""Every accepted simple value written to XML reads back equal."""
import datetime
import decimal

import sx
from soapfish import xsd
from soapfish.xsd_types import XSDDate

BOUNDS = ('strings of 0..5 symbolic XML characters (U+0009..U+07FF); all integers within each integer type (unbounded types: |v| < 10**22); '
          'floats and decimals of at most 12 digits and scale <= 3, and selected floats at the limits of the format; every calendar date/time of years 1..9999 to the microsecond; every whole-minute '
          'UTC offset in (-24h, 24h), as fixed or value-dependent tzinfo')
OUTSIDE = 'longer strings, characters above U+07FF, numbers beyond 15 significant digits, sub-minute offsets'


def doc(_type, attr=False):
    class Holder(xsd.ComplexType):
        f = xsd.Attribute(_type) if attr else xsd.Element(_type)
    return Holder


def through(_type, value, attr=False):
    H = doc(_type, attr)
    h = H(f=value)
    return h.f, H.parsexml(h.xml('h')).f


@sx.case(params=[{'cls': c} for c in ('String', 'AnyURI', 'QName', 'NMTOKEN', 'NMTOKENS', 'Base64Binary', 'Duration')], reach=['text'])
def string_value(cls):
    n = 5 if cls == 'String' else 2
    s = sx.str('s', 0, n)
    t = getattr(xsd, cls)
    a, b = through(t, s)
    sx.check(a == s, 'accepted string is kept unchanged')
    if len(s) == 0:
        sx.check(sx.or_(b is None, b == ''), 'empty string reads back empty')
    else:
        sx.reach('text')
        sx.check(b == s, 'string element round trip')
    a, b = through(t, s, attr=True)
    sx.check(b == s, 'string attribute round trip')
    sx.observe('b', b)


@sx.case(params=[{'cls': c} for c in ('String',)])
def string_bad(cls):
    v = sx.choice('v', [1, 1.5, True, b'x', ['a'], object()])
    r = sx.outcome(getattr(xsd, cls)().accept, v)
    sx.check(r.raised(ValueError), 'non-string value is rejected')


@sx.case()
def boolean_value():
    v = sx.bool('v')
    for attr in (False, True):
        a, b = through(xsd.Boolean, v, attr)
        sx.check(a == v, 'boolean kept')
        sx.check(sx.and_(b == v, sx.truth(b is True or b is False)), 'boolean round trip')
        sx.observe('b', b)


INTS = {'Integer': (None, None), 'NonNegativeInteger': (0, None), 'NonPositiveInteger': (None, 0), 'NegativeInteger': (None, -1),
        'PositiveInteger': (1, None), 'Long': (-2 ** 63, 2 ** 63 - 1), 'Int': (-2 ** 31, 2 ** 31 - 1), 'Short': (-2 ** 15, 2 ** 15 - 1),
        'Byte': (-128, 127), 'UnsignedLong': (0, 2 ** 64 - 1), 'UnsignedInt': (0, 2 ** 32 - 1), 'UnsignedShort': (0, 2 ** 16 - 1),
        'UnsignedByte': (0, 255)}


@sx.case(params=[{'cls': c} for c in INTS], reach=['in', 'text'])
def integer_value(cls):
    lo, hi = INTS[cls]
    wide = 10 ** 22 - 1
    v = sx.int('v', (lo if lo is not None else -wide), (hi if hi is not None else wide))
    t = getattr(xsd, cls)
    as_text = sx.flag('as_text')
    r = sx.outcome(lambda: through(t, str(v) if as_text else v))
    sx.check(r.ok, 'every integer of the value space is accepted, as number and as text')
    a, b = r.value
    sx.check(a == v, 'stored number equals the value')
    sx.check(b == v, 'integer round trip')
    sx.check(sx.truth(type(b) is int), 'parsed back as an integer')
    sx.reach('text' if as_text else 'in')
    sx.observe('b', b)


@sx.case(params=[{'cls': c, 'how': h} for c in ('Decimal', 'Double', 'Float') for h in ('float', 'Decimal', 'int', 'text')])
def decimal_value(cls, how):
    t = getattr(xsd, cls)
    scale = sx.choice('scale', [0, 1, 2, 3])
    if how == 'float':
        v = sx.float('v', 12, scale)
    elif how == 'Decimal':
        v = sx.decimal('v', 9, scale)
    elif how == 'int':
        v = sx.int('v', -10 ** 14, 10 ** 14)
    else:
        v = sx.decimal('v', 7, scale)
    a, b = through(t, str(v) if how == 'text' else v)
    num = decimal.Decimal(a) if isinstance(a, str) else a
    want = float(v) if how in ('text', 'Decimal') else v
    sx.check(sx.or_(num == v, num == want), 'stored number equals the value')
    sx.check(b == want, 'decimal round trip')
    sx.observe('b', b)


@sx.case(params=[{'cls': c, 'attr': a} for c in ('Decimal', 'Double', 'Float') for a in (False, True)], reach=['huge', 'digits'])
def extreme_floats(cls, attr):
    """floats whose shortest text has 16 or 17 digits or an exponent"""
    v = sx.choice('v', [0.1 + 0.2, 1 / 3, 2.0 ** 53 + 2, 123456789.12345679, 1.0000000000000002, 5e-324, 1.7976931348623157e308, 1e16, 1e22, 1.5e-7, 123456789012345680.0, 0.0001, 1e-5,
                        9007199254740993.0]) * sx.choice('sign', [1, -1])
    a, b = through(getattr(xsd, cls), v, attr)
    sx.check(sx.truth(a == v and b == v and type(b) is float), 'float round trip')
    text = getattr(xsd, cls)().xmlvalue(a)
    if cls == 'Decimal':
        sx.check(sx.truth('e' not in text and 'E' not in text), 'no exponent in a decimal')
    sx.reach('huge' if abs(v) > 1e15 else 'digits')


@sx.case(params=[{'cls': c} for c in ('Double', 'Float', 'Decimal')])
def special_floats(cls):
    v = sx.choice('v', [float('inf'), float('-inf'), float('nan'), decimal.Decimal('Infinity'), decimal.Decimal('-Infinity')])
    r = sx.outcome(lambda: through(getattr(xsd, cls), v))
    if cls == 'Decimal':
        sx.check(r.raised(ValueError), 'no decimal')
        return
    sx.check(sx.truth(r.ok), 'a value of the type')
    b = r.value[1]
    sx.check(sx.truth(b == float(v) or b != b and float(v) != float(v)), 'round trip')
    sx.check(sx.truth(getattr(xsd, cls)().xmlvalue(r.value[0]) in ('INF', '-INF', 'NaN')), 'names of XSD')


@sx.case(params=[{'cls': c} for c in ('Decimal', 'Double')])
def exponent_decimals(cls):
    m, e = sx.choice('m', [1, -15, 123456789012]), sx.choice('e', [-30, -7, -1, 0, 1, 5, 17])
    v = decimal.Decimal(m).scaleb(e)
    a, b = through(getattr(xsd, cls), v)
    text = getattr(xsd, cls)().xmlvalue(a)
    sx.check(sx.truth(decimal.Decimal(text) == v), 'text of the value')
    if cls == 'Decimal':
        sx.check(sx.truth('E' not in text.upper()), 'no exponent in a decimal')
    sx.check(sx.truth(b == float(v)), 'reads back')


def offset_minutes(name='off'):
    return sx.int(name, -1439, 1439)


class DependentTz(datetime.tzinfo):
    """offset known only for a given moment (like pytz / zoneinfo zones)"""

    def __init__(self, minutes):
        self.minutes = minutes

    def utcoffset(self, dt):
        return None if dt is None else datetime.timedelta(minutes=self.minutes)

    def dst(self, dt):
        return None

    def tzname(self, dt):
        return 'dep'


def tz(kind, minutes):
    if kind == 'none':
        return None
    if kind == 'utc':
        return datetime.timezone.utc
    if kind == 'dependent':
        return DependentTz(minutes)
    return datetime.timezone(datetime.timedelta(minutes=minutes))


def microseconds():
    return sx.int('us', 0, 999999)


def symdate():
    y, m, d = sx.int('y', 1, 9999), sx.int('m', 1, 12), sx.int('d', 1, 31)
    r = sx.outcome(datetime.date, y, m, d)
    sx.assume(r.ok)
    return r.value


@sx.case(params=[{'kind': k} for k in ('none', 'utc', 'fixed', 'date')], reach=['ok'])
def date_value(kind):
    d = symdate()
    off = offset_minutes() if kind == 'fixed' else 0
    v = d if kind == 'date' else XSDDate(d.year, d.month, d.day, tzinfo=tz(kind, off))
    a, b = through(xsd.Date, v)
    sx.check(sx.and_(a.year == d.year, a.month == d.month, a.day == d.day), 'accepted date is kept')
    sx.check(sx.and_(b.year == d.year, b.month == d.month, b.day == d.day), 'date round trip')
    if kind in ('none', 'date'):
        sx.check(b.tzinfo is None, 'date without zone stays without zone')
    else:
        sx.check(b.tzinfo is not None, 'zone kept')
        sx.check(b.tzinfo.utcoffset(None) == datetime.timedelta(minutes=off), 'zone offset round trip')
    sx.reach('ok')
    sx.observe('x', xsd.Date().xmlvalue(a))


@sx.case(params=[{'kind': k} for k in ('none', 'utc', 'fixed', 'dependent')], reach=['ok'])
def datetime_value(kind):
    d = symdate()
    off = offset_minutes() if kind in ('fixed', 'dependent') else 0
    h, mi, s = sx.int('h', 0, 23), sx.int('mi', 0, 59), sx.int('s', 0, 59)
    us = microseconds()
    v = datetime.datetime(d.year, d.month, d.day, h, mi, s, us, tzinfo=tz(kind, off))
    a, b = through(xsd.DateTime, v)
    sx.check(a is v, 'accepted moment is kept')
    sx.check(sx.and_(b.year == d.year, b.month == d.month, b.day == d.day), 'date of a moment round trip')
    sx.check(sx.and_(b.hour == h, b.minute == mi, b.second == s, b.microsecond == us), 'clock time of a moment round trip')
    if kind != 'none':
        sx.check(b.tzinfo is not None, 'zone kept')
        sx.check(b.utcoffset() == datetime.timedelta(minutes=off), 'zone offset round trip')
    sx.reach('ok')
    sx.observe('x', xsd.DateTime().xmlvalue(a))


@sx.case(params=[{'kind': k} for k in ('none', 'utc', 'fixed')], reach=['ok'])
def time_value(kind):
    off = offset_minutes() if kind == 'fixed' else 0
    h, mi, s = sx.int('h', 0, 23), sx.int('mi', 0, 59), sx.int('s', 0, 59)
    us = microseconds()
    v = datetime.time(h, mi, s, us, tzinfo=tz(kind, off))
    a, b = through(xsd.Time, v)
    sx.check(a is v, 'accepted time is kept')
    sx.check(sx.and_(b.hour == h, b.minute == mi, b.second == s, b.microsecond == us), 'time round trip')
    if kind != 'none':
        sx.check(b.tzinfo is not None, 'zone kept')
        sx.check(b.utcoffset() == datetime.timedelta(minutes=off), 'zone offset round trip')
    sx.reach('ok')
    sx.observe('x', xsd.Time().xmlvalue(a))

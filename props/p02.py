"""Legal XML Schema text is read as the value it denotes; other text is rejected."""
import datetime

import sx
from soapfish import xsd

BOUNDS = ('booleans: every text of 1..5 characters over the letters of true/false/nil and the digits 0/1, and each word with 0..2 white space characters before and after; integers and decimals: every text '
          'of 0..5 characters over digits, sign, point and two letters, all integers |v| <= 10**21 in four layouts against the range of each type; dates, moments and times: every digit string in every legal layout '
          '(4 or 5 digit years, no zone, Z, +hh:mm, +hhmm, +hh; 1..6 digit fractions) and every such text with one arbitrary character changed, inserted or removed')
OUTSIDE = 'longer numbers; exponents other than listed ones; end-of-day 24:00:00; white space around values; texts with two or more defects; offsets with more than 59 minutes and the short forms of ISO 8601, which iso8601 reads'


def read(_type, text, attr=False):
    class Holder(xsd.ComplexType):
        f = xsd.Attribute(_type) if attr else xsd.Element(_type)
    doc = '<h f="' + text + '"/>' if attr else '<h><f>' + text + '</f></h>'
    return sx.outcome(lambda: Holder.parsexml(doc).f)


@sx.case(params=[{'attr': a} for a in (False, True)], reach=['true', 'false', 'bad'])
def boolean_text(attr):
    s = sx.str('s', 1, 5, 'truefalsni01')
    r = read(xsd.Boolean, s, attr)
    if s in ('true', '1'):
        sx.check(r.ok and r.value is True, 'true and 1 are true')
        sx.reach('true')
    elif s in ('false', '0'):
        sx.check(r.ok and r.value is False, 'false and 0 are false')
        sx.reach('false')
    elif s == 'nil':
        sx.check(r.ok and r.value is None, 'nil is no value')
    else:
        sx.check(r.raised(ValueError), 'other text is no boolean')
        sx.reach('bad')
    sx.observe('v', r.value)


def ref_int(s):
    body = s[1:] if s[:1] in ('+', '-') else s
    if len(body) == 0:
        return None
    n = 0
    for c in body:
        if not ('0' <= c <= '9'):
            return None
        n = n * 10 + (ord(c) - 48)
    return -n if s[0] == '-' else n


RANGES = {'Integer': (None, None), 'NonNegativeInteger': (0, None), 'NonPositiveInteger': (None, 0), 'NegativeInteger': (None, -1), 'PositiveInteger': (1, None),
          'Long': (-2 ** 63, 2 ** 63 - 1), 'Int': (-2 ** 31, 2 ** 31 - 1), 'Short': (-2 ** 15, 2 ** 15 - 1), 'Byte': (-128, 127), 'UnsignedLong': (0, 2 ** 64 - 1),
          'UnsignedInt': (0, 2 ** 32 - 1), 'UnsignedShort': (0, 2 ** 16 - 1), 'UnsignedByte': (0, 255)}


@sx.case(params=[{'cls': c} for c in RANGES], reach=['in'])
def integer_range(cls):
    """every integer, as text, is read exactly when it is in the range of the type"""
    lo, hi = RANGES[cls]
    v = sx.int('v', -10 ** 21, 10 ** 21)
    style = sx.choice('style', ['', '+', '0', 'space'])
    text = str(v)
    if style == 'space':
        text = ' ' + text + '\n'
    elif style:
        if v < 0:
            text = '-0' + text[1:] if style == '0' else text
        else:
            text = style + text
    r = read(getattr(xsd, cls), text)
    if sx.truth(sx.and_(lo is None or v >= lo, hi is None or v <= hi)):
        sx.check(r.ok, 'integer in the range is read')
        sx.check(r.value == v, 'value')
        sx.reach('in')
    else:
        sx.check(r.raised(ValueError), 'integer out of the range')


ODD = ['1_0', '\u0661', 'nan', 'inf', 'Infinity', '1e3', '1E+2', '0x1', '--1', '+-1', '1.', '.5', '.', '1.5.2', '1,5', 'INF', '-INF', 'NaN', '+INF', '1 2', '\xa01', '1e', 'e5', '1L', '1j', 'None', 'True', '-0', '\uff11']
LEGAL_ODD = {'Integer': {'-0': 0}, 'Decimal': {'1.': 1.0, '.5': .5, '-0': 0.0},
             'Double': {'1.': 1.0, '.5': .5, '-0': 0.0, '1e3': 1000.0, '1E+2': 100.0, 'INF': float('inf'), '-INF': float('-inf'), 'NaN': float('nan')}}


@sx.case(params=[{'cls': c} for c in ('Integer', 'Int', 'PositiveInteger', 'Decimal', 'Double', 'Float')])
def odd_numbers(cls):
    """what Python reads as a number is a number only if XML Schema says so"""
    text = sx.choice('text', ODD)
    legal = LEGAL_ODD['Double' if cls == 'Float' else cls if cls in LEGAL_ODD else 'Integer']
    r = read(getattr(xsd, cls), text)
    if text in legal and cls != 'PositiveInteger':
        sx.check(sx.truth(r.ok and (r.value == legal[text] or text == 'NaN' and r.value != r.value)), 'legal number')
    else:
        sx.check(r.raised(ValueError), 'no number')


@sx.case(params=[{'attr': a} for a in (False, True)], reach=['true', 'false', 'bad'])
def boolean_space(attr):
    """white space around a boolean is not part of it"""
    w = sx.choice('word', ['true', '1', 'false', '0', 'tru e', 'x', ''])
    s = sx.str('a', 0, 2, '\n \t' if not attr else ' ') + w + sx.str('b', 0, 2, ' \n' if not attr else ' ')
    r = read(xsd.Boolean, s, attr)
    if w in ('true', '1'):
        sx.check(r.ok and r.value is True, 'true with space around')
        sx.reach('true')
    elif w in ('false', '0'):
        sx.check(r.ok and r.value is False, 'false with space around')
        sx.reach('false')
    elif not attr and len(s) == 0:
        sx.check(sx.truth(r.ok and r.value is None), 'empty element is no value')
    else:
        sx.check(r.raised(ValueError), 'no boolean')
        sx.reach('bad')


@sx.case(params=[{'cls': c, 'attr': a} for c, a in (('Integer', False), ('Integer', True), ('Int', False), ('Long', False), ('Short', False))],
         reach=['ok', 'bad'])
def integer_text(cls, attr):
    s = sx.str('s', 1, 4, '0123456789+-.ex')
    r = read(getattr(xsd, cls), s, attr)
    want = ref_int(s)
    if want is None:
        sx.check(r.raised(ValueError), 'other text is no integer')
        sx.reach('bad')
    else:
        sx.check(r.ok, 'legal integer text is read')
        sx.check(r.value == want, 'value of integer text')
        sx.reach('ok')
    sx.observe('v', r.value)


def ref_decimal(s):
    """(mantissa, scale) of a decimal, None for other text, 'skip' for what only a double may look like."""
    body = s[1:] if s[:1] in ('+', '-') else s
    n = scale = digits = 0
    point = False
    for c in body:
        if '0' <= c <= '9':
            n = n * 10 + (ord(c) - 48)
            digits += 1
            scale += 1 if point else 0
        elif c == '.' and not point:
            point = True
        else:
            return None
    if digits == 0:
        return None
    return (-n if s[0] == '-' else n), scale


@sx.case(params=[{'cls': c, 'attr': a} for c, a in (('Decimal', False), ('Decimal', True), ('Double', False), ('Float', False))], reach=['ok', 'bad'])
def decimal_text(cls, attr):
    s = sx.str('s', 1, 4, '0123456789+-.x')
    r = read(getattr(xsd, cls), s, attr)
    want = ref_decimal(s)
    if want is None:
        sx.check(r.raised(ValueError), 'other text is no number')
        sx.reach('bad')
    else:
        n, scale = want
        sx.check(r.ok, 'legal number text is read')
        sx.check(r.value == sx.scaled(n, scale), 'value of number text')
        sx.reach('ok')
    sx.observe('v', r.value)


# ---- dates and times

def digits(name, n):
    return sx.str(name, n, n, 'digits')


ZONES = ('', 'Z', '+hh:mm', '-hh:mm', '+hhmm', '+hh')


def zone_text(form):
    if form in ('', 'Z'):
        return form, 0
    h = digits('zh', 2)
    m = digits('zm', 2) if 'mm' in form else '00'
    off = (int(h) * 60 + int(m)) * (-1 if form[0] == '-' else 1)
    return form[0] + h + (':' if ':' in form else '') + (m if 'mm' in form else ''), off


def days_in(y, m):
    if m == 2:
        return 29 if sx.truth(sx.and_(y % 4 == 0, sx.or_(y % 100 != 0, y % 400 == 0))) else 28
    return 30 if sx.truth(sx.or_(m == 4, m == 6, m == 9, m == 11)) else 31


def valid_date(y, m, d):
    if not sx.truth(sx.and_(1 <= y, y <= 9999, 1 <= m, m <= 12, 1 <= d)):
        return False
    return sx.truth(d <= days_in(y, m))


def check_zone(tz, offset, form, off):
    if form == '':
        sx.check(sx.truth(tz is None or offset == datetime.timedelta(0)), 'no zone is no offset')
    else:
        sx.check(sx.truth(tz is not None), 'zone is kept')
        sx.check(offset == datetime.timedelta(minutes=off), 'offset of the zone')


@sx.case(params=[{'ylen': n, 'form': f} for n in (4, 5) for f in ZONES if n == 4 or f == ''], reach=['bad'])
def date_text(ylen, form):
    y, m, d = digits('y', ylen), digits('m', 2), digits('d', 2)
    z, off = zone_text(form)
    r = read(xsd.Date, y + '-' + m + '-' + d + z)
    yy, mm, dd = int(y), int(m), int(d)
    ok = valid_date(yy, mm, dd)
    if ok and form not in ('', 'Z'):
        ok = sx.truth(sx.and_(off > -1440, off < 1440))
        if not ok:
            sx.check(r.raised(ValueError), 'an offset of a day or more')
            sx.reach('bad')
            return
        if 'mm' in form and sx.truth(int(z[-2:]) > 59):
            return
    if not ok:
        sx.check(r.raised(ValueError), 'no such day')
        sx.reach('bad')
        return
    sx.check(r.ok, 'legal date is read')
    v = r.value
    sx.check(sx.and_(v.year == yy, v.month == mm, v.day == dd), 'day of the date')
    if form == '':
        sx.check(sx.truth(v.tzinfo is None), 'no zone')
    else:
        sx.check(sx.truth(v.tzinfo is not None), 'zone is kept')
        sx.check(v.tzinfo.utcoffset(None) == datetime.timedelta(minutes=off), 'offset of the zone')
    sx.observe('x', xsd.Date().xmlvalue(v))


@sx.case(params=[{'form': f, 'frac': n} for f in ZONES for n in (0, 1, 3, 6) if n in (0, 3) or f == 'Z'], reach=['ok', 'bad'])
def datetime_text(form, frac):
    y, m, d = digits('y', 4), digits('m', 2), digits('d', 2)
    h, mi, s = digits('h', 2), digits('mi', 2), digits('s', 2)
    fr = digits('fr', frac) if frac else ''
    z, off = zone_text(form)
    r = read(xsd.DateTime, y + '-' + m + '-' + d + 'T' + h + ':' + mi + ':' + s + ('.' + fr if frac else '') + z)
    ok = valid_date(int(y), int(m), int(d)) and sx.truth(sx.and_(int(h) <= 23, int(mi) <= 59, int(s) <= 59))
    if ok and form not in ('', 'Z'):
        ok = sx.truth(sx.and_(off > -1440, off < 1440))
        if ok and 'mm' in form and sx.truth(int(z[-2:]) > 59):
            return
    if not ok:
        sx.check(r.raised(ValueError), 'no such moment')
        sx.reach('bad')
        return
    sx.check(r.ok, 'legal moment is read')
    v = r.value
    sx.check(sx.and_(v.year == int(y), v.month == int(m), v.day == int(d)), 'day of the moment')
    sx.check(sx.and_(v.hour == int(h), v.minute == int(mi), v.second == int(s)), 'clock time of the moment')
    sx.check(v.microsecond == (int(fr) * 10 ** (6 - frac) if frac else 0), 'fraction of the moment')
    check_zone(v.tzinfo, v.utcoffset(), form, off)
    sx.reach('ok')
    sx.observe('x', xsd.DateTime().xmlvalue(v))


@sx.case(params=[{'form': f, 'frac': n} for f in ZONES for n in (0, 2)], reach=['ok', 'bad'])
def time_text(form, frac):
    h, mi, s = digits('h', 2), digits('mi', 2), digits('s', 2)
    fr = digits('fr', frac) if frac else ''
    z, off = zone_text(form)
    text = h + ':' + mi + ':' + s + ('.' + fr if frac else '') + z
    ok = sx.truth(sx.and_(int(h) <= 23, int(mi) <= 59, int(s) <= 59))
    if ok and form not in ('', 'Z'):
        ok = sx.truth(sx.and_(off > -1440, off < 1440))
        if ok and 'mm' in form and sx.truth(int(z[-2:]) > 59):
            return
    for r in (read(xsd.Time, text), sx.outcome(xsd.Time().accept, text)):
        if not ok:
            sx.check(r.raised(ValueError), 'no such time')
            sx.reach('bad')
            continue
        sx.check(r.ok, 'legal time is read')
        v = r.value
        sx.check(sx.and_(v.hour == int(h), v.minute == int(mi), v.second == int(s)), 'clock time')
        sx.check(v.microsecond == (int(fr) * 10 ** (6 - frac) if frac else 0), 'fraction of the time')
        check_zone(v.tzinfo, v.utcoffset(), form, off)
        sx.reach('ok')
        sx.observe('x', xsd.Time().xmlvalue(v))


BASE = {'Date': '2012-02-29+01:30', 'DateTime': '2012-02-29T21:32:52+01:30', 'Time': '21:32:52-01:30'}
DIGIT = '0123456789'


@sx.case(params=[{'cls': c, 'edit': e} for c in BASE for e in ('change', 'insert', 'remove')], reach=['bad'])
def damaged_text(cls, edit):
    """one character of a legal text changed, inserted or removed: whatever is still read must be what a legal reading gives"""
    base = BASE[cls]
    i = sx.choice('i', range(len(base) + (1 if edit == 'insert' else 0)))
    c = '' if edit == 'remove' else sx.str('c', 1, 1, '0123456789+-:.TZtz /xA\n')
    text = base[:i] + c + (base[i:] if edit == 'insert' else base[i + 1:])
    r = read(getattr(xsd, cls), text)
    sx.check(sx.or_(r.ok, r.raised(ValueError)), 'rejected with ValueError or read')
    if edit == 'change' and base[i] in DIGIT or edit != 'change':
        legal = None                                       # may be legal or a short form, checked elsewhere
        if edit != 'remove' and sx.truth(sx.or_(c == 'x', c == 'A', c == '/', c == 't', c == '\n')) and not (i == len(base) and sx.truth(c == '\n')):
            legal = False
    else:
        # a separator was replaced
        legal = None if cls != 'Date' else (c == base[i] or base[i] in '+-' and c in '+-' and i == 10)
        if sx.truth(sx.or_(c == 'x', c == 'A', c == '/')):
            legal = False
    if legal is not None and not sx.truth(legal):
        sx.check(r.raised(ValueError), 'text with a foreign character is rejected')
        sx.reach('bad')
    elif edit == 'remove':
        sx.reach('bad')
        if cls == 'Date' and i not in (10, 13):
            sx.check(r.raised(ValueError), 'truncated date is rejected')


@sx.case(params=[{'cls': c} for c in ('Date',)])
def date_sign(cls):
    y, m, d = digits('y', 4), digits('m', 2), digits('d', 2)
    r = read(xsd.Date, '-' + y + '-' + m + '-' + d)
    sx.check(r.raised(ValueError), 'a year before 1 is not read as another year')


@sx.case(params=[{'cls': c} for c in ('Date', 'DateTime', 'Time', 'Boolean', 'Decimal', 'Integer')])
def no_value(cls):
    class Holder(xsd.ComplexType):
        f = xsd.Element(getattr(xsd, cls))
    sx.check(sx.truth(Holder.parsexml('<h/>').f is None), 'absent element is no value')
    if cls in ('Date', 'DateTime', 'Time', 'Boolean'):
        sx.check(sx.truth(Holder.parsexml('<h><f/></h>').f is None), 'empty element is no value')
        sx.check(sx.truth(Holder.parsexml('<h><f>nil</f></h>').f is None), 'nil text is no value')

"""Illegal assignments are refused and leave the object as it was."""
import datetime
import decimal

import sx
from soapfish import xsd

BOUNDS = ('fields of 18 types, each offered a symbolic legal value, then one of 25 values of every kind (symbolic texts of 1..3 characters, symbolic integers, floats, dates, '
          'objects of related and foreign classes (also of the same name), nil), by assignment, constructor and list append; lists of 0..4 items with symbolic limits')
OUTSIDE = 'lists changed by other means than append; whole lists assigned'


def ch(name, n=1):
    return sx.str(name, 1, n, 'alpha')


def classes():
    class Base(xsd.ComplexType):
        x = xsd.Element(xsd.String)

    class Sub(Base):
        y = xsd.Element(xsd.String)

    class Other(xsd.ComplexType):
        x = xsd.Element(xsd.String)

    class Last(Sub):
        z = xsd.Element(xsd.String)

    class Mixed(Other, Last):
        pass
    return Base, Sub, Other, twin(), Last, Mixed


def twin():
    """another class that is called Base"""
    class Base(xsd.ComplexType):
        x = xsd.Element(xsd.String)
    return Base


KINDS = ['str', 'digits', 'int', 'float', 'decimal', 'bool', 'date', 'datetime', 'time', 'xsddate', 'list', 'bytes', 'object', 'Base', 'Sub', 'Other', 'Twin', 'Last', 'Mixed', 'NIL', 'BaseClass']

TYPES = {
    'String': (lambda c: xsd.String, lambda: ch('old'), {'str', 'digits'}),
    'Enum': (lambda c: xsd.String(enumeration=['A', 'B']), lambda: 'A', set()),
    'Integer': (lambda c: xsd.Integer, lambda: sx.int('old', -9, 9), {'int', 'digits'}),
    'Short': (lambda c: xsd.Short, lambda: sx.int('old', -9, 9), {'int', 'digits'}),
    'Decimal': (lambda c: xsd.Decimal, lambda: sx.float('old', 3, 1), {'int', 'float', 'decimal', 'digits'}),
    'Double': (lambda c: xsd.Double, lambda: sx.float('old', 3, 1), {'int', 'float', 'decimal', 'digits'}),
    'Boolean': (lambda c: xsd.Boolean, lambda: sx.bool('old'), {'bool'}),
    'Date': (lambda c: xsd.Date, lambda: datetime.date(2001, 2, 3), {'date', 'xsddate'}),
    'DateTime': (lambda c: xsd.DateTime, lambda: datetime.datetime(2001, 2, 3, 4, 5, 6), {'datetime'}),
    'Time': (lambda c: xsd.Time, lambda: datetime.time(4, 5, 6), {'time'}),
    'Base': (lambda c: c[0], lambda: None, {'Base', 'Sub', 'Last', 'Mixed'}),
    'Sub': (lambda c: c[1], lambda: None, {'Sub', 'Last', 'Mixed'}),
    'BaseInstance': (lambda c: c[0](), lambda: None, {'Base', 'Sub', 'Last', 'Mixed'}),
}


NUMBERS = ('Integer', 'Short', 'Decimal', 'Double')


def value(kind, cs):
    from soapfish.xsd_types import XSDDate
    if kind == 'str':
        return sx.str('v', 1, 3, 'CDEFuvwxyz')
    if kind == 'digits':
        return sx.str('v', 1, 2, 'digits')
    if kind == 'int':
        return sx.int('v', 10, 99)
    if kind == 'float':
        return sx.float('v', 4, 1)
    if kind == 'decimal':
        return sx.decimal('v', 4, 1)
    if kind == 'bool':
        return sx.bool('v')
    if kind in ('Base', 'Sub', 'Other', 'Twin', 'Last', 'Mixed'):
        return {'Base': cs[0], 'Sub': cs[1], 'Other': cs[2], 'Twin': cs[3], 'Last': cs[4], 'Mixed': cs[5]}[kind](x=ch('v'))
    return {'date': datetime.date(2010, 1, 2), 'datetime': datetime.datetime(2010, 1, 2, 3, 4, 5), 'time': datetime.time(1, 2, 3),
            'xsddate': XSDDate(2010, 1, 2), 'list': ['a'], 'bytes': b'ab', 'object': object(), 'NIL': xsd.NIL, 'BaseClass': cs[0]}[kind]


@sx.case(params=[{'t': t, 'kind': k} for t in TYPES for k in KINDS])
def kinds(t, kind):
    cs = classes()
    make, old, legal = TYPES[t]

    class T(xsd.ComplexType):
        before = xsd.Element(xsd.String)
        f = xsd.Element(make(cs), nillable=sx.choice('nillable', [False, True]))
        after = xsd.Element(xsd.Integer)
    if kind == 'bool' and t in NUMBERS:
        return                        # whether True is a number is left open
    oldv = old()
    o = T(before=ch('b'), after=sx.int('a', 0, 9), f=oldv)
    prev = (o.before, o.f, o.after)
    v = value(kind, cs)
    r = sx.outcome(setattr, o, 'f', v)
    ok = kind in legal
    if kind == 'NIL':
        ok = T.f.nillable
    elif kind == 'str' and t == 'Enum':
        ok = False
    elif kind == 'bool' and t == 'Boolean' or kind == 'int' and t == 'Boolean':
        ok = kind == 'bool'
    if kind == 'float' and t == 'Boolean' or kind == 'decimal' and t == 'Boolean':
        ok = sx.truth(sx.or_(v == 0, v == 1))
    if kind == 'digits' and t == 'Time' or kind in ('digits', 'str') and t == 'DateTime':
        sx.check(sx.or_(r.ok, r.raised(ValueError)), 'text for a moment')
        ok = r.ok
    if ok:
        sx.check(r.ok, 'legal value is taken')
        if kind in ('Base', 'Sub', 'Last', 'Mixed', 'NIL'):
            sx.check(sx.truth(o.f is v), 'object is kept as it is')
    else:
        sx.check(r.raised(ValueError), 'illegal value is refused')
        sx.check(sx.truth(o.f is prev[1]), 'refused assignment leaves the field')
    sx.check(sx.and_(o.before == prev[0], o.after == prev[2]), 'other fields are left alone')
    r = sx.outcome(T, f=v)
    sx.check(sx.truth(r.ok == ok), 'constructor takes what assignment takes')


@sx.case(params=[{'t': t, 'kind': k} for t in TYPES for k in KINDS if t not in ('BaseInstance', 'DateTime')])
def appended(t, kind):
    if kind == 'bool' and t in NUMBERS:
        return
    cs = classes()
    make, old, legal = TYPES[t]

    class T(xsd.ComplexType):
        l = xsd.ListElement(make(cs), 'i', nillable=sx.choice('nillable', [False, True]))
    o = T()
    first = old()
    if first is not None:
        o.l.append(first)
    prev = list(o.l)
    v = value(kind, cs)
    r = sx.outcome(o.l.append, v)
    ok = kind in legal or kind == 'NIL' and T.l.nillable
    if kind in ('float', 'decimal') and t == 'Boolean':
        ok = sx.truth(sx.or_(v == 0, v == 1))
    if kind == 'digits' and t == 'Time':
        ok = r.ok
    if ok:
        sx.check(r.ok, 'legal item is taken')
        sx.check(sx.truth(len(o.l) == len(prev) + 1), 'one more item')
    else:
        sx.check(r.raised(ValueError), 'illegal item is refused')
        sx.check(sx.truth(len(o.l) == len(prev)), 'refused item is not in the list')
    for a, b in zip(prev, o.l):
        sx.check(sx.truth(a is b), 'earlier items are left alone')


@sx.case(reach=['full', 'room'])
def list_limit():
    hi = sx.int('hi', 0, 4)
    unlimited = sx.flag('unlimited')

    class T(xsd.ComplexType):
        l = xsd.ListElement(xsd.String, 'i', maxOccurs=sx.choice('none', [None, xsd.UNBOUNDED]) if unlimited else hi, nillable=True)
        m = xsd.ListElement(xsd.String, 'j', maxOccurs=2)
    o = T()
    o.m.append('x')
    for i in range(5):
        r = sx.outcome(o.l.append, xsd.NIL if i in (1, 3) and sx.flag('nil%d' % i) else ch('i%d' % i))
        if unlimited or sx.truth(i < hi):
            sx.check(r.ok, 'item within the limit is taken')
            sx.check(sx.truth(len(o.l) == i + 1), 'item is in the list')
            sx.reach('room')
        else:
            sx.check(r.raised(ValueError), 'item beyond the limit is refused')
            sx.check(len(o.l) == hi, 'list stays at its limit')
            sx.reach('full')
    sx.check(sx.truth(len(o.m) == 1), 'other list untouched')


@sx.case(params=[{'how': h} for h in ('set', 'init', 'group')])
def unknown_names(how):
    class G(xsd.Group):
        g = xsd.Element(xsd.String)

    class Base(xsd.ComplexType):
        known = xsd.Element(xsd.String, tagname='tag')

    class T(Base):
        a = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)
        l = xsd.ListElement(xsd.String, 'item')
        grp = xsd.Ref(G)
    names = ['known', 'a', 'l', 'grp', 'tag', 'item', 'g', 'knowm', 'Known', 'b', 'nope', 'xmlelement', 'fields']
    n = sx.choice('n', names)
    ok = n in ('known', 'a') if how != 'group' else n == 'g'
    if n in ('l', 'grp'):
        return
    v = ch('v')
    o = T(known='k')
    if how == 'set':
        r = sx.outcome(setattr, o, n, v)
    elif how == 'group':
        o = o.grp
        r = sx.outcome(setattr, o, n, v)
    else:
        r = sx.outcome(lambda: T(**{n: v}))
        o = r.value
    if ok:
        sx.check(r.ok, 'declared fields can be set')
        sx.check(getattr(o, n) == v, 'field has its value')
    else:
        sx.check(r.raised(ValueError, AttributeError), 'undeclared fields cannot be set')
        if o is not None:
            sx.check(sx.truth(not hasattr(o, n)), 'undeclared field is not there')
            sx.check(sx.truth(how == 'group' or o.known == 'k'), 'object untouched')


@sx.case(params=[{'cls': c} for c in ('Element', 'Attribute', 'ListElement')])
def clearing(cls):
    class T(xsd.ComplexType):
        e = xsd.Element(xsd.String(pattern='[a-z]'), minOccurs=1)
        a = xsd.Attribute(xsd.Integer)
    o = T(e=sx.str('e', 1, 1, 'lower'), a=sx.int('a', 0, 9))
    o.e = None
    o.a = None
    sx.check(sx.truth(o.e is None and o.a is None), 'fields can be cleared')


@sx.case()
def min_occurs_of_elements():
    n = sx.int('n', -2, 4)
    r = sx.outcome(xsd.Element, xsd.String, n)
    if sx.truth(sx.or_(n == 0, n == 1)):
        sx.check(r.ok, 'an element occurs at least 0 or 1 times')
    else:
        sx.check(r.raised(ValueError), 'an element cannot have another minimum')

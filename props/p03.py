"""A restricted simple type accepts a value exactly when it satisfies every facet, on every route into an object."""
import sx
from soapfish import xsd

BOUNDS = ('strings of 0..4 symbolic characters (white space: 0..4 over letters and the four XML spaces); length facets 0..5; enumerations of three values of 0..2 symbolic '
          'characters; seven patterns with independently written meanings; integers |v| < 10**22, bounds |b| < 10**20 symbolic; decimals of 7 digits '
          'and scale 0..2 with symbolic bounds; totalDigits 1..6; fractionDigits 0..3; facets given to the constructor, as class members and as text; values assigned, '
          'passed to constructors, appended to lists and parsed from elements and attributes')
OUTSIDE = 'totalDigits with leading or trailing zeros, fewer fraction digits than the facet, facets of date and time types, other patterns'

ROUTES = ('assign', 'init', 'attribute', 'append', 'parse', 'parseattr', 'parselist')


def into(_type, value, route, text=None):
    """bring a value into an object, on one of the routes; returns what the object then holds"""
    class H(xsd.ComplexType):
        a = xsd.Attribute(_type, use=xsd.Use.OPTIONAL)
        e = xsd.Element(_type, minOccurs=0)
        l = xsd.ListElement(_type, 'i', minOccurs=0)
    if route == 'assign':
        h = H()
        h.e = value
        return h.e
    if route == 'init':
        return H(e=value).e
    if route == 'attribute':
        h = H()
        h.a = value
        return h.a
    if route == 'append':
        h = H()
        h.l.append(value)
        return h.l[0]
    text = str(value) if text is None else text
    if route == 'parse':
        return H.parsexml(concat('<h><e>', text, '</e></h>')).e
    if route == 'parseattr':
        return H.parsexml(concat('<h a="', text, '"/>')).a
    return H.parsexml(concat('<h><i>', text, '</i></h>')).l[0]


def concat(*parts):
    out = parts[0]
    for p in parts[1:]:
        out = out + p
    return out


def decide(_type, value, route, ok, want, label, text=None):
    r = sx.outcome(into, _type, value, route, text)
    if sx.truth(ok):
        sx.check(r.ok, label + ': value satisfying the facets is accepted')
        sx.check(r.value == want, label + ': accepted value')
        sx.reach('accept')
    else:
        sx.check(r.raised(ValueError), label + ': value breaking a facet is rejected')
        sx.reach('reject')
    sx.observe('v', r.value)


def make(base, how, **facets):
    """a restricted type, from constructor arguments or by deriving a class"""
    if how == 'init':
        return base(**facets)
    return type('Derived', (base,), facets)()


def sroutes(route, s):
    """strings that a document cannot carry unchanged stay out of the parsing routes"""
    if route.startswith('parse') and len(s) == 0:
        return False
    return True


SAFE = 'abAB01-_. \xe9\u20ac\U0001f600'


@sx.case(params=[{'facet': f, 'how': h, 'route': r} for f in ('length', 'minLength', 'maxLength') for h in ('init', 'class') for r in ROUTES
                 if h == 'init' or r in ('assign', 'parse')], reach=['accept', 'reject'])
def length(facet, how, route):
    s = sx.str('s', 0, 4, SAFE)
    n = sx.int('n', 0, 5)
    sx.assume(sroutes(route, s))
    ok = {'length': len(s) == n, 'minLength': len(s) >= n, 'maxLength': len(s) <= n}[facet]
    decide(make(xsd.String, how, **{facet: n}), s, route, ok, s, facet)


LONG = ''.join(map(chr, range(32, 128))) + '\t\n\xe9\xad\u0301\u200b\u20ac\ufeff\U0001f600'


@sx.case(params=[{'cls': c} for c in ('String', 'AnyURI', 'NMTOKEN', 'Base64Binary')], reach=['accept', 'reject'])
def lengths_together(cls):
    s = sx.str('s', 0, 4, LONG if cls == 'String' else 'xml')
    lo, hi = sx.int('lo', 0, 5), sx.int('hi', 0, 5)
    decide(getattr(xsd, cls)(minLength=lo, maxLength=hi), s, 'assign', sx.and_(len(s) >= lo, len(s) <= hi), s, 'minLength and maxLength')


@sx.case(params=[{'how': h, 'route': r} for h in ('init', 'class') for r in ROUTES if h == 'init' or r in ('assign', 'parse')], reach=['accept', 'reject'])
def string_enumeration(how, route):
    s = sx.str('s', 0, 2, SAFE)
    sx.assume(sroutes(route, s))
    vals = [sx.str('e%d' % i, n, n, SAFE) for i, n in enumerate((1, 2, 2))]
    decide(make(xsd.String, how, enumeration=vals), s, route, sx.or_(*[s == v for v in vals]), s, 'enumeration')


def is_in(c, lo, hi):
    return sx.and_(c >= lo, c <= hi)


PATTERNS = {
    'digits': (r'[0-9]+', lambda s: len(s) >= 1 and sx.and_(*[is_in(c, '0', '9') for c in s])),
    'word': (r'[A-Z][a-z]*', lambda s: len(s) >= 1 and sx.and_(is_in(s[0], 'A', 'Z'), *[is_in(c, 'a', 'z') for c in s[1:]])),
    'code': (r'[A-Z]{2}-\d', lambda s: len(s) == 4 and sx.and_(is_in(s[0], 'A', 'Z'), is_in(s[1], 'A', 'Z'), s[2] == '-', is_in(s[3], '0', '9'))),
    'alt': (r'a|bc', lambda s: sx.or_(s == 'a', s == 'bc')),
    'opt': (r'ab?', lambda s: sx.or_(s == 'a', s == 'ab')),
    'nothing': (r'', lambda s: len(s) == 0),
    'prefix': (r'x.*', lambda s: len(s) >= 1 and s[0] == 'x'),
}


@sx.case(params=[{'p': p, 'route': r} for p in PATTERNS for r in ('assign', 'append', 'parse') if (p, r) != ('nothing', 'parse')], reach=['accept', 'reject'])
def string_pattern(p, route):
    s = sx.str('s', 0, 4, 'ascii')
    sx.assume(sroutes(route, s))
    if route == 'parse':
        sx.assume(sx.and_(*[sx.and_(c != '<', c != '&', c != '>') for c in s]))
    pat, meaning = PATTERNS[p]
    decide(xsd.String(pattern=pat), s, route, meaning(s), s, 'pattern')


@sx.case(params=[{'p': p} for p in ('digits', 'alt')], reach=['accept', 'reject'])
def pattern_of_class(p):
    s = sx.str('s', 0, 3, 'xml')
    pat, meaning = PATTERNS[p]
    if p == 'digits':
        sx.assume(sx.and_(*[c < '\u0600' for c in s]))
    decide(make(xsd.String, 'class', pattern=pat), s, 'assign', meaning(s), s, 'pattern')


@sx.case(reach=['accept', 'reject'])
def string_facets_together():
    s = sx.str('s', 0, 4, 'abAB1')
    lo, hi = sx.int('lo', 0, 4), sx.int('hi', 0, 4)
    e = sx.str('e', 1, 1, 'abAB1')
    t = xsd.String(pattern='[a-z]+', minLength=lo, maxLength=hi, enumeration=['ab', 'aab', 'B', e])
    ok = sx.and_(len(s) >= lo, len(s) <= hi, len(s) >= 1 and sx.and_(*[is_in(c, 'a', 'z') for c in s]),
                 sx.or_(s == 'ab', s == 'aab', s == 'B', s == e))
    decide(t, s, 'assign', ok, s, 'all facets')


SPACES = '\t\n\r '


def space(c):
    return sx.or_(*[c == x for x in SPACES])


def ref_white(s, mode):
    if mode == 'replace':
        out = ''
        for c in s:
            out = out + (' ' if sx.truth(space(c)) else c)
        return out
    if mode == 'collapse':
        words, cur = [], ''
        for c in s:
            if sx.truth(space(c)):
                if len(cur):
                    words.append(cur)
                cur = ''
            else:
                cur = cur + c
        if len(cur):
            words.append(cur)
        return ' '.join(words)
    return s


@sx.case(params=[{'mode': m, 'how': h} for m in ('preserve', 'replace', 'collapse', 'unset') for h in ('init', 'class')], reach=['accept'])
def white_space(mode, how):
    s = sx.str('s', 0, 4, 'ab\t\n\r \x0b\xa0' if how == 'init' else 'a\t ')
    t = xsd.String() if mode == 'unset' else make(xsd.String, how, whiteSpace=mode)
    want = ref_white(s, mode)
    for route in ('assign', 'append'):
        decide(t, s, route, True, want, 'whiteSpace')


@sx.case(params=[{'mode': m} for m in ('replace', 'collapse')], reach=['accept', 'reject'])
def white_space_first(mode):
    """the other facets judge the value after white space processing"""
    s = sx.str('s', 0, 4, 'ab \t')
    n = sx.int('n', 0, 4)
    want = ref_white(s, mode)
    decide(xsd.String(whiteSpace=mode, maxLength=n, pattern='[^\t]*'), s, 'assign', len(want) <= n, want, 'whiteSpace and others')


# ---- numbers

BOUND = {'minInclusive': lambda v, b: v >= b, 'maxInclusive': lambda v, b: v <= b, 'minExclusive': lambda v, b: v > b, 'maxExclusive': lambda v, b: v < b}


@sx.case(params=[{'facet': f, 'how': h, 'route': r} for f in BOUND for h in ('init', 'class') for r in ROUTES if h == 'init' or r in ('assign', 'parse')],
         reach=['accept', 'reject'])
def integer_bound(facet, how, route):
    v = sx.int('v', -10 ** 22, 10 ** 22)
    b = sx.int('b', -10 ** 20, 10 ** 20)
    decide(make(xsd.Integer, how, **{facet: b}), v, route, BOUND[facet](v, b), v, facet)


@sx.case(params=[{'facet': f, 'cls': c, 'kind': k} for f in BOUND for c, k in (('Decimal', 'float'), ('Decimal', 'decimal'), ('Double', 'float'), ('Float', 'float'),
                                                                               ('Decimal', 'int'), ('Decimal', 'text'))], reach=['accept', 'reject'])
def decimal_bound(facet, cls, kind):
    scale = sx.choice('scale', [0, 1, 2])
    b = sx.float('b', 6, sx.choice('bscale', [0, 2]))
    if kind == 'int':
        v = sx.int('v', -10 ** 7, 10 ** 7)
    elif kind == 'decimal':
        v = sx.decimal('v', 7, scale)
    else:
        v = sx.float('v', 7, scale)
    t = make(getattr(xsd, cls), sx.choice('how', ['init', 'class']), **{facet: b})
    r = sx.outcome(into, t, str(v) if kind == 'text' else v, 'parse' if kind == 'text' else 'assign')
    if sx.truth(BOUND[facet](v, b)):
        sx.check(r.ok, 'number within the bound is accepted')
        sx.reach('accept')
    else:
        sx.check(r.raised(ValueError), 'number beyond the bound is rejected')
        sx.reach('reject')


@sx.case(reach=['accept', 'reject'])
def bounds_together():
    v = sx.int('v', -1000, 1000)
    b = [sx.int('b%d' % i, -1000, 1000) for i in range(4)]
    t = xsd.Integer(minInclusive=b[0], maxInclusive=b[1], minExclusive=b[2], maxExclusive=b[3])
    decide(t, v, 'assign', sx.and_(v >= b[0], v <= b[1], v > b[2], v < b[3]), v, 'four bounds')


INTS = {'NonNegativeInteger': (0, None), 'NonPositiveInteger': (None, 0), 'NegativeInteger': (None, -1), 'PositiveInteger': (1, None),
        'Long': (-2 ** 63, 2 ** 63 - 1), 'Int': (-2 ** 31, 2 ** 31 - 1), 'Short': (-2 ** 15, 2 ** 15 - 1), 'Byte': (-128, 127),
        'UnsignedLong': (0, 2 ** 64 - 1), 'UnsignedInt': (0, 2 ** 32 - 1), 'UnsignedShort': (0, 2 ** 16 - 1), 'UnsignedByte': (0, 255)}


def in_type(cls, v):
    lo, hi = INTS[cls]
    return sx.and_(True if lo is None else v >= lo, True if hi is None else v <= hi)


@sx.case(params=[{'cls': c, 'route': r} for c in INTS for r in ('assign', 'append', 'parse', 'text')], reach=['accept', 'reject'])
def integer_type(cls, route):
    v = sx.int('v', -10 ** 22, 10 ** 22)
    if route == 'text':
        decide(getattr(xsd, cls), str(v), 'assign', in_type(cls, v), v, cls)
    else:
        decide(getattr(xsd, cls), v, route, in_type(cls, v), v, cls)


@sx.case(params=[{'cls': c, 'how': h} for c in INTS for h in ('init', 'class')], reach=['accept', 'reject'])
def integer_type_narrowed(cls, how):
    """facets of a restricted integer type come on top of the range of the type"""
    v = sx.int('v', -10 ** 22, 10 ** 22)
    lo, hi = sx.int('lo', -10 ** 21, 10 ** 21), sx.int('hi', -10 ** 21, 10 ** 21)
    decide(make(getattr(xsd, cls), how, minInclusive=lo, maxInclusive=hi), v, 'assign', sx.and_(in_type(cls, v), v >= lo, v <= hi), v, cls)


@sx.case(params=[{'facet': f} for f in BOUND], reach=['accept', 'reject'])
def bound_as_text(facet):
    """generated classes carry their facets as text"""
    v = sx.int('v', -10 ** 6, 10 ** 6)
    b = sx.int('b', -10 ** 5, 10 ** 5)
    decide(make(xsd.Integer, 'class', **{facet: str(b)}), v, 'assign', BOUND[facet](v, b), v, facet)


@sx.case(params=[{'cls': c, 'route': r} for c in ('Integer', 'Decimal') for r in ('assign', 'append')], reach=['accept', 'reject'])
def number_enumeration(cls, route):
    v = sx.int('v', -10 ** 6, 10 ** 6)
    vals = [sx.int('e%d' % i, -10 ** 6, 10 ** 6) for i in range(3)]
    decide(make(getattr(xsd, cls), sx.choice('how', ['init', 'class']), enumeration=vals), v, route, sx.or_(*[v == e for e in vals]), v, 'enumeration')


@sx.case(params=[{'cls': c, 'route': r} for c, r in (('Integer', 'assign'), ('Integer', 'parse'), ('Long', 'assign'), ('Decimal', 'assign'))], reach=['accept', 'reject'])
def total_digits(cls, route):
    v = sx.int('v', -10 ** 8, 10 ** 8)
    n = sx.int('n', 1, 6)
    ok = sx.or_(*[sx.and_(n == k, v < 10 ** k, v > -10 ** k) for k in range(1, 7)])
    decide(make(getattr(xsd, cls), sx.choice('how', ['init', 'class']), totalDigits=n), v, route, ok, v, 'totalDigits')


@sx.case(params=[{'kind': k} for k in ('float', 'decimal')], reach=['accept', 'reject'])
def fraction_digits(kind):
    scale = sx.choice('scale', [0, 1, 2, 3])
    n = sx.choice('n', [0, 1, 2, 3])
    v = sx.decimal('v', 7, scale) if kind == 'decimal' else sx.float('v', 7, scale)
    if kind == 'float' and scale:
        m = sx.int('m', -10 ** 6, 10 ** 6)
        sx.assume(v * 10 ** scale == m)
        sx.assume(m % 10 != 0)
    r = sx.outcome(lambda: into(xsd.Decimal(fractionDigits=n), v, 'assign'))
    if scale > n:
        sx.check(r.raised(ValueError), 'more fraction digits than the facet are rejected')
        sx.reach('reject')
    elif scale == n and (kind == 'decimal' or scale):
        sx.check(r.ok, 'as many fraction digits as the facet are accepted')
        sx.reach('accept')


NPAT = {'two': (r'[0-9]{2}', lambda v: sx.and_(v >= 10, v <= 99)), 'neg': (r'-\d+', lambda v: v < 0), 'five': (r'\d*5', lambda v: sx.and_(v > 0, v % 10 == 5))}


@sx.case(params=[{'cls': c, 'p': p} for c in ('Integer', 'Decimal', 'Short') for p in NPAT], reach=['accept', 'reject'])
def number_pattern(cls, p):
    v = sx.int('v', -999, 999)
    pat, meaning = NPAT[p]
    decide(make(getattr(xsd, cls), sx.choice('how', ['init', 'class']), pattern=pat), v, 'assign', meaning(v), v, 'pattern')


@sx.case(params=[{'cls': c} for c in ('Integer', 'Decimal', 'String', 'Date', 'DateTime', 'Time', 'Double')])
def wrong_kind(cls):
    v = sx.choice('v', [['1'], {'a': 1}, object(), b'1', (1,)])
    sx.check(sx.outcome(getattr(xsd, cls)().accept, v).raised(ValueError), 'a value of a foreign kind is rejected')
    sx.check(sx.truth(getattr(xsd, cls)().accept(None) is None), 'no value is always accepted')
    if cls == 'Integer':
        f = sx.float('f', 6, 1)
        sx.check(sx.outcome(xsd.Integer().accept, f).raised(ValueError), 'a float is no integer')


@sx.case(params=[{'cls': c} for c in ('Date', 'DateTime', 'Time', 'Boolean', 'Integer', 'Decimal')])
def text_of_wrong_kind(cls):
    s = sx.str('s', 1, 3, 'qwy')
    sx.check(sx.outcome(getattr(xsd, cls)().accept, s).raised(ValueError), 'text that denotes no value is rejected')


@sx.case(params=[{'base': b} for b in ('String', 'Decimal', 'Integer', 'Short', 'Double')], reach=['accept', 'reject'])
def facets_along_classes(base):
    """facets defined anywhere in a chain of classes hold for the last one, the nearest definition counts"""
    lo, hi = ('minLength', 'maxLength') if base == 'String' else ('minInclusive', 'maxExclusive') if base == 'Decimal' else ('minExclusive', 'maxInclusive')
    depth = 3
    places = {}
    for f in (lo, hi):
        where = sorted({sx.choice(f + str(i), range(depth)) for i in range(2)})
        places[f] = {level: sx.int('%s_%d' % (f, i), 0, 4) for i, level in enumerate(where)}
    t = getattr(xsd, base)
    for level in range(depth):
        t = type('Level%d' % level, (t,), {f: places[f][level] for f in (lo, hi) if level in places[f]})
    a, b = (places[f][max(places[f])] for f in (lo, hi))
    v = sx.str('s', 0, 4, 'ab') if base == 'String' else sx.int('v', -1, 5)
    if base == 'String':
        ok = sx.and_(len(v) >= a, len(v) <= b)
    else:
        ok = sx.and_(BOUND[lo](v, a), BOUND[hi](v, b))
    decide(t(), v, 'assign', ok, v, 'facets of a chain of classes')

"""The XML schema generated for a set of classes accepts exactly the documents that the classes describe."""
import sx
from lxml import etree
from soapfish import py2xsd, xsd

BOUNDS = ('every facet with symbolic values (lengths 0..3, bounds -30..30, digits 1..3, enumerations of two symbolic words or numbers) on inline types, named types, derived named types, attributes and lists, '
          'judged on symbolic texts of 0..4 characters; every built-in type on symbolic texts; classes of up to 6 fields with symbolic tag names and occurrences, sequences, choices and alls, '
          'inheritance, groups, on documents of 0..4 children in any order; three forms of namespaces')
OUTSIDE = 'types of imported schemas with another namespace, elements with a namespace of their own, references to complex types, regular expressions that Python and XML Schema read differently, fractionDigits on values with more digits'

XSD = 'http://www.w3.org/2001/XMLSchema'
NS = 'urn:s'
FORMS = ('unqualified', 'qualified')


def validator(*schemas):
    """valid(element) of the schemas, as the dispatcher uses them"""
    check = py2xsd.schema_validator(list(schemas))

    def valid(e):
        return sx.outcome(check, e).ok
    return valid


def el(tag, text=None, *kids, **attrs):
    e = etree.Element(tag)
    e.text = text
    for k, v in attrs.items():
        e.set(k, v)
    for k in kids:
        e.append(k)
    return e


def word(name, lo=0, hi=3):
    return sx.str(name, lo, hi, 'ab0')


def string_facet(kind):
    """(constructor arguments, is the text legal?)"""
    if kind in ('length', 'minLength', 'maxLength'):
        n = sx.int('n', 0, 3)
        return {kind: n}, {'length': lambda t: len(t) == n, 'minLength': lambda t: len(t) >= n, 'maxLength': lambda t: len(t) <= n}[kind]
    if kind == 'range':
        a, b = sx.int('n', 0, 3), sx.int('m', 0, 3)
        sx.assume(a <= b)
        return {'minLength': a, 'maxLength': b}, lambda t: a <= len(t) and len(t) <= b
    if kind == 'enumeration':
        a, b = word('e1', 1, 2), word('e2', 0, 2)
        sx.assume(a != b)
        return {'enumeration': [a, b]}, lambda t: t == a or t == b
    if kind == 'pattern':
        p = sx.choice('p', ['a+', 'a.', '[ab]{2}', 'a|b0'])
        return {'pattern': p}, {'a+': lambda t: len(t) > 0 and all(c == 'a' for c in t), 'a.': lambda t: len(t) == 2 and t[0] == 'a',
                                '[ab]{2}': lambda t: len(t) == 2 and '0' not in t, 'a|b0': lambda t: t == 'a' or t == 'b0'}[p]
    raise ValueError(kind)


def number_facet(kind):
    n = sx.int('n', -30, 30)
    if kind == 'enumeration':
        m = sx.int('m', -30, 30)
        return {'enumeration': [n, m]}, lambda v: v == n or v == m
    return {kind: n}, {'minInclusive': lambda v: v >= n, 'maxInclusive': lambda v: v <= n, 'minExclusive': lambda v: v > n, 'maxExclusive': lambda v: v < n}[kind]


def describe(where, base, args):
    """a class with the field v restricted that way, the named types to declare, and the document of a text"""
    named = []
    t = base(**args)
    if where in ('named', 'named attribute', 'derived', 'root'):
        t = type('Code', (base,), dict(args))
        named.append(t)
    if where == 'derived':
        t = type('Sub', (t,), {})
        named.append(t)
    if where.endswith('attribute'):
        field = xsd.Attribute(t)
    elif where == 'list':
        field = xsd.ListElement(t, 'v')
    else:
        field = xsd.Element(t)
    cls = type('Thing', (xsd.ComplexType,), {'v': field})
    return cls, named, t


def document(where, text):
    if where.endswith('root'):
        return el('{urn:s}r', text)
    if where.endswith('attribute'):
        return el('{urn:s}r', None, v=text)
    if where == 'list':
        return el('{urn:s}r', None, el('v', 'a' if text is None else text), el('v', text))
    return el('{urn:s}r', None, el('v', text))


WHERE = ('inline', 'named', 'derived', 'attribute', 'named attribute', 'list', 'root', 'inline root')


@sx.case(params=[{'where': w, 'kind': k} for w in WHERE for k in ('length', 'minLength', 'maxLength', 'range', 'enumeration', 'pattern')], reach=['valid', 'invalid'])
def strings(where, kind):
    args, legal = string_facet(kind)
    cls, named, t = describe(where, xsd.String, args)
    root = xsd.Element(t) if where.endswith('root') else xsd.Element(cls)
    schema = xsd.Schema(NS, simpleTypes=named, complexTypes=[cls], elements={'r': root})
    text = word('t')
    ok = legal(text)
    sx.check(sx.truth(validator(schema)(document(where, text))) == sx.truth(ok), 'the schema accepts exactly what the facet allows')
    sx.reach('valid' if sx.truth(ok) else 'invalid')
    if not where.endswith('root') and where != 'list':
        sx.check(sx.truth(sx.outcome(cls, v=text).ok) == sx.truth(ok), 'so does the class')


@sx.case(params=[{'where': w, 'kind': k} for w in WHERE for k in ('minInclusive', 'maxInclusive', 'minExclusive', 'maxExclusive', 'enumeration')], reach=['valid', 'invalid'])
def numbers(where, kind):
    args, legal = number_facet(kind)
    base = xsd.Integer if where in ('inline', 'named', 'list') else sx.choice('type', [xsd.Integer, xsd.Short, xsd.Decimal])
    cls, named, t = describe(where, base, args)
    root = xsd.Element(t) if where.endswith('root') else xsd.Element(cls)
    schema = xsd.Schema(NS, simpleTypes=named, complexTypes=[cls], elements={'r': root})
    v = sx.int('v', -40, 40)
    ok = legal(v)
    sx.check(sx.truth(validator(schema)(document(where, str(v)))) == sx.truth(ok), 'the schema accepts exactly what the facet allows')
    sx.reach('valid' if sx.truth(ok) else 'invalid')
    if not where.endswith('root') and where != 'list':
        sx.check(sx.truth(sx.outcome(cls, v=v).ok) == sx.truth(ok), 'so does the class')


@sx.case(params=[{'kind': k} for k in ('totalDigits', 'fractionDigits', 'whiteSpace', 'integer pattern', 'two')], reach=['valid', 'invalid'])
def more_facets(kind):
    if kind == 'whiteSpace':
        ws = sx.choice('ws', ['preserve', 'replace', 'collapse'])
        t = xsd.String(whiteSpace=ws, enumeration=['a b'])
        text = sx.str('t', 3, 4, 'ab \t')
        parts = text.replace('\t', ' ')
        want = text if ws == 'preserve' else parts if ws == 'replace' else ' '.join([x for x in parts.split(' ') if len(x)])
        ok = want == 'a b'
    elif kind == 'totalDigits':
        n = sx.int('n', 1, 3)
        t = xsd.Integer(totalDigits=n)
        v = sx.int('v', -9999, 9999)
        text = str(v)
        ok = sx.or_(sx.and_(n == 1, -9 <= v, v <= 9), sx.and_(n == 2, -99 <= v, v <= 99), sx.and_(n == 3, -999 <= v, v <= 999))
    elif kind == 'fractionDigits':
        n = sx.choice('n', [0, 1, 2])
        t = xsd.Decimal(fractionDigits=n)
        d = sx.str('d', 0, 3, '15')
        text = '1.' + d if len(d) else '1'
        ok = len(d) <= n
    elif kind == 'integer pattern':
        t = xsd.Integer(pattern='[1-5]{2}')
        v = sx.int('v', -99, 999)
        text = str(v)
        ok = sx.truth(v >= 11) and sx.truth(v <= 55) and all('1' <= c and c <= '5' for c in text)
    else:
        t = xsd.Integer(minInclusive=2, maxExclusive=sx.int('b', 3, 9), enumeration=[1, 4, 8])
        v = sx.int('v', 0, 9)
        text = str(v)
        ok = sx.or_(v == 4, v == 8) and sx.truth(v < t.maxExclusive)
    class Thing(xsd.ComplexType):
        v = xsd.Element(t)
    schema = xsd.Schema(NS, complexTypes=[Thing], elements={'r': xsd.Element(Thing)})
    sx.check(sx.truth(validator(schema)(document('inline', text))) == sx.truth(ok), 'the schema accepts exactly what the facet allows')
    sx.reach('valid' if sx.truth(ok) else 'invalid')


INTS = {'Integer': (None, None), 'NonNegativeInteger': (0, None), 'PositiveInteger': (1, None), 'NonPositiveInteger': (None, 0), 'NegativeInteger': (None, -1),
        'Long': (-2 ** 63, 2 ** 63 - 1), 'Int': (-2 ** 31, 2 ** 31 - 1), 'Short': (-2 ** 15, 2 ** 15 - 1), 'Byte': (-128, 127),
        'UnsignedLong': (0, 2 ** 64 - 1), 'UnsignedInt': (0, 2 ** 32 - 1), 'UnsignedShort': (0, 65535), 'UnsignedByte': (0, 255)}


@sx.case(params=[{'name': n, 'where': w} for n in INTS for w in ('element', 'attribute', 'instance')])
def integer_types(name, where):
    """the generated schema has the range of the class"""
    cls = getattr(xsd, name)
    lo, hi = INTS[name]
    t = cls() if where == 'instance' else cls
    thing = type('Thing', (xsd.ComplexType,), {'v': xsd.Attribute(t) if where == 'attribute' else xsd.Element(t)})
    schema = xsd.Schema(NS, complexTypes=[thing], elements={'r': xsd.Element(thing)})
    v = sx.int('v', -2 ** 64, 2 ** 65)
    ok = sx.and_(True if lo is None else v >= lo, True if hi is None else v <= hi)
    sx.check(sx.truth(validator(schema)(document(where, str(v)))) == sx.truth(ok), 'range in the schema')
    sx.check(sx.truth(sx.outcome(thing, v=v).ok) == sx.truth(ok), 'range of the class')


TYPES = {
    'Boolean': (0, 5, 'true10fals'), 'Integer': (0, 3, '-+09.a '), 'Byte': (0, 4, '-+0129'), 'Decimal': (0, 4, '-+0.9e '), 'Double': (0, 3, '0.9x'), 'String': (0, 2, 'xml'),
}


@sx.case(params=[{'name': n, 'where': w} for n in TYPES for w in ('element', 'attribute')], reach=['valid'])
def types(name, where):
    """a text is valid for a built-in type exactly when the class reads it"""
    t = getattr(xsd, name)
    thing = type('Thing', (xsd.ComplexType,), {'v': xsd.Attribute(t) if where == 'attribute' else xsd.Element(t)})
    schema = xsd.Schema(NS, complexTypes=[thing], elements={'r': xsd.Element(thing)})
    text = sx.str('t', *TYPES[name])
    if name != 'String':
        # an empty element is read as no value at all
        sx.assume(len(text.strip(' ')) > 0)
    if name == 'Boolean':
        sx.assume(text != 'nil')
    doc = document(where, text)
    valid = validator(schema)(doc)
    read = sx.outcome(thing.parse_xmlelement, doc)
    sx.check(sx.truth(valid) == sx.truth(read.ok), 'valid exactly when it can be read')
    if valid:
        sx.reach('valid')


@sx.case(params=[{'name': n, 'digits': d} for n, d in (('Date', 'ym'), ('Date', 'd'), ('Date', 'zone'), ('DateTime', 'hms'), ('Time', 'hms'))], reach=['valid'])
def dates(name, digits):
    t = getattr(xsd, name)

    class Thing(xsd.ComplexType):
        v = xsd.Element(t)
    schema = xsd.Schema(NS, complexTypes=[Thing], elements={'r': xsd.Element(Thing)})
    two = lambda n: sx.str(n, 2, 2, 'digits')
    if digits == 'ym':
        text = '20' + two('y') + '-' + two('m') + '-29'
    elif digits == 'd':
        text = '2001-' + sx.choice('m', ['02', '04', '12']) + '-' + two('d')
    elif digits == 'zone':
        text = '2001-01-01' + sx.choice('sign', '+-') + two('h') + ':' + two('mi')
    else:
        h, mi, s = two('h'), two('mi'), two('s')
        sx.assume(h != '24')
        text = ('2001-01-01T' if name == 'DateTime' else '') + h + ':' + mi + ':' + s + sx.choice('z', ['', 'Z', '-05:30'])
    doc = document('inline', text)
    valid = validator(schema)(doc)
    read = sx.outcome(Thing.parse_xmlelement, doc)
    if digits == 'zone':
        # Python knows offsets up to 24 hours, XML Schema up to 14
        sx.check(sx.implies(valid, read.ok), 'what is valid can be read')
    else:
        sx.check(sx.truth(valid) == sx.truth(read.ok), 'valid exactly when it can be read')
    if valid:
        sx.reach('valid')


def tag(form, name):
    return '{urn:s}' + name if form == 'qualified' else name


@sx.case(params=[{'form': f, 'indicator': i} for f in FORMS for i in ('Sequence', 'All', 'Choice')], reach=['valid', 'invalid'])
def content(form, indicator):
    """children: names, order and number"""
    optional = sx.flag('optional')

    class Thing(xsd.ComplexType):
        INDICATOR = getattr(xsd, indicator)
        b = xsd.Element(xsd.String)
        a = xsd.Element(xsd.String, minOccurs=0 if optional else 1, tagname=sx.choice('tagname', [None, 'c']))
    last = 'c' if Thing.a.tagname else 'a'
    schema = xsd.Schema(NS, elementFormDefault=form, complexTypes=[Thing], elements={'r': xsd.Element(Thing)})
    kids = [sx.str('k%d' % i, 1, 1, 'abc') for i in range(sx.choice('n', [0, 1, 2, 3]))]
    other = sx.flag('other form')
    doc = el('{urn:s}r', None, *[el(k if (form == 'qualified') == other else '{urn:s}' + k, 'x') for k in kids])
    legal = {'Sequence': [['b', last]] + [['b']] * optional, 'All': [['b', last], [last, 'b']] + [['b']] * optional, 'Choice': [['b'], [last]] + [[]] * optional}[indicator]
    ok = any(len(kids) == len(l) and all(sx.truth(x == y) for x, y in zip(kids, l)) for l in legal) and (not other or not kids)
    sx.check(sx.truth(validator(schema)(doc)) == sx.truth(ok), 'exactly the declared children')
    sx.reach('valid' if ok else 'invalid')


@sx.case(params=[{'form': f} for f in FORMS], reach=['valid', 'invalid'])
def occurrences(form):
    lo = sx.choice('min', [None, 0, 1, 2])
    hi = sx.choice('max', [None, xsd.UNBOUNDED, 0, 1, 2, 3])
    sx.assume(sx.truth(lo is None or hi in (None, xsd.UNBOUNDED) or lo <= hi))

    class Thing(xsd.ComplexType):
        a = xsd.Element(xsd.String, minOccurs=0)
        many = xsd.ListElement(xsd.String, 'x', minOccurs=lo, maxOccurs=hi, nillable=sx.flag('nillable'))
        z = xsd.Element(xsd.String, minOccurs=0)
    schema = xsd.Schema(NS, elementFormDefault=form, complexTypes=[Thing], elements={'r': xsd.Element(Thing)})
    n = sx.choice('n', [0, 1, 2, 3, 4])
    for e in py2xsd.generate_xsd(schema).iter('{http://www.w3.org/2001/XMLSchema}element'):
        if e.get('name') == 'x':
            sx.check(sx.truth(e.get('maxOccurs', '1') == ('unbounded' if hi in (None, xsd.UNBOUNDED) else str(hi)) and e.get('minOccurs', '1') == str(lo or 0)), 'number in the schema')
    # libxml2 lets elements pass that must not occur
    sx.assume(sx.truth(hi != 0 or n == 0))
    kids = [el(tag(form, 'x'), 't') for i in range(n)]
    nil = n > 0 and sx.flag('nil')
    if nil:
        kids[-1] = el(tag(form, 'x'), None, **{'{http://www.w3.org/2001/XMLSchema-instance}nil': 'true'})
    if sx.flag('a'):
        kids.insert(0, el(tag(form, 'a'), 't'))
    if sx.flag('z'):
        kids.append(el(tag(form, 'z'), 't'))
    ok = n >= (lo or 0) and (hi is None or hi is xsd.UNBOUNDED or n <= hi) and (not nil or Thing.many.nillable)
    sx.check(sx.truth(validator(schema)(el('{urn:s}r', None, *kids))) == sx.truth(ok), 'exactly the declared number')
    sx.reach('valid' if ok else 'invalid')


@sx.case(params=[{'inherited': i} for i in (False, True)], reach=['valid', 'invalid'])
def attributes(inherited):
    use = sx.choice('use', [xsd.Use.REQUIRED, xsd.Use.OPTIONAL, xsd.Use.PROHIBITED])
    tagname = sx.choice('tagname', [None, 'the-tag'])

    class Base(xsd.ComplexType):
        att = xsd.Attribute(xsd.Integer if use == xsd.Use.PROHIBITED else sx.choice('type', [xsd.Integer, xsd.Integer(maxInclusive=5)]), use=use, tagname=tagname)
        e = xsd.Element(xsd.String, minOccurs=0)
    Thing = Base
    if inherited:
        class Thing(Base):
            more = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)
    schema = xsd.Schema(NS, complexTypes=[Base, Thing] if inherited else [Thing], elements={'r': xsd.Element(Thing)})
    attrs = {}
    name = sx.choice('name', [None, 'att', 'the-tag', 'more', '{urn:s}att'])
    if name:
        attrs[name] = str(sx.int('v', 0, 9))
    if sx.flag('both') and name != (tagname or 'att'):
        attrs[tagname or 'att'] = '4'
    doc = el('{urn:s}r', None, **attrs)
    known = [tagname or 'att'] + ['more'] * inherited
    here = attrs.get(tagname or 'att')
    ok = all(k in known for k in attrs)
    if here is None:
        ok = ok and use != xsd.Use.REQUIRED
    else:
        ok = ok and use != xsd.Use.PROHIBITED and sx.truth(isinstance(Base.att._passed_type, type) or int(here) <= 5)
    sx.check(sx.truth(validator(schema)(doc)) == sx.truth(ok), 'exactly the declared attributes')
    sx.reach('valid' if ok else 'invalid')


@sx.case(params=[{'kind': k} for k in ('nested', 'inherited', 'recursive', 'twice', 'group', 'attribute group', 'deep group')], reach=['valid', 'invalid'])
def structures(kind):
    """classes made of other classes"""
    class G(xsd.Group):
        g1 = xsd.Element(xsd.String)
        g2 = xsd.Element(xsd.Integer, minOccurs=0, tagname='g-two')

    class AG(xsd.AttributeGroup):
        x = xsd.Attribute(xsd.Integer)

    class Outer(xsd.Group):
        o = xsd.Element(xsd.String)
        g = xsd.Ref(G)

    class Inner(xsd.ComplexType):
        i = xsd.Element(xsd.String(enumeration=['A', 'B']))
    extra = []
    if kind == 'nested':
        class Thing(xsd.ComplexType):
            a = xsd.Element(Inner)
            l = xsd.ListElement(Inner, 'b')
        flat = ['a', 'b', 'b']
    elif kind == 'inherited':
        class Base(xsd.ComplexType):
            a = xsd.Element(xsd.String)

        class Middle(Base):
            INHERITANCE = xsd.Inheritance.EXTENSION
            b = xsd.Element(xsd.String)

        class Thing(Middle):
            INHERITANCE = xsd.Inheritance.EXTENSION
            c = xsd.Element(xsd.String)
        extra = [Middle, Base]
        flat = ['a', 'b', 'c']
    elif kind == 'recursive':
        class Thing(xsd.ComplexType):
            a = xsd.Element(xsd.String)
            b = xsd.Element(xsd.String, minOccurs=0)
        flat = ['a', 'b']
    elif kind == 'twice':
        class Thing(xsd.ComplexType):
            a = xsd.Element(Inner)
            b = xsd.Element(Inner)
        flat = ['a', 'b']
    elif kind == 'group':
        class Thing(xsd.ComplexType):
            a = xsd.Element(xsd.String)
            g = xsd.Ref(G)
            b = xsd.Element(xsd.String)
        flat = ['a', 'g1', 'g-two', 'b']
    elif kind == 'deep group':
        class Thing(xsd.ComplexType):
            g = xsd.Ref(Outer)
            b = xsd.Element(xsd.String)
        flat = ['o', 'g1', 'g-two', 'b']
    else:
        class Thing(xsd.ComplexType):
            a = xsd.Element(xsd.String)
            g = xsd.Ref(AG)
        flat = ['a']
    form = sx.choice('form', FORMS)
    schema = xsd.Schema(NS, elementFormDefault=form, complexTypes=[Inner, Thing] + extra, groups=[G, Outer], attributeGroups=[AG], elements={'r': xsd.Element(Thing)})
    inner = kind == 'twice' or kind == 'nested'
    skip = sx.choice('skip', [None] + list(range(len(flat))))
    swap = sx.flag('swap') if len(flat) > 1 else False
    text = sx.str('t', 1, 1, 'AB0')
    order = [n for i, n in enumerate(flat) if i != skip]
    if swap:
        order = [order[-1]] + order[:-1]
    attrs = {'x': text} if kind == 'attribute group' and sx.flag('x') else {}
    values = {}
    doc = el('{urn:s}r', None, *[el(tag(form, n), None, el(tag(form, 'i'), text)) if inner else el(tag(form, n), text) for n in order], **attrs)
    want = [n for n in flat if n != 'g-two' and not (n == 'b' and kind in ('nested', 'recursive'))]
    ok = [n for n in order if n in want] == want and [n for n in flat if n in order] == (order if kind != 'nested' else sorted(set(order)))
    if kind == 'nested':
        ok = len(order) > 0 and order[0] == 'a' and 'a' not in order[1:]
    if 'g-two' in order:
        ok = ok and sx.truth(text == '0')
    if inner:
        ok = ok and sx.truth(text != '0')
    if kind == 'attribute group':
        ok = ok and 'x' in attrs and sx.truth(text == '0')
    sx.check(sx.truth(validator(schema)(doc)) == sx.truth(ok), 'exactly the declared structure')
    sx.reach('valid' if ok else 'invalid')


@sx.case(params=[{'form': f} for f in FORMS], reach=['written', 'refused'])
def written(form):
    """what a class writes is valid for its schema"""
    class Inner(xsd.ComplexType):
        code = xsd.Element(xsd.String(enumeration=['A', 'B']))
        day = xsd.Element(xsd.Date, minOccurs=0)

    class G(xsd.Group):
        gn = xsd.Element(xsd.Integer)

    class Size(xsd.String):
        enumeration = ['S', 'L']

    class Base(xsd.ComplexType):
        text = xsd.Element(xsd.String(minLength=1, maxLength=2))
        number = xsd.Element(xsd.Short(minInclusive=-5), minOccurs=0, nillable=True)

    class Thing(Base):
        flag = xsd.Element(xsd.Boolean, tagname='is')
        items = xsd.ListElement(Size, 'item', minOccurs=0, maxOccurs=2)
        inner = xsd.Element(Inner, minOccurs=0)
        g = xsd.Ref(G)
        att = xsd.Attribute(xsd.Decimal(maxExclusive=3), use=xsd.Use.OPTIONAL)
    schema = xsd.Schema(NS, elementFormDefault=form, simpleTypes=[Size], complexTypes=[Inner, Base, Thing], groups=[G], elements={'r': xsd.Element(Thing)})
    t = Thing(flag=sx.bool('f'))
    o = []

    def put(f, *a):
        o.append(sx.outcome(f, *a).ok)
    put(setattr, t, 'text', sx.str('text', 0, 3, 'ab<'))
    part = sx.choice('part', ['number', 'nil', 'items', 'inner', 'att'])
    if part == 'number':
        put(setattr, t, 'number', sx.int('number', -9, 40000))
    elif part == 'nil':
        put(setattr, t, 'number', xsd.NIL)
    elif part == 'items':
        for i in range(sx.choice('n', [0, 1, 2])):
            put(t.items.append, sx.str('i%d' % i, 1, 1, 'SLx'))
    elif part == 'inner':
        t.inner = Inner()
        put(setattr, t.inner, 'code', sx.str('code', 1, 1, 'ABx'))
    elif part == 'att':
        put(setattr, t, 'att', sx.int('att', 0, 5))
    t.g.gn = sx.int('gn', -5, 5)
    if not all(o):
        sx.reach('refused')
        return
    e = etree.fromstring(t.xml('r', namespace=NS, elementFormDefault=form))
    sx.check(sx.truth(validator(schema)(e)), 'what is written is valid')
    sx.reach('written')


@sx.case(reach=['valid', 'invalid'])
def parsing_with_a_schema():
    """parsexml and xml with a schema pass on exactly the valid documents"""
    class Thing(xsd.ComplexType):
        a = xsd.Element(xsd.String(maxLength=2))
        n = xsd.Element(xsd.Integer, minOccurs=0)
    schema = xsd.Schema(NS, complexTypes=[Thing], elements={'r': xsd.Element(Thing)})
    how = sx.choice('how', ['soapfish', 'lxml'])
    s = schema if how == 'soapfish' else etree.XMLSchema(py2xsd.generate_xsd(schema))
    text = sx.str('t', 0, 3, 'ab')
    n = sx.str('n', 1, 2, '5x')
    kids = [el('a', text)]
    if sx.flag('has n'):
        kids.append(el('n', n))
    if sx.flag('surplus'):
        kids.append(el('zzz', 'x'))
    ok = len(text) <= 2 and 'zzz' not in [k.tag for k in kids] and (len(kids) == 1 or 'x' not in n)
    o = sx.outcome(Thing.parsexml, etree.tostring(el('{urn:s}r', None, *kids)), schema=s)
    sx.check(sx.truth(o.ok == ok), 'parses exactly the valid documents')
    if ok:
        sx.check(sx.truth((o.value.a or '') == text), 'value')
        sx.check(sx.truth(o.value.n == int(n)) if len(kids) > 1 else sx.truth(o.value.n is None), 'number')
    sx.reach('valid' if ok else 'invalid')
    if how == 'lxml':
        t = Thing(a='ab')
        root = sx.str('root', 1, 1, 'rq')
        w = sx.outcome(t.xml, root, namespace=NS, schema=s)
        sx.check(sx.truth(w.ok == (root == 'r')), 'writes exactly valid documents')


@sx.case(params=[{'kind': k} for k in ('class', 'name', 'instance', 'simple', 'simple class', 'substitution')], reach=['valid', 'invalid'])
def roots(kind):
    """the elements of the schema"""
    class Thing(xsd.ComplexType):
        a = xsd.Element(xsd.Integer)

    class Other(xsd.ComplexType):
        b = xsd.Element(xsd.String)

    class Code(xsd.String):
        maxLength = 1
    Thing.__module__ = 'props_p19_types'
    elements = {'other': xsd.Element(Other)}
    if kind == 'class':
        elements['r'] = xsd.Element(Thing)
    elif kind == 'name':
        sx.patch(xsd, 'import_type', lambda name: {'m.Thing': Thing}[name])
        elements['r'] = xsd.Element('m.Thing')
    elif kind == 'instance':
        elements['r'] = xsd.Element(Thing())
    elif kind == 'simple':
        elements['r'] = xsd.Element(xsd.String(maxLength=1))
    elif kind == 'simple class':
        elements['r'] = xsd.Element(Code)
    else:
        head = sx.str('head', 2, 4, 'sn:')
        sx.assume(':' not in head)
        elements[head] = xsd.Element(Thing)
        elements['r'] = xsd.Element(Thing, substitutionGroup='sns:' + head if sx.flag('prefix') else head)
    simple = kind.startswith('simple')
    form = sx.choice('form', FORMS)
    used = {'instance': [Other], 'simple': [], 'simple class': []}.get(kind, [Thing, Other])
    if Other not in used:
        del elements['other']
    elif kind == 'instance' and sx.flag('only'):
        used = []
        del elements['other']
    schema = xsd.Schema(NS, elementFormDefault=form, simpleTypes=[Code], complexTypes=used, elements=elements)
    name = sx.str('root', 1, 2, 'rq')
    ns = sx.choice('ns', [NS, 'urn:other', None])
    text = sx.str('t', 1, 2, '5')
    full = name if ns is None else '{%s}%s' % (ns, name)
    doc = el(full, text) if simple else el(full, None, el(tag(form, 'a'), text))
    ok = ns == NS and sx.truth(name == 'r') and (not simple or len(text) == 1)
    sx.check(sx.truth(validator(schema)(doc)) == sx.truth(ok), 'exactly the declared root elements')
    sx.reach('valid' if ok else 'invalid')


@sx.case(params=[{'shape': s} for s in ('two', 'include', 'import', 'deep', 'three')], reach=['valid', 'invalid'])
def several(shape):
    """schemas that include and import others"""
    def make(letter, base=xsd.String, ns=None, **kw):
        cls = type('T' + letter, (xsd.ComplexType,), {letter: xsd.Element(base(enumeration=[letter]))})
        return cls, xsd.Schema(ns or 'urn:' + letter, complexTypes=[cls], elements={'r' + letter: xsd.Element(cls)}, **kw)
    A, a = make('a', location=sx.choice('location', ['a.xsd', 'http://x/a.xsd', 'dir/a']), ns='urn:m' if shape in ('include', 'deep') else None)
    known = {'a': 'urn:m' if shape in ('include', 'deep') else 'urn:a'}
    if shape == 'two':
        B, b = make('b')
        schemas = [a, b]
        known['b'] = 'urn:b'
    elif shape == 'three':
        B, b = make('b')
        C, c = make('c', imports=[a])
        schemas = [b, c] if sx.flag('order') else [c, b]
        known.update(b='urn:b', c='urn:c')
    elif shape == 'include':
        class M(xsd.ComplexType):
            x = xsd.Element(A)
        schemas = [xsd.Schema('urn:m', complexTypes=[M], includes=[a], elements={'rm': xsd.Element(M)})]
    elif shape == 'import':
        schemas = [xsd.Schema('urn:m', imports=[a])]
    else:
        b = xsd.Schema('urn:m', includes=[a], location='b.xsd')
        schemas = [xsd.Schema('urn:m', includes=[b])]
    valid = validator(*schemas)
    which = sx.choice('which', ['a', 'b', 'c', 'm'])
    ns = sx.choice('ns', ['urn:a', 'urn:b', 'urn:c', 'urn:m'])
    text = sx.str('t', 1, 1, 'abc')
    if which == 'm':
        doc = el('{%s}rm' % ns, None, el('x', None, el('a', text)))
        ok = shape == 'include' and ns == 'urn:m' and sx.truth(text == 'a')
    else:
        doc = el('{%s}r%s' % (ns, which), None, el(which, text))
        ok = known.get(which) == ns and sx.truth(text == which)
    sx.check(sx.truth(valid(doc)) == sx.truth(ok), 'each message is judged by the schema of its namespace')
    sx.reach('valid' if ok else 'invalid')


@sx.case(params=[{'form': f, 'indicator': i} for f in FORMS for i in ('Sequence', 'All', 'Choice')], reach=['valid', 'invalid'])
def three_children(form, indicator):
    class Thing(xsd.ComplexType):
        INDICATOR = getattr(xsd, indicator)
        a = xsd.Element(xsd.String)
        b = xsd.Element(xsd.String)
        c = xsd.Element(xsd.String, minOccurs=0)
    schema = xsd.Schema(NS, elementFormDefault=form, complexTypes=[Thing], elements={'r': xsd.Element(Thing)})
    kids = [sx.choice('k%d' % i, 'abc') for i in range(sx.choice('n', [0, 1, 2, 3]))]
    doc = el('{urn:s}r', None, *[el(tag(form, k), 'x') for k in kids])
    seq = ''.join(kids)
    ok = {'Sequence': seq in ('ab', 'abc'), 'All': sorted(seq) in (['a', 'b'], ['a', 'b', 'c']), 'Choice': len(seq) < 2}[indicator]
    sx.check(sx.truth(validator(schema)(doc)) == sx.truth(ok), 'exactly the declared children')
    sx.reach('valid' if ok else 'invalid')


@sx.case(params=[{'kind': k, 'how': h} for k in ('minInclusive', 'maxInclusive', 'minExclusive', 'maxExclusive') for h in ('inline', 'derived', 'attribute')], reach=['valid', 'invalid'])
def repeated_facets(kind, how):
    """a facet that says again, in another form, what the base says"""
    n = sx.int('n', -9, 9)
    base = type('Code', (xsd.Integer,), {kind: n})
    again = sx.choice('again', ['number', 'text', 'none'])
    args = {} if again == 'none' else {kind: n if again == 'number' else str(n)}
    t = base(**args) if how != 'derived' else type('Sub', (base,), args)
    cls = type('Thing', (xsd.ComplexType,), {'v': xsd.Attribute(t) if how == 'attribute' else xsd.Element(t)})
    schema = xsd.Schema(NS, simpleTypes=[base] + [t] * (how == 'derived'), complexTypes=[cls], elements={'r': xsd.Element(cls)})
    v = sx.int('v', -12, 12)
    ok = {'minInclusive': v >= n, 'maxInclusive': v <= n, 'minExclusive': v > n, 'maxExclusive': v < n}[kind]
    sx.check(sx.truth(validator(schema)(document(how, str(v)))) == sx.truth(ok), 'the schema accepts exactly what the facet allows')
    sx.check(sx.truth(sx.outcome(cls, v=v).ok) == sx.truth(ok), 'so does the class')
    sx.reach('valid' if sx.truth(ok) else 'invalid')


@sx.case(params=[{'name': n, 'where': w} for n in ('NMTOKEN', 'NMTOKENS', 'AnyURI', 'QName', 'Base64Binary', 'Duration', 'Float') for w in ('element', 'attribute', 'instance', 'derived')], reach=['valid'])
def string_types(name, where):
    """built-in types of which the classes know little more than the name"""
    base = getattr(xsd, name)
    t = {'instance': lambda: base(), 'derived': lambda: type('Own', (base,), {})}.get(where, lambda: base)()
    thing = type('Thing', (xsd.ComplexType,), {'v': xsd.Attribute(t) if where == 'attribute' else xsd.Element(t)})
    schema = xsd.Schema(NS, simpleTypes=[t] if where == 'derived' else [], complexTypes=[thing], elements={'r': xsd.Element(thing)})
    if name in ('NMTOKEN', 'AnyURI'):
        text = sx.str('t', 1, 3, 'ab.-1')
    elif name == 'NMTOKENS':
        text = sx.str('t', 1, 3, 'ab -')
        sx.assume(len(text.strip(' ')) > 0)
    else:
        text = sx.choice('t', {'QName': ['a', 'a-b'], 'Base64Binary': ['YWI=', 'YWJj'], 'Duration': ['P1Y', 'PT5M', '-P3D'], 'Float': ['1.5', '-2', '1e3']}[name])
    doc = document(where, text)
    sx.check(sx.truth(validator(schema)(doc)), 'valid')
    sx.check(sx.outcome(thing.parse_xmlelement, doc).ok, 'can be read')
    sx.reach('valid')

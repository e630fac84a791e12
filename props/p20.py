"""The classes generated from an XML schema describe the documents that the schema describes."""
import sx
from lxml import etree

from props.gen import XSD, schema, x
from props.p19 import INTS, TYPES, number_facet, string_facet
from soapfish import py2xsd, xsd, xsd2py

BOUNDS = ('every facet with symbolic values on named, derived and inline types, elements and attributes, judged on symbolic texts of 0..3 characters; element, attribute and type names of 1..2 symbolic characters, keywords '
          'and names that are no Python names included; symbolic occurrences 0..3 and unbounded; all indicators, uses and built-in types; derivation, substitution groups, anonymous types; namespaces of 0..2 symbolic printable characters; '
          'documents of 0..3 symbolic children')
OUTSIDE = ('names that differ only in the case of the first letter or in punctuation or that are attributes of xsd.ComplexType, schemas without a namespace, types by list or union, simple content, references to elements, model groups, '
           'nested content models, wildcards, types within element declarations of complex types, maxOccurs of 0')

NS = 'urn:t'
FOREIGN = ['\xe9\u4e2d', 'a\xb7b']


def made(s):
    """the module generated from the schema"""
    return sx.load(xsd2py.generate_code_from_xsd(s))


def schemas(m):
    return [v for k, v in vars(m).items() if isinstance(v, xsd.Schema)]


class Judge:
    """what the schema and what the generated classes say about documents"""

    def __init__(self, s):
        self.want = etree.XMLSchema(s)
        self.module = made(s)
        self.schemas = schemas(self.module)
        sx.check(len(self.schemas) == 1, 'one schema')
        self.check = py2xsd.schema_validator(self.schemas)

    def __call__(self, doc):
        ok = sx.truth(self.want.validate(doc))
        sx.check(sx.outcome(self.check, doc).ok == ok, 'the generated classes describe the same documents')
        sx.reach('valid' if ok else 'invalid')
        return ok


def written(o, name=''):
    """the document written for an object"""
    out = sx.outcome(lambda: etree.fromstring(o.xml('r', namespace=NS)))
    sx.check(out.ok, 'well-formed', known=[('non-ascii-names', any(sx.truth(name == n) for n in FOREIGN))])
    sx.assume(out.ok)
    return out.value


def el(tag, text=None, *kids, **attrs):
    e = etree.Element(tag)
    e.text = text
    for k, v in attrs.items():
        e.set(k, v)
    for k in kids:
        if k is not None:
            e.append(k)
    return e


def restriction(args, base):
    """the facets as XML Schema writes them"""
    kids = []
    for k, v in args.items():
        for one in (v if isinstance(v, list) else [v]):
            kids.append(x(k, value=one if isinstance(one, str) else str(one)))
    return x('restriction', *kids, base=base)


WHERE = ('named', 'inline', 'derived', 'attribute', 'root', 'list')


def described(where, base, args):
    """a schema where the value of a thing has that restriction"""
    simple = x('simpleType', restriction(args, base), name=None if where == 'inline' else 'code')
    parts = [] if where == 'inline' else [simple]
    type_ = 'tns:code'
    if where == 'derived':
        parts.append(x('simpleType', x('restriction', base='tns:code'), name='sub'))
        type_ = 'tns:sub'
    if where == 'root':
        parts.append(x('element', name='r', type=type_))
        return schema(*parts)
    if where == 'attribute':
        parts.append(x('complexType', x('attribute', name='v', type=type_), name='thing'))
    else:
        e = x('element', simple, name='v') if where == 'inline' else x('element', name='v', type=type_, maxOccurs='3' if where == 'list' else None)
        parts.append(x('complexType', x('sequence', e), name='thing'))
    return schema(*parts, x('element', name='r', type='tns:thing'))


def document(where, text):
    if where == 'root':
        return el('{urn:t}r', text)
    if where == 'attribute':
        return el('{urn:t}r', None, v=text)
    return el('{urn:t}r', None, el('v', text))


@sx.case(params=[{'where': w, 'kind': k} for w in WHERE for k in ('length', 'minLength', 'maxLength', 'range', 'enumeration', 'pattern')], reach=['valid', 'invalid'])
def strings(where, kind):
    args, legal = string_facet(kind)
    judge = Judge(described(where, 'xs:string', args))
    text = sx.str('t', 0, 3, 'ab0')
    ok = judge(document(where, text))
    sx.check(ok == sx.truth(legal(text)), 'the meaning of the facet')
    if where in ('root', 'list'):
        return
    sx.check(sx.truth(sx.outcome(judge.module.Thing, v=text).ok) == ok, 'so does the class')


@sx.case(params=[{'where': w, 'kind': k} for w in WHERE for k in ('minInclusive', 'maxInclusive', 'minExclusive', 'maxExclusive', 'enumeration')], reach=['valid', 'invalid'])
def numbers(where, kind):
    args, legal = number_facet(kind)
    judge = Judge(described(where, 'xs:' + (sx.choice('type', ['integer', 'short', 'decimal']) if where == 'named' else 'integer'), args))
    v = sx.int('v', -40, 40)
    ok = judge(document(where, str(v)))
    sx.check(ok == sx.truth(legal(v)), 'the meaning of the facet')
    if where in ('root', 'list'):
        return
    sx.check(sx.truth(sx.outcome(judge.module.Thing, v=v).ok) == ok, 'so does the class')


@sx.case(params=[{'quote': q} for q in ('enumeration', 'pattern')], reach=['valid', 'invalid'])
def awkward_texts(quote):
    """facet values of any characters"""
    value = sx.str('e', 1, 2, 'a\'"\\{%#\n') if quote == 'enumeration' else sx.choice('p', ["'", '"+', 'a\\\\', "\\d'", '\\\\', 'a{1,2}', '\\{\\{a', "[']\\\\", ''])
    judge = Judge(described(sx.choice('where', ['named', 'inline', 'attribute']), 'xs:string', {quote: value}))
    text = sx.str('t', 0, 2, 'a\'"\\{%#\n')
    cls = judge.module.Thing
    ok = sx.outcome(cls, v=text).ok
    if quote == 'enumeration':
        sx.check(sx.truth(ok) == sx.truth(text == value), 'the same value')
    else:
        sx.check(sx.truth(ok) == sx.truth(sx.outcome(xsd.String(pattern=value).accept, text).ok), 'the same pattern')
    sx.reach('valid' if ok else 'invalid')


@sx.case(params=[{'kind': k} for k in ('totalDigits', 'whiteSpace', 'pattern and number', 'two')], reach=['valid', 'invalid'])
def other_facets(kind):
    """the facets that are no limits, and several at once"""
    base, where = 'xs:integer', sx.choice('where', ['named', 'inline', 'derived', 'attribute'])
    v = sx.int('v', -9999, 9999) if kind == 'totalDigits' else sx.int('v', -9, 99)
    if kind == 'totalDigits':
        n = sx.int('n', 1, 3)
        args = {kind: n}
        ok = sx.or_(sx.and_(n == 1, -9 <= v, v <= 9), sx.and_(n == 2, -99 <= v, v <= 99), sx.and_(n == 3, -999 <= v, v <= 999))
    elif kind == 'whiteSpace':
        ws, base, v = sx.choice('ws', ['preserve', 'replace', 'collapse']), 'xs:string', sx.str('t', 3, 4, 'ab \t')
        args = {'whiteSpace': ws, 'enumeration': 'a b'}
        parts = v.replace('\t', ' ')
        ok = (v if ws == 'preserve' else parts if ws == 'replace' else ' '.join([w for w in parts.split(' ') if len(w)])) == 'a b'
    elif kind == 'two':
        b = sx.int('b', 3, 9)
        args = {'minInclusive': 2, 'maxExclusive': b}
        ok = sx.and_(v >= 2, v < b)
    else:
        args = {'pattern': '[1-5]{2}', 'maxInclusive': 40}
        ok = sx.and_(v >= 11, v <= 40, v % 10 >= 1, v % 10 <= 5)
    judge = Judge(described(where, base, args))
    got = judge(document(where, v if kind == 'whiteSpace' else str(v)))
    sx.check(got == sx.truth(ok), 'the meaning of the facets')
    sx.check(sx.truth(sx.outcome(judge.module.Thing, v=v).ok) == got, 'so does the class')


BUILTIN = ['string', 'boolean', 'date', 'dateTime', 'time', 'decimal', 'double', 'float', 'anyURI', 'QName', 'NMTOKEN', 'base64Binary', 'duration'] + [n[0].lower() + n[1:] for n in INTS]


@sx.case(params=[{'prefix': p} for p in ('xs', 'xsd', 'default', 'own default')])
def builtin_types(prefix):
    """every built-in type becomes the class of that name, however the document calls the namespace"""
    p = {'xs': 'xs', 'xsd': 'xsd', 'default': None, 'own default': 'q'}[prefix]
    name = sx.choice('type', BUILTIN)
    where = sx.choice('where', ['element', 'attribute', 'restriction', 'root', 'list'])
    t = name if p is None else p + ':' + name
    nsmap = {p: XSD, 'tns' if prefix != 'own default' else None: NS}
    own = '' if prefix == 'own default' else 'tns:'

    def y(tag, *kids, **attrs):
        e = etree.Element('{%s}%s' % (XSD, tag), nsmap=nsmap)
        for k, v in attrs.items():
            e.set(k, v)
        for k in kids:
            e.append(k)
        return e
    parts = []
    if where == 'restriction':
        parts.append(y('simpleType', y('restriction', base=t), name='code'))
    elif where != 'root':
        if where == 'attribute':
            parts.append(y('complexType', y('attribute', name='v', type=t), name='thing'))
        else:
            parts.append(y('complexType', y('sequence', y('element', name='v', type=t, maxOccurs='5' if where == 'list' else '1')), name='thing'))
    parts.append(y('element', name='r', type=own + 'code' if where == 'restriction' else own + 'thing' if where != 'root' else t))
    m = made(y('schema', *parts, targetNamespace=NS))
    cls = getattr(xsd, name[0].upper() + name[1:])
    if where == 'restriction':
        sx.check(m.Code.__bases__ == (cls,), 'base class')
    elif where == 'root':
        sx.check(type(schemas(m)[0].elements['r']._type) is cls, 'type of the root element')
    else:
        sx.check(type(m.Thing.v._type) is cls, 'type of the field')


@sx.case(params=[{'theirs': a, 'own': b} for a, b in (('s', 'xs'), ('s', 'xsd'), (None, 'xsd'), ('xs', None), ('xs', 'xsd'), ('xsd', 'xs'), ('tns', 'q'), ('b', 'a'))],
         reach=['valid', 'invalid'])
def own_types(theirs, own):
    """own types, also with names of built-in ones, under any prefix"""
    nsmap = {theirs: XSD, own: NS}

    def q(prefix, name):
        return name if prefix is None else prefix + ':' + name

    def y(tag, *kids, **attrs):
        e = etree.Element('{%s}%s' % (XSD, tag), nsmap=nsmap)
        for k, v in attrs.items():
            if v is not None:
                e.set(k, v)
        for k in kids:
            if k is not None:
                e.append(k)
        return e
    name = sx.choice('name', ['code', 'string', 'integer', 'xsd', 'xs'])
    where = sx.choice('where', ['element', 'attribute', 'list', 'restriction', 'root', 'extension', 'complex'])
    other = q(theirs, 'string')
    if where in ('extension', 'complex'):
        parts = [y('complexType', y('sequence', y('element', y('simpleType', y('restriction', y('maxLength', value='1'), base=other)), name='v')), name=name)]
        body = y('complexContent', y('extension', base=q(own, name))) if where == 'extension' else y('sequence', y('element', name='w', type=q(own, name)))
        parts.append(y('complexType', body, name='thing'))
    else:
        parts = [y('simpleType', y('restriction', y('maxLength', value='1'), base=other), name=name)]
        t = q(own, name)
        if where == 'restriction':
            facet = sx.choice('facet', ['none', 'enumeration', 'pattern'])
            own_facets = {'none': [], 'enumeration': [y('enumeration', value=v) for v in ('a', 'b')], 'pattern': [y('pattern', value='a|b')]}[facet]
            parts.append(y('simpleType', y('restriction', *own_facets, base=t), name='thing'))
        elif where == 'attribute':
            parts.append(y('complexType', y('attribute', name='v', type=t), y('attribute', name='u', type=other), name='thing'))
        elif where != 'root':
            parts.append(y('complexType', y('sequence', y('element', name='u', type=other, minOccurs='0'), y('element', name='v', type=t, maxOccurs='2' if where == 'list' else None)), name='thing'))
    if sx.flag('reverse'):
        parts.reverse()
    parts.append(y('element', name='r', type=q(own, name if where == 'root' else 'thing')))
    judge = Judge(y('schema', *parts, targetNamespace=NS))
    text = sx.str('t', 1, 2, 'ab')
    if where in ('root', 'restriction'):
        doc = el('{urn:t}r', text)
    elif where == 'attribute':
        doc = el('{urn:t}r', None, v=text, u='long')
    elif where == 'complex':
        doc = el('{urn:t}r', None, el('w', None, el('v', text)))
    else:
        doc = el('{urn:t}r', None, el('u', 'long') if where != 'extension' else None, el('v', text))
    ok = judge(doc)
    sx.check(ok == (len(text) == 1), 'the own type counts')
    if ok and where not in ('root', 'restriction'):
        o = judge.module.Thing.parse_xmlelement(doc)
        v = o.w.v if where == 'complex' else o.v
        sx.check((v[0] if where == 'list' else v) == text, 'value')


@sx.case(params=[{'name': n, 'where': w} for n in TYPES for w in ('element', 'attribute')])
def texts_of_types(name, where):
    """a text is valid for a built-in type exactly when the generated class reads it"""
    t = 'xs:' + name[0].lower() + name[1:]
    field = x('attribute', name='v', type=t) if where == 'attribute' else x('sequence', x('element', name='v', type=t))
    judge = Judge(schema(x('complexType', field, name='thing'), x('element', name='r', type='tns:thing')))
    text = sx.str('t', *TYPES[name])
    if name != 'String':
        sx.assume(len(text.strip(' ')) > 0)
    if name == 'Boolean':
        sx.assume(text != 'nil')
    doc = document(where, text)
    ok = judge(doc)
    sx.check(sx.truth(sx.outcome(judge.module.Thing.parse_xmlelement, doc).ok) == ok, 'reads it')


SPECIAL = ['class', 'None', 'none', 'true', 'print', 'self', 'cls', 'instance', 'a-b.c', 'a_b', '_'] + FOREIGN


def name_(lo=1):
    if sx.flag('special name'):
        return sx.choice('special', SPECIAL)
    return sx.str('name', lo, 3 if sx.tier() == 'thorough' else 2, 'aifs-.1_', 'aifs_')


@sx.case(params=[{'what': w} for w in ('element', 'list', 'attribute', 'type', 'simple type', 'all')], reach=['valid', 'invalid'])
def names(what):
    """any legal name can be used, in Python under a legal name of its own"""
    name, other = sx.choice('under', ['__', '_-', '']), sx.str('other', 2, 2, 'aifs-', 'aif')
    name = name + sx.str('rest', 1, 1, 'aif-') if name else name_()
    field, simple, type_ = 'e', [], 'thing'
    att = x('attribute', name=name if what == 'attribute' else 'at', type='xs:string')
    if what in ('element', 'list', 'all'):
        field = name
    if what == 'simple type':
        simple = [x('simpleType', x('restriction', x('maxLength', value='1'), base='xs:string'), name=name)]
    if what == 'type':
        type_ = name
    e = x('element', name=field, type='tns:' + name if what == 'simple type' else 'xs:string', maxOccurs='2' if what == 'list' else None)
    if what == 'all':
        body = x('all', e)
    else:
        body = x('sequence', e)
    judge = Judge(schema(*simple, x('complexType', body, att, name=type_), x('element', name='r', type='tns:' + type_)))
    if sx.flag('same'):
        other = name
    wrong = what in ('type', 'simple type') and sx.flag('wrong child')
    doc = el('{urn:t}r', None, el(other if what in ('element', 'list', 'all') else 'x' if wrong else 'e', 't'))
    doc.set(other if what == 'attribute' else 'at', 'u')
    if judge(doc):
        cls = type(judge.schemas[0].elements['r']._type)
        o = cls.parse_xmlelement(doc)
        copy = written(o, name if what in ('element', 'list', 'all', 'attribute') else '')
        sx.check(sx.truth(judge.want.validate(copy)) and sx.truth(copy[0].text == 't') and sx.truth(copy[0].tag == (field if what in ('element', 'list', 'all') else 'e')), 'reads and writes')
        sx.check(sx.truth(copy.get(other if what == 'attribute' else 'at') == 'u'), 'attributes')


@sx.case(params=[{'what': w} for w in ('element', 'attribute')], reach=['valid'])
def pairs_of_names(what):
    """names that differ in more than punctuation get Python names of their own"""
    a, b = 'a' + sx.str('a', 1, 2, 'b-.'), sx.choice('b', ['a-b', 'a--b', 'ab'])
    sx.assume(a.replace('.', '-') != b.replace('.', '-'))
    if what == 'element':
        t = x('complexType', x('sequence', x('element', name=a, type='xs:string'), x('element', name=b, type='xs:string')), name='thing')
        doc = el('{urn:t}r', None, el(a, 't'), el(b, 'u'))
    else:
        t = x('complexType', x('sequence', x('element', name='e', type='xs:string')), x('attribute', name=a, type='xs:string'), x('attribute', name=b, type='xs:string', use='required'), name='thing')
        doc = el('{urn:t}r', None, el('e', 'x'))
        doc.set(a, 't')
        if sx.flag('second'):
            doc.set(b, 'u')
    judge = Judge(schema(t, x('element', name='r', type='tns:thing')))
    if judge(doc):
        o = judge.module.Thing.parse_xmlelement(doc)
        copy = etree.fromstring(o.xml('r'))
        if what == 'element':
            sx.check(sx.truth(len(copy) == 2 and copy[0].tag == a and copy[0].text == 't' and copy[1].tag == b and copy[1].text == 'u'), 'both elements')
        else:
            sx.check(sx.truth(copy.get(a) == 't' and copy.get(b) == 'u'), 'both attributes')


def count(name, options):
    return sx.choice(name, options)


@sx.case(params=[{'indicator': i, 'form': f} for i in ('sequence', 'choice', 'all') for f in ('qualified', 'unqualified', None)], reach=['valid', 'invalid'])
def content(indicator, form):
    """children: names, order, number, form"""
    los = [sx.choice('min%d' % i, [None, '0', '1']) for i in range(2)]
    s = schema(x('complexType', x(indicator, *[x('element', name='ab'[i], type='xs:string', minOccurs=los[i]) for i in range(2)]), name='thing'),
               x('element', name='r', type='tns:thing'), elementFormDefault=form)
    judge = Judge(s)
    kids = [sx.str('k%d' % i, 1, 1, 'abc') for i in range(sx.choice('n', [0, 1, 2, 3] if sx.tier() == 'thorough' else [0, 1, 2]))]
    full = sx.flag('qualified')
    doc = el('{urn:t}r', None, *[el('{urn:t}' + k if full else k, 'x') for k in kids])
    if judge(doc) and indicator != 'choice':
        o = judge.module.Thing.parse_xmlelement(doc)
        for f in 'ab':
            sx.check(sx.truth(getattr(o, f) == 'x') == sx.truth(any(sx.truth(k == f) for k in kids)), 'values')
        copy = etree.fromstring(o.xml('r', namespace=NS, elementFormDefault=form or 'unqualified'))
        sx.check(sx.truth(judge.want.validate(copy)), 'what is written is valid')


@sx.case(params=[{'type_': t} for t in ('xs:string', 'tns:code', 'tns:inner', 'inline')], reach=['valid', 'invalid'])
def occurrences(type_):
    lo = sx.choice('min', [None, '0', '1', '2', '3'])
    hi = sx.choice('max', [None, 'unbounded', '1', '2', '3'])
    sx.assume(sx.truth(int(lo or 1) <= (9 if hi == 'unbounded' else int(hi or 1))))
    nillable = sx.choice('nillable', [None, 'true', 'false', '1'])
    inline = x('simpleType', x('restriction', x('enumeration', value='A'), base='xs:string'))
    e = x('element', inline if type_ == 'inline' else None, name='item', type=None if type_ == 'inline' else type_, minOccurs=lo, maxOccurs=hi, nillable=nillable)
    s = schema(x('simpleType', x('restriction', x('enumeration', value='A'), base='xs:string'), name='code'),
               x('complexType', x('sequence', x('element', name='i', type='tns:code')), name='inner'),
               x('complexType', x('sequence', x('element', name='a', type='xs:string', minOccurs='0'), e, x('element', name='z', type='xs:string', minOccurs='0')), name='thing'),
               x('element', name='r', type='tns:thing'))
    judge = Judge(s)
    n = sx.choice('n', [0, 1, 2, 3, 4] if sx.tier() == 'thorough' else [0, 1, 3])
    text = sx.str('t', 1, 1, 'AB')
    kids = [el('item', None, el('i', text)) if type_ == 'tns:inner' else el('item', text) for i in range(n)]
    if n and sx.flag('nil'):
        kids[-1] = el('item', None, **{'{http://www.w3.org/2001/XMLSchema-instance}nil': 'true'})
    ends = sx.choice('ends', ['', 'az', 'za']) if n < 2 else ''
    if ends == 'az':
        kids = [el('a', 'x')] + kids + [el('z', 'x')]
    elif ends == 'za':
        kids = [el('z', 'x')] + kids + [el('a', 'x')]
    doc = el('{urn:t}r', None, *kids)
    if judge(doc):
        o = judge.module.Thing.parse_xmlelement(doc)
        got = [v for v in vars(judge.module.Thing) if v == 'item']
        value = o.item if hi not in ('unbounded', '2', '3') else list(o.item)
        if isinstance(value, list):
            sx.check(len(value) == n, 'number of values')
        else:
            sx.check((value is not None) == (n == 1), 'value')


@sx.case(params=[{'type_': t} for t in ('xs:int', 'tns:code')], reach=['valid', 'invalid'])
def attributes(type_):
    uses = [sx.choice('use%d' % i, [None, 'optional', 'required', 'prohibited']) for i in range(2)]
    body = x('sequence', x('element', name='e', type='xs:string', minOccurs='0')) if sx.flag('sequence') else None
    s = schema(x('simpleType', x('restriction', x('maxInclusive', value='5'), base='xs:int'), name='code'),
               x('complexType', body, *[x('attribute', name='ab'[i], type=type_, use=uses[i]) for i in range(2)], name='thing'),
               x('element', name='r', type='tns:thing'))
    judge = Judge(s)
    doc = el('{urn:t}r')
    for i in range(2):
        n = sx.choice('have%d' % i, [None, 'a', 'b', 'c'] if i == 0 else [None, 'b'])
        if n:
            doc.set(n, str(sx.int('v%d' % i, 0, 9)))
    if judge(doc):
        o = judge.module.Thing.parse_xmlelement(doc)
        for n in 'ab':
            v = doc.get(n)
            sx.check(sx.truth(getattr(o, n) == int(v)) if v is not None else getattr(o, n) is None, 'values')


@sx.case(params=[{'how': h} for h in ('plain', 'extension')], reach=['valid', 'invalid'])
def attribute_groups(how):
    """the attributes of a group belong to the types that refer to it"""
    uses = [sx.choice('use%d' % i, [None, 'optional', 'required']) for i in range(2)]
    named = sx.choice('named', ['group', 'class', 'a-b']) if how == 'plain' and uses == [None, None] else 'group'
    group = x('attributeGroup', *[x('attribute', name='pq'[i], type=['xs:int', 'tns:code'][i], use=uses[i]) for i in range(2)], name=named)
    body = x('sequence', x('element', name='e', type='xs:string', minOccurs='0'))
    ref = x('attributeGroup', ref='tns:' + named)
    parts = [x('simpleType', x('restriction', x('maxInclusive', value='5'), base='xs:int'), name='code'), group]
    if how == 'extension':
        parts += [x('complexType', x('sequence', x('element', name='a', type='xs:string', minOccurs='0')), name='base'),
                  x('complexType', x('complexContent', x('extension', body, ref, base='tns:base')), name='thing')]
    else:
        parts.append(x('complexType', body, x('attribute', name='own', type='xs:int') if sx.flag('own') else None, ref, name='thing'))
    judge = Judge(schema(*parts, x('element', name='r', type='tns:thing')))
    doc = el('{urn:t}r', None, el('e', 'x') if sx.flag('child') else None)
    for i in range(2):
        n = sx.choice('have%d' % i, [None, 'p', 'q', 'o'] if i == 0 else [None, 'q'])
        if n:
            doc.set(n, str(sx.int('v%d' % i, 0, 9)))
    if judge(doc):
        o = judge.module.Thing.parse_xmlelement(doc)
        for n in 'pq':
            v = doc.get(n)
            got = getattr(getattr(o, {'class': '_class', 'a-b': 'a_b'}.get(named, named)), n)
            sx.check(sx.truth(got == int(v)) if v is not None else got is None, 'values')
        copy = written(o)
        sx.check(sx.truth(judge.want.validate(copy)), 'what is written is valid')
        for n in 'pq':
            sx.check(sx.truth(copy.get(n) == doc.get(n)), 'what is written is the same')


@sx.case(params=[{'how': h} for h in ('extension', 'restriction')], reach=['valid', 'invalid'])
def derived(how):
    """derived types have the members of their base and their own, in that order"""
    deep = sx.flag('deep')
    att = sx.choice('att', [None, 'base', 'derived'] if how == 'extension' else [None, 'base'])

    def a(where):
        return x('attribute', name='att', type='xs:int', use='required') if att == where else None
    base = x('complexType', x('sequence', x('element', name='a', type='xs:string', minOccurs='0')), a('base'), name='base')
    inner = x('sequence', x('element', name='b' if how == 'extension' else 'a', type='xs:string'))
    middle = x('complexType', x('complexContent', x(how, inner, a('derived'), base='tns:base')), name='middle')
    parts = [base, middle]
    top = 'middle'
    if deep:
        more = x('sequence', x('element', name='c' if how == 'extension' else 'a', type='xs:string'))
        parts.append(x('complexType', x('complexContent', x(how, more, base='tns:middle')), name='top'))
        top = 'top'
    if sx.flag('reverse'):
        parts.reverse()
    judge = Judge(schema(*parts, x('element', name='r', type='tns:' + top)))
    kids = [sx.str('k%d' % i, 1, 1, 'abc') for i in range(sx.choice('n', [0, 1, 2, 3]))]
    doc = el('{urn:t}r', None, *[el(k, 'x') for k in kids])
    if sx.flag('has att'):
        doc.set('att', '1')
    sx.check(issubclass(judge.module.Middle, judge.module.Base), 'subclass')
    ok = judge(doc)
    if ok:
        cls = getattr(judge.module, top.capitalize())
        o = cls.parse_xmlelement(doc)
        copy = etree.fromstring(o.xml('r', namespace=NS))
        sx.check(sx.truth(judge.want.validate(copy)) and len(copy) == len(kids), 'what is written is valid')


@sx.case(params=[{'kind': k} for k in ('type', 'simple', 'inline', 'anonymous', 'anonymous extension', 'anonymous attributes', 'substitution')], reach=['valid', 'invalid'])
def roots(kind):
    """the elements of the schema"""
    thing = x('complexType', x('sequence', x('element', name='a', type='xs:int')), name='thing')
    anonymous = x('complexType', x('sequence', x('element', name='b', type='xs:int')))
    if kind == 'type':
        e = x('element', name='r', type='tns:thing')
    elif kind == 'simple':
        e = x('element', name='r', type='xs:int')
    elif kind == 'inline':
        e = x('element', x('simpleType', x('restriction', x('maxInclusive', value='7'), base='xs:int')), name='r')
    elif kind == 'anonymous':
        e = x('element', anonymous, name='r')
    elif kind == 'anonymous attributes':
        e = x('element', x('complexType', x('attribute', name='b', type='xs:int')), name='r')
    elif kind == 'anonymous extension':
        e = x('element', x('complexType', x('complexContent', x('extension', x('sequence', x('element', name='b', type='xs:int')), base='tns:thing'))), name='r')
    else:
        e = x('element', name='r', type='tns:thing', substitutionGroup='tns:head')
    more = [x('element', name='head', type='tns:thing')]
    parts = [thing, e] + more
    judge = Judge(schema(*parts))
    name = sx.str('root', 1, 2, 'rq')
    full = '{%s}%s' % (sx.choice('ns', [NS, 'urn:other']), name)
    text = sx.str('t', 1, 1, '59x')
    shape = sx.choice('shape', ['a', 'b', 'ab', 'text', '@b'])
    if shape == 'text':
        doc = el(full, text)
    elif shape == '@b':
        doc = el(full, None, b=text)
    else:
        doc = el(full, None, *[el(c, text) for c in shape])
    if judge(doc):
        element = judge.schemas[0].elements['r']
        if kind == 'substitution':
            sx.check(sx.truth(judge.schemas[0].get_element_by_name('r').substitutionGroup is not None), 'substitution group')
        if kind not in ('simple', 'inline'):
            o = type(element._type).parse_xmlelement(doc)
            for f in [c for c in shape if c in 'ab']:
                sx.check(sx.truth(getattr(o, f) == int(text)), 'values')


@sx.case()
def create():
    """create() of a class takes the required fields in their order"""
    los = [sx.choice('min%d' % i, [None, '0', '1'] if i == 1 else [None, '0', '1', '2']) for i in range(3)]
    names_ = ['a', name_(2), 'c']
    m = made(schema(x('complexType', x('sequence', *[x('element', name=n, type='xs:string', minOccurs=lo, maxOccurs='unbounded' if lo == '2' else None) for n, lo in zip(names_, los)]), name='thing')))
    args = [sx.str('v%d' % i, 1, 1, 'xyz') for i in range(3) if los[i] not in ('0', '2')]
    o = m.Thing.create(*args)
    sx.check(not sx.outcome(m.Thing.create, *(args + ['x'])).ok, 'no further arguments')
    for n, lo in zip(names_, los):
        if lo == '2':
            getattr(o, n).append('i')
            getattr(o, n).append('j')
    doc = [e for e in written(o, names_[1]) if sx.truth(sx.and_(e.text != 'i', e.text != 'j'))]
    want = [(n, v) for n, v in zip([n for n, lo in zip(names_, los) if lo not in ('0', '2')], args)]
    sx.check(len(doc) == len(want), 'required fields only')
    for e, (n, v) in zip(doc, want):
        sx.check(sx.truth(sx.and_(e.tag == n, e.text == v)), 'each argument its field')


@sx.case(params=[{'part': p} for p in ('namespace', 'form')])
def headers(part):
    """namespace and form of the schema"""
    root = sx.flag('root')
    form = sx.choice('form', [None, 'qualified', 'unqualified'])
    ns = 'urn:' + sx.str('ns', 0, 2, 'ascii') if part == 'namespace' else NS
    s = schema(x('complexType', x('sequence', x('element', name='e', type='xs:string')), name='thing'), x('element', name='r', type='tns:thing') if root else None, targetNamespace=ns, elementFormDefault=form)
    m = made(s)
    one = schemas(m)[0]
    sx.check(sx.truth(one.targetNamespace == ns), 'namespace')
    sx.check(one.elementFormDefault == (form or 'unqualified'), 'form')
    sx.check([t.__name__ for t in one.complexTypes] == ['Thing'] and list(one.elements) == (['r'] if root else []), 'contents')

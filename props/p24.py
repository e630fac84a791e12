"""Schema and WSDL documents are read into objects that mean the same, and written back the same."""
import sx
from lxml import etree

from props.gen import HTTP, SOAP, SOAP12, WSDL, XSD, fill, schema, w, x
from soapfish import wsdl11, wsdl12, xsd, xsdspec

BOUNDS = ('documents with every construct that the object models declare, present or absent; symbolic names, references and values of 1..2 printable characters (mark-up, quotes and blanks included), '
          'occurrence limits 0..12 and unbounded, facets of 0..2 characters, up to 2 items of each kind; both SOAP versions')
OUTSIDE = 'constructs that the object models do not declare (any, unions, documentation in schemas, default and fixed values, nested sequences); the order of definitions of different kinds'

TEXT = 'ascii'


def name(label):
    return sx.str(label, 1, 1, TEXT)


def alike(a, b, where=''):
    """the same elements, attributes and text"""
    where = where + '/' + etree.QName(a).localname
    sx.check(sx.truth(a.tag == b.tag), 'element ' + where)
    sx.check(len(a.attrib) == len(b.attrib), 'attributes of ' + where)
    for k, v in a.attrib.items():
        u = b.get(k)
        sx.check(u is not None, 'attribute ' + k + ' of ' + where)
        sx.check(sx.truth(u == v), 'value of ' + k + ' of ' + where)
    sx.check(len(a) == len(b), 'content of ' + where)
    for c, d in zip(a, b):
        alike(c, d, where)
    if len(a) == 0:
        sx.check(sx.truth((a.text or '') == (b.text or '')), 'text of ' + where)


def rewritten(doc, cls, tag, ns):
    """the document, read and written"""
    source = etree.fromstring(etree.tostring(doc))
    o = cls.parse_xmlelement(source)
    out = etree.Element('{%s}%s' % (ns, tag))
    o.render(out, o, namespace=ns, elementFormDefault=xsd.ElementFormDefault.QUALIFIED)
    return o, etree.fromstring(etree.tostring(out))


def kept(doc, **given):
    """check a schema document"""
    doc.set('elementFormDefault', sx.choice('form', ['qualified', 'unqualified']))
    o, out = rewritten(doc, xsdspec.Schema, 'schema', XSD)
    alike(doc, out)
    return o


def some(label, *values):
    return sx.choice(label, [None] + list(values))


FACETS = ['pattern', 'minInclusive', 'minExclusive', 'maxExclusive', 'maxInclusive', 'fractionDigits', 'totalDigits', 'length', 'minLength', 'maxLength', 'whiteSpace']


def some_facets():
    two = sx.choice('one', FACETS), sx.choice('two', FACETS)
    return [f for f in FACETS if f in two]


@sx.case(params=[{'where': p} for p in ('named', 'element', 'attribute')])
def facets(where):
    """restrictions with their facets"""
    n = sx.choice('enumerations', [0, 1, 2])
    values = [sx.str('enum%d' % i, 0, 1, TEXT) for i in range(n)]
    chosen = [f for f in (FACETS if n == 0 else []) if sx.flag('has ' + f)] if sx.tier() == 'thorough' else some_facets() if n == 0 else []
    given = {f: sx.str('value of ' + f, 0, 1, TEXT) for f in chosen}
    r = x('restriction', *[x('enumeration', value=v) for v in values], *[x(f, value=v) for f, v in given.items()], base=name('base'))
    if where == 'named':
        st = x('simpleType', r, name=name('name'))
        o = kept(schema(st)).simpleTypes[0]
    elif where == 'element':
        o = kept(schema(x('element', x('simpleType', r), name=name('name')))).elements[0].simpleType
    else:
        o = kept(schema(x('complexType', x('attribute', x('simpleType', r), name=name('name'))))).complexTypes[0].attributes[0].simpleType
    sx.check(sx.truth(o.restriction.base == r.get('base')), 'base')
    sx.check(len(o.restriction.enumerations) == n and all(sx.truth(e.value == v) for e, v in zip(o.restriction.enumerations, values)), 'enumerations')
    for f in FACETS:
        got = vars(o.restriction).get(f)
        if f in given:
            sx.check(got is not None and sx.truth(got.value == given[f]), f)
        else:
            sx.check(got is None, 'no ' + f)


@sx.case(params=[{'group': g} for g in ('sequence', 'choice', 'all')])
def elements(group):
    """local elements and their properties"""
    def limit(label):
        return str(sx.int(label, 0, 12)) if sx.flag('has ' + label) else None
    low, high = limit('minOccurs'), 'unbounded' if sx.flag('unbounded') else limit('maxOccurs')
    nillable = some('nillable', 'true', 'false')
    kind = sx.choice('kind', ['type', 'ref', 'anonymous'])
    e = x('element', x('complexType', x('sequence', x('element', name='deep', type='xs:int'))) if kind == 'anonymous' else None,
          name=name('name') if kind != 'ref' else None, type=name('type') if kind == 'type' else None, ref=name('ref') if kind == 'ref' else None,
          minOccurs=low, maxOccurs=high, nillable=nillable)
    other = x('element', name='other', type='xs:string')
    order = [e, other] if sx.flag('first') else [other, e]
    o = kept(schema(x('complexType', x(group, *order), name='t')))
    got = {'sequence': o.complexTypes[0].sequence, 'choice': o.complexTypes[0].choice, 'all': o.complexTypes[0].all}
    sx.check(all((v is not None) == (k == group) for k, v in got.items()), 'group')
    els = got[group].elements
    sx.check(len(els) == 2, 'number of elements')
    mine = els[0] if order[0] is e else els[1]
    sx.check(sx.truth(mine.name == e.get('name')) and sx.truth(mine.type == e.get('type')) and sx.truth(mine.ref == e.get('ref')), 'names')
    sx.check((mine.minOccurs is None) if low is None else sx.truth(mine.minOccurs == int(low)), 'minOccurs')
    if high is None:
        sx.check(mine.maxOccurs is None, 'no maxOccurs')
    elif high == 'unbounded':
        sx.check(mine.maxOccurs is xsd.UNBOUNDED, 'unbounded')
    else:
        sx.check(sx.truth(mine.maxOccurs == int(high)), 'maxOccurs')
    sx.check(mine.nillable is {None: None, 'true': True, 'false': False}[nillable], 'nillable')
    sx.check((mine.complexType is not None) == (kind == 'anonymous'), 'own type')


@sx.case()
def limits():
    """limits of any size"""
    which = sx.choice('which', ['minOccurs', 'maxOccurs'])
    value = sx.choice('size', [2 ** 7, 2 ** 8, 1000, 9999, 2 ** 15, 2 ** 16, 10 ** 6, 2 ** 31, 2 ** 32, 2 ** 63, 10 ** 12]) + sx.int('rest', -2, 4)
    o = kept(schema(x('complexType', x('sequence', x('element', name='v', type='xs:string', **{which: str(value)})), name='t')))
    sx.check(sx.truth(vars(o.complexTypes[0].sequence.elements[0])[which] == value), which)


@sx.case(params=[{'derived': d} for d in ('', 'extension', 'restriction')])
def attributes(derived):
    """attributes and attribute groups of types, derived types"""
    n = sx.choice('n', [0, 1, 2])
    made = [x('attribute', name=name('name%d' % i) if i == 0 else None, ref=name('ref%d' % i) if i else None, type=some('type%d' % i, 'xs:int', 'tns:t') if i == 0 else None,
              use=some('use%d' % i, 'optional', 'required', 'prohibited')) for i in range(n)]
    groups = [x('attributeGroup', ref=name('group'))] if sx.flag('has group') else []
    seq = x('sequence', x('element', name='v', type='xs:string')) if sx.flag('sequence') else None
    if derived:
        # order of the object model: sequence, attributes, groups
        content = x('complexContent', x(derived, seq, *made, *groups, base=name('base')))
        if sx.flag('mixed'):
            content.set('mixed', 'true')
        ct = x('complexType', content, name='t')
    else:
        ct = x('complexType', seq, *made, *groups, name='t')
    if not derived or content.get('mixed') is not None:
        o = kept(schema(ct)).complexTypes[0]
    else:
        o = xsdspec.Schema.parse_xmlelement(etree.fromstring(etree.tostring(schema(ct)))).complexTypes[0]
    if derived:
        sx.check((o.complexContent.extension is not None) == (derived == 'extension') and (o.complexContent.restriction is not None) == (derived == 'restriction'), 'kind of derivation')
        o = o.complexContent.extension or o.complexContent.restriction
        sx.check(sx.truth(o.base == content[0].get('base')), 'base')
    else:
        sx.check(o.complexContent is None, 'not derived')
    sx.check((o.sequence is not None) == (seq is not None), 'sequence')
    sx.check(len(o.attributes) == n and len(o.attributeGroups) == len(groups), 'numbers')
    for a, e in zip(o.attributes, made):
        sx.check(sx.truth(a.name == e.get('name')) and sx.truth(a.ref == e.get('ref')) and sx.truth(a.type == e.get('type')) and sx.truth(a.use == e.get('use')), 'attribute')
    for a, e in zip(o.attributeGroups, groups):
        sx.check(sx.truth(a.ref == e.get('ref')), 'group')


@sx.case()
def schemas():
    """all kinds of definitions, in their order"""
    count = {k: sx.choice(k, [0, 1, 2]) if k in ('imports', 'elements') or sx.tier() == 'thorough' else sx.choice(k, [0, 1]) for k in ('imports', 'includes', 'simpleTypes', 'groups', 'attributeGroups', 'complexTypes', 'elements')}
    make = {
        'imports': lambda i: x('import', schemaLocation=sx.str('location%d' % i, 0, 1, TEXT) if i == 0 else None, namespace=sx.str('namespace%d' % i, 0, 1, TEXT) if i == 0 else 'urn:u'),
        'includes': lambda i: x('include', schemaLocation='i%d' % i),
        'simpleTypes': lambda i: x('simpleType', x('list', ) if i else x('restriction', base='xs:int'), name='s%d' % i),
        'groups': lambda i: x('group', x('sequence', x('element', name='e', type='xs:int')), name='g%d' % i),
        'attributeGroups': lambda i: x('attributeGroup', x('attribute', name='a', type='xs:int'), name='h%d' % i),
        'complexTypes': lambda i: x('complexType', name='c%d' % i),
        'elements': lambda i: x('element', name='e%d' % i, type='xs:int', substitutionGroup='tns:e0' if i else None),
    }
    parts = [[make[k](i) for i in range(n)] for k, n in count.items()]
    o = kept(schema(*[e for p in parts for e in p], targetNamespace=sx.str('ns', 1, 1, TEXT)))
    for k, p in zip(count, parts):
        got = vars(o)[k] if k in vars(o) else []
        sx.check(len(got) == len(p), 'number of ' + k)
        for a, e in zip(got, p):
            sx.check(k == 'imports' or sx.truth((a.schemaLocation if k == 'includes' else a.name) == (e.get('schemaLocation') if k == 'includes' else e.get('name'))), 'order of ' + k)
    for i in range(3):
        e = o.get_element_by_name('e%d' % i)
        sx.check((e is not None) == (i < count['elements']) and (e is None or e.name == 'e%d' % i), 'lookup')


@sx.case()
def default_form():
    """schemas are unqualified unless they say so"""
    form = some('form', 'qualified', 'unqualified')
    doc = schema(x('element', name='a', type='xs:int'), elementFormDefault=form)
    o, out = rewritten(doc, xsdspec.Schema, 'schema', XSD)
    sx.check(o.elementFormDefault == (form or 'unqualified') and out.get('elementFormDefault', 'unqualified') == (form or 'unqualified'), 'form')
    bad = sx.str('bad', 0, 2, 'qun')
    raised = sx.outcome(lambda: xsdspec.Schema.parse_xmlelement(schema(elementFormDefault=bad)))
    sx.check(raised.raised(ValueError), 'other forms are refused')


# --- WSDL ---------------------------------------------------------------------

VERSIONS = {'1.1': (SOAP, wsdl11), '1.2': (SOAP12, wsdl12)}


def definitions(version, doc):
    o, out = rewritten(doc, VERSIONS[version][1].Definitions, 'definitions', WSDL)
    alike(doc, out)
    return o


def ext(version, tag, *parts, **attrs):
    ns = VERSIONS[version][0]
    return fill(etree.Element('{%s}%s' % (ns, tag), nsmap={'soap': ns}), parts, attrs)


V = [{'version': v} for v in VERSIONS]


@sx.case(params=V)
def messages(version):
    """messages and their parts, imports, types"""
    n = sx.choice('messages', [0, 1, 2])
    made = [w('message', *[w('part', name=name('part%d%d' % (i, j)) if i == 0 else 'p%d' % j, element=name('element%d' % j) if i == 0 and j == 0 else None, type='tns:t' if j else None)
                           for j in range(sx.choice('parts%d' % i, [0, 1, 2]))], name=name('message%d' % i)) for i in range(n)]
    imports = [w('import', namespace=name('ns'), location=name('location'))] if sx.flag('has import') else []
    types = [w('types', *[schema(x('element', name='a', type='xs:int'), targetNamespace='urn:%d' % i, elementFormDefault='qualified') for i in range(sx.choice('schemas', [1, 2]))])] if sx.flag('types') else []
    d = w('definitions', *imports, *types, *made, targetNamespace=name('target') if sx.flag('has target') else None, name=some('own name', 'x'))
    o = definitions(version, d)
    sx.check(sx.truth(o.targetNamespace == d.get('targetNamespace')) and o.name == d.get('name'), 'names')
    sx.check(len(o.imports) == len(imports) and (o.types is not None) == bool(types) and len(o.messages) == n, 'parts of the document')
    if types:
        sx.check([s.targetNamespace for s in o.types.schemas] == ['urn:%d' % i for i in range(len(types[0]))], 'schemas in order')
    for m, e in zip(o.messages, made):
        sx.check(sx.truth(m.name == e.get('name')) and len(m.parts) == len(e), 'message')
        for p, f in zip(m.parts, e):
            sx.check(sx.truth(p.name == f.get('name')) and sx.truth(p.element == f.get('element')) and sx.truth(p.type == f.get('type')), 'part')
        if len(e) == 1:
            sx.check(m.part is m.parts[0], 'the only part')
        else:
            sx.check(sx.outcome(lambda: m.part).raised(ValueError), 'no only part')


@sx.case(params=V)
def port_types(version):
    """operations of port types"""
    n = sx.choice('operations', [0, 1, 2])
    made = []
    for i in range(n):
        io = [w(tag, name=some('name of ' + tag, 'x') if i == 0 else None, message=name('%s%d' % (tag, i)) if i == 0 else 'tns:m') for tag in ('input', 'output') if i or sx.flag(tag)]
        faults = [w('fault', name='f%d' % j, message='tns:f') for j in range(sx.choice('faults', [0, 1, 2]))] if i == 0 else []
        made.append(w('operation', *io, *faults, name=name('operation%d' % i)))
    d = w('definitions', w('portType', *made, name=name('portType')), targetNamespace='urn:t')
    pt = definitions(version, d).portTypes[0]
    sx.check(sx.truth(pt.name == d[0].get('name')) and len(pt.operations) == n, 'port type')
    for o, e in zip(pt.operations, made):
        sx.check(sx.truth(o.name == e.get('name')), 'operation')
        for tag, got in (('input', o.input), ('output', o.output)):
            found = [k for k in e if etree.QName(k).localname == tag]
            sx.check((got is not None) == bool(found), tag)
            if found:
                sx.check(sx.truth(got.message == found[0].get('message')) and got.name == found[0].get('name'), 'message of ' + tag)
        sx.check([f.name for f in o.faults] == [k.get('name') for k in e if etree.QName(k).localname == 'fault'], 'faults')


@sx.case(params=[{'version': v, 'part': p} for v in VERSIONS for p in ('operation', 'input', 'output', 'fault')])
def bindings(version, part):
    """bindings with the parts of the SOAP binding"""
    E = lambda tag, *kids, **attrs: ext(version, tag, *kids, **attrs)
    USE = ['literal', 'encoded']
    inner = []
    if part == 'operation':
        inner = [E('operation', soapAction=sx.str('action', 0, 1, TEXT) if sx.flag('has action') else None, style=some('style', 'document', 'rpc'), **({'soapActionRequired': some('required', 'true', 'false')} if version == '1.2' else {}))]
    elif part in ('input', 'output'):
        heads = [E('header', *[E('headerfault', message='tns:f', part='p', use='literal') for _ in range(sx.choice('headerfaults', [0, 1]) if i == 0 else 0)], message='tns:' + sx.str('head%d' % i, 1, 1, 'aZ-.'), part=sx.str('part%d' % i, 1, 1, 'aZ-.'), use=sx.choice('use%d' % i, USE), namespace=some('ns%d' % i, 'urn:x') if i == 0 else None)
                 for i in range(sx.choice('headers', [0, 1, 2]))]
        inner = [w(part, E('body', use=sx.choice('use', USE), namespace=name('namespace') if sx.flag('has namespace') else None, encodingStyle=some('encodingStyle', 'urn:e')), *heads)]
    else:
        inner = [w('fault', E('fault', name=sx.str('fault', 1, 1, 'aZ-.'), use=sx.choice('use', USE)), name='f%d' % i) for i in range(1)]
    binding = E('binding', style=some('binding style', 'document', 'rpc') if part == 'operation' else 'document', transport=HTTP if sx.flag('http') else name('transport'))
    d = w('definitions', w('binding', binding, w('operation', *inner, name=name('operation')), name=name('binding'), type=name('type')), targetNamespace='urn:t')
    source = etree.fromstring(etree.tostring(d))
    o = VERSIONS[version][1].Definitions.parse_xmlelement(source)
    b = o.bindings[0]
    sx.check(sx.truth(b.name == d[0].get('name')) and sx.truth(b.type == d[0].get('type')), 'binding')
    sx.check(sx.truth(b.binding.transport == binding.get('transport')) and b.binding.style == binding.get('style', 'document'), 'SOAP binding')
    op = b.operations[0]
    sx.check(sx.truth(op.name == d[0][1].get('name')), 'operation')
    sx.check((op.operation is not None) == (part == 'operation') and (op.input is not None) == (part == 'input') and (op.output is not None) == (part == 'output') and len(op.faults) == (part == 'fault'), 'parts')
    if part == 'operation':
        sx.check(sx.truth(op.operation.soapAction == inner[0].get('soapAction')) and op.operation.style == inner[0].get('style'), 'SOAP operation')
    elif part == 'fault':
        sx.check(sx.truth(op.faults[0].fault.name == inner[0][0].get('name')) and op.faults[0].fault.use == inner[0][0].get('use'), 'SOAP fault')
    else:
        io = op.input if part == 'input' else op.output
        body = inner[0][0]
        sx.check(io.body.use == body.get('use') and sx.truth(io.body.namespace == body.get('namespace')), 'SOAP body')
        sx.check(len(io.headers) == len(inner[0]) - 1, 'header blocks')
        for h, e in zip(io.headers, inner[0][1:]):
            sx.check(sx.truth(h.message == e.get('message')) and sx.truth(h.part == e.get('part')) and h.use == e.get('use') and len(h.headerfaults) == len(e), 'header block')
    out = etree.Element('{%s}definitions' % WSDL)
    o.render(out, o, namespace=WSDL, elementFormDefault=xsd.ElementFormDefault.QUALIFIED)
    if binding.get('style') is None:
        binding.set('style', 'document')
    alike_unordered(d, etree.fromstring(etree.tostring(out)))


def alike_unordered(a, b):
    """the same, elements of different kinds in any order"""
    sx.check(sx.truth(a.tag == b.tag) and len(a.attrib) == len(b.attrib) and len(a) == len(b), 'same element and size')
    for k, v in a.attrib.items():
        sx.check(b.get(k) is not None and sx.truth(b.get(k) == v), 'same ' + k)
    for tag in {k.tag for k in a}:
        p, q = [k for k in a if k.tag == tag], [k for k in b if k.tag == tag]
        sx.check(len(p) == len(q), 'same number of ' + tag)
        for c, d in zip(p, q):
            alike_unordered(c, d)


@sx.case(params=V)
def services(version):
    """services and ports"""
    made = []
    for i in range(sx.choice('services', [0, 1, 2])):
        ports = [w('port', ext(version, 'address', location=name('location%d' % j) if i == 0 else 'http://h'), name=name('port%d' % j) if i == 0 else 'p', binding=name('binding%d' % j) if i == 0 and j == 0 else 'b')
                 for j in range(sx.choice('ports', [0, 1, 2]) if i == 0 else 1)]
        made.append(w('service', *ports, name=name('service%d' % i)))
    o = definitions(version, w('definitions', *made, targetNamespace='urn:t'))
    sx.check(len(o.services) == len(made), 'services')
    for s, e in zip(o.services, made):
        sx.check(sx.truth(s.name == e.get('name')) and len(s.ports) == len(e), 'service')
        for p, f in zip(s.ports, e):
            sx.check(sx.truth(p.name == f.get('name')) and sx.truth(p.binding == f.get('binding')) and sx.truth(p.address.location == f[0].get('location')), 'port')

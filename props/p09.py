"""Names select exactly what carries them: elements, messages, headers, parts, SOAP versions."""
import sx
from lxml import etree

from soapfish import namespaces as ns, soap, soap11, soap12, utils, wsdl, wsdl11, wsdl12, xsd, xsdspec

BOUNDS = ('names of 1..3 symbolic characters with and without prefixes against lists of 0..4 items with symbolic names (repeated names included); trees of up to 4 schemas in every '
          'import/include shape with symbolic element names; namespaces of 0..2 symbolic characters and every namespace with one symbolic character replaced; WSDL documents with up to 3 bindings')
OUTSIDE = 'import cycles; elements of the same name in schemas of different namespaces (the first one found counts)'


def leaf(name):
    return xsd.Schema('urn:x', elements={name: xsd.Element(xsd.String)}, location='l')


@sx.case(params=[{'shape': s} for s in ('flat', 'import', 'include', 'both', 'chain')], reach=['found', 'missing'])
def schema_elements(shape):
    """own elements first, then imported and included schemas at any depth"""
    a, b, c, q = (sx.str(n, 1, 1, 'abAB') for n in 'abcq')
    ea, eb, ec = xsd.Element(xsd.String), xsd.Element(xsd.String), xsd.Element(xsd.String)
    mk = lambda name, e, **kw: xsd.Schema('urn:x', elements={name: e}, **kw)
    if shape == 'flat':
        sx.assume(sx.and_(a != b, b != c, a != c))
        top = xsd.Schema('urn:x', elements={a: ea, b: eb, c: ec})
    elif shape == 'chain':
        top = mk(a, ea, imports=[mk(b, eb, includes=[mk(c, ec)])])
    elif shape == 'both':
        top = mk(a, ea, imports=[mk(b, eb)], includes=[mk(c, ec)])
    else:
        top = mk(a, ea, **{shape + 's': [mk(b, eb), mk(c, ec)]})
    r = top.get_element_by_name(q)
    if q == a:
        sx.check(sx.truth(r is ea), 'own element')
        sx.reach('found')
    elif q == b:
        sx.check(sx.truth(r is eb), 'element of the first one')
    elif q == c:
        sx.check(sx.truth(r is ec), 'element of the second one')
    else:
        sx.check(sx.truth(r is None), 'no such element')
        sx.reach('missing')


@sx.case(reach=['found', 'missing'])
def service_elements():
    names = [sx.str('n%d' % i, 1, 2, 'aA') for i in range(3)]
    q = sx.str('q', 0, 2, 'aA')
    elements = [xsd.Element(xsd.String) for _ in names]
    service = soap.Service('urn:t', 'http://l', [xsd.Schema('urn:%d' % i, elements={n: e}) for i, (n, e) in enumerate(zip(names, elements))], [], name='S')
    r = service.find_element_by_name(q)
    for n, e in zip(names, elements):
        if q == n:
            sx.check(sx.truth(r is e), 'element of the first schema that has it')
            sx.reach('found')
            return
    sx.check(sx.truth(r is None), 'no such element')
    sx.reach('missing')


@sx.case(reach=['found', 'missing'])
def service_elements_of_imports():
    """services whose schemas import and include others, of the same and of other namespaces"""
    names = [sx.str('n%d' % i, 1, 1, 'abc') for i in range(4)]
    q = sx.choice('q', ['a', 'b', 'c'])
    elements = [xsd.Element(xsd.String) for _ in names]
    how = sx.choice('how', ['imports', 'includes'])
    uri = sx.choice('uri', ['urn:0', 'urn:2'])
    inner = xsd.Schema(uri, elements={names[1]: elements[1]}, location='inner')
    first = xsd.Schema('urn:0', elements={names[0]: elements[0]}, **{how: [inner]})
    last = xsd.Schema('urn:1', elements={names[2]: elements[2]}, imports=[first] if sx.flag('cross') else None)
    service = soap.Service('urn:t', 'http://l', [first, last, xsd.Schema(uri, elements={names[3]: elements[3]})], [], name='S')
    r = service.find_element_by_name(q)
    for n, e in zip(names, elements):
        if q == n:
            sx.check(sx.truth(r is e), 'element of the first schema that has it, imports included')
            sx.reach('found')
            return
    sx.check(sx.truth(r is None), 'no such element')
    sx.reach('missing')


VERSIONS = {ns.soap11_envelope: soap11, ns.wsdl_soap: soap11, ns.soap12_envelope: soap12, ns.wsdl_soap12: soap12}


@sx.case(params=[{'kind': k} for k in ('free', 'near')], reach=['other'])
def soap_versions(kind):
    if kind == 'free':
        n = sx.str('n', 0, 2, 'xml')
    else:
        base = sx.choice('base', sorted(VERSIONS) + [ns.wsdl, ns.soap_encoding, ns.wsdl_soap_http])
        i = sx.choice('i', [0, 10, 27, 28, 29, 30, 31, 35, 36, 37])
        c = sx.str('c', 0, 1, 'xml')
        n = base[:i] + c + base[i + 1:]
    r, s = sx.outcome(soap.SOAPVersion.get_version, n), sx.outcome(soap.SOAPVersion.get_version_name, n)
    for k, v in VERSIONS.items():
        if n == k:
            sx.check(sx.truth(r.value is v), 'version of the namespace')
            sx.check(sx.truth(s.value == v.__name__), 'name of the version')
            return
    sx.check(sx.and_(r.raised(ValueError), s.raised(ValueError)), 'unknown namespace')
    sx.reach('other')


@sx.case(reach=['1.1', '1.2'])
def version_of_document():
    """a WSDL document is SOAP 1.2 exactly when one of its bindings is"""
    W = '{%s}' % ns.wsdl
    d = etree.Element(W + 'definitions')
    twelve = False
    for i in range(sx.choice('bindings', range(4))):
        b = etree.SubElement(d, W + 'binding')
        if sx.flag('doc%d' % i):
            etree.SubElement(b, W + 'documentation')
        kind = sx.choice('kind%d' % i, ['1.1', '1.2', 'none', 'http'])
        if kind != 'none':
            etree.SubElement(b, '{%s}binding' % {'1.1': ns.wsdl_soap, '1.2': ns.wsdl_soap12, 'http': ns.wsdl_http}[kind])
        etree.SubElement(etree.SubElement(b, W + 'operation'), '{%s}operation' % (ns.wsdl_soap12 if sx.flag('odd%d' % i) else ns.wsdl_soap))
        twelve = twelve or kind == '1.2'
    v = soap.SOAPVersion.get_version_from_xml(d)
    sx.check(sx.truth(v is (soap12 if twelve else soap11)), 'version')
    sx.reach('1.2' if twelve else '1.1')
    sx.check(sx.truth(wsdl.get_wsdl_classes(v.BINDING_NAMESPACE) is (wsdl12 if twelve else wsdl11)), 'classes of the version')


@sx.case(reach=['other'])
def wsdl_classes():
    n = sx.str('n', 0, 2, 'xml') if sx.flag('free') else sx.choice('n2', sorted(VERSIONS))
    r = sx.outcome(wsdl.get_wsdl_classes, n)
    if n == ns.wsdl_soap:
        sx.check(sx.truth(r.value is wsdl11), 'SOAP 1.1')
    elif n == ns.wsdl_soap12:
        sx.check(sx.truth(r.value is wsdl12), 'SOAP 1.2')
    else:
        sx.check(r.raised(NotImplementedError), 'no other bindings')
        sx.reach('other')


class Item:
    def __init__(self, name, **kw):
        self.name = name
        self.__dict__.update(kw)


@sx.case(reach=['found', 'missing'])
def by_name():
    items = [Item(sx.str('n%d' % i, 1, 2, 'aAb')) for i in range(sx.choice('size', range(4)))]
    q, prefix = sx.str('q', 1, 2, 'aAb'), sx.str('prefix', 0, 1, 'ab:')
    full = prefix + ':' + q if sx.flag('prefixed') else q
    r = sx.outcome(wsdl.get_by_name, items, full)
    for i in items:
        if i.name == q:
            sx.check(sx.truth(r.value is i), 'first item of the name')
            sx.reach('found')
            return
    sx.check(r.raised(ValueError), 'no such item')
    sx.reach('missing')


@sx.case(params=[{'w': w, 'x': x} for w in ('1.1', '1.2') for x in ('input', 'output')])
def messages(w, x):
    """the message of an operation is the one its port type names, for input and output"""
    m = {'1.1': wsdl11, '1.2': wsdl12}[w]
    d = m.Definitions()
    names = [sx.str('m%d' % i, 1, 1, 'abc') for i in range(3)]
    sx.assume(sx.and_(names[0] != names[1], names[0] != names[2], names[1] != names[2]))
    for n in names:
        d.messages.append(m.Message(name=n, parts=[m.Part(name='p' + n, element='e' + n)]))
    i, o, other = (sx.choice(k, range(3)) for k in ('i', 'o', 'other'))
    have = sx.choice('have', ['both', 'input', 'output'])
    pto = m.Operation(name='Op')
    if have != 'output':
        pto.input = m.Input(message='tns:' + names[i])
    if have != 'input':
        pto.output = m.Output(message=names[o])
    decoy = m.Operation(name='Other', input=m.Input(message='tns:' + names[other]), output=m.Output(message='tns:' + names[other]))
    order = sx.flag('order')
    pt = m.PortType(name='PT', operations=[pto, decoy] if order else [decoy, pto])
    d.portTypes.append(m.PortType(name='Wrong', operations=[m.Operation(name='Op', input=m.Input(message=names[other]), output=m.Output(message=names[other]))]))
    d.portTypes.append(pt)
    binding = m.Binding(name='B', type='tns:PT')
    r = wsdl.get_message_object(d, binding, m.Operation(name='Op'), x)
    if have not in ('both', x):
        sx.check(sx.truth(r is None), 'no message')
        return
    want = names[i] if x == 'input' else names[o]
    sx.check(sx.truth(isinstance(r, m.Message)), 'a message')
    sx.check(r.name == want, 'the message')
    sx.check(sx.and_(r.part.name == 'p' + want, r.part.element == 'e' + want), 'its part')


@sx.case(params=[{'x': x} for x in ('input', 'output')])
def headers(x):
    """the headers of an operation are the named parts of the named messages, in order"""
    m = wsdl11
    d = m.Definitions()
    a, b = sx.str('a', 1, 1, 'xyz'), sx.str('b', 1, 1, 'xyz')
    sx.assume(a != b)
    for name in ('M', 'N'):
        d.messages.append(m.Message(name=name, parts=[m.Part(name=a, element=name + '1'), m.Part(name=b, element=name + '2')]))
    wanted = [(sx.choice('m%d' % i, ['M', 'N']), sx.choice('p%d' % i, [0, 1])) for i in range(sx.choice('n', range(3)))]
    heads = [m.SOAP_Header(message='tns:' + n, part=(a, b)[p], use='literal') for n, p in wanted]
    op = m.Operation(name='Op')
    if x == 'input' or sx.flag('other'):
        op.input = m.Input(body=m.SOAP_Body(use='literal'), headers=heads if x == 'input' else [])
    if x == 'output' or sx.flag('other'):
        op.output = m.Output(body=m.SOAP_Body(use='literal'), headers=heads if x == 'output' else [])
    r = wsdl.get_message_header(d, None, op, x)
    sx.check(sx.truth([p.element for p in r] == [n + str(p + 1) for n, p in wanted]), 'parts')
    missing = m.Operation(name='Op2')
    sx.check(sx.truth(wsdl.get_message_header(d, None, missing, x) is None), 'no message, no headers')
    bad = m.Operation(name='Op3')
    q = sx.str('q', 1, 1, 'xyz')
    setattr(bad, x, (m.Input if x == 'input' else m.Output)(headers=[m.SOAP_Header(message='M', part=q, use='literal')]))
    r = sx.outcome(wsdl.get_message_header, d, None, bad, x)
    if q == a:
        sx.check(sx.truth(r.ok and r.value[0].element == 'M1'), 'first part')
    elif q == b:
        sx.check(sx.truth(r.ok and r.value[0].element == 'M2'), 'second part')
    else:
        sx.check(r.raised(ValueError), 'no such part')


@sx.case(reach=['found', 'missing'])
def select_schema():
    """the first schema that has all the elements"""
    names = [[sx.str('s%d%d' % (i, j), 1, 1, 'abc') for j in range(2)] for i in range(2)]
    schemas = [xsdspec.Schema(targetNamespace='urn:%d' % i, elements=[xsdspec.Element(name=n) for n in row]) for i, row in enumerate(names)]
    wanted = [sx.str('w%d' % i, 1, 1, 'abc') for i in range(sx.choice('n', [1, 2]))]
    q = ['p:' + n if sx.flag('prefix') else n for n in wanted] if len(wanted) == 1 else wanted
    r = utils.schema_select(schemas, q)
    for s, row in zip(schemas, names):
        if all(any(n == w for n in row) for w in wanted):
            sx.check(sx.truth(r is s), 'the first one that has all')
            sx.reach('found')
            return
    sx.check(sx.truth(r is None), 'none has all')
    sx.reach('missing')


@sx.case()
def spec_elements():
    names = [sx.str('n%d' % i, 1, 2, 'ab') for i in range(3)]
    schema = xsdspec.Schema(targetNamespace='urn:s', elements=[xsdspec.Element(name=n, type='xsd:string') for n in names])
    q = sx.str('q', 0, 2, 'ab')
    r = schema.get_element_by_name(q)
    for n, e in zip(names, schema.elements):
        if n == q:
            sx.check(sx.truth(r is e), 'first element of the name')
            return
    sx.check(sx.truth(r is None), 'no such element')


@sx.case()
def local_names():
    prefix, name = sx.str('prefix', 0, 2, 'ab'), sx.str('name', 1, 2, 'aB')
    sx.check(utils.remove_namespace(prefix + ':' + name) == name, 'prefix is removed')
    sx.check(utils.remove_namespace(name) == name, 'nothing to remove')
    sx.check(sx.truth(utils.remove_namespace(None) is None), 'no name')


@sx.case()
def uncapitalized():
    name = sx.str('name', 1, 3, 'ascii') if sx.flag('free') else sx.choice('known', ['QName', 'NMTOKEN', 'NMTOKENS', 'NMTOKENSX', 'QNames', 'Qname'])
    r = utils.uncapitalize(name)
    if any(name == k for k in ('QName', 'NMTOKEN', 'NMTOKENS')):
        sx.check(r == name, 'names of XSD')
    else:
        sx.check(r[-len(name) + 1:] == name[1:] if len(name) > 1 else sx.truth(True), 'the rest stays')
        for c in 'AZaz_0':
            if name[0] == c:
                sx.check(r[0] == c.lower(), 'first letter')

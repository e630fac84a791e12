"""WSDL documents describe the service, and code generated from WSDL documents gives that service and its client."""
import sx
import requests
from lxml import etree

from props.gen import HTTP, SOAP, SOAP12, WSDL, XSD, fill, schema, w, x
from soapfish import py2wsdl, py2xsd, soap, soap11, soap12, soap_dispatch, wsa, wsdl2py, xsd
from soapfish.core import SOAPRequest

BOUNDS = ('services of 0..3 operations with symbolic names of 1..2 characters (no Python names included), symbolic namespaces, locations, SOAP actions (printable characters, quotes and mark-up included), styles, both SOAP versions, '
          'inputs and outputs by element and by class, 1..3 schemas; documents with up to 2 services, ports and bindings, header blocks, parts of symbolic names; client and server code, with and without WS-Addressing')
OUTSIDE = ('messages with several parts or none, one-way operations, operations named like types, faults, header blocks in generated documents, bindings other than SOAP over HTTP, encoded use, '
           'names that differ only in punctuation')

BINDING = {'1.1': SOAP, '1.2': SOAP12}
MODULE = {'1.1': soap11, '1.2': soap12}
ENV = {'1.1': 'http://schemas.xmlsoap.org/soap/envelope/', '1.2': 'http://www.w3.org/2003/05/soap-envelope'}


# --- an independent reading of WSDL documents ---------------------------------

def kids(e, tag):
    return [c for c in e if c.tag == tag]


def one(e, tag):
    found = kids(e, tag)
    sx.check(len(found) == 1, 'one ' + tag)
    return found[0]


def qname(e, text):
    """(namespace, name) of a name written in an attribute"""
    prefix, colon, local = text.rpartition(':')
    ns = e.nsmap.get(prefix if colon else None)
    sx.check(ns is not None, 'known prefix')
    return ns, local


def same(a, b):
    return sx.truth(sx.and_(a[0] == b[0], a[1] == b[1]))


def lookup(doc, tag, ref):
    """the definition that a name refers to"""
    sx.check(sx.truth(ref[0] == doc.get('targetNamespace')), 'reference into this document')
    found = [e for e in kids(doc, W + tag) if sx.truth(e.get('name') == ref[1])]
    sx.check(len(found) == 1, 'one ' + tag + ' of that name')
    return found[0]


W = '{%s}' % WSDL


def read(doc, version):
    """[(service name, [(port, location, binding name, [operation])])]; operation: dict"""
    b = '{%s}' % BINDING[version]
    services = []
    for s in kids(doc, W + 'service'):
        ports = []
        for p in kids(s, W + 'port'):
            binding = lookup(doc, 'binding', qname(p, p.get('binding')))
            transport = one(binding, b + 'binding')
            sx.check(sx.truth(transport.get('transport') == HTTP), 'transport')
            portType = lookup(doc, 'portType', qname(binding, binding.get('type')))
            ops = []
            abstract = kids(portType, W + 'operation')
            concrete = kids(binding, W + 'operation')
            sx.check(len(abstract) == len(concrete), 'operations of port type and binding')
            for o in concrete:
                match = [a for a in abstract if sx.truth(a.get('name') == o.get('name'))]
                sx.check(len(match) == 1, 'operation in the port type')
                so = one(o, b + 'operation')
                op = {'name': o.get('name'), 'action': so.get('soapAction'), 'style': so.get('style', transport.get('style', 'document'))}
                for io in ('input', 'output'):
                    sx.check(sx.truth(one(one(o, W + io), b + 'body').get('use') == 'literal'), 'literal use')
                    a = one(match[0], W + io)
                    part = one(lookup(doc, 'message', qname(a, a.get('message'))), W + 'part')
                    kind = 'element' if part.get('element') is not None else 'type'
                    op[io] = (kind,) + qname(part, part.get(kind))
                ops.append(op)
            ports.append((p.get('name'), one(p, b + 'address').get('location'), binding.get('name'), ops))
        services.append((s.get('name'), ports))
    return services


# --- documents for services ---------------------------------------------------

class Ask(xsd.ComplexType):
    v = xsd.Element(xsd.String)


class Tell(xsd.ComplexType):
    v = xsd.Element(xsd.String)
    n = xsd.Element(xsd.Integer, minOccurs=0)


def app_schema(ns='urn:t'):
    return xsd.Schema(ns, complexTypes=[Ask, Tell], elements={'ask': xsd.Element(Ask), 'tell': xsd.Element(Tell)})


IO = {'element': ('ask', 'tell'), 'class': (Ask, Tell)}


def check_io(op, io, given, ns):
    want = ('element', ns, given) if isinstance(given, str) else ('type', ns, given.__name__[0].lower() + given.__name__[1:])
    sx.check(op[io][0] == want[0] and same(op[io][1:], want[1:]), io + ' of the operation')


@sx.case(params=[{'version': v, 'n': n} for v in ('1.1', '1.2') for n in (0, 1, 2)])
def services(version, n):
    """names, actions, styles, messages"""
    name = sx.str('service', 1, 1 if n else 2, 'aZ_')
    ns, at = 'urn:' + sx.str('ns', 0, 1, 'a/&\'?~'), 'http://h/' + sx.str('location', 0, 2 if n == 0 else 1, 'ascii')
    methods = []
    for i in range(n):
        inp, out = IO[sx.choice('in%d' % i, ['element', 'class'])][0], IO[sx.choice('out%d' % i, ['element', 'class']) if n == 1 else 'element'][1]
        methods.append(xsd.Method(sx.str('op%d' % i, 1, 2 if n == 1 else 1, 'abA-.', 'abA'), sx.str('action%d' % i, 0 if n == 1 else 1, 2 if n == 1 else 1, 'ascii'), input=inp, output=out,
                                  style=sx.choice('style%d' % i, ['document', 'rpc'] if i == 0 else ['document'])))
    for i in range(n):
        for j in range(i):
            sx.assume(methods[i].operationName != methods[j].operationName)
    service = soap.Service(ns, at, [app_schema()], methods, version=MODULE[version], name=name)
    doc = etree.fromstring(etree.tostring(py2wsdl.generate_wsdl(service)))
    sx.check(sx.truth(doc.tag == W + 'definitions') and sx.truth(doc.get('targetNamespace') == ns), 'target namespace')
    found = read(doc, version)
    sx.check(len(found) == 1 and sx.truth(found[0][0] == name), 'the service')
    sx.check(len(found[0][1]) == 1 and sx.truth(found[0][1][0][1] == at), 'one port with the location')
    ops = found[0][1][0][3]
    sx.check(len(ops) == n, 'number of operations')
    for op, m in zip(ops, methods):
        sx.check(sx.truth(sx.and_(op['name'] == m.operationName, op['action'] == m.soapAction, op['style'] == m.style)), 'the operation')
        check_io(op, 'input', m.input, 'urn:t')
        check_io(op, 'output', m.output, 'urn:t')


def alike(a, b):
    """the same definitions, whatever prefixes are used"""
    sx.check(sx.truth(a.tag == b.tag), 'same element')
    sx.check(len(a.attrib) == len(b.attrib), 'same attributes')
    for k, v in a.attrib.items():
        u = b.get(k)
        sx.check(u is not None, 'attribute ' + k)
        if k in ('type', 'base', 'substitutionGroup', 'ref'):
            sx.check(same(qname(a, v), qname(b, u)), 'same name in ' + k)
        else:
            sx.check(sx.truth(u == v), 'same ' + k)
    sx.check(len(a) == len(b), 'same content')
    for c, d in zip(a, b):
        alike(c, d)


@sx.case(params=[{'n': n} for n in (1, 2, 3)])
def types(n):
    """the schemas of the service, and references to elements and types in any of them"""
    schemas, classes = [], []
    for i in range(n):
        class Data(xsd.ComplexType):
            INDICATOR = sx.choice('indicator%d' % i, [xsd.Sequence, xsd.All]) if n == 1 else xsd.Sequence
            code = xsd.Element(xsd.String(enumeration=[sx.str('enum%d' % i, 1, 1, 'ascii')]))
            more = xsd.ListElement(xsd.Int, 'more', minOccurs=sx.choice('min%d' % i, [None, 0, 2]), maxOccurs=3) if n == 1 else xsd.Element(xsd.Int)
            att = xsd.Attribute(xsd.Date, use=xsd.Use.OPTIONAL)

        class Holder(xsd.ComplexType):
            data = xsd.Element(Data)
        Data.__name__, Holder.__name__ = 'Data%d' % i, 'Holder%d' % i
        classes.append(Holder)
        schemas.append(xsd.Schema('urn:' + 'abc'[i], elementFormDefault=sx.choice('form%d' % i, ['qualified', 'unqualified']), complexTypes=[Data, Holder],
                                  elements={'in%d' % i: xsd.Element(Holder), 'out%d' % i: xsd.Element(Data)}))
    i, j = sx.choice('i', range(n)), sx.choice('j', range(n))
    m = xsd.Method('op', 'act', input='in%d' % i if sx.flag('element') else classes[i], output='out%d' % j)
    doc = etree.fromstring(etree.tostring(py2wsdl.generate_wsdl(soap.Service('urn:s', 'http://h', schemas, [m], name='S'))))
    got = kids(one(doc, W + 'types'), '{%s}schema' % XSD)
    sx.check(len(got) == n, 'every schema')
    for e, s in zip(got, schemas):
        alike(etree.fromstring(etree.tostring(py2xsd.generate_xsd(s))), e)
    op = read(doc, '1.1')[0][1][0][3][0]
    check_io(op, 'input', m.input, 'urn:' + 'abc'[i])
    check_io(op, 'output', m.output, 'urn:' + 'abc'[j])


# --- code from documents ------------------------------------------------------

def soapel(version, tag, **attrs):
    ns = BINDING[version]
    return fill(etree.Element('{%s}%s' % (ns, tag), nsmap={'soap': ns}), (), attrs)


class Op:
    def __init__(self, name, action='act', style=None, input='tns:ask', output='tns:tell', kind='element', parts=('in', 'out'), headers=((), ())):
        self.__dict__.update(locals())


def types_doc(*more):
    return schema(x('complexType', x('sequence', x('element', name='v', type='xs:string')), name='askType'),
                  x('complexType', x('sequence', x('element', name='v', type='xs:string'), x('element', name='n', type='xs:int', minOccurs='0')), name='tellType'),
                  x('element', name='ask', type='tns:askType'), x('element', name='tell', type='tns:tellType'), *more)


def binding_parts(version, name, ops, portType=None, style='document', transport=HTTP):
    """[port type, binding]"""
    abstract, concrete = [], []
    for o in ops:
        abstract.append(w('operation', w('input', message='tns:' + o.name + 'In'), w('output', message='tns:' + o.name + 'Out'), name=o.name))
        io = [w(tag, soapel(version, 'body', use='literal'), *[soapel(version, 'header', message='tns:' + m, part=p, use='literal') for m, p in headers])
              for tag, headers in zip(('input', 'output'), o.headers)]
        concrete.append(w('operation', soapel(version, 'operation', **{k: v for k, v in (('soapAction', o.action), ('style', o.style)) if v is not None}), *io, name=o.name))
    return [w('portType', *abstract, name=name + 'Type'),
            w('binding', soapel(version, 'binding', style=style, transport=transport), *concrete, name=name, type='tns:' + name + 'Type')]


def messages(ops):
    out = []
    for o in ops:
        for suffix, part, ref in (('In', o.parts[0], o.input), ('Out', o.parts[1], o.output)):
            out.append(w('message', w('part', name=part, **{o.kind: ref}), name=o.name + suffix))
    return out


def port(version, name, binding, location):
    return w('port', soapel(version, 'address', location=location), name=name, binding='tns:' + binding)


def definitions(*parts, ns='urn:s'):
    e = etree.Element(W + 'definitions', nsmap={'wsdl': WSDL, 'xs': XSD, 'tns': 'urn:t'})
    return fill(e, parts, {'targetNamespace': ns})


def document(version, ops, location='http://h/p', ns='urn:s', schemas=None, more=(), portname='Port'):
    return definitions(w('types', *(schemas or [types_doc()])), *messages(ops), *more, *binding_parts(version, 'Bind', ops),
                       w('service', port(version, portname, 'Bind', location), name='Service'), ns=ns)


def made(doc, target, **kw):
    return sx.load(wsdl2py.generate_code_from_wsdl(doc, target, **kw))


class Wire:
    """the HTTP connection of a client"""

    def __init__(self, answer):
        self.sent, self.answer = [], answer
        sx.patch(requests, 'post', self.post)

    def post(self, url, auth=None, headers=None, data=None, **kw):
        self.sent.append((url, headers, etree.fromstring(data)))

        class Response:
            pass
        o = Response()
        o.headers, o.status_code = {}, 200
        o.content = self.answer(headers, data)
        return o


def envelope(version, body, *header):
    env = etree.Element('{%s}Envelope' % ENV[version])
    if header:
        h = etree.SubElement(env, '{%s}Header' % ENV[version])
        for e in header:
            h.append(e)
    b = etree.SubElement(env, '{%s}Body' % ENV[version])
    b.append(body)
    return etree.tostring(env)


def element(tag, *parts):
    e = etree.Element(tag)
    for k, v in parts:
        c = etree.SubElement(e, k)
        c.text = v
    return e


def sections(env, version):
    ns = '{%s}' % ENV[version]
    body = one(env, ns + 'Body')
    sx.check(len(body) == 1, 'one body element')
    head = kids(env, ns + 'Header')
    return body[0], list(head[0]) if head else []


def action_of(headers, version):
    """the action as the server would read it"""
    if version == '1.1':
        return headers.get('SOAPAction')
    return headers['Content-Type']


def the_service(m, name='Port'):
    found = [v for v in vars(m).values() if isinstance(v, soap.Service)]
    sx.check(len(found) == 1, 'one service')
    return found[0]


def stub_class(m):
    found = [v for v in vars(m).values() if isinstance(v, type) and issubclass(v, soap.Stub)]
    sx.check(len(found) == 1, 'one stub')
    return found[0]


VT = [{'version': v, 'target': t} for v in ('1.1', '1.2') for t in ('client', 'server')]


@sx.case(params=VT)
def described(version, target):
    """namespace, actions, styles, order of operations"""
    n = sx.choice('n', [0, 1, 2])
    ns = 'urn:' + sx.str('ns', 0, 1, 'a"\'\\') if n < 2 else 'urn:s'
    ops = [Op('op' + 'ab'[i], sx.str('action%d' % i, 0, 2 if n == 1 else 1, 'a"\'\\{%<' if n == 1 else 'a\''), style=sx.choice('style%d' % i, [None, 'document', 'rpc'] if i == 0 else [None, 'rpc'])) for i in range(n)]
    if sx.flag('twisted'):
        for o in ops:
            o.input, o.output = o.output, o.input
    m = made(document(version, ops, ns=ns), target)
    s = the_service(m)
    sx.check(sx.truth(s.name == 'Port') and s.version is MODULE[version], 'name and version')
    sx.check(sx.truth(s.targetNamespace == ns), 'target namespace')
    sx.check(len(s.schemas) == 1 and sx.truth(s.schemas[0].targetNamespace == 'urn:t'), 'schemas')
    sx.check(len(s.methods) == n, 'number of operations')
    for got, o in zip(s.methods, ops):
        sx.check(sx.truth(sx.and_(got.operationName == o.name, got.soapAction == o.action)), 'the operation')
        sx.check(sx.truth(got.style == (o.style or 'document')), 'the style')
        sx.check(sx.truth(got.input == o.input[4:]) and sx.truth(got.output == o.output[4:]), 'elements')
        sx.check(sx.truth(got.inputPartName == 'in') and sx.truth(got.outputPartName == 'out'), 'part names')
        sx.check(got.input_header is None and got.output_header is None, 'no headers')


@sx.case(params=[{'version': v, 'kind': k} for v in ('1.1', '1.2') for k in ('element', 'type')])
def calls(version, kind):
    """the client sends what the document says, where it says"""
    name = name_('op')
    action = sx.str('action', 0, 1, 'a"\'\\$') if version == '1.1' else 'urn:act'
    refs = ('tns:ask', 'tns:tell') if kind == 'element' else ('tns:askType', 'tns:tellType')
    m = made(document(version, [Op('first', 'no'), Op(name, action, input=refs[0], output=refs[1], kind=kind)]), 'client')
    stub = stub_class(m)()
    text, reply = sx.str('text', 1, 1, 'a<&'), sx.str('reply', 1, 1, 'ab')
    tag = 'tell' if kind == 'element' else 'tellType'
    wire = Wire(lambda headers, data: envelope(version, element('{urn:t}' + tag, ('v', reply), ('n', '7'))))
    call = [k for k in vars(type(stub)) if k not in ('SERVICE', 'SCHEME', 'HOST', 'first') and not k.startswith('__')]
    sx.check(len(call) == 1, 'one more method')
    r = getattr(stub, call[0])(m.AskType(v=text))
    url, headers, env = wire.sent[0]
    sx.check(sx.truth(url == 'http://h/p'), 'location')
    body, head = sections(env, version)
    sx.check(sx.truth(body.tag == ('{urn:t}ask' if kind == 'element' else '{urn:t}askType')) and sx.truth(body[0].text == text) and not head, 'the message')
    sx.check(sx.truth(action_of(headers, version) == (action if version == '1.1' else 'application/soap+xml; action="urn:act"')), 'the action')
    sx.check(isinstance(r.soap_body, m.TellType) and sx.truth(r.soap_body.v == reply) and sx.truth(r.soap_body.n == 7), 'the answer')


SPECIAL = ['class', 'import', 'None', 'true', 'a-b', 'a.b', '__x', 'call']


def name_(label):
    if sx.flag('special ' + label):
        return sx.choice('special', SPECIAL)
    return sx.str(label, 1, 2, 'aZ-_', 'aZ')


@sx.case(params=[{'version': v} for v in ('1.1', '1.2')])
def no_action(version):
    """operations without an action have none"""
    m = made(document(version, [Op('op', None)]), 'client')
    sx.check(sx.truth(the_service(m).methods[0].soapAction == ''), 'no action')


@sx.case(params=VT)
def locations(version, target):
    """the address of the service, whole or in parts"""
    scheme = sx.choice('scheme', ['http', 'https'])
    host = sx.str('host', 1, 2, 'aA1-') + sx.choice('port', ['', ':8080'])
    rest = sx.choice('start', ['?', '/', '/p']) + sx.str('rest', 0, 2, 'aA$\'{}"%/?=&') if sx.flag('path') else ''
    sx.assume(not rest.endswith('?'))
    at = scheme + '://' + host + rest
    s = the_service(made(document(version, [Op('op')], location=at), target))
    if target == 'client':
        m = made(document(version, [Op('op')], location=at), target)
        sx.check(sx.truth(stub_class(m)().location == at), 'location of the client')
        cls = stub_class(m)

        class Elsewhere(cls):
            SCHEME, HOST = 'ftp', 'elsewhere'
        sx.check(sx.truth(Elsewhere().location == 'ftp://elsewhere' + rest), 'location on another host')
        sx.check(sx.truth(cls(location='http://third').location == 'http://third'), 'given location')
    else:
        d = soap_dispatch.SOAPDispatcher(s)
        r = d.dispatch(SOAPRequest({'REQUEST_METHOD': 'GET', 'QUERY_STRING': 'wsdl', 'wsgi.url_scheme': 'https', 'HTTP_HOST': 'there'}, b''))
        found = read(etree.fromstring(r.http_content), version)
        sx.check(sx.truth(found[0][1][0][1] == 'https://there' + rest), 'location in the document that is served')


@sx.case(params=VT, reach=['several'])
def several(version, target):
    """several services, ports and bindings; only SOAP over HTTP counts"""
    other = {'1.1': '1.2', '1.2': '1.1'}[version]
    ops = [Op('one', 'a1'), Op('two', 'a2')]
    kinds = [sx.choice('kind%d' % i, ['A', 'B', 'smtp'] if version == '1.2' or i else ['A', 'B', 'smtp']) for i in range(2)]
    parts = binding_parts(version, 'A', ops[:1]) + binding_parts(version, 'B', ops[1:]) + binding_parts(version, 'smtp', ops[:1], transport='http://schemas.xmlsoap.org/soap/smtp')
    order = sx.flag('reverse')
    if order:
        parts.reverse()
    p = [port(version, 'P%d' % i, kinds[i], 'http://h%d/x' % i) for i in range(2)]
    services = [w('service', *p, name='S')] if sx.flag('one service') else [w('service', p[0], name='S'), w('service', p[1], name='T')]
    doc = definitions(w('types', types_doc()), *messages(ops), *parts, *services)
    m = made(doc, target)
    found = [v for v in vars(m).values() if isinstance(v, soap.Service)]
    want = [(i, k) for i, k in enumerate(kinds) if k != 'smtp']
    sx.check(len(found) == len(want), 'services for the ports')
    for s, (i, k) in zip(found, want):
        sx.check(s.name == 'P%d' % i and s.version is MODULE[version] and s.location == '${scheme}://${host}/x', 'port')
        sx.check([x.operationName for x in s.methods] == ['one' if k == 'A' else 'two'] and [x.soapAction for x in s.methods] == ['a1' if k == 'A' else 'a2'], 'operations of the binding')
    if target == 'client':
        stubs = [v for v in vars(m).values() if isinstance(v, type) and issubclass(v, soap.Stub)]
        sx.check(len(stubs) == len(want), 'stubs')
        for t, s, (i, k) in zip(stubs, found, want):
            sx.check(t.SERVICE is s and t.HOST == 'h%d' % i and hasattr(t, 'one' if k == 'A' else 'two') and not hasattr(t, 'two' if k == 'A' else 'one'), 'stub')
    if len(want) == 2:
        sx.reach('several')


@sx.case(params=[{'version': v, 'where': p} for v in ('1.1', '1.2') for p in ('input', 'output', 'both')])
def headers(version, where):
    """header blocks under the names of the document"""
    part = sx.str('part', 1, 2, 'aZ-', 'aZ')
    name = sx.choice('element', ['auth', 'a-b']) if sx.flag('other name') else part
    used = sx.flag('own schema')
    two = sx.flag('two blocks')
    ns = 'urn:h' if used else 'urn:t'
    sx.assume(part != 'extra')
    more = [x('complexType', x('sequence', x('element', name='v', type='xs:string')), name='authType'), x('element', name=name, type='tns:authType'), x('element', name='extra', type='tns:authType')]
    if used:
        h = fill(etree.Element('{%s}schema' % XSD, nsmap={'xs': XSD, 'tns': 'urn:h'}), more, {'targetNamespace': 'urn:h'})
        schemas = [types_doc(), h]
        if sx.flag('reverse'):
            schemas.reverse()
    else:
        schemas = [types_doc(*more)]
    heads = [('Heads', part)] + ([('Heads', 'second')] if two else [])
    message = w('message', w('part', name=part, element='h:' + name), w('part', name='second', element='h:extra') if two else None, name='Heads')
    op = Op('op', headers=(heads if where != 'output' else (), heads if where != 'input' else ()))
    doc = document(version, [op], schemas=schemas, more=[message])
    m = made(doc, 'client')
    method = the_service(m).methods[0]
    sx.check((method.input_header is not None) == (where != 'output') and (method.output_header is not None) == (where != 'input'), 'classes for the blocks')
    text = sx.str('text', 1, 1, 'ab')
    reply = [element('{urn:t}tell', ('v', 'r'))]
    if where != 'input':
        reply += [element('{%s}%s' % (ns, 'extra'), ('v', 'z'))] if two else []
        reply.append(element('{%s}%s' % (ns, name), ('v', text)))
    wire = Wire(lambda h, d: envelope(version, *reply))
    field = python_name(sx.each(part))
    given = None
    if where != 'output':
        given = method.input_header(**{field: m.AuthType(v=text)})
        if two:
            given.second = m.AuthType(v='x')
    r = stub_class(m)().op(m.AskType(v='q'), header=given)
    body, head = sections(wire.sent[0][2], version)
    sx.check(len(head) == (0 if where == 'output' else 2 if two else 1), 'number of blocks')
    if where != 'output':
        mine = [b for b in head if sx.truth(b.tag == '{%s}%s' % (ns, name))]
        sx.check(len(mine) == 1 and sx.truth(mine[0][0].text == text), 'the block')
    if where != 'input':
        sx.check(isinstance(r.soap_header, method.output_header), 'class of the header')
        got = getattr(r.soap_header, field)
        sx.check(got is not None and sx.truth(got.v == text), 'the block of the answer')
        if two:
            sx.check(sx.truth(r.soap_header.second.v == 'z'), 'the second block')


@sx.case(params=[{'first': a} for a in ('in', 'out', 'main')])
def header_schemas(first):
    """blocks of requests and answers belong to the schema that has all of them"""
    def home(ns, names):
        t = x('complexType', x('sequence', x('element', name='v', type='xs:string')), name=ns[4:] + 'Type')
        return fill(etree.Element('{%s}schema' % XSD, nsmap={'xs': XSD, 'tns': ns}), [t] + [x('element', name=n, type='tns:' + ns[4:] + 'Type') for n in names], {'targetNamespace': ns})
    n_in, n_out = [sx.choice('blocks of the ' + k, [1, 2]) for k in ('request', 'answer')]
    ins, outs = ['a1', 'a2'][:n_in], ['b1', 'b2'][:n_out]
    # with two blocks, another schema may have an element of the name of one of them
    stray_in = [sx.choice('stray of the request', ['a1', 'a2'])] if n_in == 2 and sx.flag('stray a') else []
    stray_out = [sx.choice('stray of the answer', ['b1', 'b2'])] if n_out == 2 and sx.flag('stray b') else []
    schemas = [home('urn:in', ins + stray_out), home('urn:out', outs + stray_in), types_doc()]
    for i in {'in': (), 'out': (0,), 'main': (0, 0)}[first]:
        schemas.append(schemas.pop(i))
    message = w('message', *[w('part', name=n, element='h:' + n) for n in ins + outs], name='Heads')
    m = made(document('1.1', [Op('op', headers=([('Heads', n) for n in ins], [('Heads', n) for n in outs]))], schemas=schemas, more=[message]), 'client')
    method = the_service(m).methods[0]
    text = sx.str('text', 0, 2, 'ab')
    wire = Wire(lambda h, d: envelope('1.1', *([element('{urn:t}tell', ('v', 'r'))] + [element('{urn:out}' + n, ('v', text)) for n in outs])))
    r = stub_class(m)().op(m.AskType(v='q'), header=method.input_header(**{n: m.InType(v=text) for n in ins}))
    body, head = sections(wire.sent[0][2], '1.1')
    sx.check(len(head) == n_in, 'number of blocks')
    for n in ins:
        mine = [b for b in head if sx.truth(b.tag == '{urn:in}' + n)]
        sx.check(len(mine) == 1 and sx.truth((mine[0][0].text or '') == text), 'block of the request')
    for n in outs:
        got = getattr(r.soap_header, n)
        sx.check(got is not None and sx.truth((got.v or '') == text), 'block of the answer')
    for h, names in ((method.input_header, ins), (method.output_header, outs)):
        sx.check(sorted(f._name for f in h._meta.fields) == names, 'exactly the blocks of the message')


def python_name(name):
    return name.replace('-', '_')


@sx.case(params=[{'version': v, 'kind': k} for v in ('1.1', '1.2') for k in ('element', 'type')])
def serves(version, kind):
    """the server code answers what the document says"""
    name = name_('op')
    refs = ('tns:ask', 'tns:tell') if kind == 'element' else ('tns:askType', 'tns:tellType')
    m = made(document(version, [Op('first', 'no'), Op(name, 'urn:act', input=refs[0], output=refs[1], kind=kind)]), 'server')
    s = the_service(m)
    for o in s.methods:
        sx.check(callable(o.function) and o.function.__code__.co_argcount == 2, 'a function for the operation')
    calls = []

    @s.route(name)
    def function(request, ask):
        calls.append(ask)
        return m.TellType(v=ask.v, n=5)
    text = sx.str('text', 1, 1, 'a<&')
    tag = ('ask', 'tell') if kind == 'element' else ('askType', 'tellType')
    env = {'REQUEST_METHOD': 'POST'}
    if version == '1.1':
        env['SOAPACTION'] = 'urn:act'
    else:
        env['CONTENT_TYPE'] = 'application/soap+xml; action="urn:act"'
    if kind == 'type':
        return
    r = soap_dispatch.SOAPDispatcher(s).dispatch(SOAPRequest(env, envelope(version, element('{urn:t}' + tag[0], ('v', text)))))
    sx.check(len(calls) == 1 and isinstance(calls[0], m.AskType) and sx.truth(calls[0].v == text), 'the function is called')
    body, head = sections(etree.fromstring(r.http_content), version)
    sx.check(r.http_status_code == 200 and sx.truth(body.tag == '{urn:t}' + tag[1]) and sx.truth(body[0].text == text), 'the answer')


@sx.case(params=[{'what': a} for a in ('ask', 'tell')])
def arguments(what):
    """elements of any name can be messages"""
    name = sx.choice('which', ['self', 'header', 'request', 'class', 'None', 'cls', 'a-b']) if sx.flag('special') else sx.str('name', 1, 2, 'aZ-_', 'aZ')
    sx.assume(name != 'ask')
    more = x('element', name=name, type='tns:askType')
    refs = ('tns:' + name, 'tns:tell') if what == 'ask' else ('tns:ask', 'tns:' + name)
    doc = document('1.1', [Op('op', input=refs[0], output=refs[1])], schemas=[types_doc(more)])
    m = made(doc, 'server')
    sx.check(m.op.__code__.co_argcount == 2, 'function of the server')
    m = made(doc, 'client')
    wire = Wire(lambda h, d: envelope('1.1', element('{urn:t}' + refs[1][4:], ('v', 'r'))))
    r = stub_class(m)().op(m.AskType(v='q'))
    body, head = sections(wire.sent[0][2], '1.1')
    sx.check(sx.truth(body.tag == '{urn:t}' + refs[0][4:]) and r.soap_body.v == 'r', 'messages')


@sx.case(params=[{'version': v, 'kind': k} for v in ('1.1', '1.2') for k in ('element', 'class')])
def round_trip(version, kind):
    """code generated from the document of a service talks to the service"""
    name = sx.str('name', 1, 2, 'aZ-', 'aZ')
    text = sx.str('text', 1, 1, 'a<&')
    calls = []

    def function(request, ask):
        calls.append(ask)
        return Tell(v=ask.v, n=3)
    i, o = ('ask', 'tell') if kind == 'element' else (Ask, Tell)
    ops = [xsd.Method('zero', 'no', input=o, output=i), xsd.Method(name, 'urn:' + sx.str('action', 0, 1, 'a\'<&'), input=i, output=o, function=function)]
    ns = 'urn:' + sx.str('ns', 1, 1, 'sa\'')
    service = soap.Service('urn:s', 'http://h/app', [app_schema(ns)], ops, version=MODULE[version], name=sx.choice('service', ['S', 'a-b']))
    first = py2wsdl.generate_wsdl(service)
    m = made(etree.fromstring(etree.tostring(first)), 'client')
    s = the_service(m)
    sx.check(sx.truth(s.name == service.name + 'Port') and s.version is service.version and sx.truth(s.targetNamespace == 'urn:s'), 'service')
    sx.check(sx.truth(s.methods[1].soapAction == ops[1].soapAction) and sx.truth(s.methods[1].operationName == name), 'operation')
    sx.check(sx.truth(s.schemas[0].targetNamespace == ns), 'schema')

    Here = stub_class(m)
    sx.check(Here().location == 'http://h/app', 'location')
    if kind == 'element':
        d = soap_dispatch.SOAPDispatcher(service)

        def answer(headers, data):
            env = {'REQUEST_METHOD': 'POST', 'CONTENT_TYPE': headers.get('Content-Type')}
            if 'SOAPAction' in headers:
                env['SOAPACTION'] = headers['SOAPAction']
            return d.dispatch(SOAPRequest(env, data)).http_content
        Wire(answer)
        r = Here().call(name, m.Ask(v=text))
        sx.check(len(calls) == 1 and isinstance(calls[0], Ask) and sx.truth(calls[0].v == text), 'the service is called')
        sx.check(isinstance(r.soap_body, m.Tell) and sx.truth(r.soap_body.v == text) and sx.truth(r.soap_body.n == 3), 'the client gets the answer')
    s.name, s.location = service.name, service.location
    alike(first, py2wsdl.generate_wsdl(s))


@sx.case(params=[{'target': t} for t in ('client', 'server')])
def addressing(target):
    """with WS-Addressing its header is used, also as base of declared header blocks"""
    use = sx.flag('use')
    declared = sx.flag('declared')
    more = [x('complexType', x('sequence', x('element', name='v', type='xs:string')), name='authType'), x('element', name='auth', type='tns:authType')]
    op = Op('op', headers=([('Heads', 'auth')], ()) if declared else ((), ()))
    doc = document('1.1', [op], schemas=[types_doc(*more)], more=[w('message', w('part', name='auth', element='tns:auth'), name='Heads')])
    s = the_service(made(doc, target, use_wsa=use))
    method = s.methods[0]
    sx.check((method.input_header is not None) == declared, 'declared header')
    if declared:
        sx.check(issubclass(method.input_header, wsa.Header) == use, 'base of the header')

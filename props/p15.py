"""GET requests are answered with the WSDL and the schemas of the service, and with nothing else."""
import sx
from lxml import etree

from props.svc import App, NS, ch
from soapfish import soap, soap_dispatch, xsd
from soapfish.core import SOAPRequest

BOUNDS = ('query strings of 0..4 symbolic characters in each part and of up to 3 parts, symbolic hosts and schemes of 0..3 characters (and 1 with usual ports); trees of up to 4 imported and included schemas '
          'with symbolic locations of 1..3 characters, every shape, of services with one to three schemas; WSDL and schemas given by the user with symbolic content')
OUTSIDE = 'percent escapes and plus signs in query strings, hosts with XML mark-up, several schemas under one location'

XSD = 'http://www.w3.org/2001/XMLSchema'


def get(d, qs, **env):
    e = {'REQUEST_METHOD': 'GET', 'QUERY_STRING': qs}
    e.update(env)
    return d.dispatch(SOAPRequest(e, b''))


def is_xml(r, label):
    sx.check(sx.truth(r.http_status_code == 200), label + ': status')
    sx.check(sx.truth(r.http_headers.get('Content-Type') == 'text/xml'), label + ': content type')
    sx.check(sx.truth(isinstance(r.http_content, bytes)), label + ': bytes')


def is_refused(r, status, label):
    sx.check(sx.truth(r.http_status_code == status), label + ': status')
    sx.check(sx.truth(r.http_headers.get('Content-Type') == 'text/plain'), label + ': content type')
    sx.check(sx.truth(isinstance(r.http_content, bytes) and b'<' not in r.http_content), label + ': plain text')


@sx.case(params=[{'n': n} for n in (1, 2, 3)], reach=['wsdl', 'xsd', 'refused'])
def queries(n):
    """which answer a query string selects"""
    app = App()
    d = app.dispatcher(wsdl=b'<W/>', xsds={'l': b'<L/>', 'xsd': b'<X/>'})
    keys, values, parts = [], [], []
    for i in range(n):
        k = sx.str('k%d' % i, 0, 4, 'wsdlxWinge') if n == 1 else sx.choice('k%d' % i, ['wsdl', 'singleWsdl', 'xsd', 'WSDL', 'x', ''] if n == 2 else ['wsdl', 'xsd', 'x'])
        v = sx.choice('v%d' % i, [None, '', 'l', 'm', 'xsd'] if n < 3 else [None, 'l', 'm'])
        parts.append(k if v is None else k + '=' + v)
        if len(k) or v is not None:
            keys.append(k)
            values.append(v or '')
    r = get(d, '&'.join(parts))
    if any(k == 'wsdl' or k == 'singleWsdl' for k in keys):
        is_xml(r, 'wsdl')
        sx.check(sx.truth(r.http_content == b'<W/>'), 'the WSDL')
        sx.reach('wsdl')
        return
    for k, v in zip(keys, values):
        if k == 'xsd':
            if v in ('l', 'xsd', ''):
                is_xml(r, 'xsd')
                sx.check(sx.truth(r.http_content == (b'<L/>' if v == 'l' else b'<X/>')), 'the schema')
            else:
                is_refused(r, 404, 'unknown schema')
            sx.reach('xsd')
            return
    is_refused(r, 400, 'no known query')
    sx.reach('refused')


@sx.case(params=[{'have': h} for h in ('none', 'other', 'blank')])
def location_lookup(have):
    """?xsd= names exactly one of the schemas"""
    app = App()
    xsds = {'ab': b'<AB/>', 'b': b'<B/>'}
    if have == 'blank':
        xsds['xsd'] = b'<X/>'
    d = app.dispatcher(xsds=xsds)
    loc = sx.str('loc', 0, 3, 'abc./')
    r = get(d, 'xsd=' + loc if have != 'other' else 'y=ab&xsd=' + loc)
    if loc == 'ab':
        sx.check(sx.truth(r.http_content == b'<AB/>'), 'schema ab')
    elif loc == 'b':
        sx.check(sx.truth(r.http_content == b'<B/>'), 'schema b')
    elif len(loc) == 0 and have == 'blank':
        sx.check(sx.truth(r.http_content == b'<X/>'), 'default schema')
    else:
        is_refused(r, 404, 'unknown schema')


@sx.case(params=[{'q': q} for q in ('wsdl', 'singleWsdl', 'wsdl&xsd=l')], reach=['host', 'no host'])
def placeholders(q):
    """scheme and host of the request are put into the WSDL"""
    app = App()
    scheme = sx.choice('scheme', [None, 'http', 'https'])
    forwarded = sx.choice('forwarded', [None, 'https', 'http'])
    header = sx.choice('header', ['X_FORWARDED_PROTO', 'HTTP_X_FORWARDED_PROTO'])
    host = sx.str('host', 0, 3, 'ab.:') if sx.flag('has host') else None
    if host is not None and len(host) == 1 and q == 'wsdl':
        host = host + sx.choice('port', ['', ':80', ':443', ':8080', '.example'])
    env = {}
    if scheme:
        env['wsgi.url_scheme'] = scheme
    if forwarded:
        env[header] = forwarded
    if host is not None:
        env['HTTP_HOST'] = host
    own = sx.choice('own', ['', 'braces', 'plain'])
    docs = {'braces': b'<w a="${scheme}" b="${host}" c="${other}" d="$$"/>', 'plain': b'<w a="$scheme" b="$host" c="${other}"/>'}
    d = app.dispatcher(wsdl=docs[own]) if own else app.dispatcher()
    r = get(d, q, **env)
    is_xml(r, 'wsdl')
    root = etree.fromstring(r.http_content)
    if host is not None and len(host) > 0:
        s = forwarded or scheme or 'http'
        sx.reach('host')
    else:
        s, host = ('$scheme', '$host') if own == 'plain' else ('${scheme}', '${host}')
        sx.reach('no host')
    if own:
        sx.check(sx.and_(root.get('a') == s, root.get('b') == host, root.get('c') == '${other}'), 'placeholders')
    else:
        address = root.xpath('//*[local-name()="address"]')[0]
        sx.check(address.get('location') == s + '://' + host + '/app', 'location of the service')
    if sx.flag('twice'):
        r2 = etree.fromstring(get(d, q, HTTP_HOST='zz').http_content)
        got = r2.get('b') if own else r2.xpath('//*[local-name()="address"]')[0].get('location')
        sx.check(sx.truth(got == ('zz' if own else 'http://zz/app')), 'the next request is answered for its own host')


def locations(doc):
    """what the imports and includes of a document refer to"""
    return [e.get('schemaLocation') for e in doc.iter('{%s}import' % XSD, '{%s}include' % XSD) if e.get('schemaLocation') is not None]


def tree(kinds, name, locs):
    """leaf schemas and how they hang together"""
    class V(xsd.ComplexType):
        v = xsd.Element(xsd.String)
    n = len(locs)
    made, shape = {}, SHAPES[name]

    def make(i):
        if i in made:
            return made[i]
        ns = NS if i < 0 or kinds[i] == 'include' else 'urn:s%d' % i
        kw = {'complexTypes': [V], 'elements': {'in': xsd.Element(V), 'out': xsd.Element(V)}} if i < 0 else {'elements': {'e%d' % i: xsd.Element(xsd.String)}}
        # schemas that refer to each other can only be tied together afterwards.
        imports, includes = [], []
        if i in CYCLIC.get(name, ()):
            made[i] = xsd.Schema(ns, location=locs[i], **kw)
        for j in shape.get(i, ()):
            (imports if kinds[j] == 'import' else includes).append(make(j))
        if i in made:
            made[i].imports, made[i].includes = imports, includes
        else:
            made[i] = xsd.Schema(ns, imports=imports, includes=includes, location=locs[i] if i >= 0 else None, **kw)
        return made[i]
    make(-1)
    return made, n


SHAPES = {'one': {-1: (0,)}, 'two': {-1: (0, 1)}, 'chain': {-1: (0,), 0: (1,)}, 'diamond': {-1: (0, 1), 0: (2,), 1: (2,)}, 'deep': {-1: (0,), 0: (1,), 1: (2,), 2: (3,)},
          'self': {-1: (0,), 0: (0,)}, 'cycle': {-1: (0,), 0: (1,), 1: (0,)}, 'circle': {-1: (0, 2), 0: (1,), 1: (2,), 2: (0,)}}
CYCLIC = {'self': (0,), 'cycle': (0,), 'circle': (0,)}


@sx.case(params=[{'shape': s} for s in SHAPES])
def schemas_served(shape):
    """every schema that the WSDL or a served schema refers to is served, under the address given there"""
    n = 1 + max(j for t in SHAPES[shape].values() for j in t)
    kinds = [sx.choice('kind%d' % i, ['import', 'include']) for i in range(n)]
    given = sx.str('loc0', 1, 3 if shape == 'one' or sx.tier() == 'thorough' else 1, 'ab./:-&+#% ')
    locs = [given] + ['other%d.xsd' % i for i in range(1, n)]
    made, n = tree(kinds, shape, locs)
    method = xsd.Method('M', 'urn:m', input='in', output='out')
    service = soap.Service('urn:svc', 'http://x', [made[-1]], [method], name='S')
    sx.patch(soap_dispatch.py2xsd, 'schema_validator', lambda schemas: None)
    d = soap_dispatch.SOAPDispatcher(service)
    todo, done = [etree.fromstring(get(d, 'wsdl').http_content)], []
    want = [(-1, (j, locs[j])) for j in SHAPES[shape][-1]]
    current = [-1]
    while todo:
        doc, at = todo.pop(), current.pop()
        refs = locations(doc)
        below = SHAPES[shape].get(at, ())
        sx.check(sx.truth(len(refs) == len(below)), 'one reference for each import and include')
        order = [j for j in below if kinds[j] == 'import'] + [j for j in below if kinds[j] == 'include']
        for ref, j in zip(refs, order):
            sx.check(ref.startswith('?xsd='), 'address of the schema')
            r = get(d, ref[1:].split('#')[0])
            is_xml(r, 'schema')
            sub = etree.fromstring(r.http_content)
            sx.check(sx.truth(sub.tag == '{%s}schema' % XSD), 'a schema')
            sx.check(sx.truth(sub.get('targetNamespace') == made[j].targetNamespace), 'namespace of the schema')
            sx.check(sx.truth([e.get('name') for e in sub if e.tag == '{%s}element' % XSD] == ['e%d' % j]), 'elements of the schema')
            if j not in done:
                done.append(j)
                todo.append(sub)
                current.append(j)
    sx.check(sx.truth(len(done) == n), 'all schemas can be reached')


@sx.case(params=[{'n': n} for n in (2, 3)])
def several_schemas(n):
    """a service with several schemas, each with imports and includes of its own or shared ones"""
    class V(xsd.ComplexType):
        v = xsd.Element(xsd.String)
    shared = xsd.Schema('urn:shared', location='d/shared.xsd', elements={'s': xsd.Element(xsd.String)})
    roots, want = [], []
    at = sx.choice('at', range(n))
    for i in range(n):
        ns = NS if i == 0 else 'urn:r%d' % i
        leaf = xsd.Schema('urn:i%d' % i, location='i%d' % i + sx.str('loc%d' % i, 0, 1, 'a/.') , elements={'i%d' % i: xsd.Element(xsd.String)})
        part = xsd.Schema(ns, location='c%d.xsd' % i, elements={'c%d' % i: xsd.Element(xsd.String)})
        has = sx.choice('has%d' % i, ['nothing', 'import', 'include', 'both', 'shared'] if n == 2 else ['nothing', 'both', 'shared'])
        imports, includes = {'nothing': ([], []), 'import': ([leaf], []), 'include': ([], [part]), 'both': ([leaf], [part]), 'shared': ([shared], [])}[has]
        kw = {'complexTypes': [V], 'elements': {'in': xsd.Element(V), 'out': xsd.Element(V)}} if i == at else {'elements': {'r%d' % i: xsd.Element(xsd.String)}}
        roots.append(xsd.Schema(ns, imports=imports, includes=includes, **kw))
        want.append(imports + includes)
    service = soap.Service('urn:svc', 'http://x', roots, [xsd.Method('M', 'urn:m', input='in', output='out')], name='S')
    sx.patch(soap_dispatch.py2xsd, 'schema_validator', lambda schemas: None)
    d = soap_dispatch.SOAPDispatcher(service)
    doc = etree.fromstring(get(d, 'wsdl').http_content)
    schemas = list(doc.iter('{%s}schema' % XSD))
    sx.check(sx.truth([s.get('targetNamespace') for s in schemas] == [r.targetNamespace for r in roots]), 'schemas of the service')
    for s, below in zip(schemas, want):
        refs = locations(s)
        sx.check(sx.truth(len(refs) == len(below)), 'one reference for each import and include')
        for ref, b in zip(refs, below):
            sx.check(ref.startswith('?xsd='), 'address of the schema')
            r = get(d, ref[1:])
            is_xml(r, 'schema')
            sub = etree.fromstring(r.http_content)
            sx.check(sx.truth(sub.get('targetNamespace') == b.targetNamespace and [e.get('name') for e in sub] == list(b.elements)), 'the schema that is meant')


@sx.case()
def without_location():
    """imports without location stay without one"""
    class V(xsd.ComplexType):
        v = xsd.Element(xsd.String)
    other = xsd.Schema('urn:other', elements={'e': xsd.Element(xsd.String)})
    schema = xsd.Schema(NS, complexTypes=[V], elements={'in': xsd.Element(V), 'out': xsd.Element(V)}, imports=[other])
    service = soap.Service('urn:svc', 'http://x', [schema], [xsd.Method('M', 'urn:m', input='in', output='out')], name='S')
    sx.patch(soap_dispatch.py2xsd, 'schema_validator', lambda schemas: None)
    doc = etree.fromstring(get(soap_dispatch.SOAPDispatcher(service), 'wsdl').http_content)
    imports = [e for e in doc.iter('{%s}import' % XSD)]
    sx.check(sx.truth(len(imports) == 1 and imports[0].get('namespace') == 'urn:other' and imports[0].get('schemaLocation') is None), 'import without location')


@sx.case(params=[{'version': v} for v in ('1.1', '1.2')])
def never_operations(version):
    """GET requests never run an operation, whatever they carry"""
    app = App(version)
    d = app.dispatcher()
    q = sx.choice('q', ['wsdl', 'singleWsdl', 'xsd=a', '', 'op'])
    env = app.environ('urn:do', REQUEST_METHOD='GET', QUERY_STRING=q)
    if q == '' and sx.flag('no query'):
        del env['QUERY_STRING']
    r = d.dispatch(SOAPRequest(env, app.envelope(app.element('op', ('text', 'a')))))
    sx.check(sx.truth(app.calls == []), 'no operation')
    sx.check(sx.truth(r.http_status_code == {'wsdl': 200, 'singleWsdl': 200, 'xsd=a': 404}.get(q, 400)), 'status')


@sx.case(params=[{'verb': v} for v in ('POST', 'PUT', 'HEAD', '')])
def other_verbs(verb):
    """the documents are only given to GET requests"""
    app = App()
    d = app.dispatcher(xsds={'l': b'<L/>'})
    q = sx.choice('q', ['wsdl', 'singleWsdl', 'xsd=l', 'xsd'])
    r = get(d, q, REQUEST_METHOD=verb)
    if verb == 'POST':
        sx.check(sx.truth(r.http_status_code == 500), 'a POST without envelope is a fault')
    else:
        is_refused(r, 400, 'other verb')

"""What the server answers is what the client gets: results, headers and faults."""
import sx
import requests
from lxml import etree

from props.svc import App, CLIENT, ENV, NS, SERVER, SOAP, TYPE, ch
from soapfish import soap, soap_dispatch, xsd
from soapfish.core import SOAPError, SOAPRequest, SOAPResponse

BOUNDS = ('calls through the client stub to a dispatcher, both SOAP versions, qualified and unqualified: symbolic texts of 1..2 characters (mark-up included), symbolic integers, lists of 0..2, '
          'nested objects and attributes present or absent, named and class operations; faults with symbolic codes and messages of 1..3 characters and actors; three stubs of one class with services, locations or credentials of their own; '
          'symbolic locations, schemes, hosts, user names and SOAP actions')
OUTSIDE = 'HTTP transport itself; responses that are no SOAP envelope; empty strings (absent in XML)'


class Wire:
    """stands in for the HTTP connection"""

    def __init__(self, app, dispatcher=None, answer=None):
        self.app, self.dispatcher, self.answer = app, dispatcher or app.dispatcher(), answer
        self.sent = []
        self.responses = []
        sx.patch(requests, 'post', self.post)

    def post(self, url, auth=None, headers=None, data=None, **kw):
        self.sent.append((url, auth, headers, data))
        self.kw = kw
        if self.answer is not None:
            content, status = self.answer, 500
        else:
            env = {'REQUEST_METHOD': 'POST'}
            for k, v in headers.items():
                k = k.upper().replace('-', '_')
                env[k if k in ('CONTENT_TYPE', 'CONTENT_LENGTH') else 'HTTP_' + k] = v
            r = self.dispatcher.dispatch(SOAPRequest(env, data))
            content, status = r.http_content, r.http_status_code
            self.responses.append(r)
        sx.check(sx.truth(isinstance(data, bytes)), 'request is bytes')

        class Response:
            pass
        o = Response()
        o.headers, o.content, o.status_code = {}, content, status
        return o


VF = [{'version': v, 'form': f} for v in ('1.1', '1.2') for f in ('qualified', 'unqualified')]


def text(name, hi=2):
    return sx.str(name, 1, hi, 'a<&"\' \xe9\u20ac')


def maybe(name, make):
    return make() if sx.flag('has ' + name) else None


@sx.case(params=VF)
def request_arrives(version, form):
    app = App(version, form)
    wire = Wire(app)
    stub = soap.Stub(service=app.service)
    count = maybe('count', lambda: sx.int('count', 0, 20))
    kind = maybe('kind', lambda: sx.str('kind', 1, 1, 'alpha'))
    v = app.OpInput(text=text('text', 1), count=count, kind=kind)
    items = [ch('i%d' % i) for i in range(sx.choice('items', range(3)))]
    for i in items:
        v.items.append(i)
    if sx.flag('inner'):
        v.inner = app.Inner(code=sx.str('code', 1, 1, 'AB'), note=maybe('note', lambda: ch('notetext')))
    stub.call('Op', v)
    sx.check(sx.truth(len(app.calls) == 1 and app.calls[0][0] == 'op'), 'the operation ran once')
    got = app.calls[0][2]
    sx.check(got.text == v.text, 'text')
    sx.check(sx.truth(isinstance(got, app.OpInput)), 'class of the input')
    for n in ('count', 'kind'):
        a, b = getattr(v, n), getattr(got, n)
        sx.check(sx.truth(b is None) if a is None else b == a, n)
    sx.check(sx.truth(len(got.items) == len(items)), 'number of items')
    sx.check(sx.and_(*[a == b for a, b in zip(items, got.items)]), 'items')
    sx.check(sx.truth((got.inner is None) == (v.inner is None)), 'nested object')
    if v.inner is not None:
        sx.check(got.inner.code == v.inner.code, 'nested value')
        sx.check(sx.truth(got.inner.note is None) if v.inner.note is None else got.inner.note == v.inner.note, 'nested optional value')


@sx.case(params=VF)
def answer_arrives(version, form):
    t, count = text('text'), maybe('count', lambda: sx.int('count', -9, 20))
    kind = maybe('kind', lambda: ch('kindtext'))
    items = [ch('i%d' % i) for i in range(sx.choice('items', range(3)))]

    def answer(request, value):
        r = app.Reply(text=t, count=count, kind=kind)
        for i in items:
            r.items.append(i)
        return SOAPResponse(r) if sx.flag('response') else r
    app = App(version, form, answer=answer)
    Wire(app)
    stub = soap.Stub(service=app.service)
    r = stub.call('Op', app.OpInput(text='a'))
    sx.check(sx.truth(isinstance(r, SOAPResponse) and isinstance(r.soap_body, app.Reply)), 'class of the answer')
    b = r.soap_body
    sx.check(b.text == t, 'text')
    sx.check(sx.truth(b.count is None) if count is None else b.count == count, 'count')
    sx.check(sx.truth(b.kind is None) if kind is None else b.kind == kind, 'kind')
    sx.check(sx.truth(len(b.items) == len(items)), 'number of items')
    sx.check(sx.and_(*[x == y for x, y in zip(items, b.items)]), 'items')
    sx.check(sx.truth(r.soap_header is None), 'no header')


@sx.case(params=[{'version': v, 'level': l} for v in ('1.1', '1.2') for l in ('method', 'service', 'both')])
def headers_arrive(version, level):
    """headers travel both ways; those of the operation count before those of the service"""
    sent, back = sx.int('sent', 0, 99), sx.int('back', 0, 99)
    has_sent, has_back = (sx.choice(n, ['none', 'empty', 'full']) for n in ('send', 'answer'))
    seen = []

    def header(kind, value):
        return {'none': lambda: None, 'empty': lambda: app.Header(), 'full': lambda: app.Header(token=app.Token(id=value))}[kind]()

    def answer(request, value):
        seen.append(request.soap_header)
        return SOAPResponse(app.Reply(text='t'), soap_header=header(has_back, back))
    app = App(version, answer=answer)

    class Wrong(xsd.ComplexType):
        token = xsd.Element(xsd.Date, namespace=NS, minOccurs=0)
    if level in ('method', 'both'):
        app.service.methods[0].input_header = app.service.methods[0].output_header = app.Header
    if level in ('service', 'both'):
        app.service.input_header = app.service.output_header = Wrong if level == 'both' else app.Header
    Wire(app)
    stub = soap.Stub(service=app.service)
    r = stub.call('Op', app.OpInput(text='a'), header=header(has_sent, sent))
    sx.check(sx.truth(len(seen) == 1), 'the operation ran')
    for kind, value, got, label in ((has_sent, sent, seen[0], 'request'), (has_back, back, r.soap_header, 'answer')):
        if kind == 'none':
            sx.check(sx.truth(got is None), 'no header in the ' + label)
        else:
            sx.check(sx.truth(isinstance(got, app.Header)), 'header of the ' + label)
            if kind == 'empty':
                sx.check(sx.truth(got.token is None), 'empty header of the ' + label)
            else:
                sx.check(got.token.id == value, 'value of the header of the ' + label)


@sx.case(params=[{'version': v} for v in ('1.1', '1.2')])
def undeclared_headers(version):
    """headers are sent whether or not the operation declares them, and only read where they are declared"""
    app = App(version, answer=lambda request, value: SOAPResponse(app.Reply(text='t'), soap_header=app.Header(token=app.Token(id=back))))
    back, sent = sx.int('back', 0, 99), sx.int('sent', 0, 99)
    reads, answers = sx.flag('reads'), sx.flag('answers')
    if reads:
        app.service.methods[0].input_header = app.Header
    if answers:
        app.service.methods[0].output_header = app.Header
    app.service.methods[1].input_header = app.service.methods[1].output_header = app.Header
    wire = Wire(app)
    r = soap.Stub(service=app.service).call('Op', app.OpInput(text='a'), header=app.Header(token=app.Token(id=sent)))
    for content, n, label in ((wire.sent[0][3], sent, 'request'), (wire.responses[0].http_content, back, 'answer')):
        h = [e for e in etree.fromstring(content).iter() if e.tag == '{%s}token' % NS]
        sx.check(sx.truth(len(h) == 1), label + ': header is sent')
        sx.check(h[0][0].text == str(n), label + ': value of the header')
    got = app.calls[0][1].soap_header
    sx.check(got.token.id == sent if reads else sx.truth(got is None), 'header the operation sees')
    sx.check(r.soap_header.token.id == back if answers else sx.truth(r.soap_header is None), 'header the client sees')


@sx.case(params=[{'version': v, 'how': h} for v in ('1.1', '1.2') for h in ('raise', 'return')])
def faults_arrive(version, how):
    kind = sx.choice('kind', ['client', 'server', 'own'])
    own = sx.str('code', 1, 3, 'aZ1:.-_') if kind == 'own' else None
    code = {'client': SOAP[version].Code.CLIENT, 'server': SOAP[version].Code.SERVER, 'own': own}[kind]
    want = {'client': CLIENT[version], 'server': SERVER[version], 'own': own}[kind]
    message = text('message', 3)
    sx.assume(len(message.strip()) > 0)

    def answer(request, value):
        e = SOAPError(code, message)
        if how == 'raise':
            raise e
        return e
    app = App(version, answer=answer)
    Wire(app)
    stub = soap.Stub(service=app.service)
    r = sx.outcome(stub.call, 'Op', app.OpInput(text='a'))
    sx.check(r.raised(SOAPError), 'the client raises')
    sx.check(r.exc.code == want, 'code')
    sx.check(r.exc.message == message, 'message')
    sx.check(sx.truth(r.exc.actor is None), 'actor')
    app.answer = lambda request, value: app.Reply(text='again')
    sx.check(sx.truth(stub.call('Op', app.OpInput(text='a')).soap_body.text == 'again'), 'the next call is not affected')


@sx.case(params=[{'version': v} for v in ('1.1', '1.2')])
def foreign_faults(version):
    """faults as other servers write them"""
    app = App(version)
    code, message = sx.str('code', 1, 3, 'aZ1:.-_'), sx.str('message', 1, 2, 'aB.:')
    actor = maybe('actor', lambda: sx.str('actortext', 1, 2, 'ab'))
    detail, header = sx.flag('detail'), sx.flag('header')
    ns = '{%s}' % ENV[version]
    env = etree.Element(ns + 'Envelope', nsmap={'soapenv': ENV[version]})
    if header:
        h = etree.SubElement(env, ns + 'Header')
        etree.SubElement(h, '{urn:z}unknown').text = 'x'
    f = etree.SubElement(etree.SubElement(env, ns + 'Body'), ns + 'Fault')
    if version == '1.1':
        etree.SubElement(f, 'faultcode').text = code
        etree.SubElement(f, 'faultstring').text = message
        if actor is not None:
            etree.SubElement(f, 'faultactor').text = actor
        if detail:
            etree.SubElement(etree.SubElement(f, 'detail'), '{urn:z}cause').text = 'c'
    else:
        etree.SubElement(etree.SubElement(f, ns + 'Code'), ns + 'Value').text = code
        if detail:
            etree.SubElement(f[0], ns + 'Subcode')
        etree.SubElement(etree.SubElement(f, ns + 'Reason'), ns + 'Text').text = message
        if actor is not None:
            etree.SubElement(f, ns + 'Role').text = actor
        if detail:
            etree.SubElement(f, ns + 'Detail')
    Wire(app, answer=etree.tostring(env))
    r = sx.outcome(soap.Stub(service=app.service).call, 'Op', app.OpInput(text='a'))
    sx.check(r.raised(SOAPError), 'the client raises')
    sx.check(sx.and_(r.exc.code == code, r.exc.message == message), 'code and message')
    sx.check(sx.truth(r.exc.actor is None) if actor is None else r.exc.actor == actor, 'actor')


@sx.case(params=[{'version': v} for v in ('1.1', '1.2')])
def refused_input(version):
    """what the server's schema forbids comes back as a client fault"""
    app = App(version)

    class Loose(xsd.ComplexType):
        text = xsd.Element(xsd.String)
    Loose.SCHEMA = app.schema
    Wire(app)
    t = sx.str('t', 1, 4, 'alpha')
    r = sx.outcome(soap.Stub(service=app.service).call, 'Op', Loose(text=t))
    if len(t) <= 2:
        sx.check(sx.truth(r.ok), 'valid input')
    else:
        sx.check(r.raised(SOAPError), 'the client raises')
        sx.check(sx.truth(r.exc.code == CLIENT[version]), 'client fault')
        sx.check(sx.truth(app.calls == []), 'no operation')


@sx.case(params=[{'version': v} for v in ('1.1', '1.2')])
def http_request(version):
    """one POST to the location, with the credentials and the headers of the SOAP version"""
    app = App(version)
    action = sx.str('action', 1, 3, 'a:/')
    app.service.methods[0].soapAction = action
    user, password = maybe('user', lambda: sx.str('username', 1, 2, 'alpha')), sx.str('password', 0, 2, 'alpha')
    wire = Wire(app)
    stub = soap.Stub(username=user, password=password, service=app.service)
    stub.call('Op', app.OpInput(text='a'))
    sx.check(sx.truth(len(wire.sent) == 1), 'one request')
    url, auth, headers, data = wire.sent[0]
    if user is None:
        sx.check(sx.truth(auth is None), 'no credentials')
    else:
        sx.check(sx.and_(auth[0] == user, auth[1] == password), 'credentials')
    if version == '1.1':
        sx.check(sx.truth(sorted(headers) == ['Content-Type', 'SOAPAction'] and headers['Content-Type'] == 'text/xml'), 'headers')
        sx.check(headers['SOAPAction'] == action, 'action')
    else:
        sx.check(sx.truth(sorted(headers) == ['Content-Type']), 'headers')
        sx.check(headers['Content-Type'] == 'application/soap+xml; action="' + action + '"', 'action')
    doc = etree.fromstring(data)
    ns = '{%s}' % ENV[version]
    sx.check(sx.truth([c.tag for c in doc.iter() if c.tag.startswith(ns)] == [ns + 'Envelope', ns + 'Body']), 'envelope without header')
    sx.check(sx.truth(doc[0][0].tag == '{%s}op' % NS), 'input element')


@sx.case(params=[{'kind': k} for k in ('default', 'class', 'given', 'text', 'function', 'bad')])
def location(kind):
    app = App()
    scheme, host = sx.choice('scheme', ['http', 'https']), sx.str('host', 1, 3, 'ab.')
    path = sx.str('path', 0, 2, 'ab/')
    app.service.location = '${scheme}://${host}/' + path

    class Client(soap.Stub):
        SERVICE = app.service
        SCHEME = scheme
        HOST = host
    if kind == 'bad':
        sx.check(sx.outcome(soap.Stub, service=app.service, location=sx.choice('loc', [5, ('x',), b'http://x'])).raised(TypeError), 'no location')
        return
    if kind == 'default':
        stub, want = soap.Stub(service=app.service), 'http://www.example.net/' + path
    elif kind == 'given':
        class Bare(soap.Stub):
            SCHEME = scheme
            HOST = host
        stub, want = Bare(service=app.service), scheme + '://' + host + '/' + path
    elif kind == 'class':
        stub, want = Client(), scheme + '://' + host + '/' + path
    elif kind == 'text':
        stub, want = Client(location='urn:' + host), 'urn:' + host
    else:
        stub, want = Client(location=lambda template, context: context['host'] + '|' + context['scheme'] + '|' + template), host + '|' + scheme + '|' + '${scheme}://${host}/' + path
    wire = Wire(app)
    stub.call('Op', app.OpInput(text='a'))
    sx.check(wire.sent[0][0] == want, 'location')


@sx.case(params=[{'version': v} for v in ('1.1', '1.2')])
def class_operations(version):
    """operations that name classes instead of elements"""
    class Ping(xsd.ComplexType):
        v = xsd.Element(xsd.String)

    class Pong(xsd.ComplexType):
        w = xsd.Element(xsd.String)
    schema = xsd.Schema(NS, elementFormDefault='unqualified', complexTypes=[Ping, Pong], elements={'ping': xsd.Element(Ping), 'pong': xsd.Element(Pong)})
    calls = []

    def f(request, value):
        calls.append(value)
        return Pong(w=value.v + value.v)
    method = xsd.Method('Ping', 'urn:ping', input=Ping if sx.flag('class in') else 'ping', output=Pong if sx.flag('class out') else 'pong', function=f)
    service = soap.Service('urn:s', 'http://x', [schema], [method], version=getattr(soap.SOAPVersion, 'SOAP' + version.replace('.', '')), name='S')
    app = App(version)
    Wire(app, soap_dispatch.SOAPDispatcher(service))
    t = ch('t')
    r = soap.Stub(service=service).call('Ping', Ping(v=t))
    sx.check(sx.truth(len(calls) == 1 and isinstance(calls[0], Ping)), 'input')
    sx.check(calls[0].v == t, 'value of the input')
    sx.check(sx.truth(isinstance(r.soap_body, Pong)), 'answer')
    sx.check(r.soap_body.w == t + t, 'value of the answer')


@sx.case(params=[{'version': v} for v in ('1.1', '1.2')])
def two_calls(version):
    """calls do not mix"""
    app = App(version)

    def answer(request, value):
        if request.method.operationName == 'Op':
            return app.Reply(text=value.text)
        return app.Reply(text=value.word, count=1)
    app.answer = answer
    wire = Wire(app)
    stub = soap.Stub(service=app.service)
    got, want = [], []
    for i in range(2):
        t = ch('t%d' % i)
        op = sx.choice('op%d' % i, ['Op', 'Other'])
        r = stub.call(op, app.OpInput(text=t) if op == 'Op' else app.OtherInput(word=t))
        got.append(r.soap_body)
        want.append((op, t))
    for (op, t), b in zip(want, got):
        sx.check(b.text == t, 'answer to the call')
        sx.check(sx.truth((b.count is None) == (op == 'Op')), 'operation of the call')


@sx.case(params=[{'own': o} for o in ('service', 'location', 'user', 'scheme')])
def stubs(own):
    """stubs of one class are independent of each other"""
    app, other = App('1.1'), App(sx.choice('version', ['1.1', '1.2']))
    app.service.location, other.service.location = '${scheme}://${host}/a', '${scheme}://${host}/b'
    host, name = sx.str('host', 1, 2, 'ab.'), sx.str('name', 1, 2, 'alpha')

    class Client(soap.Stub):
        SERVICE = app.service
        HOST = host

    class Derived(Client):
        HOST = 'h' + host
        SCHEME = 'https'

    def special():
        if own == 'service':
            return Client(service=other.service), 'http://' + host + '/b', None, other
        if own == 'location':
            return Client(location='urn:' + name), 'urn:' + name, None, app
        if own == 'user':
            return Client(name, name + '1'), 'http://' + host + '/a', (name, name + '1'), app
        return Derived(), 'https://h' + host + '/a', None, app

    def plain():
        return Client(), 'http://' + host + '/a', None, app
    made = [(special if sx.flag('special %d' % i) else plain)() for i in range(3)]
    for i in sx.choice('order', [(0, 1, 2), (2, 0, 1), (1, 2, 0)]):
        stub, url, auth, a = made[i]
        wire = Wire(a)
        before = len(a.calls)
        stub.call('Op', a.OpInput(text='a'))
        sx.check(sx.truth(len(a.calls) == before + 1), 'the service of the stub is called')
        sx.check(wire.sent[0][0] == url, 'location of the stub')
        got = wire.sent[0][1]
        sx.check(sx.truth(got is None) if auth is None else sx.and_(got[0] == auth[0], got[1] == auth[1]), 'credentials of the stub')


@sx.case()
def unknown_operation():
    app = App()
    wire = Wire(app)
    n = sx.str('n', 0, 2, 'Op')
    sx.assume(n != 'Op')
    sx.check(sx.truth(not sx.outcome(soap.Stub(service=app.service).call, n, app.OpInput(text='a')).ok), 'no such operation')
    sx.check(sx.truth(wire.sent == []), 'nothing is sent')

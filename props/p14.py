"""Requests, calls and documents that are handled at the same time do not affect each other."""
import io

import sx
import requests
from lxml import etree

from props.gen import Files, a_type, place, schema, x
from props.svc import App, CLIENT, ENV, NS, SERVER, ch, parts
from soapfish import django_, flask_, middlewares, py2xsd, soap, soap_dispatch, wsa, wsdl, wsdl11, wsdl12, wsdl2py, xsd, xsd2py  # noqa: F401  (all modules are loaded)
from soapfish.core import SOAPError, SOAPRequest, SOAPResponse

BOUNDS = ('two activities that share a dispatcher, a WSGI application with middlewares and hooks, a stub, a class or a service: the first is stopped ahead of any statement of soapfish that it runs '
          '(a symbolic number, every statement decided by the solver), the second runs to its end there, or after the first; requests of eight kinds (operations by action and root, fault, invalid, unknown action, WSDL, schema, unknown schema), '
          'calls with answers and faults, Django and Flask views, objects with groups, lists, attributes and types given by name that are built, read and written (first use included), schemas, WSDL documents and code that are generated; symbolic texts of one character')
OUTSIDE = 'more than two activities, a second one that is stopped in turn, switches within a statement, at a later visit of the same statement or within lxml'

KINDS = ['op', 'other', 'fault', 'invalid', 'wsdl', 'unknown', 'schema', 'missing']


def token(value):
    e = etree.Element('{%s}token' % NS)
    etree.SubElement(e, 'id').text = value
    return e


def prepared(app, kind, text):
    """(environment, content) of a request"""
    if kind == 'op':
        return app.environ('urn:do'), app.envelope(app.element('op', ('text', text)), header=[token('7')] if app.mixed else None)
    if kind == 'other':
        return app.environ(), app.envelope(app.element('other', ('word', text)))
    if kind == 'fault':
        return app.environ('urn:do'), app.envelope(app.element('op', ('text', text), kind='fault'))
    if kind == 'invalid':
        return app.environ(), app.envelope(app.element('op', ('text', text), ('wrong', 'x')))
    if kind == 'unknown':
        return app.environ('urn:' + text), app.envelope(app.element('op', ('text', text)))
    if kind in ('schema', 'missing'):
        return {'REQUEST_METHOD': 'GET', 'QUERY_STRING': 'xsd=' + ('p.xsd' if kind == 'schema' else 'q' + text)}, b''
    return {'REQUEST_METHOD': 'GET', 'QUERY_STRING': 'wsdl', 'HTTP_HOST': 'h' + text}, b''


def judge(app, kind, text, result, label):
    """the answer is the one for this request"""
    sx.check(sx.truth(result.ok), label + ': answered')
    r = result.value
    if kind in ('schema', 'missing'):
        sx.check(sx.truth(r.http_status_code == (200 if kind == 'schema' else 404)), label + ': status')
        sx.check(sx.truth(kind == 'missing' or etree.fromstring(r.http_content).get('targetNamespace') == 'urn:p'), label + ': schema')
        return
    if kind == 'wsdl':
        at = etree.fromstring(r.http_content).xpath('//*[local-name()="address"]')[0].get('location')
        sx.check(sx.and_(at == 'http://h' + text + '/app', r.http_status_code == 200), label + ': WSDL for its host')
        return
    status, fault, body, head = parts(app.version, r)
    if kind in ('op', 'other'):
        sx.check(sx.truth(status == 200 and fault is None), label + ': a reply')
        sx.check(sx.truth(body.tag == '{%s}%sReply' % (NS, kind)), label + ': reply of the operation')
        sx.check(sx.truth(body[0].tag == ('word' if kind == 'other' and app.mixed else 'text') and body[0].text == text), label + ': its text')
        sx.check(sx.truth((head is not None and head[0][0].text == '7') if kind == 'op' and app.mixed else head is None), label + ': its header')
        return
    sx.check(sx.truth(status == 500 and fault is not None), label + ': a fault')
    if kind == 'fault':
        sx.check(sx.and_(fault[0] == ('c' if app.version == '1.1' else 'ns0:c') or fault[0] == 'c', fault[1] == 'm' + text), label + ': its error')
    else:
        sx.check(fault[0] == CLIENT[app.version], label + ': client fault')
        if kind == 'unknown':
            sx.check(fault[1] == 'Invalid SOAP action: urn:' + text, label + ': its message')


def application(version):
    def answer(request, value):
        word = value.text if isinstance(value, app.OpInput) else value.word
        if getattr(value, 'kind', None) == 'fault':
            raise SOAPError('c', 'm' + word)
        if isinstance(value, app.OtherInput):
            return app.OtherInput(word=word)
        header = request.soap_header
        return SOAPResponse(app.Reply(text=word), soap_header=header if header is None else app.Header(token=app.Token(id=header.token.id)))
    app = App(version, answer=answer, mixed=True)
    app.mixed = True
    return app


def DEEP():
    return sx.tier() == 'thorough'


PAIRS = [('1.1', k) for k in KINDS] + [('1.2', k) for k in ('op', 'fault', 'unknown')]


@sx.case(params=[{'version': v, 'first': k} for v, k in PAIRS], reach=['between', 'after'])
def dispatching(version, first):
    """two requests to one dispatcher"""
    app = application(version)
    d = app.dispatcher()
    second = sx.choice('second', KINDS if DEEP() else ['op', 'other', 'fault', 'wsdl'] if version == '1.1' and first == 'op' else ['op', 'wsdl'] if first == 'wsdl' else ['schema'] if first == 'missing' else ['missing'] if first == 'schema' else ['fault' if first == 'op' else 'op'])
    a, b = ch('a'), ch('b')
    (env1, body1), (env2, body2) = prepared(app, first, a), prepared(app, second, b)
    r1, r2, place = sx.during('when', lambda: d.dispatch(SOAPRequest(env1, body1)), lambda: d.dispatch(SOAPRequest(env2, body2)))
    judge(app, first, a, r1, 'first')
    judge(app, second, b, r2, 'second')
    ran = [k for k in (first, second) if k in ('op', 'other', 'fault')]
    sx.check(sx.truth(len(app.calls) == len(ran)), 'operations that ran')
    sx.reach('between' if place else 'after')


@sx.case(params=[{'first': f} for f in ('passes', 'ends', 'raises')])
def wrapped(first):
    """middlewares and hooks around two requests to one WSGI application"""
    kinds = {'first': first, 'second': sx.choice('second', ['passes', 'ends', 'raises'])}
    texts = {'first': ch('a'), 'second': ch('b')}
    log = []

    def who(request):
        return request.environ['who']

    def outer(request, next_call):
        log.append((who(request), 'outer'))
        if kinds[who(request)] == 'ends':
            return app.Reply(text=texts[who(request)])
        r = next_call(request)
        log.append((who(request), 'left'))
        return r

    def inner(request, next_call):
        log.append((who(request), 'inner'))
        return next_call(request)

    def answer(request, value):
        log.append((who(request), 'operation'))
        if kinds[who(request)] == 'raises':
            raise RuntimeError(texts[who(request)])
        return SOAPResponse(app.Reply(text=value.text), soap_header=app.Header(token=app.Token(id=len(who(request)))))
    app = App(answer=answer, output_header=None)

    def seen(dispatcher, request):
        log.append((who(request), 'request'))
        return request

    def sent(dispatcher, request, response):
        log.append((who(request), 'response'))
        response.http_headers['X-Who'] = who(request)
        return response
    wsgi = soap_dispatch.WsgiSoapApplication(app.dispatcher(middlewares=[outer, middlewares.ExceptionToSoapFault(), inner], hooks={'soap-request': seen, 'soap-response': sent}))

    def run(name):
        body = app.envelope(app.element('op', ('text', texts[name])))

        class Stream:
            def read(self, *n):
                return body
        started = []
        out = wsgi(dict(app.environ('urn:do'), **{'who': name, 'wsgi.input': Stream(), 'CONTENT_LENGTH': '9'}), lambda status, headers: started.append((status, headers)))
        return started, b''.join(out)
    results = sx.during('when', lambda: run('first'), lambda: run('second'))
    for name, r in zip(('first', 'second'), results):
        sx.check(sx.truth(r.ok), name + ': answered')
        started, content = r.value
        mine = [what for w, what in log if w == name]
        kind = kinds[name]
        want = ['request', 'outer'] + ([] if kind == 'ends' else ['inner', 'operation', 'left']) + ['response']
        sx.check(sx.truth(mine == want), name + ': what ran, and in which order')
        sx.check(sx.truth(len(started) == 1 and dict(started[0][1]) == {'Content-Type': 'text/xml', 'X-Who': name}), name + ': headers')
        sx.check(sx.truth(started[0][0][:3] == ('500' if kind == 'raises' else '200')), name + ': status')
        root = etree.fromstring(content)
        body = root.find('{%s}Body' % ENV['1.1'])[0]
        if kind == 'raises':
            sx.check(body.find('faultstring').text == 'RuntimeError: ' + texts[name], name + ': message')
        else:
            sx.check(body[0].text == texts[name], name + ': answer')
        ids = [e.text for e in root.iter() if isinstance(e.tag, str) and etree.QName(e.tag).localname == 'id']
        sx.check(sx.truth(ids == ([str(len(name))] if kind == 'passes' else [])), name + ': header')


@sx.case(params=[{'version': v, 'share': s} for v, s in (('1.1', 'stub'), ('1.2', 'stub'), ('1.1', 'class'))])
def calling(version, share):
    """two calls through one stub, or through two stubs of a class"""
    app = application(version)
    d = app.dispatcher()

    class Client(soap.Stub):
        SERVICE = app.service
    stub = Client(username='u1', password='p1', location='http://first')
    other = stub if share == 'stub' else Client(username='u2', password='p2', location='http://second')
    sent = []

    def post(url, auth=None, headers=None, data=None, **kw):
        sent.append((url, auth))
        env = {'REQUEST_METHOD': 'POST'}
        for k, v in headers.items():
            env[k.upper().replace('-', '_')] = v
        r = d.dispatch(SOAPRequest(env, data))

        class Answer:
            headers, content, status_code = {}, r.http_content, r.http_status_code
        return Answer
    sx.patch(requests, 'post', post)
    kinds = {'first': sx.choice('first', ['op', 'fault'] if DEEP() or share == 'stub' else ['op']), 'second': sx.choice('second', ['op', 'other', 'fault'] if DEEP() else ['other', 'fault'] if share == 'stub' and version == '1.1' else ['op'])}
    texts = {'first': ch('a'), 'second': ch('b')}

    def run(name, stub):
        if kinds[name] == 'other':
            return stub.call('Other', app.OtherInput(word=texts[name]))
        return stub.call('Op', app.OpInput(text=texts[name], kind='fault' if kinds[name] == 'fault' else None), header=app.Header(token=app.Token(id=7)))
    r1, r2, place = sx.during('when', lambda: run('first', stub), lambda: run('second', other))
    for name, r in (('first', r1), ('second', r2)):
        if kinds[name] == 'fault':
            sx.check(sx.truth(r.raised(SOAPError)), name + ': an error')
            sx.check(r.exc.message == 'm' + texts[name], name + ': message')
        else:
            body = r.value.soap_body if r.ok else None
            sx.check(sx.truth(isinstance(body, app.OtherInput if kinds[name] == 'other' else app.Reply)), name + ': an answer')
            sx.check((body.word if kinds[name] == 'other' else body.text) == texts[name], name + ': its text')
            sx.check(sx.truth(r.value.soap_header is None if kinds[name] == 'other' else r.value.soap_header.token.id == 7), name + ': its header')
    mine, others = ('http://first', ('u1', 'p1')), ('http://second', ('u2', 'p2'))
    sx.check(sx.truth(len(sent) == 2 and sorted(sent) == sorted([mine, mine if share == 'stub' else others])), 'addresses and credentials')


def classes():
    class Part(xsd.Group):
        g = xsd.Element(xsd.String)
        h = xsd.ListElement(xsd.String, 'h', minOccurs=0)

    class Marks(xsd.AttributeGroup):
        m = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)

    class Inner(xsd.ComplexType):
        v = xsd.Element(xsd.Integer(minInclusive=0))

    class A(xsd.ComplexType):
        s = xsd.Element(xsd.String(pattern='[a-zA-Z]'))
        i = xsd.Element(Inner, minOccurs=0)
        l = xsd.ListElement(Inner, 'l', minOccurs=0, maxOccurs=3)
        n = xsd.Element('soapfish.xsd.String', minOccurs=0)
        part = xsd.Ref(Part)
        marks = xsd.Ref(Marks)
        a = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL, default='d')
    return A, Inner


def build(A, Inner, text, full):
    o = A(s=text)
    if full:
        o.i = Inner(v=1)
        o.l.append(Inner(v=2))
        o.l.append(Inner(v=3))
        o.part.h.append(text)
        o.part.g = text
        o.marks.m = text
        o.a = text
        o.n = text
    return o


def look(o, text, full, read, label):
    sx.check(o.s == text, label + ': element')
    sx.check(sx.truth((o.i is not None) == full and len(o.l) == (2 if full else 0)), label + ': objects')
    if full:
        sx.check(sx.truth(o.i.v == 1 and [x.v for x in o.l] == [2, 3]), label + ': values')
        sx.check(sx.and_(len(o.part.h) == 1, o.part.g == text, o.marks.m == text, o.a == text, o.n == text), label + ': groups and attributes')
        sx.check(o.part.h[0] == text, label + ': list in a group')
    else:
        sx.check(sx.truth(o.part.g is None and len(o.part.h) == 0 and o.marks.m is None and o.a == 'd' and o.n is None), label + ': nothing else')


ACTS = ['build', 'read', 'write']


@sx.case(params=[{'first': f} for f in ACTS])
def objects(first):
    """objects of one class that are built, read and written"""
    A, Inner = classes()
    texts = {'first': ch('a'), 'second': ch('b')}
    acts = {'first': first, 'second': sx.choice('second', ACTS)}
    full = {'first': sx.flag('all of the first'), 'second': sx.flag('all of the second') if DEEP() else True}
    modes = {'first': sx.choice('form of the first', ['none', 'qualified'] if first == 'write' or DEEP() else ['unqualified']), 'second': sx.choice('form of the second', ['none', 'unqualified', 'qualified'] if acts['second'] == first == 'write' else ['qualified'])}

    def written(n, o):
        return o.xml('o') if modes[n] == 'none' else o.xml('o', namespace='urn:' + n, elementFormDefault=modes[n])
    start = {}
    for n in texts:
        if acts[n] != 'build':
            start[n] = build(A, Inner, texts[n], full[n])
            if acts[n] == 'read':
                start[n] = written(n, start[n])

    def run(n):
        if acts[n] == 'build':
            return build(A, Inner, texts[n], full[n])
        return A.parsexml(start[n]) if acts[n] == 'read' else written(n, start[n])
    r1, r2, place = sx.during('when', lambda: run('first'), lambda: run('second'))
    for n, r in (('first', r1), ('second', r2)):
        sx.check(sx.truth(r.ok), n + ': done')
        if acts[n] == 'write':
            ns = None if modes[n] == 'none' else 'urn:' + n
            root = etree.fromstring(r.value)
            sx.check(sx.truth(root.tag == ('o' if ns is None else '{%s}o' % ns)), n + ': root')
            sx.check(sx.truth({etree.QName(e.tag).namespace for e in root} == {ns if modes[n] == 'qualified' else None}), n + ': namespaces')
        look(A.parsexml(r.value) if acts[n] == 'write' else r.value, texts[n], full[n], acts[n] != 'build', n)


@sx.case(params=[{'what': w} for w in ('wsdl', 'dispatcher')])
def describing(what):
    """schemas and WSDL documents that are made of two services, or twice of one"""
    apps = {'first': application('1.1')}
    apps['second'] = application(sx.choice('version of the second', ['1.1', '1.2'] if DEEP() else ['1.2'])) if sx.flag('two services') else apps['first']

    def run(n):
        service = apps[n].service
        if what == 'wsdl':
            return etree.tostring(soap_dispatch.py2wsdl.generate_wsdl(service))
        return soap_dispatch.SOAPDispatcher(service).wsdl
    alone = {n: run(n) for n in ('second', 'first')}
    r1, r2, place = sx.during('when', lambda: run('first'), lambda: run('second'))
    sx.check(sx.truth(r1.ok and r2.ok), 'done')
    sx.check(r1.value == alone['first'], 'first')
    sx.check(r2.value == alone['second'], 'second')


def view(frame, service, **kw):
    """a function that takes environment and content of a request and gives (status, content), and the view behind it"""
    if frame == 'flask':
        import flask
        v = flask_.flask_dispatcher(service, **kw)
        if sx.is_symbolic():
            def ask(env, body):
                before = getattr(flask._Request, 'current', None)
                flask._Request.current = (env, body)
                try:
                    return v()
                finally:
                    flask._Request.current = before
        else:
            web = flask.Flask('x')

            def ask(env, body):
                with web.request_context(dict(env, **{'wsgi.input': io.BytesIO(body), 'CONTENT_LENGTH': str(len(body)), 'wsgi.url_scheme': 'http'})):
                    return v()
        return lambda env, body: (lambda r: (r.status_code, r.get_data()))(ask(env, body))
    v = django_.django_dispatcher(service, **kw)
    if sx.is_symbolic():
        def ask(env, content):
            class Request:
                environ, body = env, content
            return v(Request())
    else:
        from django.conf import settings
        if not settings.configured:
            settings.configure(ALLOWED_HOSTS=['*'])
        from django.core.handlers.wsgi import WSGIRequest

        def ask(env, body):
            return v(WSGIRequest(dict(env, **{'wsgi.input': io.BytesIO(body), 'CONTENT_LENGTH': str(len(body))})))
    return lambda env, body: (lambda r: (r.status_code, r.content))(ask(env, body))


class Answer:
    def __init__(self, status, content):
        self.http_status_code, self.http_content, self.http_headers = status, content, {}


@sx.case(params=[{'frame': f} for f in ('django', 'flask')])
def views(frame):
    """two requests to one view"""
    seen = []
    holder = []

    def answer(request, value):
        seen.append((request._original_request is not None, value.text if isinstance(value, holder[0].OpInput) else value.word))
        return holder[0].Reply(text=value.text if isinstance(value, holder[0].OpInput) else value.word)
    app = App(answer=answer)
    app.mixed = False
    holder.append(app)

    def passes(request, next_call):
        return next_call(request)
    ask = view(frame, app.service, middlewares=[passes])
    second = sx.choice('second', ['other', 'wsdl', 'op'] if DEEP() else ['other', 'wsdl'])
    a, b = ch('a'), ch('b')
    extra = {'REQUEST_METHOD': 'POST', 'PATH_INFO': '/', 'SCRIPT_NAME': '', 'SERVER_NAME': 's', 'SERVER_PORT': '80', 'QUERY_STRING': '', 'CONTENT_TYPE': 'text/xml', 'wsgi.url_scheme': 'http', 'HTTP_HOST': 'h'}

    def run(kind, text):
        env, body = prepared(app, kind, text)
        status, content = ask(dict(extra, **env), body)
        return Answer(status, content)

    def judge(app, kind, text, result, label):
        sx.check(sx.truth(result.ok and result.value.http_status_code == 200), label + ': answered')
        body = etree.fromstring(result.value.http_content).find('{%s}Body' % ENV['1.1'])[0]
        sx.check(sx.truth(body.tag == '{%s}%sReply' % (NS, kind)), label + ': reply of the operation')
        sx.check(body[0].text == text, label + ': its text')
    r1, r2, place = sx.during('when', lambda: run('op', a), lambda: run(second, b))
    judge(app, 'op', a, r1, 'first')
    if second != 'wsdl':
        judge(app, second, b, r2, 'second')
    else:
        sx.check(sx.truth(r2.ok and r2.value.http_status_code == 200), 'second: WSDL')
    sx.check(sx.truth(len(seen) == (1 if second == 'wsdl' else 2) and all(x for x, y in seen)), 'requests that the operations saw')


def documents(which):
    """a schema with an included one, or a WSDL document, and the files it needs"""
    folder = '/w/' + which
    inc = schema(a_type('in' + which), targetNamespace='urn:' + which)
    main = schema(x('include', schemaLocation='inc.xsd'), a_type('main' + which), targetNamespace='urn:' + which)
    return folder, main, inc


@sx.case(params=[{'second': s} for s in ('code', 'schema')])
def generating(second):
    """code that is generated from two documents"""
    files = Files(xsd2py)
    mains = {}
    for n in ('one', 'two'):
        folder, mains[n], inc = documents(n)
        files.add(place(folder + '/inc.xsd'), inc)

    def run(n):
        code = xsd2py.generate_code_from_xsd(mains[n], cwd='/w/' + n).decode('utf-8')
        return [line for line in code.split('\n') if not line.startswith('# ')]    # without the time
    A, Inner = classes()
    of = xsd.Schema('urn:t', elementFormDefault='unqualified', complexTypes=[A, Inner], elements={'o': xsd.Element(A)})

    def other():
        return run('two') if second == 'code' else etree.tostring(py2xsd.generate_xsd(of))
    alone1, alone2 = run('one'), other()
    mains['one'], mains['two'] = documents('one')[1], documents('two')[1]
    r1, r2, at = sx.during('when', lambda: run('one'), other)
    sx.check(sx.truth(r1.ok and r2.ok), 'done')
    sx.check(r1.value == alone1, 'first')
    sx.check(r2.value == alone2, 'second')


ROUTES = ['assign', 'append', 'read', 'attribute']


@sx.case(params=[{'first': r} for r in ROUTES])
def refusals(first):
    """legal and illegal values for fields of one class"""
    class A(xsd.ComplexType):
        s = xsd.Element(xsd.String(pattern='[a-m]', whiteSpace='collapse'), minOccurs=0)
        l = xsd.ListElement(xsd.Integer(minInclusive=2, maxExclusive=6), 'l', minOccurs=0, maxOccurs=2)
        a = xsd.Attribute(xsd.String(enumeration=['a', 'b']), use=xsd.Use.OPTIONAL)
    routes = {'first': first, 'second': sx.choice('second', ROUTES)}
    texts = {'first': ch('a'), 'second': ch('b')}
    numbers = {'first': sx.int('m', 0, 9), 'second': sx.int('n', 0, 9)}
    lengths = {'first': sx.choice('length of the first', [0, 2]) if first == 'append' else 0, 'second': sx.choice('length of the second', [1, 2] if DEEP() else [1])}
    objects, start = {}, {}
    for n in routes:
        objects[n] = A(a='a', s='c')
        for i in range(lengths[n]):
            objects[n].l.append(3)
        if routes[n] == 'read':
            doc = etree.fromstring(objects[n].xml('o'))
            doc.find('s').text = texts[n]
            start[n] = etree.tostring(doc)

    def run(n):
        o = objects[n]
        if routes[n] == 'assign':
            o.s = texts[n]
        elif routes[n] == 'append':
            o.l.append(numbers[n])
        elif routes[n] == 'attribute':
            o.a = texts[n]
        else:
            return A.parsexml(start[n])
    r1, r2, place = sx.during('when', lambda: run('first'), lambda: run('second'))
    for n, r in (('first', r1), ('second', r2)):
        if routes[n] == 'append':
            legal = sx.and_(2 <= numbers[n], numbers[n] < 6, sx.truth(lengths[n] < 2))
        elif routes[n] == 'attribute':
            legal = sx.or_(texts[n] == 'a', texts[n] == 'b')
        else:
            legal = sx.and_('a' <= texts[n], texts[n] <= 'm')
        sx.check(legal if r.ok else sx.not_(legal), n + ': accepted exactly when it is legal')
        sx.check(sx.truth(r.ok or r.raised(ValueError)), n + ': error')
        o = r.value if r.ok and routes[n] == 'read' else objects[n]
        took = r.ok
        sx.check(o.s == (texts[n] if took and routes[n] in ('assign', 'read') else 'c'), n + ': element')
        sx.check(o.a == (texts[n] if took and routes[n] == 'attribute' else 'a'), n + ': attribute')
        sx.check(sx.truth(len(o.l) == lengths[n] + (1 if took and routes[n] == 'append' else 0)), n + ': items')
        if took and routes[n] == 'append':
            sx.check(o.l[-1] == numbers[n], n + ': item')

"""WSGI, Django and Flask applications give the same answers as the dispatcher."""
import io

import sx
from lxml import etree

from props.svc import App, NS, ch
from soapfish import django_, flask_, soap_dispatch
from soapfish.core import SOAPError, SOAPRequest, SOAPResponse

BOUNDS = ('every kind of request (operations by action and by root, invalid, unknown action, faults, WSDL, schema, unknown schema, other verbs) with symbolic texts, actions of 0..3 and hosts of 1..2 '
          'characters; responses with symbolic status 200..599, header values and content; header names of the Django environment of up to 4 symbolic characters; sequences of 2 requests')
OUTSIDE = 'header values that HTTP cannot carry, forms and other content types that Flask parses itself; the frameworks themselves are modelled (each path is replayed on the real ones)'

FRAMES = ['wsgi', 'django', 'flask']
APP = []


class Stream:
    def __init__(self, content):
        self.content, self.reads = content, []

    def read(self, *n):
        self.reads.append(n)
        return self.content


def serve(frame, service, env, body, **kw):
    """(status code, headers, content) the framework sends"""
    env = dict(env)
    if frame == 'wsgi':
        got = []
        env.setdefault('CONTENT_LENGTH', '99')
        env['wsgi.input'] = Stream(body)
        app = soap_dispatch.WsgiSoapApplication(soap_dispatch.SOAPDispatcher(service, **kw))
        out = app(env, lambda status, headers, exc_info=None: got.append((status, headers)))
        sx.check(sx.truth(len(got) == 1), 'start_response is called once')
        status, headers = got[0]
        sx.check(sx.truth(isinstance(headers, list) and all(isinstance(h, tuple) and len(h) == 2 for h in headers)), 'headers as WSGI demands')
        out = list(out)
        sx.check(sx.truth(len(out) == 1), 'one chunk')
        return status[:3], dict(headers), out[0]
    if frame == 'django':
        view = django_.django_dispatcher(service, **kw)
        sx.check(sx.truth(getattr(view, 'csrf_exempt', False)), 'no CSRF token is asked for')
        if sx.is_symbolic():
            class Request:
                environ = env
            Request.body = body
            r = view(Request())
        else:
            from django.conf import settings
            if not settings.configured:
                settings.configure(ALLOWED_HOSTS=['*'])
            from django.core.handlers.wsgi import WSGIRequest
            env['wsgi.input'], env['CONTENT_LENGTH'] = io.BytesIO(body), str(len(body))
            r = view(WSGIRequest(env))
        return str(r.status_code), dict(r.headers.items()) if hasattr(r, 'headers') else dict(r.items()), r.content
    view = flask_.flask_dispatcher(service, **kw)
    if sx.is_symbolic():
        import flask
        flask._Request.current = (env, body)
        r = view()
    else:
        import flask
        if not APP:
            APP.append(flask.Flask('x'))
        env['wsgi.input'], env['CONTENT_LENGTH'] = io.BytesIO(body), str(len(body))
        env.setdefault('wsgi.url_scheme', 'http')
        env.setdefault('HTTP_HOST', 'h')
        with APP[0].request_context(env):
            r = view()
    headers = dict(r.headers.items())
    headers.pop('Content-Length', None)
    return str(r.status_code), headers, r.get_data()


def environ(**kw):
    env = {'REQUEST_METHOD': 'POST', 'QUERY_STRING': '', 'PATH_INFO': '/', 'SCRIPT_NAME': '', 'SERVER_NAME': 's', 'SERVER_PORT': '80', 'wsgi.url_scheme': 'http', 'HTTP_HOST': 'h', 'CONTENT_TYPE': 'text/xml'}
    env.update(kw)
    return env


def same(frame, app, env, body, label, **kw):
    """the framework answers what the dispatcher answers"""
    n = len(app.calls)
    want = soap_dispatch.SOAPDispatcher(app.service, **kw).dispatch(SOAPRequest(dict(env), body))
    ran = len(app.calls) - n
    status, headers, content = serve(frame, app.service, env, body, **kw)
    sx.check(status == str(want.http_status_code), label + ': status')
    sx.check(sx.truth(sorted(headers) == sorted(want.http_headers)), label + ': header names')
    sx.check(sx.and_(*[headers[k] == v for k, v in want.http_headers.items()]), label + ': header values')
    sx.check(sx.truth(isinstance(content, bytes)), label + ': bytes')
    sx.check(content == want.http_content, label + ': content')
    sx.check(sx.truth(len(app.calls) - n == 2 * ran), label + ': operations that ran')
    if ran:
        a, b = app.calls[-2:]
        sx.check(sx.truth(a[0] == b[0]), label + ': operation')
        for f in ('text', 'word'):
            if hasattr(a[2], f):
                sx.check(getattr(a[2], f) == getattr(b[2], f), label + ': input')
    return want


@sx.case(params=[{'frame': f, 'version': v} for f in FRAMES for v in ('1.1', '1.2')], reach=['ran', 'refused'])
def posts(frame, version):
    app = App(version)
    t = ch('t')
    kind = sx.choice('kind', ['op', 'other', 'invalid', 'damaged', 'empty', 'fault'])
    if kind == 'fault':
        def answer(request, value):
            raise SOAPError('c', t)
        app.answer = answer
    else:
        app.answer = lambda request, value: app.Reply(text=t)
    action = sx.choice('action', [None, 'urn:do', 'urn:no', 'sym'])
    if action == 'sym':
        action = sx.str('actiontext', 0, 3, 'a:')
    if kind == 'other' and action == 'urn:do':
        action = 'urn:no'
    elif kind != 'other' and action == 'urn:no':
        action = 'urn:do'
    env = environ()
    if version == '1.2':
        env['CONTENT_TYPE'] = 'application/soap+xml' if action is None else 'application/soap+xml; action="' + action + '"'
    elif action is not None:
        env['HTTP_SOAPACTION'] = '"' + action + '"' if sx.flag('quoted') else action
    body = {'op': lambda: app.envelope(app.element('op', ('text', t))), 'other': lambda: app.envelope(app.element('other', ('word', t))),
            'invalid': lambda: app.envelope(app.element('op', ('text', t + t + t))), 'damaged': lambda: b'<a', 'empty': lambda: b'',
            'fault': lambda: app.envelope(app.element('op', ('text', t)))}[kind]()
    r = same(frame, app, env, body, kind)
    sx.reach('ran' if app.calls else 'refused')
    if kind in ('op', 'other') and (action is None or action.startswith('urn:')):
        sx.check(sx.truth(r.http_status_code == 200 and len(app.calls) == 2), 'the operation ran')


@sx.case(params=[{'frame': f} for f in FRAMES])
def gets(frame):
    app = App()
    qs = sx.choice('qs', ['wsdl', 'singleWsdl', 'xsd=l', 'xsd=m', 'xsd', '', 'x'])
    verb = sx.choice('verb', ['GET', 'PUT', 'DELETE'])
    host, scheme = sx.str('host', 1, 2, 'ab'), sx.choice('scheme', ['http', 'https'])
    env = environ(REQUEST_METHOD=verb, QUERY_STRING=qs, HTTP_HOST=host)
    env['wsgi.url_scheme'] = scheme
    r = same(frame, app, env, b'', 'document', xsds={'l': b'<L/>'})
    sx.check(sx.truth(r.http_status_code == (400 if verb != 'GET' else {'wsdl': 200, 'singleWsdl': 200, 'xsd=l': 200, 'xsd=m': 404, 'xsd': 404}.get(qs, 400))), 'status')


@sx.case(params=[{'frame': f} for f in FRAMES])
def responses(frame):
    """status, headers and content of a response are sent as they are"""
    app = App()
    status, value, content = sx.int('status', 200, 599), sx.str('value', 0, 2, 'ab'), sx.str('content', 0, 2, 'ab<')

    def hook(dispatcher, request, response):
        r = SOAPResponse('x', http_status_code=status, http_content=content.encode(), http_headers={'X-Own': value, 'Content-Type': 'text/odd'} if sx.is_symbolic() or True else {})
        return r
    st, headers, got = serve(frame, app.service, environ(), app.envelope(app.element('op', ('text', 'a'))), hooks={'soap-response': hook})
    sx.check(st == str(status), 'status')
    sx.check(sx.truth(sorted(headers) == ['Content-Type', 'X-Own']), 'header names')
    sx.check(sx.and_(headers['X-Own'] == value, headers['Content-Type'] == 'text/odd'), 'header values')
    sx.check(got == content.encode(), 'content')


@sx.case(params=[{'frame': f} for f in FRAMES])
def arguments(frame):
    """middlewares, hooks, WSDL, schemas and the header policy reach the dispatcher"""
    app = App()
    log = []

    def middleware(request, next_call):
        log.append('middleware')
        return next_call(request)

    def hook(dispatcher, request):
        log.append('hook')
        return request
    strict = sx.flag('strict')
    kw = {'middlewares': [middleware], 'hooks': {'soap-request': hook}, 'wsdl': b'<W/>', 'xsds': {'a': b'<A/>'}, 'strict_soap_header': strict}
    what = sx.choice('what', ['post', 'wsdl', 'xsd'])
    if what == 'post':
        foreign = etree.Element('{urn:z}z')
        st, h, c = serve(frame, app.service, environ(), app.envelope(app.element('op', ('text', 'a')), header=[foreign]), **kw)
        sx.check(sx.truth(log == ['hook', 'middleware']), 'middlewares and hooks')
        sx.check(sx.truth(st == ('500' if strict else '200')), 'header policy')
    else:
        st, h, c = serve(frame, app.service, environ(REQUEST_METHOD='GET', QUERY_STRING={'wsdl': 'wsdl', 'xsd': 'xsd=a'}[what]), b'', **kw)
        sx.check(sx.truth(c == (b'<W/>' if what == 'wsdl' else b'<A/>')), 'documents')


@sx.case(params=[{'frame': f} for f in ('django', 'flask')])
def original_request(frame):
    """operations can reach the request of the framework"""
    app = App()
    t = ch('t')
    status, h, c = serve(frame, app.service, environ(HTTP_X_OWN='x' + t), app.envelope(app.element('op', ('text', 'a'))))
    request = app.calls[0][1]
    sx.check(sx.truth(isinstance(request, SOAPRequest)), 'SOAP request')
    if frame == 'django':
        sx.check(request._original_request.environ['HTTP_X_OWN'] == 'x' + t, 'request of Django')
    else:
        import flask
        sx.check(sx.truth(request._original_request is flask.request), 'request of Flask')


@sx.case(params=[{'frame': f} for f in FRAMES])
def two_requests(frame):
    """requests leave nothing behind"""
    app = App()
    app.answer = lambda request, value: SOAPResponse(app.Reply(text=value.text), http_status_code=201, http_headers={'X': value.text}) if value.text != 'b' else app.Reply(text='b')
    for i in range(2):
        t = sx.str('t%d' % i, 1, 1, 'ab')
        status, headers, content = serve(frame, app.service, environ(), app.envelope(app.element('op', ('text', t))))
        sx.check(etree.fromstring(content)[0][0][0].text == t, 'answer')
        if t == 'b':
            sx.check(sx.truth(status == '200' and 'X' not in headers), 'plain answer')
        else:
            sx.check(sx.truth(status == '201'), 'status')
            sx.check(headers['X'] == t, 'header')


@sx.case()
def content_length():
    """the WSGI application reads the content of the request and not more"""
    app = App()
    d = app.dispatcher()
    body = app.envelope(app.element('op', ('text', 'a')))
    n = sx.int('n', 0, 3000)
    kind = sx.choice('kind', ['number', 'missing', 'blank'])
    s = Stream(body)
    env = environ(**{'wsgi.input': s})
    if kind == 'number':
        env['CONTENT_LENGTH'] = str(n)
    elif kind == 'blank':
        env['CONTENT_LENGTH'] = ''
    got = []
    out = soap_dispatch.WsgiSoapApplication(d)(env, lambda status, headers: got.append(status))
    sx.check(sx.truth(len(s.reads) == 1 and len(s.reads[0]) == 1), 'one read')
    sx.check(s.reads[0][0] == (n if kind == 'number' else 0), 'length that is read')
    sx.check(sx.truth(len(got) == 1 and isinstance(out, list)), 'answered')


@sx.case(reach=['plain', 'prefixed', 'missing'])
def django_environ():
    """headers are found by their HTTP name"""
    name = sx.str('name', 1, 3, 'aB-_')
    plain, prefixed = sx.flag('plain'), sx.flag('prefixed')
    key = name.upper().replace('-', '_')
    env = {'OTHER': 'o'}
    if plain:
        p = env[key] = sx.choice('p', ['p', '', '0'])
    if prefixed:
        h = env['HTTP_' + key] = sx.choice('h', ['h', ''])
    w = django_.DjangoEnvironWrapper(env)
    if plain:
        sx.check(sx.truth(w.get(name) == p and w.get(name, 'd') == p), 'plain')
        sx.reach('plain')
    elif prefixed:
        sx.check(sx.truth(w.get(name) == h and w.get(name, 'd') == h), 'prefixed')
        sx.reach('prefixed')
    else:
        sx.check(sx.truth(w.get(name) is None and w.get(name, 'd') == 'd'), 'missing')
        sx.reach('missing')

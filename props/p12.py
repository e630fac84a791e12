"""Every error of an operation or middleware is answered with a fault that carries it."""
import sx
from lxml import etree

from props.svc import App, CLIENT, ENV, NS, SERVER, SOAP, TYPE, ch, is_reply, parts
from soapfish import xsd
from soapfish.core import SOAPError, SOAPResponse
from soapfish.middlewares import ExceptionToSoapFault

BOUNDS = ('errors raised and returned, plain and within a response, by operations and by middlewares at every position of a chain of 0..2, with predefined codes and symbolic codes of '
          '1..3 characters, messages of 1..4 symbolic characters (mark-up, quotes and line ends included) and non-ASCII ones, with and without header; both SOAP versions')
OUTSIDE = 'characters that XML cannot carry; the actor of an error, which the fault does not carry; empty messages'


def message(name='message', hi=3):
    return sx.str(name, 1, hi, 'ab<&"\'> \n\t')


def fault_of(app, r, code, text, label):
    status, fault, b, h = parts(app.version, r)
    sx.check(sx.truth(status == 500), label + ': status 500')
    sx.check(sx.truth(fault is not None), label + ': a fault')
    sx.check(fault[0] == code, label + ': code')
    sx.check(fault[1] == text, label + ': message')
    sx.check(sx.truth(fault[2] is None), label + ': no actor')
    names = [c.tag for c in b]
    ns = '{%s}' % ENV[app.version]
    want = ['faultcode', 'faultstring'] if app.version == '1.1' else [ns + 'Code', ns + 'Reason']
    sx.check(sx.truth(names == want), label + ': children of the fault')
    if app.version == '1.2':
        sx.check(sx.truth([c.tag for c in b[0]] == [ns + 'Value'] and [c.tag for c in b[1]] == [ns + 'Text']), label + ': code and reason')
        sx.check(sx.truth(b[1][0].get('{http://www.w3.org/XML/1998/namespace}lang') == 'en'), label + ': language')
    return h


class Own(SOAPError):
    pass


def deliver(how, error):
    """how an operation or middleware reports the error"""
    if how == 'raise':
        raise error
    if how == 'return':
        return error
    return SOAPResponse(error, http_status_code=sx.int('given status', 200, 599), http_headers={'X-Own': 'x'} if sx.flag('given headers') else None)


HOW = ['raise', 'return', 'response']


@sx.case(params=[{'version': v, 'how': h} for v in ('1.1', '1.2') for h in HOW])
def of_operation(version, how):
    kind = sx.choice('code', ['client', 'server', 'own'])
    own = sx.str('codetext', 1, 2, 'a:') if kind == 'own' else None
    code = {'client': SOAP[version].Code.CLIENT, 'server': SOAP[version].Code.SERVER, 'own': own}[kind]
    want = {'client': CLIENT[version], 'server': SERVER[version], 'own': own}[kind]
    text = message()
    cls = Own if sx.flag('subclass') else SOAPError
    error = cls(code, text, 'actor') if sx.flag('actor') else cls(code, text)
    app = App(version, answer=lambda request, value: deliver(how, error))
    r = app.post(app.envelope(app.element('op', ('text', 'a'))), 'urn:do' if sx.flag('action') else None)
    h = fault_of(app, r, want, text, 'error')
    sx.check(sx.truth(h is None), 'no header')
    sx.check(sx.truth(len(app.calls) == 1), 'the operation ran once')


@sx.case(params=[{'version': v, 'how': h, 'at': a} for v in ('1.1', '1.2') for h in HOW for a in ('before', 'after')])
def of_middleware(version, how, at):
    text = message()
    n = sx.choice('n', [1, 2])
    k = sx.choice('k', [0, 1])
    sx.assume(k < n)

    def failing(request, next_call):
        if at == 'after':
            next_call(request)
        return deliver(how, SOAPError('c', text))

    def passing(request, next_call):
        return next_call(request)
    app = App(version)
    r = app.post(app.envelope(app.element('op', ('text', 'a'))), dispatcher=app.dispatcher(middlewares=[failing if i == k else passing for i in range(n)]))
    fault_of(app, r, 'c', text, 'error of a middleware')
    sx.check(sx.truth(len(app.calls) == (1 if at == 'after' else 0)), 'the operation ran only if it was called')


@sx.case(params=[{'version': v} for v in ('1.1', '1.2')])
def with_header(version):
    """the header of an error response is sent along, whoever answers and in whatever state the request is"""
    app = App(version)
    who = sx.choice('who', ['operation', 'before', 'after', 'invalid'])
    tid = sx.int('id', -9, 99)
    text = message()

    def answer(request, value):
        return SOAPResponse(SOAPError('c', text), soap_header=app.Header(token=app.Token(id=tid)))

    def middleware(request, next_call):
        if who != 'before':
            try:
                r = next_call(request)
            except SOAPError:
                pass
        return r if who == 'operation' else answer(request, None)
    if who == 'operation':
        app.answer = answer
    e = app.element('op', ('text', '' if who == 'invalid' else 'a'))
    r = app.post(app.envelope(e), dispatcher=app.dispatcher(middlewares=[middleware] if who != 'operation' or sx.flag('passing') else []))
    h = fault_of(app, r, 'c', text, 'error with header')
    sx.check(sx.truth(h is not None and len(h) == 1 and len(h[0]) == 1), 'header is sent')
    sx.check(h[0][0].text == str(tid), 'header value')


class Strange(Exception):
    def __str__(self):
        return 'strange <&>'


@sx.case(params=[{'version': v, 'where': w} for v in ('1.1', '1.2') for w in ('operation', 'middleware')])
def other_exceptions(version, where):
    """the exception middleware turns every exception into a server fault"""
    kind = sx.choice('kind', ['ValueError', 'KeyError', 'Strange', 'ZeroDivisionError', 'SOAPError', 'none'])
    text = message()

    def run(*a):
        if kind == 'ValueError':
            raise ValueError(text)
        if kind == 'KeyError':
            {}['k']
        if kind == 'Strange':
            raise Strange('ignored')
        if kind == 'ZeroDivisionError':
            1 // 0
        if kind == 'SOAPError':
            raise SOAPError('c', text)

    def answer(request, value):
        if where == 'operation':
            run()
        return app.Reply(text='t')

    def middleware(request, next_call):
        if where == 'middleware':
            run()
        return next_call(request)
    app = App(version, answer=answer)
    d = app.dispatcher(middlewares=[ExceptionToSoapFault(), middleware])
    r = app.post(app.envelope(app.element('op', ('text', 'a'))), dispatcher=d)
    want = {'ValueError': 'ValueError: ' + text, 'KeyError': "KeyError: 'k'", 'Strange': 'Strange: strange <&>',
            'ZeroDivisionError': 'ZeroDivisionError: integer division or modulo by zero'}
    if kind == 'none':
        is_reply(version, r, 'no exception')
    elif kind == 'SOAPError':
        fault_of(app, r, 'c', text, 'SOAP error')
    else:
        fault_of(app, r, SERVER[version], want[kind], 'exception')


@sx.case(params=[{'version': v} for v in ('1.1', '1.2')])
def traceback_in_fault(version):
    def answer(request, value):
        raise ValueError('reason of it')
    app = App(version, answer=answer)
    r = app.post(app.envelope(app.element('op', ('text', 'a'))), dispatcher=app.dispatcher(middlewares=[ExceptionToSoapFault(traceback=True)]))
    status, fault, b, h = parts(version, r)
    sx.check(sx.truth(status == 500 and fault is not None and fault[0] == SERVER[version]), 'server fault')
    sx.check(sx.truth('Traceback' in fault[1] and 'ValueError: reason of it' in fault[1]), 'traceback as message')


@sx.case(params=[{'version': v} for v in ('1.1', '1.2')])
def without_middleware(version):
    """nothing swallows other exceptions"""
    def answer(request, value):
        raise LookupError('x')
    app = App(version, answer=answer)
    e = app.envelope(app.element('op', ('text', 'a')))
    d = app.dispatcher()
    r = sx.outcome(lambda: app.post(e, dispatcher=d))
    sx.check(r.raised(LookupError), 'the exception of the operation')


@sx.case(params=[{'version': v} for v in ('1.1', '1.2')])
def sequences(version):
    """an error does not show in the answers to other requests"""
    plan = [sx.choice('r%d' % i, ['ok', 'raise', 'return', 'invalid']) for i in range(3)]
    texts = [sx.str('t%d' % i, 1, 1, 'alpha') for i in range(3)]
    state = []

    def answer(request, value):
        i = len(state) - 1
        if plan[i] in ('raise', 'return'):
            return deliver(plan[i], SOAPError('c', texts[i]))
        return app.Reply(text=texts[i])
    app = App(version, answer=answer)
    d = app.dispatcher(middlewares=[ExceptionToSoapFault()])
    for i in range(3):
        state.append(i)
        e = app.element('op', ('text', 'a' if plan[i] != 'invalid' else ''))
        r = app.post(app.envelope(e), dispatcher=d)
        if plan[i] == 'ok':
            b = is_reply(version, r, 'answer after errors')
            sx.check(b[0].text == texts[i], 'answer')
        elif plan[i] == 'invalid':
            status, fault, b, h = parts(version, r)
            sx.check(sx.truth(status == 500 and fault[0] == CLIENT[version]), 'client fault')
        else:
            fault_of(app, r, 'c', texts[i], 'error')


@sx.case(params=[{'version': v} for v in ('1.1', '1.2')])
def fault_builder(version):
    """the fault as built by the library itself, actor included"""
    soap = SOAP[version]
    code, text, actor = sx.str('code', 1, 2, 'ab:'), message(), sx.str('actor', 1, 2, 'ab&')
    with_actor = sx.flag('with actor')
    doc = etree.fromstring(soap.get_error_response(code, text, actor=actor) if with_actor else soap.get_error_response(code, text))
    ns = '{%s}' % ENV[version]
    sx.check(sx.truth(doc.tag == ns + 'Envelope' and len(doc) == 1 and doc[0].tag == ns + 'Body' and len(doc[0]) == 1 and doc[0][0].tag == ns + 'Fault'), 'envelope')
    f = doc[0][0]
    got = [c.text for c in f] if version == '1.1' else [f[0][0].text, f[1][0].text] + [c.text for c in f[2:]]
    sx.check(sx.truth(len(got) == (3 if with_actor else 2)), 'parts of the fault')
    sx.check(sx.and_(got[0] == code, got[1] == text), 'code and message')
    if with_actor:
        sx.check(got[2] == actor, 'actor')
        sx.check(sx.truth(f[2].tag == ('faultactor' if version == '1.1' else ns + 'Role')), 'actor element')
    fault = soap.Envelope.parsexml(soap.get_error_response(code, text, actor=actor if with_actor else None)).Body.Fault
    c, m, a = soap.parse_fault_message(fault)
    sx.check(sx.and_(c == code if version == '1.1' else c == code, m == text), 'reads back')
    sx.check(a == actor if with_actor else sx.truth(a is None), 'actor reads back')

"""Middlewares wrap the operation in order, each once; what they pass on is what counts."""
import logging

import sx
from lxml import etree

from props.svc import App, CLIENT, NS, SERVER, TYPE, ch, is_fault, is_reply, parts
from soapfish import xsd
from soapfish.core import SOAPError, SOAPRequest, SOAPResponse
from soapfish.middlewares import ExceptionLogger, ExceptionToSoapFault

BOUNDS = ('chains of 0..4 middlewares, each passing on, answering itself, changing request or response, or calling twice; symbolic texts, HTTP status codes 100..599 and header values; '
          'requests valid and invalid; exceptions of six kinds against loggers for every subset of kinds; sequences of 2 requests')
OUTSIDE = 'middlewares that change the dispatcher'


class Log:
    """stands in for a logger"""

    def __init__(self):
        self.calls = []

    def exception(self, e, *a):
        self.calls.append(('exception', e) + a)

    def error(self, msg, *a):
        self.calls.append(('error', msg) + a)


def op(app, **kw):
    return app.envelope(app.element('op', ('text', kw.get('text', 'a'))))


@sx.case(params=[{'n': n} for n in range(5)], reach=['through'])
def order(n):
    """entered in the order given, left in the opposite order, the operation inside of all; whoever does not call the next one ends it"""
    app = App()
    log = []
    stop = sx.choice('stop', range(n + 1))
    app.answer = lambda request, value: log.append('op') or app.Reply(text='o')

    def make(i):
        def middleware(request, next_call):
            log.append(('in', i))
            sx.check(sx.truth(isinstance(request, SOAPRequest)), 'request')
            if i == stop:
                return SOAPResponse(app.Reply(text='s'))
            r = next_call(request)
            sx.check(sx.truth(isinstance(r, SOAPResponse)), 'a response is passed out')
            log.append(('out', i))
            return r
        return middleware
    r = app.post(op(app), dispatcher=app.dispatcher(middlewares=[make(i) for i in range(n)]))
    entered = min(stop + 1, n)
    left = list(range(min(stop, n)))[::-1]
    sx.check(sx.truth(log == [('in', i) for i in range(entered)] + (['op'] if stop == n else []) + [('out', i) for i in left]), 'order')
    b = is_reply('1.1', r, 'reply')
    sx.check(sx.truth(b[0].text == ('o' if stop == n else 's')), 'answer')
    sx.reach('through' if stop == n else 'stopped')


@sx.case(params=[{'version': v} for v in ('1.1', '1.2')])
def answers(version):
    """a middleware may answer with a response or a plain object, before or after the operation"""
    app = App(version)
    t = ch('t')
    after = sx.flag('after')
    how = sx.choice('how', ['object', 'response', 'error', 'error response'])

    def middleware(request, next_call):
        if after:
            next_call(request)
        return {'object': lambda: app.Reply(text=t), 'response': lambda: SOAPResponse(app.Reply(text=t)),
                'error': lambda: SOAPError('c', t), 'error response': lambda: SOAPResponse(SOAPError('c', t))}[how]()
    r = app.post(op(app), dispatcher=app.dispatcher(middlewares=[middleware]))
    sx.check(sx.truth(len(app.calls) == (1 if after else 0)), 'operation')
    if how in ('object', 'response'):
        b = is_reply(version, r, 'answer')
        sx.check(b[0].text == t, 'answer of the middleware')
        sx.check(sx.truth(b.tag == '{%s}%s' % (NS, 'opReply' if after else 'reply')), 'element of the answer')
    else:
        fault = is_fault(version, r, 'c', 'error')
        sx.check(fault[1] == t, 'message of the error')


@sx.case(params=[{'what': w} for w in ('content', 'replace', 'response', 'twice')])
def changes(what):
    """changes of the request reach the operation, changes of the response reach the client"""
    app = App()
    t, u = ch('t'), ch('u')
    app.answer = lambda request, value: app.Reply(text=value.text)

    def outer(request, next_call):
        if what == 'content':
            request.http_content = op(app, text=t)
        elif what == 'replace':
            new = SOAPRequest(dict(request.environ), op(app, text=t))
            new.dispatcher = request.dispatcher
            request = new
        elif what == 'twice':
            first = next_call(request)
            request.http_content = op(app, text=t)
            second = next_call(request)
            sx.check(sx.truth(first is not second), 'two answers')
            return second if sx.flag('second') else first
        r = next_call(request)
        if what == 'response':
            r.soap_body.text = u
            r.http_headers['X-Own'] = 'x'
        return r
    inner_seen = []

    def inner(request, next_call):
        inner_seen.append(request.http_content)
        return next_call(request)
    r = app.post(op(app, text='Z'), dispatcher=app.dispatcher(middlewares=[outer, inner]))
    b = is_reply('1.1', r, 'reply')
    if what == 'response':
        sx.check(b[0].text == u, 'changed response')
        sx.check(sx.truth(r.http_headers['X-Own'] == 'x'), 'header of the middleware')
    elif what == 'twice':
        sx.check(sx.truth(len(app.calls) == 2 and len(inner_seen) == 2), 'the rest of the chain runs twice')
        sx.check(sx.and_(app.calls[0][2].text == 'Z', app.calls[1][2].text == t), 'inputs')
        sx.check(sx.or_(b[0].text == t, b[0].text == 'Z'), 'one of the answers')
    else:
        sx.check(sx.truth(len(app.calls) == 1), 'operation')
        sx.check(sx.and_(app.calls[0][2].text == t, b[0].text == t), 'changed request')


@sx.case(params=[{'version': v, 'by': b} for v in ('1.1', '1.2') for b in ('operation', 'middleware')])
def http_parts(version, by):
    """status, headers and SOAP header of a response are sent as they are; only the content type is set"""
    status, value = sx.int('status', 100, 599), sx.str('value', 0, 2, 'ab')
    app = App(version)
    set_status, set_headers, set_type, set_header = sx.flag('set status'), sx.flag('set headers'), sx.flag('set type'), sx.flag('set header')
    tid = sx.int('id', 0, 9)

    def response():
        kw = {}
        if set_status:
            kw['http_status_code'] = status
        if set_headers:
            kw['http_headers'] = {'X-Own': value}
            if set_type:
                kw['http_headers']['Content-Type'] = 'text/odd'
        if set_header:
            kw['soap_header'] = app.Header(token=app.Token(id=tid))
        return SOAPResponse(app.Reply(text='t'), **kw)
    app.answer = lambda request, v: response() if by == 'operation' else app.Reply(text='n')
    d = app.dispatcher(middlewares=[lambda request, next_call: response()] if by == 'middleware' else None)
    r = app.post(op(app), dispatcher=d)
    got, fault, b, h = parts(version, r)
    sx.check(got == status if set_status else sx.truth(got == 200), 'status')
    sx.check(sx.truth(sorted(r.http_headers) == (['Content-Type', 'X-Own'] if set_headers else ['Content-Type'])), 'header names')
    if set_headers:
        sx.check(r.http_headers['X-Own'] == value, 'header value')
    sx.check(sx.truth((h is not None) == set_header), 'SOAP header')
    if set_header:
        sx.check(h[0][0].text == str(tid), 'SOAP header value')
    sx.check(sx.truth(b[0].text == 't'), 'answer')
    other = SOAPResponse('x')
    sx.check(sx.truth(other.http_headers == {} and other.http_status_code == 200 and other.http_content is None and other.soap_header is None), 'responses share nothing')


@sx.case()
def status_text():
    code = sx.int('code', 100, 599)
    text = SOAPResponse('x', http_status_code=code).http_status_text
    sx.check(text[:4] == str(code) + ' ', 'starts with the code')
    known = {200: 'OK', 202: 'Accepted', 400: 'Bad Request', 404: 'Not Found', 500: 'Internal Server Error', 503: 'Service Unavailable'}
    for c, t in known.items():
        if code == c:
            sx.check(sx.truth(text == '%d %s' % (c, t)), 'reason')


class E1(Exception):
    pass


class E2(E1):
    pass


KINDS = {'E1': E1, 'E2': E2, 'ValueError': ValueError, 'SOAPError': lambda m: SOAPError('c', m), 'KeyError': KeyError}


@sx.case(params=[{'trace': t} for t in (True, False, None)], reach=['logged', 'silent', 'none'])
def logger(trace):
    """exceptions of the chosen classes are logged exactly once and passed on, others only passed on"""
    kind = sx.choice('kind', ['none'] + sorted(KINDS))
    text = sx.str('text', 1, 2, 'a<')
    chosen = [c for n, c in (('E1', E1), ('E2', E2), ('ValueError', ValueError), ('SOAPError', SOAPError), ('Exception', Exception)) if sx.flag(n)]
    log = Log()
    error = None if kind == 'none' else KINDS[kind](text)
    everything = sx.flag('default classes')
    kw = {} if everything else {'exceptions': tuple(chosen)}
    if trace is not None:
        kw['traceback'] = trace
    m = ExceptionLogger(logger=log, **kw)

    def next_call(request):
        if error is not None:
            raise error
        return 'answer'
    r = sx.outcome(m, 'request', next_call)
    if error is None:
        sx.check(sx.truth(r.ok and r.value == 'answer' and log.calls == []), 'nothing to log')
        sx.reach('none')
        return
    sx.check(sx.truth(not r.ok and r.exc is error), 'the exception is passed on')
    if everything or any(isinstance(error, c) for c in chosen):
        sx.check(sx.truth(len(log.calls) == 1), 'logged once')
        c = log.calls[0]
        if trace is False:
            sx.check(sx.truth(c[0] == 'error'), 'without traceback')
            sx.check(sx.truth(c[1] % c[2:] == '%s: %s' % (type(error).__name__, error)), 'message')
        else:
            sx.check(sx.truth(c == ('exception', error)), 'with traceback')
        sx.reach('logged')
    else:
        sx.check(sx.truth(log.calls == []), 'not logged')
        sx.reach('silent')


@sx.case()
def logger_arguments():
    v = sx.choice('v', [[ValueError], ValueError, None, 'ValueError', (), (ValueError,), {ValueError}])
    r = sx.outcome(ExceptionLogger, exceptions=v)
    sx.check(sx.truth(r.ok) if isinstance(v, tuple) else r.raised(TypeError), 'exceptions have to be a tuple')
    if r.ok:
        sx.check(sx.truth(r.value.exceptions == v and r.value.logger is logging.getLogger('soapfish.middlewares') and r.value.traceback is True), 'defaults')


@sx.case(params=[{'version': v} for v in ('1.1', '1.2')])
def logger_in_chain(version):
    """logging inside the fault middleware: one log entry, one fault; outside of it errors are already answers"""
    log = Log()
    inside = sx.flag('inside')
    kind = sx.choice('kind', ['ok', 'ValueError', 'SOAPError', 'invalid'])

    def answer(request, value):
        if kind == 'ValueError':
            raise ValueError('v')
        if kind == 'SOAPError':
            raise SOAPError('c', 'm')
        return app.Reply(text='t')
    app = App(version, answer=answer)
    chain = [ExceptionToSoapFault(), ExceptionLogger(logger=log)]
    r = app.post(op(app, text='' if kind == 'invalid' else 'a'), dispatcher=app.dispatcher(middlewares=chain if inside else chain[::-1]))
    sx.check(sx.truth(len(log.calls) == (1 if inside and kind != 'ok' else 0)), 'log entries')
    if kind == 'ok':
        is_reply(version, r, 'answer')
    else:
        is_fault(version, r, {'ValueError': SERVER[version], 'SOAPError': 'c', 'invalid': CLIENT[version]}[kind], 'fault')


@sx.case(params=[{'version': v} for v in ('1.1', '1.2')])
def request_state(version):
    """middlewares see the dispatcher from the start, and method, header and input once the operation has been called"""
    app = App(version)
    seen = []

    def middleware(request, next_call):
        seen.append((request.dispatcher, request.method, request.soap_body, request.soap_header))
        r = next_call(request)
        seen.append((request.dispatcher, request.method, request.soap_body, request.soap_header))
        return r
    t = ch('t')
    d = app.dispatcher(middlewares=[middleware])
    app.service.methods[0].input_header = app.Header
    with_header = sx.flag('header')
    token = etree.Element('{%s}token' % NS)
    etree.SubElement(token, 'id').text = '7'
    app.post(app.envelope(app.element('op', ('text', t)), header=[token] if with_header else None), dispatcher=d)
    sx.check(sx.truth(seen[0][0] is d and seen[0][1:] == (None, None, None)), 'before')
    sx.check(sx.truth(seen[1][0] is d and seen[1][1] is app.service.methods[0] and isinstance(seen[1][2], app.OpInput)), 'after')
    sx.check(seen[1][2].text == t, 'input')
    sx.check(sx.truth(seen[1][3] is None) if not with_header else sx.truth(seen[1][3].token.id == 7), 'header')
    request = app.calls[0][1]
    sx.check(sx.truth(request.soap_body is app.calls[0][2] and request.dispatcher is d), 'the operation gets the same request')


@sx.case(params=[{'n': n} for n in (1, 2)])
def repeated(n):
    """every request passes through the whole chain again"""
    app = App()
    log = []
    app.answer = lambda request, value: app.Reply(text=value.text)
    stops = [sx.flag('stop%d' % k) for k in range(3)]

    def make(i):
        def middleware(request, next_call):
            log.append(i)
            if i == 0 and stops[len(log_of)]:
                return app.Reply(text='S')
            return next_call(request)
        return middleware
    d = app.dispatcher(middlewares=[make(i) for i in range(n)])
    log_of = []
    for k in range(3):
        del log[:]
        before = len(app.calls)
        t = ch('t%d' % k)
        b = is_reply('1.1', app.post(op(app, text=t), dispatcher=d), 'reply')
        if stops[k]:
            sx.check(sx.truth(b[0].text == 'S' and len(app.calls) == before and log == [0]), 'answer of the middleware')
        else:
            sx.check(sx.truth(log == list(range(n)) and len(app.calls) == before + 1), 'whole chain')
            sx.check(b[0].text == t, 'answer of the operation')
        log_of.append(1)


class Reversed(SOAPResponse):
    pass


@sx.case(params=[{'version': v} for v in ('1.1', '1.2')])
def kinds_of_chains(version):
    """one middleware listed several times runs as often; middlewares are any callables, responses of any class are passed out as they are"""
    app = App(version)
    log = []

    class Middleware(list):
        def __init__(self, name):
            self.name = name

        def __call__(self, request, next_call):
            log.append(self.name)
            r = next_call(request)
            log.append((self.name, r))
            return r

        def __eq__(self, other):
            return True

        __hash__ = None
    a, b = Middleware('a'), Middleware('b')
    n = sx.choice('n', range(4))
    chain = [sx.choice('m%d' % i, [a, b]) for i in range(n)]
    kind = sx.choice('kind', ['object', 'response', 'derived'])
    t = ch('t')
    status = sx.int('status', 200, 299)
    made = []

    def answer(request, value):
        body = app.Reply(text=t)
        made.append(body if kind == 'object' else {'response': SOAPResponse, 'derived': Reversed}[kind](body, http_status_code=status, http_headers={'X-Own': 'x'}))
        return made[0]
    app.answer = answer
    r = app.post(op(app), dispatcher=app.dispatcher(middlewares=tuple(chain) if sx.flag('tuple') else chain))
    names = [m.name for m in chain]
    sx.check(sx.truth(len(log) == 2 * n and log[:n] == names and [x[0] for x in log[n:]] == names[::-1]), 'runs of the middlewares')
    for _, passed in log[n:]:
        sx.check(sx.truth(passed is r), 'the response is passed out as it is')
    if kind == 'object':
        sx.check(sx.truth(r.soap_body is made[0] and r.http_status_code == 200), 'the response holds the object')
    else:
        sx.check(sx.truth(r is made[0] and r.http_headers['X-Own'] == 'x'), 'the response of the operation is the one that is sent')
        sx.check(r.http_status_code == status, 'status')
    root = etree.fromstring(r.http_content)
    sx.check(root[0][0][0].text == t, 'answer')

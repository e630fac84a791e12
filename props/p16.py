"""Hooks see every request and response of their kind, once, and what they return is what counts."""
import sx
from lxml import etree

from props.svc import App, CLIENT, is_fault, is_reply, parts
from soapfish.core import SOAPError, SOAPRequest, SOAPResponse
from soapfish.soap_dispatch import SOAPDispatcher

BOUNDS = ('hook names of 0..14 symbolic characters and every near miss of the valid names; every kind of request with every subset of the six hooks, hooks that pass on, change or replace '
          'requests and responses with symbolic content, hooks that return something else or raise; sequences of 3 requests')
OUTSIDE = 'hooks that change the dispatcher'

NAMES = [a + '-' + b for a in ('soap', 'wsdl', 'xsd') for b in ('request', 'response')]


@sx.case(params=[{'kind': k} for k in ('free', 'near')], reach=['accepted', 'refused'])
def names(kind):
    app = App()
    if kind == 'free':
        name = sx.str('name', 0, 14, 'any')
    else:
        base = sx.choice('base', NAMES)
        at = sx.int('at', 0, 13)
        sx.assume(at <= len(base))
        i = sx.choice('i', range(14))
        sx.assume(at == i)
        c = sx.str('c', 0, 1, 'any')
        how = sx.choice('how', ['insert', 'replace', 'cut'])
        name = base[:i] + c + base[i:] if how == 'insert' else base[:i] + c + base[i + 1:] if how == 'replace' else base[:i]
    r = sx.outcome(app.dispatcher, hooks={name: lambda **kw: None})
    if any(name == n for n in NAMES):
        sx.check(sx.truth(r.ok), 'valid name')
        sx.reach('accepted')
    else:
        sx.check(r.raised(KeyError), 'invalid name')
        sx.reach('refused')


def send(d, app, kind, text='a'):
    if kind == 'soap':
        return app.post(app.envelope(app.element('op', ('text', text))), dispatcher=d)
    env = {'REQUEST_METHOD': 'GET', 'QUERY_STRING': {'wsdl': 'wsdl', 'xsd': 'xsd=l', 'missing': 'xsd=m', 'bad': 'x'}[kind]}
    return d.dispatch(SOAPRequest(env, b''))


@sx.case(params=[{'kind': k} for k in ('soap', 'wsdl', 'xsd', 'missing', 'bad')])
def called(kind):
    """each hook runs for its kind of request only, exactly once, with the dispatcher, the request and the response that is sent"""
    app = App()
    log = []

    def hook(name):
        def f(**kw):
            log.append((name, sorted(kw), kw))
            return kw[name.split('-')[1]]
        return f
    present = {n: hook(n) for n in NAMES if sx.flag(n)}
    d = app.dispatcher(hooks=present, wsdl=b'<W/>', xsds={'l': b'<L/>'})
    before = app.dispatcher(wsdl=b'<W/>', xsds={'l': b'<L/>'})
    r, plain = send(d, app, kind), send(before, app, kind)
    group = 'xsd' if kind == 'missing' else kind
    want = [n for n in (group + '-request', group + '-response') if n in present]
    sx.check(sx.truth([x[0] for x in log] == want), 'hooks that ran')
    for name, keys, kw in log:
        sx.check(sx.truth(keys == (['dispatcher', 'request'] if name.endswith('request') else ['dispatcher', 'request', 'response'])), 'arguments of the hook')
        sx.check(sx.truth(kw['dispatcher'] is d and isinstance(kw['request'], SOAPRequest)), 'dispatcher and request')
        if name.endswith('response'):
            sx.check(sx.truth(kw['response'] is r), 'the response that is sent')
    sx.check(sx.truth(r.http_content == plain.http_content and r.http_status_code == plain.http_status_code and r.http_headers == plain.http_headers), 'passing hooks change nothing')


@sx.case(params=[{'how': h} for h in ('replace', 'change')])
def request_replaced(how):
    """the request that the hook returns is the one that is answered"""
    app = App()
    text = sx.str('text', 1, 1, 'alpha')
    seen = []

    def hook(dispatcher, request):
        seen.append(request)
        content = app.envelope(app.element('op', ('text', text)))
        if how == 'replace':
            return SOAPRequest({'REQUEST_METHOD': 'POST', 'SOAPACTION': 'urn:do'}, content)
        request.http_content = content
        request.environ['SOAPACTION'] = 'urn:do'
        return request
    d = app.dispatcher(hooks={'soap-request': hook})
    first = SOAPRequest(app.environ(sx.choice('action', ['urn:no', 'urn:x'])), sx.choice('content', [b'', b'<x', app.envelope(app.element('other', ('word', 'w')))]))
    r = d.dispatch(first)
    is_reply('1.1', r, 'answer to the request of the hook')
    sx.check(sx.truth(seen == [first]), 'the hook sees the request as it came')
    sx.check(sx.truth([c[0] for c in app.calls] == ['op']), 'operation')
    sx.check(app.calls[0][2].text == text, 'input')
    sx.check(sx.truth((app.calls[0][1] is first) == (how == 'change')), 'the operation gets the request of the hook')


@sx.case(params=[{'kind': k} for k in ('wsdl', 'xsd')])
def get_request_replaced(kind):
    app = App()
    text = sx.str('text', 0, 2, 'ab')
    env = {'REQUEST_METHOD': 'GET', 'QUERY_STRING': 'xsd=' + text, 'HTTP_HOST': 'h' + text}
    d = app.dispatcher(hooks={kind + '-request': lambda dispatcher, request: SOAPRequest(env, b'')}, wsdl=b'<W a="${host}"/>', xsds={'a': b'<A/>'})
    r = send(d, app, kind)
    if kind == 'wsdl':
        sx.check(etree.fromstring(r.http_content).get('a') == 'h' + text, 'WSDL for the host of the new request')
    elif text == 'a':
        sx.check(sx.truth(r.http_content == b'<A/>' and r.http_status_code == 200), 'schema the new request asks for')
    else:
        sx.check(sx.truth(r.http_status_code == 404), 'unknown schema')


@sx.case(params=[{'kind': k, 'how': h} for k in ('soap', 'fault', 'wsdl', 'xsd', 'missing') for h in ('replace', 'change')])
def response_replaced(kind, how):
    app = App()
    if kind == 'fault':
        def answer(request, value):
            raise SOAPError('c', 'm')
        app.answer = answer
    content, value = ('<' + sx.str('content', 0, 2, 'ab') + '>').encode(), sx.str('value', 0, 2, 'ab')
    status = sx.int('status', 200, 599)
    group = {'missing': 'xsd', 'fault': 'soap'}.get(kind, kind)
    seen = []

    def hook(dispatcher, request, response):
        seen.append((response.http_status_code, response.soap_body))
        if how == 'replace':
            return SOAPResponse('x', http_content=content, http_status_code=status, http_headers={'X': value})
        response.http_content, response.http_status_code = content, status
        response.http_headers['X'] = value
        return response
    r = send(app.dispatcher(hooks={group + '-response': hook}, xsds={'l': b'<L/>'}), app, 'soap' if kind == 'fault' else kind)
    sx.check(sx.truth(len(seen) == 1 and seen[0][0] == {'fault': 500, 'missing': 404}.get(kind, 200)), 'the hook sees the finished response')
    if kind == 'fault':
        sx.check(sx.truth(isinstance(seen[0][1], SOAPError)), 'the error')
    sx.check(sx.and_(r.http_content == content, r.http_status_code == status, r.http_headers['X'] == value), 'the response of the hook')


class Thing:
    pass


class Duck:
    def __init__(self, **kw):
        self.__dict__.update(kw)


ERRORS = {'raise': LookupError('x'), 'soaperror': SOAPError('c', 'm'), 'valueerror': ValueError('x')}


@sx.case(params=[{'name': n} for n in NAMES])
def wrong_results(name):
    """hooks that do not return what they have to are an error, not an answer"""
    app = App()
    kind = sx.choice('kind', ['none', 'text', 'thing', 'other', 'body', 'raise', 'soaperror', 'valueerror', 'copy'])

    def hook(**kw):
        if kind in ERRORS:
            raise ERRORS[kind]
        if kind == 'copy':            # has what a request or response has
            return Duck(**vars(kw[name.split('-')[1]]))
        return {'none': None, 'text': 'x', 'thing': Thing(), 'body': b'<x/>',
                'other': SOAPResponse('x') if name.endswith('request') else kw['request']}[kind]
    d = app.dispatcher(hooks={name: hook}, xsds={'l': b'<L/>'})
    r = sx.outcome(lambda: send(d, app, name.split('-')[0]))
    sx.check(r.raised(type(ERRORS[kind]) if kind in ERRORS else TypeError), 'error')
    if name == 'soap-request':
        sx.check(sx.truth(app.calls == []), 'the operation does not run')


@sx.case(params=[{'version': v} for v in ('1.1', '1.2')])
def with_middlewares(version):
    """hooks are outside of the middlewares"""
    log = []
    app = App(version, answer=lambda request, value: log.append('operation') or app.Reply(text='t'))

    def middleware(request, next_call):
        log.append('in')
        if sx.flag('stop'):
            raise SOAPError(app.service.version.Code.CLIENT, 'm')
        r = next_call(request)
        log.append('out')
        return r

    def hook(name):
        def f(**kw):
            log.append(name)
            return kw[name]
        return f
    d = app.dispatcher(middlewares=[middleware], hooks={'soap-request': hook('request'), 'soap-response': hook('response')})
    r = send(d, app, 'soap')
    if 'out' in log:
        sx.check(sx.truth(log == ['request', 'in', 'operation', 'out', 'response']), 'order')
        is_reply(version, r, 'reply')
    else:
        sx.check(sx.truth(log == ['request', 'in', 'response']), 'order')
        is_fault(version, r, CLIENT[version], 'error of the middleware')


@sx.case()
def sequences():
    """every request of a sequence is seen once, in order"""
    app = App()
    log = []

    def hook(name):
        def f(**kw):
            log.append((name, kw['request']))
            return kw[name.split('-')[1]]
        return f
    d = app.dispatcher(hooks={n: hook(n) for n in NAMES}, xsds={'l': b'<L/>'})
    want, requests = [], []
    for i in range(3):
        kind = sx.choice('r%d' % i, ['soap', 'wsdl', 'xsd', 'missing', 'bad', 'invalid'])
        send(d, app, 'soap' if kind == 'invalid' else kind, text='' if kind == 'invalid' else 'a')
        group = {'missing': 'xsd', 'invalid': 'soap'}.get(kind, kind)
        if kind != 'bad':
            want += [group + '-request', group + '-response']
    sx.check(sx.truth([n for n, _ in log] == want), 'hooks that ran')
    for (a, r), (b, s) in zip(log[::2], log[1::2]):
        sx.check(sx.truth(r is s), 'both hooks get the same request')
    sx.check(sx.truth(len({id(r) for _, r in log}) == len(log) // 2), 'different requests')


class Recorder(list):
    """a hook that is an object, also one that is empty"""

    def __call__(self, dispatcher, request, response=None):
        self.seen = getattr(self, 'seen', 0) + 1
        if self.keep:
            self.append(request)
        return request if response is None else response


@sx.case(params=[{'kind': k} for k in ('soap', 'wsdl', 'xsd', 'missing')])
def objects_as_hooks(kind):
    """hooks are any callables: functions, bound methods, objects, whatever their truth value"""
    app = App()
    hooks = {}
    for n in NAMES:
        hooks[n] = Recorder()
        hooks[n].keep = False
    keep = sx.choice('keep', NAMES)
    hooks[keep].keep = True
    d = app.dispatcher(hooks=hooks, wsdl=b'<W/>', xsds={'l': b'<L/>'})
    rounds = sx.int('rounds', 1, 2)
    for i in range(2):
        if i < rounds:
            send(d, app, kind)
    group = 'xsd' if kind == 'missing' else kind
    for n in NAMES:
        mine = n.startswith(group + '-')
        sx.check(getattr(hooks[n], 'seen', 0) == (rounds if mine else 0), 'runs of the hook')
        sx.check(len(hooks[n]) == (rounds if mine and n == keep else 0), 'state of the hook')

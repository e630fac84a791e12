"""WS-Addressing headers: what arrives, what is refused and how responses refer to requests."""
import sx
import uuid
from lxml import etree

from props.p13 import Wire
from props.svc import App, CLIENT, ENV, NS, is_fault, is_reply, parts
from soapfish import soap, soap_dispatch, wsa, xsd
from soapfish.core import SOAPError, SOAPRequest, SOAPResponse

BOUNDS = ('requests with every subset of Action, MessageID, To, RelatesTo and ReplyTo in any order, symbolic texts of 0..3 URI characters, '
          'blocks of other namespaces and misspelled blocks before and after, both SOAP versions, strict and lenient dispatchers, sequences of 3 requests, calls through the client stub')
OUTSIDE = 'FaultTo, reference parameters and metadata; relationship types; characters that are not legal in URIs'

WSA = 'http://www.w3.org/2005/08/addressing'
ANONYMOUS = WSA + '/anonymous'
NAMES = ('Action', 'MessageID', 'To', 'RelatesTo')


def uri(name, lo=1, hi=2):
    return sx.str(name, lo, hi, 'ab1/.-')


def block(name, text=None, *kids, ns=WSA):
    e = etree.Element('{%s}%s' % (ns, name) if ns else name)
    e.text = text
    for k in kids:
        e.append(k)
    return e


def answering(app, ids=None):
    """operation that fills the header of its answer"""
    def answer(request, value):
        h = app.OutHeader()
        wsa.fill_header(h, request.soap_header)
        return SOAPResponse(app.Reply(text='t'), soap_header=h)
    return answer


def make(version='1.1', **kw):
    """service with WS-Addressing headers whose answers refer to the requests"""
    app = App(version, use_wsa=True)

    class OutHeader(wsa.Header):
        SCHEMA = wsa.SCHEMA
    app.OutHeader = OutHeader
    app.ids = []

    def uuid1():
        i = uri('uuid%d' % len(app.ids), 1, 1)
        app.ids.append(i)
        return i
    sx.patch(uuid, 'uuid1', uuid1)
    app.answer = answering(app)
    return app


def header_of(version, r):
    status, fault, b, h = parts(version, r)
    sx.check(sx.truth(status == 200 and fault is None and h is not None), 'an answer with a header')
    return h


def fields(header):
    return {e.tag: e for e in header}


V = [{'version': v} for v in ('1.1', '1.2')]


@sx.case(params=V, reach=['header', 'none'])
def correlation(version):
    """responses name their request and have an id of their own"""
    app = make(version)
    d = app.dispatcher()
    have = sx.flag('header')
    action, mid = uri('action', 0, 3), uri('mid')
    blocks = [block('Action', action), block('MessageID', mid)]
    if sx.flag('swap'):
        blocks.reverse()
    if sx.flag('has to'):
        blocks.append(block('To', uri('to')))
    if sx.flag('relates'):
        blocks.insert(0, block('RelatesTo', uri('relates id')))
    if sx.flag('reply to'):
        blocks.append(block('ReplyTo', None, block('Address', uri('address'))))
    sx.assume(len(action) > 0)
    r = app.post(app.envelope(app.element('op', ('text', 'a')), header=blocks if have else None), dispatcher=d)
    h = header_of(version, r)
    f = fields(h)
    names = {'{%s}%s' % (WSA, n) for n in (('Action', 'RelatesTo', 'MessageID', 'To') if have else ('MessageID', 'To'))}
    sx.check(sx.truth(len(h) == len(names) and set(f) == names), 'the fields of the response')
    sx.check(f['{%s}To' % WSA].text == ANONYMOUS, 'To')
    sx.check(sx.truth(len(app.ids) == 1), 'one id is made')
    sx.check(f['{%s}MessageID' % WSA].text == app.ids[0], 'MessageID')
    if have:
        sx.check(f['{%s}Action' % WSA].text == action + 'Response', 'Action')
        sx.check(f['{%s}RelatesTo' % WSA].text == mid, 'RelatesTo')
        sx.reach('header')
    else:
        sx.reach('none')
    for e in h:
        sx.check(sx.outcome(wsa.XML_SCHEMA.assertValid, e).ok, 'legal for the schema of WS-Addressing')


@sx.case(params=V, reach=['filled', 'absent'])
def arrives(version):
    """the operation sees the values of the header"""
    app = make(version)
    seen = []

    def answer(request, value):
        seen.append(request.soap_header)
        return app.Reply(text='t')
    app.answer = answer
    values, blocks = {}, []
    for n in NAMES:
        if sx.flag('has ' + n):
            values[n] = uri(n, 1, 1)
            blocks.append(block(n, values[n]))
    address = uri('address', 1, 1) if sx.flag('has address') else None
    if address is not None:
        blocks.insert(0, block('ReplyTo', None, block('Address', address)))
    if sx.flag('reverse'):
        blocks.reverse()
    is_reply(version, app.post(app.envelope(app.element('op', ('text', 'a')), header=blocks)), 'accepted')
    h = seen[0]
    for n in NAMES:
        if n in values:
            sx.check(getattr(h, n) == values[n], n)
            sx.reach('filled')
        else:
            sx.check(sx.truth(getattr(h, n) is None), 'no ' + n)
            sx.reach('absent')
    if address is None:
        sx.check(sx.truth(h.ReplyTo is None), 'no ReplyTo')
    else:
        sx.check(h.ReplyTo.Address == address, 'ReplyTo')


@sx.case(params=[{'version': v, 'strict': s} for v in ('1.1', '1.2') for s in (True, False)], reach=['accepted', 'refused'])
def validation(version, strict):
    """blocks of WS-Addressing are always checked, others as the dispatcher is told"""
    app = make(version)
    d = app.dispatcher(strict_soap_header=strict)
    kind = sx.choice('kind', ['unknown', 'nested', 'no address', 'two addresses', 'attribute', 'good', 'foreign', 'own', 'own bad', 'unqualified'])
    name = sx.str('name', 2, 2, 'Too')
    good = block('MessageID', uri('mid', 0, 2))
    legal = True
    if kind == 'unknown':
        bad = block(name, 'x')
        legal = sx.truth(name == 'To')
    elif kind == 'nested':
        bad, legal = block('To', None, block('To', 'x')), False
    elif kind == 'no address':
        bad, legal = block('ReplyTo', None, block('Metadata')), False
    elif kind == 'two addresses':
        bad, legal = block('ReplyTo', None, block('Address', 'a'), block('Address', 'b')), False
    elif kind == 'attribute':
        bad, legal = block('To', 'x'), False
        bad.set('zzz', uri('value', 1, 1))
    elif kind == 'foreign':
        bad, legal = block('To', 'x', ns='urn:f'), not strict
    elif kind == 'own':
        bad = block('token', None, block('id', '5', ns=None), ns=NS)
    elif kind == 'own bad':
        bad, legal = block('token', None, block('id', 'x', ns=None), ns=NS), not strict
    elif kind == 'unqualified':
        bad, legal = block('To', 'x', ns=None), not strict
    else:
        bad = block('To', uri('to', 0, 2))
    blocks = [bad, good] if sx.flag('first') else [good, bad]
    before = sx.choice('before', ['nothing', 'comment', 'foreign', 'own bad'])
    if before == 'comment':
        blocks.insert(0, etree.Comment('x'))
    elif before == 'foreign':
        blocks.insert(0, block('zzz', 'x', ns='urn:f'))
    elif before == 'own bad':
        blocks.insert(0, block('token', None, block('id', 'y', ns=None), ns=NS))
    if before in ('foreign', 'own bad') and strict:
        legal = False
    r = app.post(app.envelope(app.element('op', ('text', 'a')), header=blocks), dispatcher=d)
    if not legal:
        is_fault(version, r, CLIENT[version], 'refused')
        sx.check(sx.truth(app.calls == []), 'no operation runs')
        sx.reach('refused')
    else:
        sx.check(sx.truth(len(app.calls) == 1), 'the operation runs')
        sx.reach('accepted')


@sx.case(params=V)
def sequences(version):
    """every response refers to its own request"""
    app = make(version)
    d = app.dispatcher()
    for i in range(3):
        if sx.flag('header%d' % i):
            a, m = uri('a%d' % i, 1, 1), uri('m%d' % i, 1, 1)
            header = [block('Action', a), block('MessageID', m)]
        else:
            header = None
        f = fields(header_of(version, app.post(app.envelope(app.element('op', ('text', 'a')), header=header), dispatcher=d)))
        sx.check(f['{%s}MessageID' % WSA].text == app.ids[i], 'an id of its own')
        sx.check(sx.truth(('{%s}RelatesTo' % WSA in f) == (header is not None)), 'related to a request with a header only')
        if header is not None:
            sx.check(f['{%s}RelatesTo' % WSA].text == m, 'RelatesTo')
            sx.check(f['{%s}Action' % WSA].text == a + 'Response', 'Action')


@sx.case(params=V)
def through_the_stub(version):
    """client and server exchange the headers"""
    app = make(version)
    seen = []

    def answer(request, value):
        seen.append(request.soap_header)
        h = app.OutHeader()
        wsa.fill_header(h, request.soap_header)
        if sx.flag('reply to answer'):
            h.ReplyTo = wsa.ReplyTo(Address=ANONYMOUS)
        return SOAPResponse(app.Reply(text='t'), soap_header=h)
    app.answer = answer
    wire = Wire(app)
    stub = soap.Stub(service=app.service)
    header = app.OutHeader(Action=uri('action', 1, 1) + sx.choice('ends in', ['', 'Request', 'Response']), MessageID=uri('mid', 1, 1), To=uri('to', 1, 1))
    if sx.flag('reply to'):
        header.ReplyTo = wsa.ReplyTo(Address=uri('address', 1, 1))
    r = stub.call('Op', app.OpInput(text='a'), header=header)
    got = seen[0]
    for n in ('Action', 'MessageID', 'To'):
        sx.check(getattr(got, n) == getattr(header, n), n + ' arrives')
    sx.check(sx.truth(got.RelatesTo is None), 'no RelatesTo')
    if header.ReplyTo is None:
        sx.check(sx.truth(got.ReplyTo is None), 'no ReplyTo')
    else:
        sx.check(got.ReplyTo.Address == header.ReplyTo.Address, 'ReplyTo arrives')
    h = r.soap_header
    sx.check(h.RelatesTo == header.MessageID, 'the answer relates to the call')
    sx.check(h.Action == header.Action + 'Response', 'Action of the answer')
    sx.check(h.MessageID == app.ids[0], 'MessageID of the answer')
    sx.check(h.To == ANONYMOUS, 'To of the answer')


@sx.case(params=[{'own': o} for o in ('none', 'input', 'output', 'both', 'method')])
def services(own):
    """use_wsa installs the headers that the service does not define itself"""
    app = App()

    class Mine(xsd.ComplexType):
        x = xsd.Element(xsd.String)
    kw = {}
    if own in ('input', 'both'):
        kw['input_header'] = Mine
    if own in ('output', 'both'):
        kw['output_header'] = Mine
    use = sx.flag('use')
    s = soap.Service('urn:s', 'http://x', [app.schema], app.service.methods, use_wsa=use, **kw)
    default = wsa.Header if use else None
    sx.check(sx.truth(s.input_header is kw.get('input_header', default)), 'input header')
    sx.check(sx.truth(s.output_header is kw.get('output_header', default)), 'output header')
    if own == 'method':
        # headers of an operation come before those of the service
        app.service.methods[0].input_header = app.Header
        app.service.input_header = wsa.Header
        t = sx.str('t', 1, 1, 'digits')
        app.post(app.envelope(app.element('op', ('text', 'a')), header=[block('token', None, block('id', t, ns=None), ns=NS), block('To', 'x')]))
        sx.check(app.calls[0][1].soap_header.token.id == int(t), 'header of the operation')
        app.post(app.envelope(app.element('other', ('word', 'a')), header=[block('To', t)]))
        sx.check(app.calls[1][1].soap_header.To == t, 'header of the service')


@sx.case(params=[{'src': s} for s in ('none', 'full', 'bare')])
def fill(src):
    """fill_header on any header object, twice"""
    ids = []

    def uuid1():
        ids.append(uri('id%d' % len(ids), 1, 1))
        return ids[-1]
    sx.patch(uuid, 'uuid1', uuid1)
    dst = wsa.Header(Action='before', To='before')
    if sx.flag('related before'):
        dst.RelatesTo = 'r'
    source = None if src == 'none' else wsa.Header(MessageID=uri('mid', 0, 2), To='server', RelatesTo='older')
    if source is not None and src != 'bare':
        source.Action = uri('action', 0, 3) + sx.choice('ends in', ['', 'Request', 'Response', '/'])
    wsa.fill_header(dst, source)
    if source is not None:
        sx.check(dst.Action == (source.Action + 'Response' if src == 'full' else 'before'), 'Action')
        sx.check(dst.RelatesTo == source.MessageID, 'RelatesTo')
        sx.check(sx.truth(source.To == 'server' and source.RelatesTo == 'older'), 'the request is left alone')
    else:
        sx.check(dst.Action == 'before', 'Action is left alone')
    sx.check(dst.MessageID == ids[0], 'MessageID')
    sx.check(dst.To == ANONYMOUS, 'To')
    other = wsa.Header()
    wsa.fill_header(other, source)
    sx.check(sx.truth(len(ids) == 2), 'a new id for every header')
    sx.check(other.MessageID == ids[1], 'MessageID of the next')
    sx.check(dst.MessageID == ids[0], 'MessageID stays')
    # a header that is filled once more
    again = wsa.Header(MessageID=uri('next mid', 1, 1), To='server') if sx.flag('another request') else source
    if again is not None and again is not source:
        again.Action = uri('next action', 1, 1)
    wsa.fill_header(dst, again)
    sx.check(sx.truth(len(ids) == 3), 'a new id for a header that is filled again')
    sx.check(dst.MessageID == ids[2], 'MessageID of the filled again')
    if again is not None:
        sx.check(dst.RelatesTo == again.MessageID, 'RelatesTo of the filled again')
        if again is not source:
            sx.check(dst.Action == again.Action + 'Response', 'Action of the filled again')


@sx.case(params=V, reach=['accepted', 'refused'])
def prefixes(version):
    """blocks are told by their namespaces, however these are bound to prefixes"""
    app = make(version)
    d = app.dispatcher(strict_soap_header=False)
    t = sx.str('t', 1, 1, 'ab1')
    how = sx.choice('how', ['default', 'redeclared', 'own default', 'all prefixes', 'two prefixes'])
    good = sx.flag('good')
    name = 'To' if good else 'too'
    e = {'default': '', 'redeclared': ''}.get(how, 'e:')
    template = {'default': '<w:%s xmlns:w="' + WSA + '">' + t + '</w:%s>', 'redeclared': '<%s xmlns="' + WSA + '">' + t + '</%s>',
             'own default': '<w:%s xmlns="urn:f" xmlns:w="' + WSA + '">' + t + '</w:%s>', 'all prefixes': '<w:%s xmlns:w="' + WSA + '">' + t + '</w:%s>',
             'two prefixes': '<v:%s xmlns:w="urn:f" xmlns:v="' + WSA + '">' + t + '</v:%s>'}[how]
    block = template.replace('%s', name)
    bind = ' xmlns="%s"' % ENV[version] if e == '' else ' xmlns:e="%s"' % ENV[version]
    doc = ('<' + e + 'Envelope' + bind + '><' + e + 'Header>' + block + '</' + e + 'Header><' + e + 'Body><q:op xmlns:q="' + NS + '" xmlns=""><text>a</text></q:op></'
           + e + 'Body></' + e + 'Envelope>')
    r = app.post(doc, dispatcher=d)
    if good:
        sx.check(sx.truth(len(app.calls) == 1), 'the operation runs')
        sx.check(app.calls[0][1].soap_header.To == t, 'value')
        sx.reach('accepted')
    else:
        sx.check(sx.truth(app.calls == []), 'no operation runs')
        is_fault(version, r, CLIENT[version], 'refused')
        sx.reach('refused')

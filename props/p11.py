"""Operations only ever see input that their schema allows; all other requests are answered with a client fault."""
import sx
from lxml import etree

from props.svc import App, CLIENT, ENV, NS, ch, is_fault, is_reply
from soapfish import soap, soap_dispatch, xsd

BOUNDS = ('requests to an operation with a restricted string, a bounded integer, a list of at most 2, a nested object with an enumeration and an attribute: every text of 0..3 '
          'symbolic characters in each place, every subset, repetition and permutation of up to 3 children, symbolic tag and attribute names; envelopes cut off or damaged at '
          'symbolic places; headers known, unknown, invalid, strict and lenient; both SOAP versions, qualified and unqualified')
OUTSIDE = 'encodings other than UTF-8, DTDs and entities, several schemas sharing a namespace'
XSI = 'http://www.w3.org/2001/XMLSchema-instance'


def refused(app, r, label):
    sx.check(sx.truth(app.calls == []), label + ': no operation runs')
    return is_fault(app.version, r, CLIENT[app.version], label)


def accepted(app, r, label):
    sx.check(sx.truth(len(app.calls) == 1), label + ': the operation runs once')
    is_reply(app.version, r, label)
    return app.calls[0][2]


VF = [{'version': v, 'form': f} for v in ('1.1', '1.2') for f in ('qualified', 'unqualified')]


def post(app, e, **kw):
    return app.post(app.envelope(e, **kw), 'urn:do' if sx.flag('with action') else None)


@sx.case(params=[{'version': v} for v in ('1.1', '1.2')], reach=['ok', 'bad'])
def histories(version):
    """every request is judged for itself, whatever the dispatcher has seen before"""
    app = App(version)
    app.service.input_header = app.Header
    d = app.dispatcher()
    for i in range(3 if sx.tier() == 'thorough' else 2):
        kind = sx.choice('kind%d' % i, ['op', 'other', 'loose', 'header', 'damaged'])
        t = sx.str('t%d' % i, 0, 3, 'ab')
        before = len(app.calls)
        header = None
        if kind == 'header':
            token = etree.Element('{%s}token' % NS)
            etree.SubElement(token, 'id').text = '1' + t
            header = [token]
        e = app.element('op', ('text', t)) if kind in ('op', 'damaged') else app.element('op', ('text', 'a')) if kind == 'header' else app.element(kind, ('word', 'w' + t))
        content = app.envelope(e, header=header)
        r = app.post(b'<Envelope><Body>' if kind == 'damaged' else content, dispatcher=d)
        ok = {'op': 1 <= len(t) <= 2, 'other': True, 'header': len(t) == 0}.get(kind, False)
        if ok:
            sx.check(sx.truth(len(app.calls) == before + 1), 'the operation runs once')
            is_reply(version, r, 'valid')
            name, request, value = app.calls[-1]
            sx.check(sx.truth(name == ('other' if kind == 'other' else 'op')), 'operation')
            if kind != 'header':
                sx.check(value.text == t if kind == 'op' else value.word == 'w' + t, 'value')
            sx.check(sx.truth((request.soap_header is None) == (kind != 'header')), 'header')
            sx.reach('ok')
        else:
            sx.check(sx.truth(len(app.calls) == before), 'no operation runs')
            is_fault(version, r, CLIENT[version], 'invalid')
            sx.reach('bad')


@sx.case(params=VF, reach=['ok', 'bad'])
def text_facets(version, form):
    app = App(version, form)
    t = sx.str('t', 0, 3, 'alpha')
    r = post(app, app.element('op', ('text', t)))
    if 1 <= len(t) <= 2:
        v = accepted(app, r, 'text within limits')
        sx.check(v.text == t, 'the operation gets the text')
        sx.check(sx.truth(isinstance(v, app.OpInput) and v.count is None and v.inner is None and len(v.items) == 0 and v.kind is None), 'and nothing else')
        sx.reach('ok')
    else:
        refused(app, r, 'text too short or too long')
        sx.reach('bad')


@sx.case(params=[{'version': v} for v in ('1.1', '1.2')], reach=['ok', 'bad'])
def text_any(version):
    """texts of XML characters, mark-up characters included"""
    app = App(version)
    t = sx.str('t', 1, 2, 'ab<>&"\' \n')
    v = accepted(app, app.post(app.envelope(app.element('op', ('text', t)))), 'text within limits')
    sx.check(v.text == t, 'the operation gets the text')
    sx.reach('ok')
    app = App(version)
    refused(app, post(app, app.element('op', ('text', t + '<&'))), 'too long')
    sx.reach('bad')


@sx.case(params=VF, reach=['ok', 'bad'])
def number(version, form):
    app = App(version, form)
    t = sx.str('n', 0, 3, '-+0129 x')
    r = post(app, app.element('op', ('text', 'a'), ('count', t)))
    b = t.strip(' ')
    sign = ''
    if len(b) and b[0] in '+-':
        sign, b = b[0], b[1:]
    ok = len(b) > 0 and sx.truth(sx.and_(*[sx.or_(*[c == d for d in '0129']) for c in b]))
    n = 0
    if ok:
        for c in b:
            n = n * 10 + (ord(c) - 48)
        if sign == '-':
            n = -n
        ok = sx.truth(sx.and_(0 <= n, n <= 20))
    if ok:
        v = accepted(app, r, 'number within bounds')
        sx.check(v.count == n, 'the operation gets the number')
        sx.reach('ok')
    else:
        refused(app, r, 'no number, or out of bounds')
        sx.reach('bad')


@sx.case(params=VF, reach=['ok', 'bad'])
def enumeration(version, form):
    app = App(version, form)
    t = sx.str('code', 0, 2, 'AB ')
    with_note = sx.flag('note')
    inner = [('code', t)] + ([('note', 'n')] if with_note else [])
    r = post(app, app.element('op', ('text', 'a'), ('inner', inner)))
    if t == 'A' or t == 'B':
        v = accepted(app, r, 'value of the enumeration')
        sx.check(v.inner.code == t, 'nested value')
        sx.check(sx.truth(isinstance(v.inner, app.Inner) and (v.inner.note is not None) == with_note), 'nested object')
        sx.reach('ok')
    else:
        refused(app, r, 'value outside of the enumeration')
        sx.reach('bad')


PARTS = {'text': 'x', 'count': '3', 'item': 'i', 'inner': [('code', 'A')], 'zzz': 'z'}
ORDER = ['text', 'count', 'item', 'inner']


def allowed(seq):
    if any(s not in ORDER for s in seq) or seq.count('text') != 1 or seq.count('count') > 1 or seq.count('item') > 2 or seq.count('inner') > 1:
        return False
    pos = [ORDER.index(s) for s in seq]
    return pos == sorted(pos)


@sx.case(params=VF, reach=['ok', 'bad'])
def children(version, form):
    app = App(version, form)
    n = sx.choice('n', range(5 if sx.tier() == 'thorough' else 4))
    seq = [sx.choice('c%d' % i, sorted(PARTS)) for i in range(n)]
    r = app.post(app.envelope(app.element('op', *[(s, PARTS[s]) for s in seq])))
    if allowed(seq):
        v = accepted(app, r, 'children as declared')
        sx.check(sx.truth(v.text == 'x' and (v.count == 3 if 'count' in seq else v.count is None) and len(v.items) == seq.count('item')
                          and (v.inner is not None) == ('inner' in seq)), 'values')
        sx.reach('ok')
    else:
        refused(app, r, 'children missing, repeated, unknown or out of order')
        sx.reach('bad')


@sx.case(params=VF, reach=['ok', 'bad'])
def names(version, form):
    """a child has to have the declared name and namespace, an attribute the declared name"""
    app = App(version, form)
    tag = sx.str('tag', 1, 4, 'tex')
    where = sx.choice('ns', ['{%s}' % NS, '', '{urn:other}'])
    e = app.element('op')
    etree.SubElement(e, where + tag).text = 'a'
    att = sx.choice('att', [None, 'kind', 'kinds', '{%s}kind' % NS])
    if att:
        e.set(att, 'v')
    r = app.post(app.envelope(e))
    right = '{%s}' % NS if app.qualified else ''
    if where == right and tag == 'text' and att in (None, 'kind'):
        v = accepted(app, r, 'declared names')
        sx.check(sx.truth(v.text == 'a' and v.kind == ('v' if att else None)), 'values')
        sx.reach('ok')
    else:
        refused(app, r, 'undeclared names')
        sx.reach('bad')


@sx.case(params=VF, reach=['ok', 'bad'])
def root_namespace(version, form):
    app = App(version, form)
    where = sx.choice('ns', [NS, None, 'urn:other', ENV[version]])
    e = etree.Element('{%s}op' % where if where else 'op')
    etree.SubElement(e, app.tag('text')).text = 'a'
    r = post(app, e)
    if where == NS:
        accepted(app, r, 'declared root')
        sx.reach('ok')
    else:
        refused(app, r, 'undeclared root')
        sx.reach('bad')


@sx.case(params=[{'version': v, 'what': w} for v in ('1.1', '1.2') for w in ('nil', 'text', 'mixed', 'comment', 'twice', 'loose')])
def odd_content(version, what):
    app = App(version)
    e = app.element('op', ('text', 'a'))
    if what == 'nil':
        e[0].set('{%s}nil' % XSI, sx.choice('v', ['true', '1']))
        e[0].text = None
        refused(app, post(app, e), 'nil where it is not allowed')
    elif what == 'text':
        e[0].text = None
        etree.SubElement(e[0], 'b').text = 'x'
        refused(app, post(app, e), 'elements in a text')
    elif what == 'mixed':
        t = sx.str('t', 1, 2, 'x \n')
        e.text = t
        r = post(app, e)
        if len(t.strip()) == 0:
            accepted(app, r, 'white space between elements')
        else:
            refused(app, r, 'text between elements')
    elif what == 'comment':
        e.insert(sx.choice('i', range(2)), etree.Comment('zzz'))
        v = accepted(app, post(app, e), 'comments are ignored')
        sx.check(sx.truth(v.text == 'a'), 'value')
    elif what == 'twice':
        r = app.post(app.envelope(e, app.element('op', ('text', ch('x')))))
        if app.calls:
            sx.check(sx.truth(len(app.calls) == 1 and app.calls[0][2].text == 'a'), 'the first element of the body counts')
    else:
        r = app.post(app.envelope(app.element('loose', ('word', ch('x')))))
        refused(app, r, 'element of no operation')


@sx.case(params=[{'version': v, 'what': w} for v in ('1.1', '1.2') for w in
                 ('empty', 'nobody', 'emptybody', 'nilbody', 'commentbody', 'root', 'other', 'noenvns', 'bodyns', 'order')])
def envelopes(version, what):
    app = App(version)
    e = app.element('op', ('text', 'a'))
    ns = ENV[version]
    env = etree.Element('{%s}Envelope' % ns)
    if what == 'empty':
        content = b'' if sx.flag('bytes') else b' '
    elif what == 'nobody':
        content = app.envelope(body_present=False)
    elif what == 'emptybody':
        content = app.envelope()
    elif what == 'nilbody':
        b = etree.SubElement(env, '{%s}Body' % ns)
        b.set('{%s}nil' % XSI, 'true')
        content = etree.tostring(env)
    elif what == 'commentbody':
        content = app.envelope(etree.Comment('op'))
    elif what == 'root':
        content = etree.tostring(e)
    elif what == 'other':
        env = etree.Element('{urn:other}Wrapper')
        etree.SubElement(env, '{%s}NoBody' % ns).append(e)
        content = etree.tostring(env)
    elif what == 'noenvns':
        content = '<' + sx.str('n', 1, 2, 'a:>-') + '/>'
    elif what == 'bodyns':
        etree.SubElement(env, '{%s}%s' % (ns, sx.choice('name', ['body', 'Bod', 'Bodyy']))).append(e)
        content = etree.tostring(env)
    else:
        h = etree.SubElement(env, '{%s}Header' % ns)
        h.append(e)
        content = etree.tostring(env)
    refused(app, app.post(content, 'urn:do' if sx.flag('with action') else None), 'no message')


@sx.case(params=[{'version': v, 'how': h} for v in ('1.1', '1.2') for h in ('cut', 'junk', 'char')])
def damaged(version, how):
    """documents that are not well-formed"""
    app = App(version)
    doc = '<e:Envelope xmlns:e="%s"><e:Body><q:op xmlns:q="%s"><text>a</text></q:op></e:Body></e:Envelope>' % (ENV[version], NS)
    if how == 'cut':
        k = sx.choice('k', range(1, len(doc), 1 if sx.tier() == 'thorough' else 7))
        content = doc[:k]
    elif how == 'junk':
        content = sx.str('junk', 0, 3, 'a<>& ')
    else:
        k = doc.index('<text>') + sx.choice('at', [0, 5, 7, 12])
        c = sx.str('c', 1, 1, 'a')
        content = doc[:k] + c + doc[k + 1:]
    r = app.post(content.encode() if how == 'cut' and sx.flag('bytes') else content)
    refused(app, r, 'not well-formed')


@sx.case(params=[{'version': v} for v in ('1.1', '1.2')], reach=['header'])
def harmless_envelopes(version):
    """forms of envelopes that say the same"""
    app = App(version)
    app.service.input_header = app.Header
    how = sx.choice('how', ['plain', 'nilheader', 'emptyheader', 'default', 'declaration', 'instruction', 'space', 'order'])
    t = sx.str('t', 1, 1, 'ab')
    op = '<op xmlns="' + NS + '"><text xmlns="">' + t + '</text></op>'
    if how == 'default':
        doc = '<Envelope xmlns="' + ENV[version] + '"><Body>' + op + '</Body></Envelope>'
    else:
        head = {'nilheader': '<e:Header xmlns:i="%s" i:nil="true"/>' % XSI, 'emptyheader': '<e:Header/>', 'instruction': '<?x y?>', 'space': ' \n'}.get(how, '')
        body = '<e:Body>' + ('\n ' + op + ' ' if how == 'space' else op) + '</e:Body>'
        doc = '<e:Envelope xmlns:e="' + ENV[version] + '">' + (body + '<e:Header/>' if how == 'order' else head + body) + '</e:Envelope>'
        if how == 'declaration':
            doc = '<?xml version="1.0"?><!-- x -->' + doc
    v = accepted(app, app.post(doc, 'urn:do' if sx.flag('with action') else None), 'valid')
    sx.check(v.text == t, 'the operation gets the text')
    h = app.calls[0][1].soap_header
    sx.check(sx.truth((h is None) == (how not in ('emptyheader', 'order'))), 'header')
    if h is not None:
        sx.check(sx.truth(h.token is None), 'header is empty')
        sx.reach('header')


def header_app(version, strict, **kw):
    app = App(version)
    if sx.flag('by method'):
        app.service.methods[0].input_header = app.Header
    else:
        app.service.input_header = app.Header
    return app, app.dispatcher(strict_soap_header=strict)


@sx.case(params=[{'version': v, 'strict': s} for v in ('1.1', '1.2') for s in (True, False)], reach=['valid', 'invalid', 'lenient'])
def headers(version, strict):
    app, d = header_app(version, strict)
    kind = sx.choice('kind', ['none', 'empty', 'comment', 'token', 'bad', 'unknown', 'foreign', 'both'])
    token = etree.Element('{%s}token' % NS)
    t = sx.str('id', 1, 2, '-59x') if kind in ('bad', 'token') else '5'
    etree.SubElement(token, 'id').text = t
    unknown = etree.Element('{%s}zzz' % NS)
    foreign = etree.Element('{urn:f}zzz')
    content = {'none': None, 'empty': [], 'comment': [etree.Comment('token')], 'token': [token], 'bad': [etree.Element('{%s}token' % NS)], 'unknown': [unknown],
               'foreign': [foreign], 'both': [token, foreign]}[kind]
    if content:
        addressing = etree.Element('{http://www.w3.org/2005/08/addressing}' + sx.choice('addressing', ['To', 'Action']))
        addressing.text = 'x'
        at = sx.choice('at', [None, 'first', 'last'])
        if at:
            content.insert(0 if at == 'first' else len(content), addressing)
    r = app.post(app.envelope(app.element('op', ('text', 'a')), header=content), dispatcher=d)
    number_ok = len(t) > 0 and 'x' not in t and ('-' not in t or t.rfind('-') == 0 and len(t) > 1)
    valid = kind in ('none', 'empty', 'comment') or kind == 'token' and number_ok
    if valid:
        accepted(app, r, 'valid header')
        h = app.calls[0][1].soap_header
        if kind == 'token':
            sx.check(h.token.id == int(t), 'header value')
        elif kind == 'none':
            sx.check(sx.truth(h is None), 'no header')
        else:
            sx.check(sx.truth(h.token is None), 'empty header')
        sx.reach('valid')
    elif strict or kind == 'token':
        refused(app, r, 'invalid header')
        sx.reach('invalid')
        if kind == 'token':
            sx.reach('lenient')
    else:
        accepted(app, r, 'headers are not checked')
        sx.reach('lenient')
        sx.reach('invalid')


@sx.case(params=[{'version': v, 'order': o} for v in ('1.1', '1.2') for o in ('ab', 'ba')], reach=['a', 'b', 'bad'])
def several_schemas(version, order):
    """each message is judged by the schema of its namespace, imported schemas included"""
    class A(xsd.ComplexType):
        v = xsd.Element(xsd.String(enumeration=['a']))

    class B(xsd.ComplexType):
        v = xsd.Element(xsd.String(enumeration=['b']))

    class C(xsd.ComplexType):
        v = xsd.Element(xsd.String(enumeration=['c']))

    c = xsd.Schema('urn:c', location='c.xsd', elementFormDefault='unqualified', complexTypes=[C], elements={'c': xsd.Element(C)})
    a = xsd.Schema('urn:a', elementFormDefault='unqualified', complexTypes=[A], elements={'a': xsd.Element(A)}, imports=[c])
    b = xsd.Schema('urn:b', elementFormDefault='qualified', complexTypes=[B], elements={'b': xsd.Element(B)})
    calls = []

    def handler(name):
        def f(request, value):
            calls.append((name, value))
            return value
        return f
    methods = [xsd.Method(n, 'act:' + n, input=n, output=n, function=handler(n)) for n in 'abc']
    service = soap.Service('urn:s', 'http://x', [a, b] if order == 'ab' else [b, a], methods, version=getattr(soap.SOAPVersion, 'SOAP' + version.replace('.', '')), name='S')
    d = soap_dispatch.SOAPDispatcher(service)
    app = App(version)
    root, ns = sx.choice('root', 'abc'), sx.choice('ns', 'abc')
    t = sx.str('t', 1, 1, 'abcd')
    e = etree.Element('{urn:%s}%s' % (ns, root))
    etree.SubElement(e, '{urn:b}v' if ns == 'b' else 'v').text = t
    r = app.post(app.envelope(e), dispatcher=d)
    if root == ns and t == root:
        sx.check(sx.truth(len(calls) == 1 and calls[0][0] == root), 'the operation of the element')
        is_reply(version, r, 'valid')
        sx.reach(root if root != 'c' else 'a')
    else:
        sx.check(sx.truth(calls == []), 'no operation')
        is_fault(version, r, CLIENT[version], 'invalid')
        sx.reach('bad')


@sx.case(params=[{'kind': k} for k in ('date', 'dateTime', 'time')])
def unreadable(kind):
    """schema-valid values that Python cannot hold are refused as well"""
    class In(xsd.ComplexType):
        v = xsd.Element({'date': xsd.Date, 'dateTime': xsd.DateTime, 'time': xsd.Time}[kind])
    calls = []
    schema = xsd.Schema(NS, elementFormDefault='unqualified', complexTypes=[In], elements={'op': xsd.Element(In)})
    service = soap.Service('urn:s', 'http://x', [schema], [xsd.Method('Op', 'a', input='op', output='op', function=lambda r, v: calls.append(v) or v)], name='S')
    d = '1' + sx.str('y', 4, 4, '09') + '-01-01'
    t = {'date': d, 'dateTime': sx.choice('dt', [d + 'T00:00:00', '2000-01-01T24:00:00']), 'time': '24:00:00'}[kind]
    app = App()
    e = app.element('op', ('v', t))
    r = app.post(app.envelope(e), dispatcher=soap_dispatch.SOAPDispatcher(service))
    sx.check(sx.truth(calls == []), 'no operation runs')
    is_fault('1.1', r, 'Client', 'unreadable')

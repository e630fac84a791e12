"""Every request reaches exactly the operation it names."""
import sx
from lxml import etree

from props.svc import App, CLIENT, NS, ch, is_fault, is_reply, parts
from soapfish import soap, xsd

BOUNDS = ('services of two to four operations, both SOAP versions; actions of 0..7 symbolic characters (white space inside quotes) in every header that can carry one, quoted and bare; body root '
          'names of 1..5 symbolic letters, all known roots, substitution group members with and without prefix')
OUTSIDE = 'operations sharing an action or an input element; actions naming another operation than the body (which wins the choice of the operation, not of the type)'

BODIES = {'op': (('text', 'a'),), 'special': (('text', 'a'),), 'other': (('word', 'w'),)}


def called(app):
    return [c[0] for c in app.calls]


@sx.case(params=[{'version': v, 'where': w} for v, w in (('1.1', 'SOAPACTION'), ('1.1', 'HTTP_SOAPACTION'), ('1.1', 'ACTION'), ('1.2', 'CONTENT_TYPE'))],
         reach=['op', 'other', 'none', 'unknown'])
def by_action(version, where):
    app = App(version)
    quoted = version == '1.2' or sx.flag('quoted')
    action = sx.str('action', 0, 7 if quoted else 6, 'urn:doUD/ ' if quoted else 'urn:doUD/')
    body = app.element('op', *BODIES['op'])
    env = {'REQUEST_METHOD': 'POST'}
    if version == '1.2':
        env[where] = 'application/soap+xml; action="' + action + '"'
    else:
        env[where] = '"' + action + '"' if quoted else action
    r = app.post(app.envelope(body), environ=env)
    if len(action) == 0:
        sx.check(sx.truth(called(app) == ['op']), 'without action the root of the body decides')
        sx.reach('none')
    elif action == 'urn:do':
        sx.check(sx.truth(called(app) == ['op']), 'operation of the action')
        is_reply(version, r, 'reply')
        sx.reach('op')
    elif action == 'urn:no':
        sx.check(sx.truth(called(app) == ['other']), 'operation of the action')
        sx.reach('other')
    else:
        sx.check(sx.truth(called(app) == []), 'no operation for an unknown action')
        is_fault(version, r, CLIENT[version], 'unknown action')
        sx.reach('unknown')


@sx.case(params=[{'version': v, 'where': w} for v, w in (('1.1', 'SOAPACTION'), ('1.1', 'HTTP_SOAPACTION'), ('1.1', 'ACTION'), ('1.2', 'CONTENT_TYPE'))], reach=['first', 'second', 'none'])
def symbolic_actions(version, where):
    """operations with any actions, also such that resemble each other or the names of elements"""
    app = App(version)
    a, b = sx.str('a', 1, 2, 'aA/'), sx.str('b', 1, 2, 'aA/')
    sx.assume(a != b)
    q = sx.str('q', 1, 3, 'aA/') if sx.flag('free') else sx.choice('q2', ['op', 'other', 'Op', 'special', '/op', 'urn:app/op', '{urn:app}op', 'opReply'])
    app.service.methods[0].soapAction, app.service.methods[1].soapAction = a, b
    root = sx.choice('root', ['op', 'other'])
    env = {'REQUEST_METHOD': 'POST'}
    if version == '1.2':
        env[where] = 'application/soap+xml; charset=utf-8; action="' + q + '"'
    else:
        env[where] = '"' + q + '"' if sx.flag('quoted') else q
    r = app.post(app.envelope(app.element(root, *BODIES[root])), environ=env)
    if q == a:
        sx.check(sx.truth(called(app) == ['op']), 'first operation')
        sx.reach('first')
    elif q == b:
        sx.check(sx.truth(called(app) == ['other']), 'second operation')
        sx.reach('second')
    else:
        sx.check(sx.truth(called(app) == []), 'no operation')
        is_fault(version, r, CLIENT[version], 'unknown action')
        sx.reach('none')


@sx.case(params=[{'how': h} for h in ('plain', 'prefix')], reach=['own', 'member', 'none'])
def symbolic_roots(how):
    """operations with any names of elements, and a member of the substitution group of one of them"""
    class In(xsd.ComplexType):
        v = xsd.Element(xsd.String)
    a, b, m = sx.str('a', 1, 2, 'ab'), sx.str('b', 1, 2, 'ab'), sx.str('m', 1, 2, 'abM')
    sx.assume(sx.and_(a != b, a != m, b != m))
    head = sx.choice('head', [0, 1])
    group = (a, b)[head]
    elements = {a: xsd.Element(In), b: xsd.Element(In), m: xsd.Element(In, substitutionGroup='sns:' + group if how == 'prefix' else group)}
    schema = xsd.Schema(NS, complexTypes=[In], elements=elements)
    calls = []
    methods = [xsd.Method('M%d' % i, 'act:%d' % i, input=n, output=n, function=lambda request, value, i=i: calls.append(i) or In(v='1')) for i, n in enumerate((a, b))]
    from soapfish import soap_dispatch
    sx.patch(soap_dispatch.py2xsd, 'schema_validator', lambda schemas: lambda element: None)
    d = soap_dispatch.SOAPDispatcher(soap.Service('urn:svc', 'http://x', [schema], methods, name='S'), wsdl=b'')
    app = App()
    root = sx.str('root', 1, 2, 'abM')
    e = etree.Element('{%s}' % NS + root)
    etree.SubElement(e, 'v').text = '1'
    r = app.post(app.envelope(e), dispatcher=d)
    if root == a:
        sx.check(sx.truth(calls == [0]), 'first operation')
        sx.reach('own')
    elif root == b:
        sx.check(sx.truth(calls == [1]), 'second operation')
    elif root == m:
        sx.check(sx.truth(calls == [head]), 'operation of the head of the group')
        sx.reach('member')
    else:
        sx.check(sx.truth(calls == []), 'no operation')
        is_fault('1.1', r, 'Client', 'unknown root')
        sx.reach('none')


@sx.case(params=[{'version': v} for v in ('1.1', '1.2')])
def by_both(version):
    """the action decides before the body does"""
    app = App(version)
    root = sx.choice('root', sorted(BODIES))
    action = sx.choice('action', ['urn:do', 'urn:no', 'urn:x', None])
    r = app.post(app.envelope(app.element(root, *BODIES[root])), action)
    want = {'urn:do': ['op'], 'urn:no': ['other'], 'urn:x': [], None: ['other' if root == 'other' else 'op']}[action]
    sx.check(sx.truth(called(app) == want), 'operation')
    if action == 'urn:x':
        is_fault(version, r, CLIENT[version], 'unknown action')


@sx.case(params=[{'version': v, 'form': f} for v in ('1.1', '1.2') for f in ('qualified', 'unqualified')], reach=['op', 'other', 'loose'])
def by_root(version, form):
    app = App(version, form)
    root = sx.choice('root', ['op', 'special', 'other', 'loose', 'token'])
    fill = {'loose': (('word', 'w'),), 'token': (('id', '1'),)}.get(root) or BODIES[root]
    if sx.flag('comment'):
        e = app.envelope(etree.Comment('x'), app.element(root, *fill))
    else:
        e = app.envelope(app.element(root, *fill))
    env = app.environ() if sx.flag('plain') else {'REQUEST_METHOD': 'POST', 'CONTENT_TYPE': 'text/xml; action="urn:no"'}
    r = app.post(e, environ=env)
    want = {'op': ['op'], 'special': ['op'], 'other': ['other']}.get(root, [])
    sx.check(sx.truth(called(app) == want), 'operation of the root element')
    if want:
        b = is_reply(version, r, 'reply')
        sx.check(sx.truth(b.tag == '{urn:app}' + want[0] + 'Reply'), 'output element of the operation')
        sx.reach(want[0])
    else:
        is_fault(version, r, CLIENT[version], 'root that is no input')
        sx.reach('loose')


@sx.case(params=[{'version': v} for v in ('1.1', '1.2')], reach=['op', 'unknown'])
def symbolic_root(version):
    app = App(version)
    name = sx.str('name', 1, 3, 'opq')
    e = etree.Element('{urn:app}' + name)
    etree.SubElement(e, 'text').text = ch('t')
    r = app.post(app.envelope(e))
    if name == 'op':
        sx.check(sx.truth(called(app) == ['op']), 'operation of the root element')
        sx.reach('op')
    else:
        sx.check(sx.truth(called(app) == []), 'no operation for another root')
        is_fault(version, r, CLIENT[version], 'unknown root')
        sx.reach('unknown')


@sx.case(params=[{'prefix': p} for p in (False, True)])
def many_operations(prefix):
    """order of operations and schema elements does not matter; members of groups in imported schemas have no operation of their own"""
    class In(xsd.ComplexType):
        v = xsd.Element(xsd.String)

    class Out(xsd.ComplexType):
        v = xsd.Element(xsd.String)
    names = ['a', 'b', 'c', 'd']
    first = sx.choice('first', range(4))
    names = names[first:] + names[:first]
    elements = {n: xsd.Element(In) for n in names}
    head = sx.choice('head', names)
    elements['member'] = xsd.Element(In, substitutionGroup=('sns:' if prefix else '') + head)
    elements['out'] = xsd.Element(Out)
    schema = xsd.Schema(NS, complexTypes=[In, Out], elements=elements)
    calls = []

    def handler(n):
        def f(request, value):
            calls.append((n, value))
            return Out(v=value.v)
        return f
    methods = [xsd.Method('M' + n, 'act:' + n, input=n, output='out', function=None if n == head and sx.flag('route') else handler(n)) for n in names]
    service = soap.Service('urn:svc', 'http://x', [schema], methods, name='S')
    for m in methods:
        if m.function is None:
            f = handler(head)
            sx.check(sx.truth(service.route('M' + head)(f) is f), 'decorated function is returned')
    from soapfish.soap_dispatch import SOAPDispatcher
    app = App()
    root = sx.choice('root', names + ['member'])
    how = sx.choice('how', ['root', 'action'])
    v = ch('v')
    e = etree.Element('{%s}%s' % (NS, root))
    etree.SubElement(e, 'v').text = v
    want = head if root == 'member' else root
    r = app.post(app.envelope(e), dispatcher=SOAPDispatcher(service), action='act:' + want if how == 'action' else None)
    sx.check(sx.truth([c[0] for c in calls] == [want]), 'the one operation')
    sx.check(calls[0][1].v == v, 'input of the operation')
    b = is_reply('1.1', r, 'reply')
    sx.check(b[0].text == v, 'answer of the operation')


@sx.case()
def get_method():
    app = App()
    n = sx.str('n', 0, 5, 'Opther')
    r = sx.outcome(app.service.get_method, n)
    if n == 'Op':
        sx.check(sx.truth(r.value is app.service.methods[0]), 'first operation')
    elif n == 'Other':
        sx.check(sx.truth(r.value is app.service.methods[1]), 'second operation')
    else:
        sx.check(sx.truth(not r.ok), 'no operation of that name')


@sx.case(params=[{'version': v} for v in ('1.1', '1.2')])
def other_methods(version):
    """only POST requests reach operations"""
    app = App(version)
    verb = sx.choice('verb', ['GET', 'PUT', 'HEAD', 'DELETE', '', 'post', None])
    env = app.environ('urn:do')
    del env['REQUEST_METHOD']
    if verb is not None:
        env['REQUEST_METHOD'] = verb
    r = app.post(app.envelope(app.element('op', *BODIES['op'])), environ=env)
    sx.check(sx.truth(called(app) == []), 'no operation')
    sx.check(sx.truth(r.http_status_code == 400 and isinstance(r.http_content, bytes)), 'bad request')


@sx.case(params=[{'version': v} for v in ('1.1', '1.2')], reach=['nothing', 'unknown', 'both'])
def without_action(version):
    """operations that declare no action are named by the root of the body only"""
    app = App(version)
    none = sx.choice('none', ['', None])
    app.service.methods[0].soapAction = none
    q = sx.str('q', 0, 2, 'aA')
    app.service.methods[1].soapAction = 'a'
    root = sx.choice('root', ['op', 'other', 'special'])
    env = {'REQUEST_METHOD': 'POST'}
    if version == '1.2':
        env['CONTENT_TYPE'] = 'application/soap+xml; action="' + q + '"'
    else:
        env['SOAPACTION'] = '"' + q + '"'
    r = app.post(app.envelope(app.element(root, *BODIES[root])), environ=env)
    if q == 'a':
        sx.check(sx.truth(called(app) == ['other']), 'operation of the action')
        sx.reach('both')
    elif len(q) == 0:
        sx.check(sx.truth(called(app) == ['other' if root == 'other' else 'op']), 'operation of the root')
        sx.reach('nothing')
    else:
        sx.check(sx.truth(called(app) == []), 'no operation for an unknown action')
        is_fault(version, r, CLIENT[version], 'unknown action')
        sx.reach('unknown')


@sx.case(params=[{'where': w} for w in ('SOAPACTION', 'HTTP_SOAPACTION', 'ACTION', 'CONTENT_TYPE')], reach=['op', 'none'])
def action_characters(where):
    """actions with characters that mean something in headers"""
    app = App('1.2' if where == 'CONTENT_TYPE' else '1.1')
    a = sx.str('a', 1, 2, 'a;#?,=\'')
    q = sx.str('q', 1, 3, 'a;#?,=\'')
    app.service.methods[0].soapAction = 'u' + a
    env = {'REQUEST_METHOD': 'POST', where: '"u' + q + '"' if where != 'CONTENT_TYPE' else 'application/soap+xml; action="u' + q + '"'}
    r = app.post(app.envelope(app.element('op', *BODIES['op'])), environ=env)
    if a == q:
        sx.check(sx.truth(called(app) == ['op']), 'operation of the action')
        sx.reach('op')
    else:
        sx.check(sx.truth(called(app) == []), 'no operation for an unknown action')
        is_fault(app.version, r, CLIENT[app.version], 'unknown action')
        sx.reach('none')


@sx.case(reach=['soap', 'other'])
def content_types():
    """only the content type of SOAP 1.2 carries actions"""
    app = App('1.2')
    t = sx.str('t', 0, 1, 'x+;; ') 
    kind = sx.choice('kind', ['application/soap+xml', 'APPLICATION/soap+XML', 'text/xml', 'application/soap', 'multipart/related'])
    r = app.post(app.envelope(app.element('op', *BODIES['op'])), environ={'REQUEST_METHOD': 'POST', 'CONTENT_TYPE': kind + t + '; action="urn:no"'})
    if kind.lower() == 'application/soap+xml' and (len(t) == 0 or t in '; '):
        sx.check(sx.truth(called(app) == ['other']), 'operation of the action')
        sx.reach('soap')
    else:
        sx.check(sx.truth(called(app) == ['op']), 'operation of the root')
        sx.reach('other')


@sx.case(params=[{'schemas': n} for n in (2, 3)], reach=['own', 'member', 'none'])
def several_schemas(schemas):
    """inputs and members of groups declared in any schema of the service, elements that differ in letter case only"""
    from soapfish import soap_dispatch

    class In(xsd.ComplexType):
        v = xsd.Element(xsd.String)
    at = sx.int('at', 0, schemas - 1)
    mat = sx.int('mat', 0, schemas - 1)
    lists = [{'out%d' % i: xsd.Element(In)} for i in range(schemas)]
    for i in range(schemas):
        if i == at:
            lists[i]['op'] = xsd.Element(In)
            lists[i]['Op'] = xsd.Element(In)
            lists[i]['oP'] = xsd.Element(In)
        if i == mat:
            lists[i]['member'] = xsd.Element(In, substitutionGroup=sx.choice('prefix', ['', 'sns:']) + 'op')
            lists[i]['Member'] = xsd.Element(In, substitutionGroup='Op')
    calls = []
    methods = [xsd.Method(n, n, input=n, output='out0', function=lambda request, value, n=n: calls.append(n) or In(v='1')) for n in ('out0', 'Op', 'op')]
    sx.patch(soap_dispatch.py2xsd, 'schema_validator', lambda schemas: lambda element: None)
    d = soap_dispatch.SOAPDispatcher(soap.Service('urn:svc', 'http://x', [xsd.Schema('urn:%d' % i, complexTypes=[In] if i == 0 else [], elements=e) for i, e in enumerate(lists)], methods, name='S'),
                                     wsdl=b'', xsds={})
    app = App()
    root = sx.choice('root', ['op', 'Op', 'oP', 'member', 'Member', 'out0', 'out1', 'MEMBER'])
    e = etree.Element('{urn:x}' + root)
    etree.SubElement(e, 'v').text = '1'
    r = app.post(app.envelope(e), dispatcher=d)
    want = {'op': ['op'], 'Op': ['Op'], 'member': ['op'], 'Member': ['Op'], 'out0': ['out0']}.get(root, [])
    sx.check(sx.truth(calls == want), 'operation of the root')
    sx.reach({'op': 'own', 'member': 'member'}.get(root, 'none'))

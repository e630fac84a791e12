"""Earlier use of a service, schema or class does not change what later use gives."""
import sx
import requests
from lxml import etree

from props.gen import Files, a_type, place, schema, x
from props.svc import NS, App, ch
from soapfish import core, middlewares, py2wsdl, py2xsd, soap, soap_dispatch, wsdl2py, xsd, xsd2py
from soapfish.core import SOAPRequest

BOUNDS = ('histories of 2 uses ahead of the one that is judged (thorough: 3), each of 24 kinds; the second one of 5 kinds that stand for the others, or that of the last: schema, WSDL document, validator, dispatcher and its documents, code from schemas and WSDL documents, requests that are answered (with and without headers), fail or are refused, middlewares and hooks, calls, simple types with facets, '
          'objects read (with and without a schema), written, refused, subclasses, further schemas and services that import the schema; the last use with a symbolic character, the earlier ones with another')
OUTSIDE = 'longer histories, assigning to schemas and services after they were made, classes listed in two schemas'


class World:
    """a service with its classes, made anew each time"""

    def __init__(self, version):
        self.app = app = App(version, answer=self.answer, mixed=True)

        class Part(xsd.Group):
            g = xsd.Element(xsd.String)
            after = xsd.Element(xsd.String, minOccurs=0)

        class Base(xsd.ComplexType):
            v = xsd.Element(xsd.String(pattern='[a-zA-Z]'))
            a = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)

        class Thing(Base):
            INHERITANCE = xsd.Inheritance.EXTENSION
            l = xsd.ListElement(xsd.Int, 'item', minOccurs=0, maxOccurs=2)
            part = xsd.Ref(Part)

        class Lax(xsd.ComplexType):
            v = xsd.Element(xsd.String, minOccurs=0)
            l = xsd.ListElement(xsd.String, 'item', minOccurs=0, maxOccurs=9)
            g = xsd.Element(xsd.String, minOccurs=0)

        class Loose(xsd.ComplexType):
            v = xsd.Element(xsd.String)
            l = xsd.ListElement(xsd.String, 'item', minOccurs=0)
            base = xsd.Element(Base, minOccurs=0)
            d = xsd.Attribute(xsd.String, default='q', use=xsd.Use.OPTIONAL)
            e = xsd.Element(xsd.String, minOccurs=0, default='w')
        self.Loose = Loose

        class Late(xsd.ComplexType):
            v = xsd.Element(xsd.String)

        class Early(xsd.ComplexType):
            late = xsd.Element(Late)
        forward = xsd.Schema('urn:forward', complexTypes=[Early, Late], elements={'early': xsd.Element(Early)})
        self.forward = soap.Service('urn:svc3', 'http://f/', [forward], [xsd.Method('M', 'urn:m', 'early', 'early')], version=soap.SOAPVersion.SOAP11, name='Third')
        self.Base, self.Thing = Base, Thing
        self.lax = xsd.Schema('urn:things', elementFormDefault='qualified', complexTypes=[Lax], elements={'thing': xsd.Element(Lax)})
        self.things = xsd.Schema('urn:things', elementFormDefault='qualified', groups=[Part], complexTypes=[Base, Thing], elements={'thing': xsd.Element(Thing)}, location='things.xsd')
        self.schema = xsd.Schema('urn:all', imports=[self.things, app.schema], location='all.xsd')
        self.service = soap.Service('urn:svc', '${scheme}://${host}/app', [app.schema, self.things], app.service.methods, version=app.service.version, name='App')
        self.stub = soap.Stub(service=self.service, location='http://h/app')
        self.made = self.piled = None
        self.ran = []
        self.stack = [middlewares.ExceptionToSoapFault(), self.middleware]
        self.hooks = {'soap-response': self.hook}
        self.environ = app.environ('urn:do')

    @property
    def dispatcher(self):
        """made by the first use that needs it"""
        if self.made is None:
            self.made = soap_dispatch.SOAPDispatcher(self.service)
        return self.made

    @property
    def stacked(self):
        if self.piled is None:
            self.piled = soap_dispatch.SOAPDispatcher(self.service, middlewares=self.stack, hooks=self.hooks)
        return self.piled

    def middleware(self, request, next_call):
        self.ran.append('middleware')
        return next_call(request)

    def hook(self, dispatcher, request, response):
        self.ran.append('hook')
        return response

    def answer(self, request, value):
        if isinstance(value, self.app.OtherInput):
            return self.app.OtherInput(word=value.word)
        if value.kind == 'fails':
            raise ValueError('v' + value.text)
        if request.soap_header is not None and request.soap_header.token is not None:
            header = self.app.Header(token=self.app.Token(id=request.soap_header.token.id + 1))
            return core.SOAPResponse(self.app.Reply(text=value.text), soap_header=header)
        if value.kind == 'raises':
            raise core.SOAPError('c', 'm' + value.text)
        return self.app.Reply(text=value.text, count=len(self.app.calls) and 1)

    def thing(self, text):
        o = self.Thing(v=text, a=text)
        o.l.append(3)
        o.part.g = text
        o.part.after = text
        return o

    def post(self, url, auth=None, headers=None, data=None, **kw):
        self.sent = [url, auth, sorted(headers.items()), data]
        r = self.dispatcher.dispatch(SOAPRequest(dict({k.upper().replace('-', '_'): v for k, v in headers.items()}, REQUEST_METHOD='POST'), data))

        class Answer:
            headers, content, status_code = {}, r.http_content, r.http_status_code
        return Answer

    def use(self, what, text, judged=False):
        """what it gives, as something that can be compared; the uses ahead of the one that is judged name other schemas and namespaces"""
        app = self.app
        if what == 'schema':
            return [etree.tostring(py2xsd.generate_xsd(s)) for s in (self.things, app.schema, self.schema)]
        if what == 'wsdl':
            return etree.tostring(py2wsdl.generate_wsdl(self.service))
        if what == 'validator':
            valid = py2xsd.schema_validator(self.service.schemas)
            out = []
            for e in (app.element('op', ('text', text)), app.element('op', ('wrong', text))):
                out.append(sx.outcome(lambda: valid(e)).ok)
            return out
        if what == 'dispatcher':
            d = soap_dispatch.SOAPDispatcher(self.service)
            return [d.wsdl, d.xsds]
        if what in ('get wsdl', 'get schema'):
            env = {'REQUEST_METHOD': 'GET', 'QUERY_STRING': 'wsdl' if what == 'get wsdl' else 'xsd=p.xsd', 'HTTP_HOST': 'h' + text}
            r = self.dispatcher.dispatch(SOAPRequest(env, b''))
            return [r.http_status_code, r.http_content]
        if what in ('op', 'raises', 'invalid', 'other', 'unknown'):
            if what == 'other':
                body, env = app.element('other', ('word', text)), app.environ()
            elif what == 'invalid':
                body, env = app.element('op', ('text', text), ('wrong', 'x')), app.environ()
            else:
                body = app.element('op', ('text', text))
                env = app.environ('urn:do' if what != 'unknown' else 'urn:' + text)
                if what == 'raises':
                    body.set('kind', 'raises')
            r = self.dispatcher.dispatch(SOAPRequest(env, app.envelope(body)))
            return [r.http_status_code, sorted(r.http_headers.items()), r.http_content]
        if what in ('header', 'stack'):
            body = app.element('op', ('text', text))
            if what == 'stack':
                body.set('kind', 'fails')
                del self.ran[:]
                r = (self.stacked if judged else soap_dispatch.SOAPDispatcher(self.service, middlewares=self.stack, hooks=self.hooks)).dispatch(SOAPRequest(self.environ, app.envelope(body)))
                return [r.http_status_code, r.http_content, list(self.ran), len(self.stack), sorted(self.hooks), sorted(self.environ)]
            token = etree.Element('{%s}token' % NS)
            etree.SubElement(token, 'id').text = '4'
            r = self.dispatcher.dispatch(SOAPRequest(self.environ, app.envelope(body, header=[token])))
            foreign = self.dispatcher.dispatch(SOAPRequest(self.environ, app.envelope(app.element('op', ('text', text)), header=[etree.Element('{%s}foreign' % NS)])))
            return [r.http_status_code, r.http_content, foreign.http_status_code]
        if what == 'facets':
            if not judged:
                made = [xsd.Int(minInclusive=5, maxInclusive=6), xsd.Decimal(fractionDigits=1), xsd.String(pattern='[0-9]', maxLength=1), xsd.String(enumeration=['1', '2']), xsd.Integer(totalDigits=1)]
                return [sx.outcome(m.accept, '7').ok for m in made]
            made = [xsd.Int(), xsd.Int(maxInclusive=9), xsd.Decimal(), xsd.String(), xsd.String(enumeration=['a', text]), xsd.Integer(), xsd.Byte()]
            return [[sx.outcome(m.accept, v).ok for v in (text, '3', '77777')] for m in made]
        if what == 'call with a header':
            sx.patch(requests, 'post', self.post)
            r = self.stub.call('Op', app.OpInput(text=text), header=app.Header(token=app.Token(id=4)))
            return self.sent + [r.soap_body.text, r.soap_header.token.id]
        if what == 'call':
            sx.patch(requests, 'post', self.post)
            r = self.stub.call('Op', app.OpInput(text=text))
            return self.sent + [r.soap_body.text, r.soap_header is None]
        if what == 'read':
            o = self.Thing.parsexml('<t a="%s"><v>%s</v><item>3</item><g>%s</g></t>' % (text, text, text))
            given = '' if judged else '<e>%s</e>' % text
            loose = self.Loose.parsexml('<l%s><v>%s</v><item>%s</item>%s</l>' % ('' if judged else ' d="%s"' % text, text, text, given))
            return [o.a, o.v, list(o.l), o.part.g, loose.v, loose.d, loose.e, list(loose.l), loose.base is None]
        if what == 'validated':
            e = etree.fromstring('<t:thing xmlns:t="urn:things"><t:v>v</t:v><t:item>3</t:item><t:g>g</t:g></t:thing>')
            e[0].text = text
            if not judged:
                self.Thing.parsexml('<t:thing xmlns:t="urn:things"/>', schema=self.lax)
            o = self.Thing.parsexml(etree.tostring(e), schema=self.things)
            bad = sx.outcome(lambda: self.Thing.parsexml('<t:thing xmlns:t="urn:things"><t:item>3</t:item></t:thing>', schema=self.things))
            return [o.v, list(o.l), bad.ok]
        if what == 'written':
            o = self.thing(text)
            loose = self.Loose(v=text, base=self.Base(v=text))
            loose.l.append(text)
            n = 'urn:one' if judged else 'urn:else'
            return [loose.xml('loose'), loose.xml('loose', namespace=n, elementFormDefault='qualified'), loose.xml('loose', namespace=n), o.xml('thing'), o.xml('thing', namespace='urn:things' if judged else 'urn:else', elementFormDefault='qualified')]
        if what == 'refused':
            o = self.thing(text)
            out = [sx.outcome(lambda: setattr(o, 'v', 'no ' + text)).ok, sx.outcome(lambda: o.l.append('x')).ok, sx.outcome(lambda: setattr(o, 'q', 1)).ok, sx.outcome(lambda: self.Thing(q=1)).ok]
            return out + [o.v, list(o.l), o.a]
        if what == 'subclass':
            class Special(self.Thing):
                a = xsd.Attribute(xsd.String, use=xsd.Use.REQUIRED)
                more = xsd.Element(xsd.String)
            o = Special(v=text, a='q', more=text)
            o.part.g = text
            return o.xml('s')
        if what == 'further':
            class Own(xsd.ComplexType):
                v = xsd.Element(xsd.String)
            own = xsd.Schema('urn:own', imports=[self.things], complexTypes=[Own], elements={'own': xsd.Element(Own), 'thing2': xsd.Element(Own)})
            service = soap.Service('urn:svc2', 'http://z/', [own], [xsd.Method('M', 'urn:m', 'own', 'thing2')], version=soap.SOAPVersion.SOAP11, name='Second')
            return [etree.tostring(py2xsd.generate_xsd(own)), soap_dispatch.SOAPDispatcher(service).wsdl]
        if what == 'code':
            return lines(xsd2py.generate_code_from_xsd(schema(x('include', schemaLocation='inc.xsd'), a_type('main'), targetNamespace='urn:t'), cwd='/w/m'))
        if what == 'client':
            return [lines(wsdl2py.generate_code_from_wsdl(etree.tostring(py2wsdl.generate_wsdl(s)), 'client', cwd='/w/m')) for s in (self.service, self.forward)]
        raise KeyError(what)


def lines(code):
    """without the time"""
    return [line for line in code.decode('utf-8').split('\n') if not line.startswith('# ')]


KINDS = ['schema', 'wsdl', 'validator', 'dispatcher', 'get wsdl', 'get schema', 'op', 'raises', 'invalid', 'other', 'unknown', 'call', 'read', 'validated', 'written', 'refused', 'subclass', 'further', 'code', 'client', 'header', 'stack', 'facets', 'call with a header']
# of each group one stands for the others in the middle of a history
FEW = ['wsdl', 'raises', 'call', 'further']


@sx.case(params=[{'last': k} for k in KINDS])
def histories(last):
    """the same use after others and as the first"""
    version = sx.choice('version', ['1.1', '1.2']) if last in ('op', 'raises', 'unknown', 'wsdl', 'call') and sx.tier() == 'thorough' else '1.1'
    files = Files(xsd2py)
    files.add(place('/w/m/inc.xsd'), schema(a_type('sub'), targetNamespace='urn:t'))
    files.add(place('/w/m/p.xsd'), schema(a_type('far'), targetNamespace='urn:p'))
    t, u = ch('t'), ch('u')
    first = World(version).use(last, t, judged=True)
    used = World(version)
    for i, kinds in enumerate([KINDS, KINDS, FEW] if sx.tier() == 'thorough' else [KINDS, FEW + [last]]):
        used.use(sx.choice('use %d' % i, kinds), u)
    sx.check(used.use(last, t, judged=True) == first, 'the same result')


@sx.case(params=[{'kind': k} for k in ('validator', 'service')], reach=['done'])
def shared_locations(kind):
    """schemas of different services may carry the same location"""
    n = sx.choice('order', [0, 1])
    order = [n, 1 - n, n]

    def make(i):
        class Inner(xsd.ComplexType):
            f = xsd.Element(xsd.String)

        class Other(xsd.ComplexType):
            h = xsd.Element(xsd.Int)
        inner = xsd.Schema('urn:inner', elementFormDefault='qualified', complexTypes=[(Inner, Other)[i]], elements={'e': xsd.Element((Inner, Other)[i])}, location='same.xsd')
        return xsd.Schema('urn:outer%d' % i, imports=[inner], location='outer.xsd'), inner
    both = [make(0), make(1)]
    t = ch('t')
    for i in order:
        outer, inner = both[i]
        if kind == 'validator':
            valid = py2xsd.schema_validator([outer])
            for j in (0, 1):
                e = etree.Element('{urn:inner}e')
                k = etree.SubElement(e, '{urn:inner}' + 'fh'[j])
                k.text = '3' if j else t
                sx.check(sx.outcome(valid, e).ok == (i == j), 'the schema at the location is its own')
        else:
            method = xsd.Method('M', 'urn:m', 'e', 'e', lambda request, value: value)
            d = soap_dispatch.SOAPDispatcher(soap.Service('urn:svc', 'http://z/', [outer, inner], [method], version=soap.SOAPVersion.SOAP11, name='S'))
            for j in (0, 1):
                body = '<i:e xmlns:i="urn:inner"><i:%s>%s</i:%s></i:e>' % ('fh'[j], '3' if j else 'x', 'fh'[j])
                r = d.dispatch(SOAPRequest({'REQUEST_METHOD': 'POST', 'SOAPACTION': '"urn:m"', 'CONTENT_TYPE': 'text/xml'}, (
                    '<s:Envelope xmlns:s="http://schemas.xmlsoap.org/soap/envelope/"><s:Body>' + body + '</s:Body></s:Envelope>').encode('ascii')))
                sx.check(r.http_status_code == (200 if i == j else 500), 'the service uses its own schemas')
    sx.reach('done')

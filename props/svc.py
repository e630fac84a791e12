"""A small service used by the harnesses of the dispatcher and the client."""
import sx
from lxml import etree
from soapfish import soap, soap11, soap12, soap_dispatch, xsd
from soapfish.core import SOAPRequest

NS = 'urn:app'
ENV = {'1.1': 'http://schemas.xmlsoap.org/soap/envelope/', '1.2': 'http://www.w3.org/2003/05/soap-envelope'}
TYPE = {'1.1': 'text/xml', '1.2': 'application/soap+xml'}
CLIENT = {'1.1': 'Client', '1.2': 'ns0:Sender'}
SERVER = {'1.1': 'Server', '1.2': 'ns0:Receiver'}
SOAP = {'1.1': soap11, '1.2': soap12}


class App:
    """service with operations op and other; calls records (operation, request, input)"""

    def __init__(self, version='1.1', form='unqualified', answer=None, mixed=False, **kw):
        class Inner(xsd.ComplexType):
            code = xsd.Element(xsd.String(enumeration=['A', 'B']))
            note = xsd.Element(xsd.String, minOccurs=0)

        class OpInput(xsd.ComplexType):
            text = xsd.Element(xsd.String(minLength=1, maxLength=2))
            count = xsd.Element(xsd.Integer(minInclusive=0, maxInclusive=20), minOccurs=0)
            items = xsd.ListElement(xsd.String, 'item', minOccurs=0, maxOccurs=2)
            inner = xsd.Element(Inner, minOccurs=0)
            kind = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)

        class OtherInput(xsd.ComplexType):
            word = xsd.Element(xsd.String)

        class Reply(xsd.ComplexType):
            text = xsd.Element(xsd.String)
            count = xsd.Element(xsd.Integer, minOccurs=0)
            items = xsd.ListElement(xsd.String, 'item', minOccurs=0)
            kind = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)

        class Token(xsd.ComplexType):
            id = xsd.Element(xsd.Integer)

        class Header(xsd.ComplexType):
            token = xsd.Element(Token, namespace=NS, minOccurs=0)
        self.Inner, self.OpInput, self.OtherInput, self.Reply, self.Token, self.Header = Inner, OpInput, OtherInput, Reply, Token, Header
        self.version = version
        self.calls = []
        self.answer = answer or (lambda request, value: Reply(text='t'))
        self.schema = xsd.Schema(
            NS, elementFormDefault=form, imports=[xsd.Schema('urn:p', location='p.xsd')] if mixed else [], complexTypes=[Inner, OpInput, OtherInput, Reply, Token],
            elements={'op': xsd.Element(OpInput), 'special': xsd.Element(OpInput, substitutionGroup='op'), 'other': xsd.Element(OtherInput), 'opReply': xsd.Element(Reply),
                      'otherReply': xsd.Element(OtherInput if mixed else Reply), 'token': xsd.Element(Token), 'loose': xsd.Element(OtherInput)})
        Header.SCHEMA = self.schema
        self.qualified = form == 'qualified'
        methods = [
            xsd.Method('Op', 'urn:do', input='op', output='opReply', function=self.handler('op'), **dict(input_header=Header, output_header=Header) if mixed else {}),
            xsd.Method('Other', 'urn:no', input='other', output='otherReply', function=self.handler('other')),
        ]
        self.service = soap.Service('urn:svc', '${scheme}://${host}/app', [self.schema], methods,
                                    version=getattr(soap.SOAPVersion, 'SOAP' + version.replace('.', '')), name='App', **kw)

    def handler(self, name):
        def function(request, value):
            self.calls.append((name, request, value))
            return self.answer(request, value)
        return function

    def dispatcher(self, **kw):
        return soap_dispatch.SOAPDispatcher(self.service, **kw)

    def tag(self, name):
        return '{%s}%s' % (NS, name) if self.qualified else name

    def element(self, root, *parts, **attrs):
        """a body element; parts: (tag, text or list of parts)"""
        e = etree.Element('{%s}%s' % (NS, root), nsmap={'q': NS})
        for k, v in attrs.items():
            e.set(k, v)
        self.fill(e, parts)
        return e

    def fill(self, e, parts):
        for tag, text in parts:
            c = etree.SubElement(e, self.tag(tag))
            if isinstance(text, list):
                self.fill(c, text)
            else:
                c.text = text

    def envelope(self, *body, header=None, body_present=True):
        env = etree.Element('{%s}Envelope' % ENV[self.version], nsmap={'env': ENV[self.version]})
        if header is not None:
            h = etree.SubElement(env, '{%s}Header' % ENV[self.version])
            for x in header:
                h.append(x)
        if body_present:
            b = etree.SubElement(env, '{%s}Body' % ENV[self.version])
            for x in body:
                b.append(x)
        return etree.tostring(env)

    def environ(self, action=None, **kw):
        env = {'REQUEST_METHOD': 'POST'}
        if self.version == '1.2':
            env['CONTENT_TYPE'] = 'application/soap+xml' if action is None else 'application/soap+xml; action="' + action + '"'
        elif action is not None:
            env['SOAPACTION'] = action
        env.update(kw)
        return env

    def post(self, content, action=None, dispatcher=None, environ=None):
        d = dispatcher or self.dispatcher()
        return d.dispatch(SOAPRequest(environ if environ is not None else self.environ(action), content))


def ch(name):
    return sx.str(name, 1, 1, 'alpha')


def parts(version, response):
    """(status, fault or None, body element, header element) of a response"""
    root = etree.fromstring(response.http_content)
    ns = '{%s}' % ENV[version]
    sx.check(sx.truth(root.tag == ns + 'Envelope'), 'response is an envelope of the version')
    sx.check(sx.truth(response.http_headers.get('Content-Type') == TYPE[version]), 'content type of the version')
    body = [c for c in root if c.tag == ns + 'Body']
    head = [c for c in root if c.tag == ns + 'Header']
    sx.check(sx.truth(len(body) == 1 and len(head) <= 1 and len(root) == len(body) + len(head)), 'one body, at most one header')
    sx.check(sx.truth(len(body[0]) == 1), 'body has one element')
    b = body[0][0]
    fault = None
    if b.tag == ns + 'Fault':
        if version == '1.1':
            fault = {c.tag: c.text for c in b}
            fault = (fault.get('faultcode'), fault.get('faultstring'), fault.get('faultactor'))
        else:
            code = b.find(ns + 'Code')
            reason = b.find(ns + 'Reason')
            role = b.find(ns + 'Role')
            fault = (code[0].text, reason[0].text, role.text if role is not None else None)
    return response.http_status_code, fault, b, head[0] if head else None


def is_fault(version, response, code, label):
    status, fault, b, h = parts(version, response)
    sx.check(sx.truth(status == 500), label + ': status 500')
    sx.check(sx.truth(fault is not None), label + ': a fault')
    sx.check(fault[0] == code, label + ': fault code')
    sx.check(sx.truth(fault[1] is not None and len(fault[1]) > 0), label + ': fault message')
    return fault


def is_reply(version, response, label):
    status, fault, b, h = parts(version, response)
    sx.check(sx.truth(status == 200), label + ': status 200')
    sx.check(sx.truth(fault is None), label + ': no fault')
    return b

"""Documents for the code generators, and a reading of file locations that is independent of theirs."""
import sx
from lxml import etree

XSD = 'http://www.w3.org/2001/XMLSchema'
WSDL = 'http://schemas.xmlsoap.org/wsdl/'
SOAP = 'http://schemas.xmlsoap.org/wsdl/soap/'
SOAP12 = 'http://schemas.xmlsoap.org/wsdl/soap12/'
HTTP = 'http://schemas.xmlsoap.org/soap/http'


def x(tag, *kids, **attrs):
    """an element of XML Schema; attributes that are None are left out"""
    e = etree.Element('{%s}%s' % (XSD, tag), nsmap={'xs': XSD, 'tns': 'urn:t'})
    return fill(e, kids, attrs)


def w(tag, *kids, **attrs):
    e = etree.Element('{%s}%s' % (WSDL, tag), nsmap={'wsdl': WSDL, 'xs': XSD, 'tns': 'urn:t', 'soap': SOAP})
    return fill(e, kids, attrs)


def s(tag, *kids, **attrs):
    return fill(etree.Element('{%s}%s' % (SOAP, tag), nsmap={'soap': SOAP}), kids, attrs)


def fill(e, kids, attrs):
    for k, v in attrs.items():
        if v is not None:
            e.set(k.rstrip('_'), v)
    for k in kids:
        if k is not None:
            e.append(k)
    return e


def schema(*kids, **attrs):
    attrs.setdefault('targetNamespace', 'urn:t')
    return x('schema', *kids, **attrs)


def a_type(name):
    """a complex type with one element"""
    return x('complexType', x('sequence', x('element', name='v', type='xs:string')), name=name)


def segments(path):
    """the steps of a path, without the redundant ones"""
    out = []
    for p in path.split('/'):
        if len(p) == 0 or p == '.':
            continue
        if p == '..':
            if out:
                out.pop()
        else:
            out.append(p)
    return out


def place(path):
    """where a path or URL leads: (host, steps)"""
    for scheme in ('http://', 'https://'):
        if path.startswith(scheme):
            host, _, rest = path[len(scheme):].partition('/')
            return scheme + host, segments(rest)
    return '', segments(path)


def relative(location, base):
    """where a location written in a document of the directory `base` (host, steps) leads"""
    if location.startswith('http://') or location.startswith('https://'):
        return place(location)
    host, steps = base
    if location.startswith('/'):
        return host, segments(location)
    return host, segments('/'.join(steps) + '/' + location)


def same(a, b):
    if len(a[1]) != len(b[1]):
        return False
    return sx.truth(sx.and_(a[0] == b[0], *[p == q for p, q in zip(a[1], b[1])]))


def folder(p):
    return p[0], p[1][:-1]


class Files:
    """open_document of the code generators, over documents kept here"""

    cwd = ('', ['w', 'here'])

    def __init__(self, *modules):
        self.docs = []          # (place, document)
        self.opened = []
        for m in modules:
            sx.patch(m, 'open_document', self.open)

    def add(self, path, doc):
        self.docs.append((place(path) if isinstance(path, str) else path, doc))

    def open(self, path):
        p = relative(path, self.cwd)
        self.opened.append(p)
        for q, doc in self.docs:
            if same(p, q):
                return etree.tostring(doc)
        raise OSError('no such file')

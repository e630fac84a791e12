"""A small XML-Schema validator used when the document (or the schema) has symbolic content.

Loaded through the rewriter, so every comparison below may be symbolic.  `fake` (the
lxml model) is injected by boot.py.  Concrete schema + concrete document always go to
the real libxml2; this module's verdicts are compared with libxml2's on every replay.
"""
import decimal
import re

XSD = 'http://www.w3.org/2001/XMLSchema'
XSI = 'http://www.w3.org/2001/XMLSchema-instance'
UNSUPPORTED = fake.Unsupported

INT_RANGE = {
    'integer': (None, None), 'nonNegativeInteger': (0, None), 'positiveInteger': (1, None), 'nonPositiveInteger': (None, 0),
    'negativeInteger': (None, -1), 'long': (-2 ** 63, 2 ** 63 - 1), 'int': (-2 ** 31, 2 ** 31 - 1), 'short': (-2 ** 15, 2 ** 15 - 1),
    'byte': (-128, 127), 'unsignedLong': (0, 2 ** 64 - 1), 'unsignedInt': (0, 2 ** 32 - 1), 'unsignedShort': (0, 65535),
    'unsignedByte': (0, 255),
}
STRINGY = {'string', 'normalizedString', 'token', 'anyURI', 'QName', 'NMTOKEN', 'NMTOKENS', 'base64Binary', 'language', 'Name', 'NCName',
           'ID', 'anySimpleType', 'duration'}


class Invalid(Exception):
    pass


def local(tag):
    return fake.split_tag(tag)[1]


def nsof(tag):
    return fake.split_tag(tag)[0]


class Model:
    def __init__(self, schema):
        self.schema = schema
        self.decl = {}
        self.seen = []
        self.load(schema.tree, None)

    def load(self, root, chameleon):
        tns = root.get('targetNamespace')
        if tns is None:
            tns = chameleon
        qualified = root.get('elementFormDefault') == 'qualified'
        for c in root:
            if c._kind != 'element' or nsof(c.tag) != XSD:
                continue
            kind = local(c.tag)
            if kind in ('import', 'include'):
                loc = c.get('schemaLocation')
                if loc is not None:
                    if any(loc == s for s in self.seen):
                        continue
                    self.seen.append(loc)
                    t = self.schema.imported(loc)
                    if t is None:
                        raise UNSUPPORTED('schema import of a symbolic schema')
                    self.load(t, tns if kind == 'include' else None)
                continue
            name = c.get('name')
            if name is not None:
                self.decl.setdefault(kind, []).append((tns, name, c))
            for d in c.iter():
                if d._kind == 'element':
                    d._xsdctx = (tns, qualified)

    def find(self, kind, ns, name):
        for n, l, c in self.decl.get(kind, ()):
            if l == name and (n == ns or (n is None and ns is None)):
                return c
        return None

    def resolve(self, el, qname):
        if ':' in qname:
            p, name = qname.split(':', 1)
            ns = el.nsmap.get(p)
            if ns is None:
                raise fake.XMLSchemaParseError('unresolved prefix')
            return ns, name
        ns = el.nsmap.get(None)
        return ns, qname

    # ---------------------------------------------------------------- elements
    def root(self, el):
        d = self.find('element', nsof(el.tag), local(el.tag))
        if d is None:
            raise Invalid('no global declaration')
        self.element(d, el)

    def typedef(self, d):
        t = d.get('type')
        if t is not None:
            return self.typeref(d, t)
        for c in d:
            if c._kind == 'element' and local(c.tag) in ('complexType', 'simpleType'):
                return c
        return None

    def typeref(self, d, qname):
        ns, name = self.resolve(d, qname)
        if ns == XSD:
            return name
        for kind in ('complexType', 'simpleType'):
            c = self.find(kind, ns, name)
            if c is not None:
                return c
        raise fake.XMLSchemaParseError('unresolved type')

    def element(self, d, el):
        if el.get('{%s}type' % XSI) is not None:
            raise UNSUPPORTED('xsi:type')
        nillable = d.get('nillable') in ('true', '1')
        nil = el.get('{%s}nil' % XSI)
        if nil is not None:
            if not (nil in ('true', 'false', '1', '0')):
                raise Invalid('xsi:nil')
            if not nillable:
                raise Invalid('not nillable')
        nil = nil is not None and nil in ('true', '1')
        t = self.typedef(d)
        if t is None and d.get('substitutionGroup') is not None:
            ns, name = self.resolve(d, d.get('substitutionGroup'))
            h = self.find('element', ns, name)
            t = self.typedef(h) if h is not None else None
        if t is None or t == 'anyType':
            return
        if isinstance(t, str) or local(t.tag) == 'simpleType':
            for k in el.keys():
                if nsof(k) != XSI:
                    raise Invalid('attribute not allowed')
            if any(c._kind == 'element' for c in el):
                raise Invalid('no child elements allowed')
            if nil:
                if el.text is not None or len(el):
                    raise Invalid('content of a nil element')
                return
            self.simple(t, self.content(el), el)
            return
        self.attributes(t, el)
        if nil:
            if el.text is not None or len(el):
                raise Invalid('content of a nil element')
            return
        simple = self.simple_content(t)
        if simple is not None:
            if any(c._kind == 'element' for c in el):
                raise Invalid('no child elements allowed')
            self.simple(simple, self.content(el), el)
            return
        self.complex(t, el)

    def content(self, el):
        out = el.text or ''
        for c in el:
            if c.tail:
                out = out + c.tail
        return out

    def simple_content(self, t):
        for c in t:
            if c._kind == 'element' and local(c.tag) == 'simpleContent':
                for d in c:
                    if d._kind == 'element' and local(d.tag) == 'extension':
                        b = self.typeref(d, d.get('base'))
                        if not isinstance(b, str) and local(b.tag) == 'complexType':
                            return self.simple_content(b)
                        return b
                raise UNSUPPORTED('simpleContent restriction')
        return None

    # ---------------------------------------------------------------- attributes
    def attr_decls(self, t):
        out, wild = [], []
        for c in t:
            if c._kind != 'element':
                continue
            k = local(c.tag)
            if k == 'attribute':
                out.append(c)
            elif k == 'anyAttribute':
                wild = wild + [c]
            elif k == 'attributeGroup':
                ns, name = self.resolve(c, c.get('ref'))
                g = self.find('attributeGroup', ns, name)
                o, w = self.attr_decls(g)
                out += o
                wild = wild + w
            elif k in ('complexContent', 'simpleContent'):
                for d in c:
                    if d._kind == 'element' and local(d.tag) in ('extension', 'restriction'):
                        o, w = self.attr_decls(d)
                        b = self.typeref(d, d.get('base'))
                        if not isinstance(b, str) and local(b.tag) == 'complexType':
                            bo, bw = self.attr_decls(b)
                            names = [x.get('name') for x in o]
                            out += [x for x in bo if not any(x.get('name') == n for n in names)]
                            wild = wild + bw
                        out += o
                        wild = wild + w
        return out, wild

    def attributes(self, t, el):
        decls, wild = self.attr_decls(t)
        names = []
        for d in decls:
            src = d
            if d.get('ref') is not None:
                raise UNSUPPORTED('attribute ref')
            name = d.get('name')
            names.append(name)
            v = el.get(name)
            use = d.get('use')
            if v is None:
                if use == 'required':
                    raise Invalid('required attribute missing')
                continue
            if use == 'prohibited':
                raise Invalid('prohibited attribute')
            ty = self.typedef(src)
            if ty is not None:
                self.simple(ty, v, el)
        for k in el.keys():
            if nsof(k) == XSI:
                continue
            if any(k == n for n in names):
                continue
            if not any(self.allows(w, nsof(k)) for w in wild):
                raise Invalid('attribute not allowed')

    def allows(self, wildcard, ns):
        """does a wildcard admit names of a namespace?"""
        allowed = wildcard.get('namespace')
        if allowed is None or allowed == '##any':
            return True
        tns = wildcard._xsdctx[0]
        if allowed == '##other':
            return ns is not None and not (tns is not None and ns == tns)
        for a in allowed.split():
            if a == '##local':
                if ns is None:
                    return True
            elif ns is not None and ns == (tns if a == '##targetNamespace' else a):
                return True
        return False

    # ---------------------------------------------------------------- particles
    def complex(self, t, el):
        mixed = t.get('mixed') in ('true', '1')
        if not mixed:
            if el.text is not None and not (el.text.strip(' \t\n\r') == ''):
                raise Invalid('character content not allowed')
            for c in el:
                if c.tail is not None and not (c.tail.strip(' \t\n\r') == ''):
                    raise Invalid('character content not allowed')
        kids = [c for c in el if c._kind == 'element']
        parts = self.particles(t)
        if any(local(p.tag) == 'all' for p in parts):
            if len(parts) != 1:
                raise UNSUPPORTED('all in extension')
            self.all_group(parts[0], kids)
            return
        for end, acts in self.seq(parts, 0, kids, 0):
            if end == len(kids):
                for d, k in acts:
                    if d is not None:
                        self.element(d, k)
                return
        raise Invalid('content model')

    def particles(self, t):
        """model groups of a complex type in order (base types first)"""
        out = []
        for c in t:
            if c._kind != 'element':
                continue
            k = local(c.tag)
            if k in ('sequence', 'choice', 'all', 'group'):
                out.append(c)
            elif k == 'complexContent':
                for d in c:
                    if d._kind == 'element' and local(d.tag) in ('extension', 'restriction'):
                        if local(d.tag) == 'extension':
                            b = self.typeref(d, d.get('base'))
                            if not isinstance(b, str):
                                out += self.particles(b)
                        out += self.particles(d)
        return out

    def all_group(self, g, kids):
        decls = [c for c in g if c._kind == 'element' and local(c.tag) == 'element']
        left = list(decls)
        for k in kids:
            for d in left:
                if self.matches(d, k):
                    left = [x for x in left if x is not d]
                    self.element(self.target(d), k)
                    break
            else:
                raise Invalid('content model')
        for d in left:
            if self.occurs(d)[0] > 0:
                raise Invalid('content model')

    def occurs(self, p):
        lo, hi = p.get('minOccurs'), p.get('maxOccurs')
        lo = 1 if lo is None else int(lo)
        if hi is None:
            hi = 1
        elif hi == 'unbounded':
            hi = None
        else:
            hi = int(hi)
        return lo, hi

    def target(self, d):
        if d.get('ref') is not None:
            ns, name = self.resolve(d, d.get('ref'))
            t = self.find('element', ns, name)
            if t is None:
                raise fake.XMLSchemaParseError('unresolved element ref')
            return t
        return d

    def matches(self, d, k):
        if d.get('ref') is not None:
            ns, name = self.resolve(d, d.get('ref'))
        else:
            tns, qualified = d._xsdctx
            form = d.get('form')
            ns = tns if (qualified if form is None else form == 'qualified') else None
            name = d.get('name')
        kns = nsof(k.tag)
        if kns is None or ns is None:
            if not (kns is None and ns is None):
                return False
        elif not (kns == ns):
            return False
        return bool(local(k.tag) == name)

    def seq(self, parts, i, kids, pos):
        if i == len(parts):
            yield pos, []
            return
        for e, acts in self.rep(parts[i], kids, pos):
            for e2, acts2 in self.seq(parts, i + 1, kids, e):
                yield e2, acts + acts2

    def rep(self, p, kids, pos):
        lo, hi = self.occurs(p)
        yield from self.times(p, kids, pos, lo, hi, 0)

    def times(self, p, kids, pos, lo, hi, n):
        if hi is None or n < hi:
            for e, acts in self.once(p, kids, pos):
                if e == pos:
                    continue
                for e2, acts2 in self.times(p, kids, e, lo, hi, n + 1):
                    yield e2, acts + acts2
        if n >= lo:
            yield pos, []
        elif local(p.tag) != 'element' and local(p.tag) != 'any':
            for e, acts in self.once(p, kids, pos):
                if e == pos:
                    yield pos, []
                    break

    def once(self, p, kids, pos):
        k = local(p.tag)
        if k == 'element':
            if pos < len(kids) and self.matches(p, kids[pos]):
                yield pos + 1, [(self.target(p), kids[pos])]
            elif pos < len(kids) and p.get('ref') is not None and self.substitutes(p, kids[pos]):
                yield pos + 1, [(self.find('element', nsof(kids[pos].tag), local(kids[pos].tag)), kids[pos])]
        elif k == 'any':
            if pos < len(kids) and self.allows(p, nsof(kids[pos].tag)):
                if p.get('processContents') == 'lax':
                    yield pos + 1, [(self.find('element', nsof(kids[pos].tag), local(kids[pos].tag)), kids[pos])]
                elif p.get('processContents') == 'skip':
                    yield pos + 1, [(None, kids[pos])]
                else:
                    raise UNSUPPORTED('strict wildcard')
        elif k == 'sequence':
            yield from self.seq([c for c in p if c._kind == 'element' and local(c.tag) != 'annotation'], 0, kids, pos)
        elif k == 'choice':
            alts = [c for c in p if c._kind == 'element' and local(c.tag) != 'annotation']
            if not alts:
                yield pos, []
            for c in alts:
                yield from self.rep(c, kids, pos)
        elif k == 'group':
            ns, name = self.resolve(p, p.get('ref'))
            g = self.find('group', ns, name)
            for c in g:
                if c._kind == 'element' and local(c.tag) in ('sequence', 'choice'):
                    yield from self.rep(c, kids, pos)
        else:
            raise UNSUPPORTED('particle ' + k)

    def substitutes(self, p, kid):
        d = self.find('element', nsof(kid.tag), local(kid.tag))
        if d is None or d.get('substitutionGroup') is None:
            return False
        return self.resolve(d, d.get('substitutionGroup')) == self.resolve(p, p.get('ref'))

    # ---------------------------------------------------------------- simple types
    def base_chain(self, t):
        """(builtin name, [restriction elements from base to derived], list item type or None)"""
        if isinstance(t, str):
            return t, [], None
        for c in t:
            if c._kind != 'element':
                continue
            k = local(c.tag)
            if k == 'restriction':
                b = c.get('base')
                if b is not None:
                    base = self.typeref(c, b)
                else:
                    base = [d for d in c if d._kind == 'element' and local(d.tag) == 'simpleType'][0]
                name, rs, item = self.base_chain(base)
                return name, rs + [c], item
            if k == 'list':
                return 'list', [], self.typeref(c, c.get('itemType'))
            if k == 'union':
                raise UNSUPPORTED('union')
        raise UNSUPPORTED('simple type without content')

    def simple(self, t, text, el):
        if not isinstance(t, str) and local(t.tag) == 'complexType':
            raise UNSUPPORTED('complex type used for an attribute')
        name, rs, item = self.base_chain(t)
        ws = None
        for r in rs:
            for f in r:
                if f._kind == 'element' and local(f.tag) == 'whiteSpace':
                    ws = f.get('value')
        if ws is None:
            ws = 'preserve' if name in ('string', 'anySimpleType') else 'replace' if name == 'normalizedString' else 'collapse'
        if ws != 'preserve':
            text = re.sub('[\t\n\r]', ' ', text)
            if ws == 'collapse':
                text = re.sub(' +', ' ', text).strip(' ')
        if name == 'list' or name == 'NMTOKENS':
            items = [x for x in text.split(' ') if len(x)]
            if name == 'NMTOKENS':
                if not items:
                    raise Invalid('NMTOKENS')
                for x in items:
                    self.lexical('NMTOKEN', x, el)
            else:
                for x in items:
                    self.simple(item, x, el)
            value, length = text, len(items)
        else:
            value = self.lexical(name, text, el)
            length = None
        for r in rs:
            self.facets(r, name, text, value, length)

    def lexical(self, name, s, el):
        if name in ('string', 'normalizedString', 'token', 'anySimpleType', 'anyType'):
            return s
        if name in INT_RANGE:
            if re.match(r'[+-]?[0-9]+\Z', s) is None:
                raise Invalid('integer')
            if len(s.lstrip("+-")) > 24:
                raise UNSUPPORTED('long integer')
            v = int(s)
            lo, hi = INT_RANGE[name]
            if lo is not None and v < lo or hi is not None and v > hi:
                raise Invalid('range')
            return v
        if name == 'decimal':
            if re.match(r'[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)\Z', s) is None:
                raise Invalid('decimal')
            return decimal.Decimal(s)
        if name in ('float', 'double'):
            if s in ('INF', '-INF', 'NaN'):
                return float(s)
            if re.match(r'[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?\Z', s) is None:
                raise Invalid('float')
            return float(s)
        if name == 'boolean':
            if s in ('true', '1'):
                return True
            if s in ('false', '0'):
                return False
            raise Invalid('boolean')
        tz = r'(Z|[+-]((0[0-9]|1[0-3]):[0-5][0-9]|14:00))?'
        if name == 'date':
            m = re.match(r'(-?)([0-9]{4,})-([0-9]{2})-([0-9]{2})' + tz + r'\Z', s)
            if m is None:
                raise Invalid('date')
            self.check_date(m)
            return s
        if name == 'dateTime':
            m = re.match(r'(-?)([0-9]{4,})-([0-9]{2})-([0-9]{2})T([0-9]{2}):([0-9]{2}):([0-9]{2})(\.[0-9]+)?' + tz + r'\Z', s)
            if m is None:
                raise Invalid('dateTime')
            self.check_date(m)
            self.check_time(int(m.group(5)), int(m.group(6)), int(m.group(7)))
            return s
        if name == 'time':
            m = re.match(r'([0-9]{2}):([0-9]{2}):([0-9]{2})(\.[0-9]+)?' + tz + r'\Z', s)
            if m is None:
                raise Invalid('time')
            self.check_time(int(m.group(1)), int(m.group(2)), int(m.group(3)))
            return s
        if name == 'NMTOKEN':
            if re.match(r'[A-Za-z0-9._:\-\u00b7\u00c0-\u00d6\u00d8-\u00f6\u00f8-\u07ff]+\Z', s) is None:
                raise Invalid('NMTOKEN')
            return s
        if name == 'QName':
            if re.match(r'([A-Za-z_][A-Za-z0-9._\-]*:)?[A-Za-z_][A-Za-z0-9._\-]*\Z', s) is None:
                if re.match(r'[\x00-\x7f]*\Z', s) is None:
                    raise UNSUPPORTED('non-ASCII QName')
                raise Invalid('QName')
            if ':' in s:
                p = s.split(':')[0]
                if not any(p == k for k in el.nsmap if k is not None):
                    raise Invalid('QName prefix')
            return s
        if name == 'anyURI':
            if re.match(r'[A-Za-z0-9/._~-]*\Z', s) is None:
                raise UNSUPPORTED('anyURI characters')
            return s
        if name == 'base64Binary':
            t = s.replace(' ', '')
            if re.match(r'([A-Za-z0-9+/]{4})*([A-Za-z0-9+/]{4}|[A-Za-z0-9+/]{2}[AEIMQUYcgkosw048]=|[A-Za-z0-9+/][AQgw]==)?\Z', t) is None:
                raise Invalid('base64')
            return s
        if name == 'duration':
            if re.match(r'-?P(?=[0-9T])([0-9]+Y)?([0-9]+M)?([0-9]+D)?(T(?=[0-9])([0-9]+H)?([0-9]+M)?([0-9]+(\.[0-9]+)?S)?)?\Z', s) is None:
                raise Invalid('duration')
            return s
        raise UNSUPPORTED('builtin ' + name)

    def check_date(self, m):
        y, mo, d = int(m.group(2)), int(m.group(3)), int(m.group(4))
        if y == 0 or mo < 1 or mo > 12 or d < 1:
            raise Invalid('date')
        if mo in (4, 6, 9, 11):
            last = 30
        elif mo == 2:
            last = 29 if (y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)) else 28
        else:
            last = 31
        if d > last:
            raise Invalid('date')

    def check_time(self, h, mi, s):
        if h == 24 and mi == 0 and s == 0:
            return
        if h > 23 or mi > 59 or s > 59:
            raise Invalid('time')

    def facets(self, r, name, text, value, length):
        fs = [(local(f.tag), f.get('value')) for f in r if f._kind == 'element']
        enums = [v for k, v in fs if k == 'enumeration']
        if enums:
            if name in INT_RANGE:
                ok = any(value == int(v) for v in enums)
            elif name == 'decimal':
                ok = any(value == decimal.Decimal(v) for v in enums)
            elif name in ('float', 'double'):
                ok = any(value == float(v) for v in enums)
            else:
                ok = any(text == v for v in enums)
            if not ok:
                raise Invalid('enumeration')
        pats = [v for k, v in fs if k == 'pattern']
        if pats and not any(re.match('(?:' + p + r')\Z', text) is not None for p in pats):
            raise Invalid('pattern')
        n = len(text) if length is None else length
        for k, v in fs:
            if k in ('enumeration', 'pattern', 'whiteSpace', 'annotation', 'simpleType'):
                continue
            if k == 'length':
                ok = n == int(v)
            elif k == 'minLength':
                ok = n >= int(v)
            elif k == 'maxLength':
                ok = n <= int(v)
            elif k in ('minInclusive', 'maxInclusive', 'minExclusive', 'maxExclusive'):
                if name in INT_RANGE:
                    b = int(v)
                elif name == 'decimal':
                    b = decimal.Decimal(v)
                elif name in ('float', 'double'):
                    b = float(v)
                else:
                    raise UNSUPPORTED('range facet on ' + name)
                ok = value >= b if k == 'minInclusive' else value <= b if k == 'maxInclusive' else value > b if k == 'minExclusive' else value < b
            elif k == 'totalDigits':
                ip, _, fp = text.lstrip('+-').partition('.')
                ok = len(ip.lstrip('0')) + len(fp.rstrip('0')) <= int(v) or (len(ip.lstrip('0')) + len(fp.rstrip('0')) == 0)
            elif k == 'fractionDigits':
                ok = len(text.partition('.')[2].rstrip('0')) <= int(v)
            else:
                raise UNSUPPORTED('facet ' + k)
            if not ok:
                raise Invalid(k)


def validate(schema, element):
    m = Model(schema)
    try:
        m.root(element)
    except Invalid:
        return False
    return True

"""lxml.etree over symbolic content: a pure-Python element tree with lxml's API and
conventions.  Fully concrete documents are parsed / serialised / schema-validated
by the real lxml; documents with symbolic content are kept as trees (serialising
and parsing back is modelled as an infoset round trip).
"""
import re as real_re
import types

from lxml import etree as R          # the real one

from . import engine, rt
from .engine import SymBytes, SymStr, Sym, Unsupported, and_, concat, cp_eq, cps_of, in_ranges, is_sym, mkbool, mkstr, not_, or_

XML_CHAR = [(0x9, 0xA), (0xD, 0xD), (0x20, 0xD7FF), (0xE000, 0xFFFD), (0x10000, 0x10FFFF)]
XML_NS = 'http://www.w3.org/XML/1998/namespace'

XMLSyntaxError = R.XMLSyntaxError
DocumentInvalid = R.DocumentInvalid
XMLSchemaParseError = R.XMLSchemaParseError
LxmlError = R.LxmlError
XPathError = R.XPathError
XPathEvalError = R.XPathEvalError
ParseError = R.ParseError
XMLSchemaError = R.XMLSchemaError
Error = R.Error


def _bad_chars():
    return ValueError('All strings must be XML compatible: Unicode or ASCII, no NULL bytes or control characters')


def _utf8(s):
    """Validate a text value the way lxml does; returns str-like."""
    if isinstance(s, SymBytes):
        s = s.s
    elif isinstance(s, bytes) and not is_sym(s):
        try:
            s = s.decode('ascii')
        except UnicodeDecodeError:
            raise _bad_chars()
    elif isinstance(s, SerializedXML):
        raise Unsupported('serialised XML used as text')
    if not isinstance(s, str):
        raise TypeError(f"Argument must be bytes or unicode, got '{type(s).__name__}'")
    if is_sym(s):
        if s._cps is None and all(isinstance(p, (str, engine.IntPart, engine.SymDec)) and not (isinstance(p, SymStr)) for p in s._parts):
            return s
        try:
            cps = s.cps
        except Unsupported:
            return s          # repr() content: stays opaque
        e = and_(*[in_ranges(c, XML_CHAR) for c in cps])
        if not e:
            raise _bad_chars()
        return s
    s = str.__str__(s)
    if any(not any(a <= ord(c) <= b for a, b in XML_CHAR) for c in s):
        raise _bad_chars()
    return s


_NAME_START = [(65, 90), (95, 95), (97, 122), (0xC0, 0xD6), (0xD8, 0xF6), (0xF8, 0x2FF), (0x370, 0x37D), (0x37F, 0x1FFF)]
_NAME_CHAR = _NAME_START + [(45, 46), (48, 57), (0xB7, 0xB7), (0x300, 0x36F)]


def _check_name(n):
    if len(n) == 0:
        raise ValueError('Empty tag name')
    if not is_sym(n) and not n.isascii():
        R.Element(n)
        return
    cps = cps_of(n)
    if not (in_ranges(cps[0], _NAME_START) and all(bool(in_ranges(c, _NAME_CHAR)) for c in cps[1:])):
        raise ValueError(concat(["Invalid tag name ", engine.OpaquePart(n)]))


def split_tag(tag):
    """'{ns}local' -> (ns | None, local)"""
    if is_sym(tag):
        if len(tag) and bool(tag.startswith('{')):
            i = tag.find('}')
            if i < 0:
                raise ValueError('Invalid tag name')
            return tag[1:i], tag[i + 1:]
        return None, tag
    if tag[:1] == '{':
        ns, _, local = tag[1:].partition('}')
        return ns, local
    return None, tag


def _tagname(tag):
    if isinstance(tag, QName):
        tag = tag.text
    if isinstance(tag, bytes) and not is_sym(tag):
        tag = tag.decode()
    if not isinstance(tag, str):
        raise TypeError(f"Argument must be bytes or unicode, got '{type(tag).__name__}'")
    ns, local = split_tag(tag)
    _check_name(local)
    if ns is not None:
        _utf8(ns)
        if len(ns) == 0:
            return local
        return concat(['{', ns, '}', local])
    return local if is_sym(local) else str.__str__(local)


class QName:
    def __init__(self, text_or_uri_or_element, tag=None):
        t = text_or_uri_or_element
        if isinstance(t, _Element):
            t = t.tag
            if not isinstance(t, str):
                raise ValueError('Invalid input tag of type function')
        elif isinstance(t, QName):
            t = t.text
        if tag is not None:
            t = concat(['{', t, '}', tag]) if t else tag
        if not isinstance(t, str):
            raise ValueError(f'Invalid input tag of type {type(t)!r}')
        self.namespace, self.localname = split_tag(t)
        _check_name(self.localname)
        self.text = t

    def __eq__(self, o):
        return self.text == (o.text if isinstance(o, QName) else o)

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def __hash__(self):
        return rt.r_hash(self.text)

    def __str__(self):
        return self.text


class _Attrib:
    def __init__(self, el):
        self._el = el

    def _find(self, key):
        key = _tagname(key)
        for i, (k, v) in enumerate(self._el._attr):
            if k == key:
                return i
        return -1

    def get(self, key, default=None):
        i = self._find(key)
        return default if i < 0 else self._el._attr[i][1]

    def __getitem__(self, key):
        i = self._find(key)
        if i < 0:
            raise KeyError(key)
        return self._el._attr[i][1]

    def __setitem__(self, key, value):
        self._el.set(key, value)

    def __delitem__(self, key):
        i = self._find(key)
        if i < 0:
            raise KeyError(key)
        del self._el._attr[i]

    def __contains__(self, key): return self._find(key) >= 0
    def __len__(self): return len(self._el._attr)
    def __bool__(self): return bool(self._el._attr)
    def __iter__(self): return iter([k for k, _ in self._el._attr])
    def keys(self): return [k for k, _ in self._el._attr]
    def values(self): return [v for _, v in self._el._attr]
    def items(self): return [(k, v) for k, v in self._el._attr]
    has_key = __contains__

    def pop(self, key, *d):
        i = self._find(key)
        if i < 0:
            if d:
                return d[0]
            raise KeyError(key)
        return self._el._attr.pop(i)[1]

    def update(self, o):
        for k, v in (o.items() if hasattr(o, 'items') else o):
            self._el.set(k, v)

    def clear(self): self._el._attr[:] = []

    def __eq__(self, o):
        return dict(self.items()) == dict(o.items())


class _Element:
    _kind = 'element'

    def __init__(self, tag, nsmap=None):
        self._tag = tag
        self._text = None
        self._tail = None
        self._attr = []
        self._children = []
        self._parent = None
        self._ns = dict(nsmap or {})
        self._resolvers = None
        ns, _ = split_tag(tag) if isinstance(tag, str) else (None, None)
        if ns is not None:
            self._need_ns(ns)

    def _need_ns(self, ns, attr=False):
        if not is_sym(ns) and ns == XML_NS:
            return
        for p, u in self.nsmap.items():
            if u == ns and not (attr and p is None):
                return
        n = 0
        while f'ns{n}' in self.nsmap:
            n += 1
        self._ns[f'ns{n}'] = ns

    @property
    def nsmap(self):
        m = dict(self._parent.nsmap) if self._parent is not None else {}
        m.update(self._ns)
        return m

    @property
    def prefix(self):
        if not isinstance(self._tag, str):
            return None
        ns, _ = split_tag(self._tag)
        if ns is None:
            return None
        for p, u in self.nsmap.items():
            if u == ns:
                return p
        return None

    @property
    def tag(self): return self._tag

    @tag.setter
    def tag(self, v):
        self._tag = _tagname(v)
        ns, _ = split_tag(self._tag)
        if ns is not None:
            self._need_ns(ns)

    @property
    def text(self): return self._text

    @text.setter
    def text(self, v):
        if v is not None:
            if isinstance(v, QName):
                v = v.text
            v = _utf8(v)
        self._text = v

    @property
    def tail(self): return self._tail

    @tail.setter
    def tail(self, v):
        self._tail = v if v is None else _utf8(v)

    @property
    def attrib(self): return _Attrib(self)

    @property
    def sourceline(self): return None

    def get(self, key, default=None): return self.attrib.get(key, default)

    def set(self, key, value):
        key = _tagname(key)
        value = _utf8(value)
        ns, _ = split_tag(key)
        if ns is not None:
            self._need_ns(ns, attr=True)
        for pair in self._attr:
            if pair[0] == key:
                pair[1] = value
                return
        self._attr.append([key, value])

    def keys(self): return self.attrib.keys()
    def values(self): return self.attrib.values()
    def items(self): return self.attrib.items()

    def _detach(self):
        if self._parent is not None:
            self._parent._children = [c for c in self._parent._children if c is not self]
            self._parent = None

    def _adopt(self, el):
        if not isinstance(el, _Element):
            raise TypeError(f"Argument 'element' has incorrect type (expected lxml.etree._Element, got {type(el).__name__})")
        el._detach()
        el._parent = self
        return el

    def append(self, el):
        self._children.append(self._adopt(el))

    def insert(self, i, el):
        self._children.insert(i, self._adopt(el))

    def extend(self, els):
        for e in list(els):
            self.append(e)

    def remove(self, el):
        if el._parent is not self:
            raise ValueError('Element is not a child of this node.')
        el._detach()

    def clear(self, keep_tail=False):
        self._children, self._attr, self._text = [], [], None
        if not keep_tail:
            self._tail = None

    def replace(self, old, new):
        i = self.index(old)
        old._detach()
        self.insert(i, new)

    def index(self, el, *a):
        for i, c in enumerate(self._children):
            if c is el:
                return i
        raise ValueError('Element is not a child of this node.')

    def __iter__(self): return iter(list(self._children))
    def __reversed__(self): return reversed(list(self._children))
    def __len__(self): return len(self._children)
    def __bool__(self): return bool(self._children)

    def __getitem__(self, i):
        try:
            return self._children[i]
        except IndexError:
            raise IndexError('list index out of range') from None

    def __setitem__(self, i, el):
        old = self._children[i]
        self.replace(old, el)

    def __delitem__(self, i):
        for c in (self._children[i] if isinstance(i, slice) else [self._children[i]]):
            c._detach()

    def __contains__(self, el): return any(c is el for c in self._children)
    def getchildren(self): return list(self._children)

    def iterchildren(self, tag=None, *tags, reversed=False):
        cs = list(self._children)
        if reversed:
            cs.reverse()
        if tag is None:
            return iter(cs)
        return iter([c for c in cs if _tag_match(c, (tag,) + tags)])

    def getparent(self): return self._parent

    def getnext(self):
        if self._parent is None:
            return None
        i = self._parent.index(self)
        return self._parent._children[i + 1] if i + 1 < len(self._parent._children) else None

    def getprevious(self):
        if self._parent is None:
            return None
        i = self._parent.index(self)
        return self._parent._children[i - 1] if i else None

    def itersiblings(self, tag=None, *tags, preceding=False):
        if self._parent is None:
            return iter([])
        i = self._parent.index(self)
        cs = self._parent._children[:i][::-1] if preceding else self._parent._children[i + 1:]
        return iter([c for c in cs if tag is None or _tag_match(c, (tag,) + tags)])

    def iterancestors(self, *tags):
        p = self._parent
        while p is not None:
            if not tags or _tag_match(p, tags):
                yield p
            p = p._parent

    def iter(self, *tags):
        if not tags or _tag_match(self, tags):
            yield self
        for c in list(self._children):
            yield from c.iter(*tags)

    def iterdescendants(self, *tags):
        for c in list(self._children):
            yield from c.iter(*tags)

    def itertext(self, *tags, with_tail=True):
        if self._text:
            yield self._text
        for c in self._children:
            yield from c.itertext()
            if c._tail:
                yield c._tail

    def getroottree(self):
        r = self
        while r._parent is not None:
            r = r._parent
        return _ElementTree(r)

    def find(self, path, namespaces=None):
        return next(iter(self.findall(path, namespaces)), None)

    def findall(self, path, namespaces=None):
        if isinstance(path, QName):
            path = path.text
        if is_sym(path):
            return [c for c in self._children if _tag_match(c, (path,))]
        cur = [self]
        rest = path
        steps = []
        for m in real_re.finditer(r'(//|/|^)((?:\{[^}]*\})?[^/]+)', rest if not rest.startswith('./') else rest[1:]):
            steps.append((m.group(1), m.group(2)))
        for sep, name in steps:
            if name == '.':
                continue
            if ':' in name and '{' not in name and namespaces:
                p, n = name.split(':')
                name = '{%s}%s' % (namespaces[p], n)
            nxt = []
            for c in cur:
                pool = c.iterdescendants() if sep == '//' else c._children
                nxt.extend(x for x in pool if name == '*' and x._kind == 'element' or name != '*' and _tag_match(x, (name,)))
            cur = nxt
        return cur

    iterfind = findall

    def findtext(self, path, default=None, namespaces=None):
        e = self.find(path, namespaces)
        return default if e is None else (e._text or '')

    def xpath(self, expr, namespaces=None, **kw):
        root = self.getroottree().getroot()
        out = []
        for part in expr.split('|'):
            part = part.strip()
            m = real_re.fullmatch(r"//\*\[local-name\(\)\s*=\s*[\"'](\w+)[\"']\]", part)
            if m:
                out.extend(e for e in root.iter() if e._kind == 'element' and split_tag(e._tag)[1] == m.group(1))
                continue
            if not real_re.fullmatch(r'(\.?//|/)?[\w:*.-]+(/{1,2}[\w:*.-]+)*', part):
                raise Unsupported('xpath ' + expr)
            m = real_re.match(r'(\.?//|/)?', part)
            pre, rest = m.group(1), part[m.end():]
            steps = real_re.split(r'(/{1,2})', rest)
            cur, sep = ([self], pre or '/') if pre != '//' and pre != '/' else ([None], pre)
            if pre == './/':
                sep = '//'
            for s in steps:
                if s in ('/', '//'):
                    sep = s
                    continue
                nxt = []
                for c in cur:
                    if c is None:
                        pool = list(root.iter()) if sep == '//' else [root]
                    else:
                        pool = list(c.iterdescendants()) if sep == '//' else c._children
                    for x in pool:
                        if x._kind != 'element':
                            continue
                        if s == '*':
                            nxt.append(x)
                            continue
                        p, _, n = s.rpartition(':')
                        if p:
                            if not namespaces or p not in namespaces:
                                raise XPathEvalError('Undefined namespace prefix')
                            uri = namespaces[p]
                        else:
                            uri = None
                        ns, local = split_tag(x._tag)
                        if local == n and (ns == uri if ns is not None and uri is not None else ns is None and uri is None):
                            nxt.append(x)
                cur = nxt
            out.extend(cur)
        seen, res = set(), []
        for e in out:
            if id(e) not in seen:
                seen.add(id(e))
                res.append(e)
        order = {id(e): i for i, e in enumerate(root.iter())}
        res.sort(key=lambda e: order.get(id(e), 0))
        return res

    def __copy__(self): return copy_tree(self)
    def __deepcopy__(self, memo): return copy_tree(self)
    def __repr__(self): return '<Element>'


class _ContentOnly(_Element):
    def __init__(self, tag, text, target=None):
        self._tag, self._tail, self._attr, self._children = tag, None, [], []
        self._text, self._parent, self._ns = text, None, {}
        self.target = target
        self._resolvers = None

    def set(self, key, value): raise TypeError('this element does not have children or attributes')
    def append(self, el): raise TypeError('this element does not have children or attributes')
    def get(self, key, default=None): return None
    def __len__(self): return 0
    def iter(self, *tags):
        if not tags or self._tag in tags:
            yield self
    def itertext(self, *a, **k): return iter(())


class _Comment(_ContentOnly):
    _kind = 'comment'


class _ProcessingInstruction(_ContentOnly):
    _kind = 'pi'


def Comment(text=None):
    return _Comment(Comment, '' if text is None else _utf8(text))


def ProcessingInstruction(target, text=None):
    return _ProcessingInstruction(ProcessingInstruction, '' if text is None else _utf8(text), target)


PI = ProcessingInstruction


def Entity(name):
    raise Unsupported('entities')


def _tag_match(el, tags):
    for t in tags:
        if callable(t) and not isinstance(t, str):
            if el._tag is t or (t is Element and el._kind == 'element'):
                return True
            continue
        if el._kind != 'element':
            continue
        if isinstance(t, QName):
            t = t.text
        if not is_sym(t) and t == '*':
            return True
        if not is_sym(t) and t.startswith('{*}'):
            if split_tag(el._tag)[1] == t[3:]:
                return True
            continue
        if not is_sym(t) and t.startswith('{') and t.endswith('}*'):
            if split_tag(el._tag)[0] == t[1:-2]:
                return True
            continue
        if el._tag == t:
            return True
    return False


class _ElementTree:
    def __init__(self, root): self._root = root
    def getroot(self): return self._root
    def iter(self, *t): return self._root.iter(*t)
    def xpath(self, *a, **k): return self._root.xpath(*a, **k)
    def find(self, *a, **k): return self._root.find(*a, **k)
    def findall(self, *a, **k): return self._root.findall(*a, **k)


def Element(_tag, attrib=None, nsmap=None, **extra):
    e = _Element(_tagname(_tag), nsmap)
    for src in (attrib or {}), extra:
        for k, v in src.items():
            e.set(k, v)
    return e


def SubElement(_parent, _tag, attrib=None, nsmap=None, **extra):
    e = _Element.__new__(_Element)
    e._parent = None
    tag = _tagname(_tag)
    e = _Element.__new__(_Element)
    e._tag, e._text, e._tail, e._attr, e._children, e._ns, e._resolvers = tag, None, None, [], [], dict(nsmap or {}), None
    e._parent = _parent
    ns, _ = split_tag(tag)
    if ns is not None:
        e._need_ns(ns)
    _parent._children.append(e)
    for src in (attrib or {}), extra:
        for k, v in src.items():
            e.set(k, v)
    return e


def ElementTree(element=None, **k): return _ElementTree(element)
def iselement(x): return isinstance(x, _Element)


# ------------------------------------------------------------------ conversion

def tree_symbolic(el):
    stack = [el]
    while stack:
        e = stack.pop()
        if e._kind == 'element':
            if is_sym(e._tag) or any(is_sym(k) or is_sym(v) for k, v in e._attr) or any(is_sym(u) for u in e._ns.values()):
                return True
        if is_sym(e._text) or is_sym(e._tail):
            return True
        stack.extend(e._children)
    return False


def to_real(el):
    if el._kind == 'comment':
        r = R.Comment(el._text)
    elif el._kind == 'pi':
        r = R.ProcessingInstruction(el.target, el._text)
    else:
        r = R.Element(el._tag, nsmap=el._ns or None)
        r.text = el._text
        for k, v in el._attr:
            r.set(k, v)
        for c in el._children:
            r.append(to_real(c))
    r.tail = el._tail
    return r


def from_real(r, parent=None):
    if isinstance(r, R._Comment):
        e = _Comment(Comment, r.text)
    elif isinstance(r, R._ProcessingInstruction):
        e = _ProcessingInstruction(ProcessingInstruction, r.text, r.target)
    elif not isinstance(r.tag, str):
        raise Unsupported('node kind')
    else:
        e = _Element.__new__(_Element)
        pm = parent.nsmap if parent is not None else {}
        e._tag, e._text, e._attr, e._children, e._resolvers = r.tag, r.text, [[k, v] for k, v in r.attrib.items()], [], None
        e._ns = {k: v for k, v in r.nsmap.items() if pm.get(k) != v}
    e._parent = parent
    e._tail = r.tail
    if e._kind == 'element':
        e._children = [from_real(c, e) for c in r]
    return e


def copy_tree(el, parent=None, norm=False):
    if el._kind != 'element':
        e = type(el)(el._tag, el._text, el.target)
        e._tail = el._tail
    else:
        e = _Element.__new__(_Element)
        e._tag, e._text, e._tail = el._tag, el._text, el._tail
        e._attr = [list(p) for p in el._attr]
        e._ns = dict(el._ns) if el._parent is None or parent is not None else el.nsmap
        e._resolvers = el._resolvers
    e._parent = parent
    if norm:
        if not is_sym(e._text) and e._text == '' and e._kind == 'element':
            e._text = None
        if not is_sym(e._tail) and e._tail == '':
            e._tail = None
    e._children = [copy_tree(c, e, norm) for c in el._children]
    return e


def _indent(el, level):
    if el._kind != 'element' or not el._children:
        return
    if (el._text is not None) or any(c._tail is not None for c in el._children):
        return
    el._text = '\n' + '  ' * (level + 1)
    for i, c in enumerate(el._children):
        _indent(c, level + 1)
        c._tail = '\n' + '  ' * (level + 1 if i + 1 < len(el._children) else level)


class SerializedXML:
    """Bytes (or str) produced by tostring() of a tree with symbolic content."""

    def __init__(self, tree, pretty=False, text=False, doc=None, broken=False):
        self.tree, self.pretty, self.text = tree, pretty, text
        self.broken = broken          # character references in names

    @property
    def __class__(self):
        return str if self.text else bytes

    def parse(self):
        if self.broken:
            raise XMLSyntaxError('StartTag: invalid element name', 0, 0, 0)
        t = copy_tree(self.tree, norm=True)
        t._tail = None
        if self.pretty:
            # raw '' text nodes suppress indentation exactly like other text
            raw = copy_tree(self.tree)
            raw._tail = None
            _indent(raw, 0)
            t = copy_tree(raw, norm=True)
        return t

    def decode(self, *a, **k): return SerializedXML(self.tree, self.pretty, True, broken=self.broken)
    def encode(self, *a, **k): return SerializedXML(self.tree, self.pretty, False, broken=self.broken)
    def strip(self, *a): return SerializedXML(self.tree, False, self.text, broken=self.broken) if not self.pretty else self

    def __eq__(self, o):
        if isinstance(o, SerializedXML):
            if self.text != o.text or self.pretty != o.pretty:
                raise Unsupported('comparing differently serialised documents')
            return same_tree(self.tree, o.tree)
        if isinstance(o, (bytes, str)) and not is_sym(o):
            return self.chars() == (o if isinstance(o, str) else o.decode('utf-8', 'replace'))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def __lt__(self, o):
        return self.chars() < (o.chars() if isinstance(o, SerializedXML) else o if isinstance(o, str) else o.decode())

    def __gt__(self, o):
        return self.chars() > (o.chars() if isinstance(o, SerializedXML) else o if isinstance(o, str) else o.decode())

    def __le__(self, o): return not_(self.__gt__(o))
    def __ge__(self, o): return not_(self.__lt__(o))

    def __hash__(self):
        engine.ctx().symhash = True
        return 0x5EED

    def __bool__(self): return True

    def __len__(self):
        return len(self.chars())

    def __contains__(self, x):
        return (x if isinstance(x, str) else x.decode()) in self.chars()

    def chars(self):
        out = []
        t = self.tree
        if self.pretty:
            t = copy_tree(t)
            t._tail = None
            _indent(t, 0)
        _chars(t, out)
        if self.pretty:
            out.append('\n')
        return concat(out)

    def __add__(self, o):
        return self._str() + o

    def __radd__(self, o):
        return o + self._str()

    def _str(self):
        c = self.chars()
        return c if self.text else c.encode()

    def __repr__(self): return '<SerializedXML>'

    @staticmethod
    def join_docs(sep, items):
        if len(items) == 1:
            return items[0]
        raise Unsupported('joining serialised XML')


def _esc(s, attr, out):
    special = {38: '&amp;', 60: '&lt;', 62: '&gt;', 13: '&#13;'}
    if attr:
        special.update({34: '&quot;', 9: '&#9;', 10: '&#10;'})
    for c in cps_of(s):
        if type(c) is int:
            out.append(special.get(c) or (chr(c) if c < 128 else '&#%d;' % c))
            continue
        if not engine.ctx().branch(c < 128):
            raise Unsupported('non-ASCII serialisation')
        for k, v in special.items():
            if engine.ctx().branch(c == k):
                out.append(v)
                break
        else:
            out.append(engine.mkstr((c,)))


def _q(el, name, attr=False):
    ns, local = split_tag(name)
    if ns is None:
        return local
    if not is_sym(ns) and ns == XML_NS:
        return concat(['xml:', local])
    for p, u in el.nsmap.items():
        if u == ns and not (attr and p is None):
            return concat([p, ':', local]) if p else local
    raise Unsupported('namespace prefix')


def _chars(el, out):
    if el._kind != 'element':
        raise Unsupported('serialising comments')
    name = _q(el, el._tag)
    out += ['<', name]
    pm = el._parent.nsmap if el._parent is not None else {}
    for p, u in el._ns.items():
        if pm.get(p) is u or (not is_sym(u) and pm.get(p) == u):
            continue
        out += [' xmlns:%s="' % p if p else ' xmlns="', u, '"']
    for k, v in el._attr:
        out += [' ', _q(el, k, True), '="']
        _esc(v, True, out)
        out.append('"')
    if el._text is None and not el._children:
        out.append('/>')
    else:
        out.append('>')
        if el._text is not None:
            _esc(el._text, False, out)
        for c in el._children:
            _chars(c, out)
            if c._tail is not None:
                _esc(c._tail, False, out)
        out += ['</', name, '>']


def same_tree(a, b):
    if a._kind != b._kind or len(a._children) != len(b._children) or len(a._attr) != len(b._attr):
        return False
    if (a._text is None) != (b._text is None) or (a._tail is None) != (b._tail is None):
        return False
    conds = [a._tag is b._tag or a._tag == b._tag]
    if a._text is not None:
        conds.append(a._text == b._text)
    if a._tail is not None:
        conds.append(a._tail == b._tail)
    for (k, v), (k2, v2) in zip(a._attr, b._attr):
        conds += [k == k2, v == v2]
    for x, y in zip(a._children, b._children):
        conds.append(same_tree(x, y))
    return and_(*conds)


def tostring(el, encoding=None, method='xml', xml_declaration=None, pretty_print=False, with_tail=True, **kw):
    if isinstance(el, _ElementTree):
        el = el.getroot()
    if not isinstance(el, _Element):
        raise TypeError(f"Type '{type(el)}' cannot be serialized.")
    text = encoding is str or (isinstance(encoding, str) and encoding == 'unicode')
    if not tree_symbolic(el):
        r = to_real(el)
        if el._parent is not None:
            holder = R.Element('x', nsmap=el._parent.nsmap)      # declares what the ancestors declare
            holder.append(r)
        if not with_tail:
            r.tail = None
        return R.tostring(r, encoding=encoding, method=method, xml_declaration=xml_declaration, pretty_print=pretty_print)
    if method != 'xml':
        raise Unsupported('tostring method')
    t = copy_tree(el)
    return SerializedXML(t, pretty_print, text, broken=not text and (encoding is None or encoding.upper() in ('ASCII', 'US-ASCII')) and not _ascii_names(t))


def _ascii_names(t):
    names = [n for e in t.iter() if e._kind == 'element' for n in (split_tag(e._tag)[1], *(split_tag(k)[1] for k, _ in e._attr))]
    return all(n.isascii() if not is_sym(n) else all(bool(in_ranges(c, [(0, 127)])) for c in cps_of(n)) for n in names)


# ------------------------------------------------------------------ parsing / validation

class Resolver:
    def resolve(self, url, id_, context): return None
    def resolve_string(self, string, context, *, base_url=None): return ('string', string)
    def resolve_filename(self, filename, context): return ('filename', filename)
    def resolve_empty(self, context): return ('empty', None)


class _Resolvers:
    def __init__(self): self.items = []
    def add(self, r): self.items.append(r)


class XMLParser:
    def __init__(self, schema=None, **kw):
        self.schema = schema
        self.kw = kw
        self.resolvers = _Resolvers()


ETCompatXMLParser = XMLParser


_HOLE = 0x4E00          # symbolic characters travel through the real parser as these (legal anywhere a name or text may be)
_HOLES = 4000


def _parse_symbolic(text):
    """Parse concrete markup with symbolic characters in it: the path forks on each of them being special to XML."""
    if isinstance(text, SymBytes):
        text = text.s
    cps = text.cps
    out, holes = [], []
    state, quote = 'text', None      # text | tag | attr | other
    for i, c in enumerate(cps):
        if type(c) is not int:
            if not in_ranges(c, XML_CHAR):
                raise XMLSyntaxError('illegal character', 0, 0, 0)
            special = {'text': [0xD, 0x26, 0x3C], 'attr': [0x9, 0xA, 0xD, 0x26, 0x3C, ord(quote or '"')]}.get(state)
            if special is None:
                c = engine.ctx().concretize(c, 24)
            elif in_ranges(c, sorted((x, x) for x in special)):
                for x in special[:-1]:
                    if engine.cp_eq(c, x):
                        c = x
                        break
                else:
                    c = special[-1]
            elif state == 'text' and i > 1 and engine.and_(cp_eq(cps[i - 2], 93), cp_eq(cps[i - 1], 93), cp_eq(c, 62)):
                raise XMLSyntaxError("Sequence ']]>' not allowed in content", 0, 0, 0)
        if type(c) is not int:
            out.append(chr(_HOLE + len(holes)))
            holes.append(c)
            continue
        ch = chr(c)
        if _HOLE <= c < _HOLE + _HOLES:
            raise Unsupported('character used as placeholder')
        out.append(ch)
        if state == 'text' and ch == '<':
            state = 'tag'
        elif state == 'tag':
            if ch in '!?' and len(out) > 1 and out[-2] == '<':
                state = 'other'
            elif ch in '"\'':
                state, quote = 'attr', ch
            elif ch == '>':
                state = 'text'
        elif state == 'attr' and ch == quote:
            state = 'tag'
        elif state == 'other' and ch == '>':
            t = ''.join(out)
            t = t[max(t.rfind('<!--'), t.rfind('<!['), t.rfind('<?')):]
            if t.endswith('-->' if t.startswith('<!--') else ']]>' if t.startswith('<![') else '>'):
                state = 'text'
    if len(holes) >= _HOLES:
        raise Unsupported('too many symbolic characters')
    t = from_real(R.fromstring(''.join(out).encode()))

    def fill(s):
        if s is None or not any(_HOLE <= ord(x) < _HOLE + len(holes) for x in s):
            return s
        return mkstr([holes[ord(x) - _HOLE] if _HOLE <= ord(x) < _HOLE + len(holes) else ord(x) for x in s])
    stack = [t]
    while stack:
        e = stack.pop()
        e._text, e._tail = fill(e._text), fill(e._tail)
        if e._kind == 'element':
            if e._tag != (fill(e._tag)) or any(k != fill(k) for k, _ in e._attr) or any(u != fill(u) for u in e._ns.values()):
                raise Unsupported('symbolic character in markup')
            for a in e._attr:
                a[1] = fill(a[1])
            stack.extend(e._children)
    return t


def fromstring(text, parser=None, base_url=None):
    if isinstance(text, SerializedXML):
        t = text.parse()
    elif is_sym(text):
        t = _parse_symbolic(text)
    else:
        kw = {k: v for k, v in (parser.kw if parser is not None else {}).items()}
        t = from_real(R.fromstring(text, R.XMLParser(**kw)) if kw else R.fromstring(text))
    if parser is not None:
        t._resolvers = parser.resolvers
        if parser.schema is not None and not parser.schema.validate(t):
            raise XMLSyntaxError('schema validation failed', 0, 0, 0)
    return t


XML = fromstring


def parse(source, parser=None, base_url=None):
    if hasattr(source, 'read'):
        return _ElementTree(fromstring(source.read(), parser))
    t = R.parse(source)
    root = from_real(t.getroot())
    return _ElementTree(root)


_compiled = {}


class _RealResolver(R.Resolver):
    def __init__(self, resolvers):
        super().__init__()
        self.rs = resolvers

    def resolve(self, url, id_, context):
        for r in self.rs.items:
            kind = r.resolve(url, id_, context)
            if kind is None:
                continue
            what, val = kind
            if what == 'string':
                if isinstance(val, SerializedXML):
                    raise Unsupported('symbolic imported schema')
                return self.resolve_string(val, context)
            if what == 'filename':
                return self.resolve_filename(val, context)
            return self.resolve_empty(context)
        return None


class XMLSchema:
    VALIDATOR = None          # set by setup: mini validator for symbolic documents

    def __init__(self, etree=None, *, file=None, attribute_defaults=False):
        if isinstance(etree, _ElementTree):
            etree = etree.getroot()
        if file is not None:
            etree = from_real(R.parse(file).getroot())
        self.tree = etree
        self.resolvers = etree._resolvers
        self.symbolic = tree_symbolic(etree)
        self.error_log = ()
        self._real = None
        if not self.symbolic:
            xml = R.tostring(to_real(etree))
            if self.resolvers is not None and self.resolvers.items:
                p = R.XMLParser(load_dtd=True)
                p.resolvers.add(_RealResolver(self.resolvers))
                self._real = R.XMLSchema(R.fromstring(xml, p))
            else:
                hit = _compiled.get(xml)
                if hit is None:
                    hit = _compiled[xml] = R.XMLSchema(R.fromstring(xml))
                self._real = hit

    def imported(self, location):
        """tree of an imported/included schema document"""
        if self.resolvers is None:
            return None
        for r in self.resolvers.items:
            what, val = r.resolve(location, None, None)
            return fromstring(val)
        return None

    def validate(self, doc):
        if isinstance(doc, _ElementTree):
            doc = doc.getroot()
        if self._real is not None and not tree_symbolic(doc):
            return self._real.validate(to_real(doc))
        if XMLSchema.VALIDATOR is None:
            raise Unsupported('schema validation of a symbolic document')
        return bool(XMLSchema.VALIDATOR(self, doc))

    __call__ = validate

    def assertValid(self, doc):
        if not self.validate(doc):
            raise DocumentInvalid('document is not valid')

    def assert_(self, doc):
        if not self.validate(doc):
            raise AssertionError('document is not valid')


def make_module():
    m = types.ModuleType('lxml.etree')
    for k, v in globals().items():
        if k[0] != '_' and k not in ('R', 'engine', 'rt', 'real_re', 'types', 'make_module', 'Sym'):
            setattr(m, k, v)
    for k in ('_Element', '_Comment', '_ProcessingInstruction', '_ElementTree', '_Attrib'):
        setattr(m, k, globals()[k])
    pkg = types.ModuleType('lxml')
    pkg.etree = m
    pkg.__path__ = []
    return pkg, m

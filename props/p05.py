"""The XML written for an object has the declared layout: order, names, namespaces, cardinality, nil markers."""
import sx
from lxml import etree
from soapfish import xsd

BOUNDS = ('objects of eight shapes with up to 8 fields declared in non-alphabetic order, inherited fields, groups in between, lists of 0..4 items with symbolic '
          'minOccurs and maxOccurs, fields present, absent or nil, texts of one symbolic character, with and without pretty printing; no namespace, unqualified and qualified')
OUTSIDE = 'prefix choice, XML declaration, choice content'

XSI = 'http://www.w3.org/2001/XMLSchema-instance'
MODES = {'plain': {}, 'unqualified': {'namespace': 'urn:x'}, 'qualified': {'namespace': 'urn:x', 'elementFormDefault': xsd.ElementFormDefault.QUALIFIED}}


def doc(obj, mode, **k):
    return etree.fromstring(obj.xml('obj', **MODES[mode], **k))


def q(mode, name):
    return '{urn:x}' + name if mode == 'qualified' else name


def layout(label, el, *want):
    """want: (tag, text | None for nil) in document order"""
    got = [(c.tag, c) for c in el]
    sx.check(sx.truth([t for t, _ in got] == [t for t, _ in want]), label + ': elements, in declaration order')
    for (_, c), (t, text) in zip(got, want):
        if text is xsd.NIL:
            sx.check(sx.truth(c.get('{%s}nil' % XSI) == 'true' and len(c) == 0 and not c.text), label + ': nil marker of ' + t)
        elif text is not Ellipsis:
            sx.check(sx.truth(c.get('{%s}nil' % XSI) is None), label + ': no nil marker')
            sx.check(c.text == text, label + ': text of ' + t)


def maybe(name, value):
    return value() if sx.flag('has_' + name) else None


def ch(name):
    return sx.str(name, 1, 1, 'alpha')


@sx.case(params=[{'mode': m} for m in MODES])
def order(mode):
    class T(xsd.ComplexType):
        zeta = xsd.Element(xsd.String)
        att = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)
        beta = xsd.Element(xsd.String, minOccurs=0)
        many = xsd.ListElement(xsd.String, 'one')
        alpha = xsd.Element(xsd.Boolean)
        last = xsd.Attribute(xsd.Boolean, tagname='is-last', use=xsd.Use.OPTIONAL)
        a1 = xsd.Element(xsd.String, tagname='Renamed')
    o = T(zeta=ch('z'), alpha=sx.bool('al'), a1=ch('a1'))
    o.beta = maybe('b', lambda: ch('b'))
    o.att = maybe('att', lambda: ch('att'))
    o.last = maybe('last', lambda: sx.bool('last'))
    for i in range(sx.choice('n', [0, 1, 3])):
        o.many.append(ch('m%d' % i))
    el = doc(o, mode, pretty_print=sx.flag('pretty'))
    sx.check(sx.truth(el.tag == ('obj' if mode == 'plain' else '{urn:x}obj')), 'name of the root')
    want = [(q(mode, 'zeta'), o.zeta)]
    if o.beta is not None:
        want.append((q(mode, 'beta'), o.beta))
    want += [(q(mode, 'one'), m) for m in o.many]
    want += [(q(mode, 'alpha'), 'true' if sx.truth(o.alpha) else 'false'), (q(mode, 'Renamed'), o.a1)]
    layout('order', el, *want)
    atts = {}
    if o.att is not None:
        atts['att'] = o.att
    if o.last is not None:
        atts['is-last'] = 'true' if sx.truth(o.last) else 'false'
    sx.check(sx.truth(sorted(el.keys()) == sorted(atts)), 'attributes that have a value, without namespace')
    for k in atts:
        sx.check(el.get(k) == atts[k], 'value of an attribute')
    sx.observe('keys', [c.tag for c in el])


@sx.case(params=[{'mode': m} for m in MODES])
def nested_namespaces(mode):
    class Inner(xsd.ComplexType):
        v = xsd.Element(xsd.String)
        w = xsd.Element(xsd.String, namespace='urn:w')

    class Outer(xsd.ComplexType):
        b = xsd.Element(Inner)
        a = xsd.Element(Inner, namespace='urn:a')
        l = xsd.ListElement(Inner, 'i')
        m = xsd.ListElement(xsd.String, 'j', namespace='urn:m')
        none = xsd.ListElement(Inner, 'k', namespace='')
        bare = xsd.Element(Inner, namespace='')
    o = Outer(b=Inner(v=ch('bv'), w=ch('bw')), a=Inner(v=ch('av')), bare=Inner(v=ch('bare')))
    o.none.append(Inner(v=ch('none'), w=ch('nonew')))
    for i in range(sx.choice('l', [0, 2])):
        o.l.append(Inner(v=ch('l%d' % i)))
    o.m.append(ch('m'))
    el = doc(o, mode)
    ql = mode == 'qualified'
    layout('outer', el, (q(mode, 'b'), ...), ('{urn:a}a' if ql else 'a', ...), *[(q(mode, 'i'), ...)] * len(o.l), ('{urn:m}j' if ql else 'j', o.m[0]), ('k', ...), ('bare', ...))
    layout('item without namespace', el[-2], ('v', o.none[0].v), ('{urn:w}w' if ql else 'w', o.none[0].w))
    layout('inner without namespace', el[-1], ('v', o.bare.v))
    layout('inner', el[0], (q(mode, 'v'), o.b.v), ('{urn:w}w' if ql else 'w', o.b.w))
    layout('inner of a', el[1], ('{urn:a}v' if ql else 'v', o.a.v))
    for i, x in enumerate(o.l):
        layout('item', el[2 + i], (q(mode, 'v'), x.v))


@sx.case(params=[{'form': f} for f in ('qualified', 'unqualified')])
def schema_namespace(form):
    """types of a schema write their elements in the namespace of the schema"""
    class Inner(xsd.ComplexType):
        v = xsd.Element(xsd.String)

    class Outer(xsd.ComplexType):
        inner = xsd.Element(Inner)
        s = xsd.Element(xsd.String)
        l = xsd.ListElement(Inner, 'item')
    S = xsd.Schema('urn:s', elementFormDefault=form, complexTypes=[Inner, Outer], elements={'outer': xsd.Element(Outer)})
    o = Outer(inner=Inner(v=ch('v')), s=ch('s'))
    o.l.append(Inner(v=ch('l')))
    el = etree.fromstring(o.xml('outer', namespace=S.targetNamespace, elementFormDefault=S.elementFormDefault))
    p = '{urn:s}' if form == 'qualified' else ''
    sx.check(sx.truth(el.tag == '{urn:s}outer'), 'root element')
    layout('outer', el, (p + 'inner', ...), (p + 's', o.s), (p + 'item', ...))
    layout('inner', el[0], (p + 'v', o.inner.v))
    layout('item', el[2], (p + 'v', o.l[0].v))
    sx.check(sx.truth(S.elements['outer'].namespace == 'urn:s'), 'elements of the schema are in its namespace')


@sx.case(params=[{'mode': m} for m in MODES])
def inherited(mode):
    """inherited fields come first, groups where they are declared"""
    class G(xsd.Group):
        g2 = xsd.Element(xsd.String)
        g1 = xsd.Element(xsd.String, minOccurs=0)

    class Base(xsd.ComplexType):
        y = xsd.Element(xsd.String)
        x = xsd.Element(xsd.String)

    class Derived(Base):
        INHERITANCE = xsd.Inheritance.EXTENSION
        c = xsd.Element(xsd.String)
        g = xsd.Ref(G)
        b = xsd.Element(xsd.String)
    o = Derived(y=ch('y'), x=ch('x'), c=ch('c'), b=ch('b'))
    o.g.g2 = ch('g2')
    o.g.g1 = maybe('g1', lambda: ch('g1'))
    el = doc(o, mode)
    want = [('y', o.y), ('x', o.x), ('c', o.c), ('g2', o.g.g2)] + ([('g1', o.g.g1)] if o.g.g1 is not None else []) + [('b', o.b)]
    layout('inherited', el, *[(q(mode, t), v) for t, v in want])


@sx.case(params=[{'mode': m} for m in MODES], reach=['written', 'refused'])
def occurrences(mode):
    """a list with fewer or more items than declared is not written"""
    class T(xsd.ComplexType):
        pass
    lo, hi = sx.int('lo', 0, 4), sx.int('hi', 1, 4)
    if sx.flag('nolo'):
        lo = None
    if sx.flag('nohi'):
        hi = None

    class T(xsd.ComplexType):  # noqa: F811
        s = xsd.Element(xsd.String, minOccurs=0)
        l = xsd.ListElement(xsd.String, 'i', minOccurs=lo, maxOccurs=hi)
    o = T()
    n = sx.choice('n', range(5))
    items = [ch('i%d' % i) for i in range(n)]
    o.l.extend(items)
    r = sx.outcome(doc, o, mode)
    ok = sx.and_(True if lo is None else n >= lo, True if hi is None else n <= hi)
    if sx.truth(ok):
        sx.check(r.ok, 'list within its bounds is written')
        layout('list', r.value, *[(q(mode, 'i'), x) for x in items])
        sx.reach('written')
    else:
        sx.check(r.raised(ValueError), 'list beyond its bounds is refused')
        sx.reach('refused')


@sx.case(params=[{'mode': m} for m in MODES])
def nil_layout(mode):
    class Sub(xsd.ComplexType):
        x = xsd.Element(xsd.String)

    class T(xsd.ComplexType):
        s = xsd.Element(xsd.String, nillable=True)
        sub = xsd.Element(Sub, nillable=True)
        n = xsd.Element(xsd.Integer, nillable=True, minOccurs=0)
        l = xsd.ListElement(xsd.String, 'i', nillable=True)
    o = T()
    vals = {}
    for f, v in (('s', lambda: ch('s')), ('n', lambda: sx.int('n', 0, 9)), ('sub', lambda: Sub(x=ch('x')))):
        how = sx.choice('how_' + f, ['absent', 'nil', 'value'])
        vals[f] = None if how == 'absent' else xsd.NIL if how == 'nil' else v()
        setattr(o, f, vals[f])
    for i in range(2):
        o.l.append(xsd.NIL if sx.flag('nil%d' % i) else ch('l%d' % i))
    el = doc(o, mode)
    want = []
    if vals['s'] is not None:
        want.append((q(mode, 's'), vals['s']))
    if vals['sub'] is not None:
        want.append((q(mode, 'sub'), xsd.NIL if vals['sub'] is xsd.NIL else ...))
    if vals['n'] is not None:
        want.append((q(mode, 'n'), xsd.NIL if vals['n'] is xsd.NIL else str(vals['n'])))
    want += [(q(mode, 'i'), x) for x in o.l]
    layout('nils', el, *want)


@sx.case(params=[{'mode': m} for m in MODES], reach=['refused', 'written'])
def required_attributes(mode):
    class Inner(xsd.ComplexType):
        r = xsd.Attribute(xsd.String)
        e = xsd.Element(xsd.String)

    class T(xsd.ComplexType):
        a = xsd.Attribute(xsd.String)
        b = xsd.Attribute(xsd.Integer, use=xsd.Use.OPTIONAL)
        d = xsd.Attribute(xsd.String, default='dd')
        inner = xsd.Element(Inner, minOccurs=0)
        l = xsd.ListElement(Inner, 'i')
    o = T()
    o.a = maybe('a', lambda: ch('a'))
    o.b = maybe('b', lambda: sx.int('b', 0, 9))
    where = sx.choice('where', ['none', 'inner', 'list'])
    i = Inner(e=ch('e'))
    i.r = maybe('r', lambda: ch('r'))
    if where == 'inner':
        o.inner = i
    if where == 'list':
        o.l.append(i)
    r = sx.outcome(doc, o, mode)
    if o.a is None or (where != 'none' and i.r is None):
        sx.check(r.raised(ValueError), 'an object without a required attribute is not written')
        sx.reach('refused')
    else:
        sx.check(r.ok, 'an object with its required attributes is written')
        want = ['a', 'd'] + (['b'] if o.b is not None else [])
        sx.check(sx.truth(sorted(r.value.keys()) == sorted(want)), 'attributes of the object')
        sx.check(sx.and_(r.value.get('a') == o.a, r.value.get('d') == 'dd'), 'attribute values')
        sx.reach('written')


@sx.case()
def nil_attribute():
    class T(xsd.ComplexType):
        a = xsd.Attribute(xsd.String)
        b = xsd.Attribute(xsd.String, nillable=True)
    o = T(a=ch('a'))
    r = sx.outcome(setattr, o, 'a', xsd.NIL)
    sx.check(r.raised(ValueError), 'no nil for an attribute that is not nillable')
    sx.check(sx.outcome(doc, o, 'plain').raised(ValueError), 'required attribute b is missing')


@sx.case(params=[{'ns': n} for n in (None, 'urn:doc')])
def documents(ns):
    class Root(xsd.ComplexType):
        s = xsd.Element(xsd.String)

    class Doc(xsd.Document):
        NAMESPACE = ns
        root = xsd.Element(Root)
    d = Doc(root=Root(s=ch('s')))
    el = etree.fromstring(d.render())
    sx.check(sx.truth(el.tag == 'root'), 'root element is named after the field')
    layout('document', el, ('s', d.root.s))


@sx.case(params=[{'form': f} for f in ('qualified', 'unqualified')])
def class_named(form):
    class Text(xsd.ComplexType):
        v = xsd.Element(xsd.String)

    class Num(xsd.ComplexType):
        n = xsd.Element(xsd.Integer)
    xsd.Schema('urn:c', elementFormDefault=form, complexTypes=[Text, Num])

    class Body(xsd.ComplexType):
        content = xsd.ClassNamedElement(xsd.NamedType)
    b = Body()
    val = Text(v=ch('v')) if sx.flag('text') else Num(n=sx.int('n', 0, 9))
    b.content = xsd.NamedType(name='given', value=val)
    Body.content._evaluate_type()
    el = etree.fromstring(b.xml('body'))
    sx.check(sx.truth(len(el) == 1 and el[0].tag == '{urn:c}given'), 'named by its value, in the namespace of its schema')
    f = 'v' if isinstance(val, Text) else 'n'
    layout('content', el[0], (('{urn:c}' if form == 'qualified' else '') + f, val.v if f == 'v' else str(val.n)))


@sx.case()
def rendering_leaves_object_alone():
    class Sub(xsd.ComplexType):
        x = xsd.Element(xsd.String)

    class T(xsd.ComplexType):
        s = xsd.Element(xsd.String)
        l = xsd.ListElement(Sub, 'i')
        a = xsd.Attribute(xsd.Integer)
    s, x, n = ch('s'), ch('x'), sx.int('n', 0, 9)
    o = T(s=s, a=n)
    sub = Sub(x=x)
    o.l.append(sub)
    one = o.xml('t')
    two = o.xml('t')
    sx.check(sx.truth(one == two), 'writing twice gives the same document')
    sx.check(sx.truth(len(o.l) == 1 and o.l[0] is sub), 'list untouched')
    sx.check(sx.and_(o.s == s, o.a == n, sub.x == x), 'values untouched')

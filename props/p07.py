"""Objects share no state: what happens to one is not seen in another."""
import sx
from lxml import etree
from soapfish import soap11, soap12, wsa, wsdl11, wsdl12, xsd, xsdspec

BOUNDS = ('three objects of one class (and of its base class), every history of 3 operations out of 9 (set, clear, append to two lists, set and append within a group, '
          'write, read back, new object), each on any of the objects, symbolic values; library types: lists of every field that has one')
OUTSIDE = 'objects put into two places on purpose, longer histories, threads'


def ch(name):
    return sx.str(name, 1, 1, 'alpha')


def make():
    class G(xsd.Group):
        gs = xsd.Element(xsd.String)
        gl = xsd.ListElement(xsd.String, 'g')

    class Base(xsd.ComplexType):
        s = xsd.Element(xsd.String, default='dflt')
        l = xsd.ListElement(xsd.String, 'i')

    class T(Base):
        m = xsd.ListElement(xsd.Integer, 'j')
        a = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)
        g = xsd.Ref(G)
    return Base, T


def state(o):
    out = {'s': o.s, 'l': list(o.l)}
    if hasattr(o, 'm'):
        out.update(m=list(o.m), a=o.a, gs=o.g.gs, gl=list(o.g.gl))
    return out


def agree(label, got, want):
    sx.check(sx.truth(set(got) == set(want)), label)
    for k, w in want.items():
        g = got[k]
        if isinstance(w, list):
            sx.check(len(g) == len(w), label + ': length of ' + k)
            for x, y in zip(g, w):
                sx.check(x == y, label + ': item of ' + k)
        elif w is None or g is None:
            sx.check(sx.truth(g is None and w is None), label + ': ' + k)
        else:
            sx.check(g == w, label + ': ' + k)


OPS = ('set', 'clear', 'append', 'appendm', 'setg', 'appendg', 'attr', 'reread', 'new')


@sx.case(params=[{'first': op} for op in OPS])
def histories(first):
    Base, T = make()
    objs = [T(), T(), Base()]
    want = [state(o) for o in objs]
    agree('fresh', want[0], {'s': 'dflt', 'l': [], 'm': [], 'a': None, 'gs': None, 'gl': []})
    for step in range(3 if sx.tier() == 'thorough' else 2):
        op = first if step == 0 else sx.choice('op%d' % step, OPS)
        i = sx.choice('o%d' % step, [0, 1, 2] if op in ('set', 'clear', 'append', 'new', 'reread') else [0, 1])
        o, w = objs[i], want[i]
        v = 'vwx'[step]
        if op in ('set', 'append', 'setg', 'attr'):
            v = ch('v%d' % step)
        if op == 'set':
            o.s = v
            w['s'] = v
        elif op == 'clear':
            o.s = None
            w['s'] = None
        elif op == 'append':
            o.l.append(v)
            w['l'].append(v)
        elif op == 'appendm':
            n = sx.int('n%d' % step, 0, 9)
            o.m.append(n)
            w['m'].append(n)
        elif op == 'setg':
            o.g.gs = v
            w['gs'] = v
        elif op == 'appendg':
            o.g.gl.append(v)
            w['gl'].append(v)
        elif op == 'attr':
            o.a = v
            w['a'] = v
        elif op == 'reread':
            objs[i] = type(o).parsexml(o.xml('t'))
            if w['s'] is None:
                w['s'] = 'dflt'
        else:
            objs[i] = type(o)()
            want[i] = {'s': 'dflt', 'l': []} if i == 2 else {'s': 'dflt', 'l': [], 'm': [], 'a': None, 'gs': None, 'gl': []}
        for o, w in zip(objs, want):
            agree('after ' + op, state(o), w)
    agree('new object', state(T()), {'s': 'dflt', 'l': [], 'm': [], 'a': None, 'gs': None, 'gl': []})


@sx.case()
def reading_twice():
    """two objects read from one document, or one element, are two objects"""
    Base, T = make()
    s, x, g = ch('s'), ch('x'), ch('g')
    root = etree.Element('t')
    for tag, v in (('s', s), ('i', x), ('g', g)):
        etree.SubElement(root, tag).text = v
    text = etree.tostring(root)
    if sx.flag('element'):
        a, b = T.parse_xmlelement(root), T.parse_xmlelement(root)
    else:
        a, b = T.parsexml(text), T.parsexml(text)
    sx.check(sx.truth(a is not b and a.l is not b.l and a.g is not b.g and a.g.gl is not b.g.gl), 'two objects')
    a.l.append('more')
    a.g.gl.append('more')
    a.g.gs = 'other'
    a.s = 'changed'
    agree('other reading', state(b), {'s': s, 'l': [x], 'm': [], 'a': None, 'gs': None, 'gl': [g]})
    agree('third reading', state(T.parsexml(text)), {'s': s, 'l': [x], 'm': [], 'a': None, 'gs': None, 'gl': [g]})


@sx.case(params=[{'by': b, 'inherited': i} for b in ('class', 'instance', 'one instance') for i in (False, True)])
def first_objects(by, inherited):
    """the very first objects of classes have groups and lists of their own, also where classes share a declaration"""
    class G(xsd.Group):
        gs = xsd.Element(xsd.String)
        gl = xsd.ListElement(xsd.String, 'g')
    one = G()
    make_ref = {'class': lambda: xsd.Ref(G), 'instance': lambda: xsd.Ref(G()), 'one instance': lambda: xsd.Ref(one)}[by]

    class A(xsd.ComplexType):
        r = make_ref()
        l = xsd.ListElement(xsd.String, 'i')
    if inherited:
        class B(A):
            x = xsd.Element(xsd.String)
    else:
        class B(xsd.ComplexType):
            r = A.r if sx.flag('same reference') else make_ref()
            l = A.l
    kinds = [A, B, A, B]
    if sx.flag('derived first'):
        kinds.reverse()
    objs = [k() for k in kinds]
    i = sx.choice('changed', range(4))
    v = ch('v')
    how = sx.choice('how', ['set', 'append', 'list'])
    if how == 'set':
        objs[i].r.gs = v
    elif how == 'append':
        objs[i].r.gl.append(v)
    else:
        objs[i].l.append(v)
    objs += [A(), B()]
    for k, o in enumerate(objs):
        mine = k == i
        sx.check(sx.truth((o.r.gs is not None) == (mine and how == 'set')), 'text of the group')
        sx.check(sx.truth(len(o.r.gl) == (1 if mine and how == 'append' else 0)), 'list of the group')
        sx.check(sx.truth(len(o.l) == (1 if mine and how == 'list' else 0)), 'list')
    sx.check(sx.truth(one.gs is None and len(one.gl) == 0), 'the declaration')


@sx.case()
def attribute_defaults():
    """defaults stay what they are, whatever was read or set before"""
    class T(xsd.ComplexType):
        a = xsd.Attribute(xsd.String, default='da', use=xsd.Use.OPTIONAL)
        n = xsd.Attribute(xsd.Integer, default=7, use=xsd.Use.OPTIONAL)
        e = xsd.Element(xsd.String, default='de', minOccurs=0)

    class U(T):
        x = xsd.Element(xsd.String)
    docs = []
    for i in range(3):
        root = etree.Element('t')
        want = ['da', 7, 'de']
        if sx.flag('a%d' % i):
            want[0] = ch('va%d' % i)
            root.set('a', want[0])
        if sx.flag('n%d' % i):
            want[1] = sx.int('vn%d' % i, 10, 99)
            root.set('n', str(want[1]))
        if sx.flag('e%d' % i):
            want[2] = ch('ve%d' % i)
            etree.SubElement(root, 'e').text = want[2]
        cls = (T, U, T)[i]
        docs.append((cls.parse_xmlelement(root), want))
        new = cls()
        sx.check(sx.truth(new.a == 'da' and new.n == 7 and new.e == 'de'), 'defaults of a new object')
    for o, want in docs:
        sx.check(sx.and_(o.a == want[0], o.n == want[1], o.e == want[2]), 'values or defaults of the document')


@sx.case()
def nested_lists():
    class Item(xsd.ComplexType):
        l = xsd.ListElement(xsd.String, 'x')

    class Box(xsd.ComplexType):
        items = xsd.ListElement(Item, 'item')
        one = xsd.Element(Item)
    a, b = Box(), Box()
    a.items.append(Item())
    a.items.append(Item())
    b.items.append(Item())
    a.one = Item()
    v = ch('v')
    k = sx.choice('k', [0, 1])
    a.items[k].l.append(v)
    sx.check(sx.truth(len(a.items[k].l) == 1 and len(a.items[1 - k].l) == 0 and len(b.items[0].l) == 0 and len(a.one.l) == 0), 'one list changed')
    a.one.l.append(v)
    sx.check(sx.truth(len(Item().l) == 0 and len(a.items[k].l) == 1 and b.one is None and len(Box().items) == 0), 'other objects untouched')


@sx.case()
def shared_type_instance():
    """one type instance used for several fields and classes"""
    t = xsd.String(maxLength=2)
    limit = sx.int('n', 0, 3)
    u = xsd.String(maxLength=limit)

    class A(xsd.ComplexType):
        f = xsd.Element(t)
        g = xsd.Element(t)
        l = xsd.ListElement(t, 'l')

    class B(xsd.ComplexType):
        f = xsd.Element(u)
    a, b = A(), B()
    v = sx.str('v', 0, 3, 'alpha')
    sx.check(sx.truth(sx.outcome(setattr, a, 'f', v).ok == (len(v) <= 2)), 'restriction of the first type')
    sx.check(sx.truth(sx.outcome(setattr, b, 'f', v).ok == sx.truth(len(v) <= limit)), 'restriction of the second type')
    sx.check(sx.truth(a.g is None and len(a.l) == 0), 'other fields with the same type')
    sx.check(sx.truth(xsd.String().accept('long text') == 'long text'), 'the plain type has no restriction')
    lo = sx.int('lo', -5, 5)
    i = xsd.Integer(minInclusive=lo)
    w = sx.int('w', -9, 9)
    sx.check(sx.truth(sx.outcome(i.accept, w).ok == sx.truth(w >= lo)), 'restricted integer')
    sx.check(sx.outcome(xsd.Integer().accept, w).ok, 'the plain integer has no restriction')
    sx.check(sx.outcome(xsd.Int().accept, w).ok, 'the plain int has no restriction')


LIBRARY = [(xsdspec, n) for n in ('Schema', 'Sequence', 'Restriction', 'Element', 'SimpleType', 'XSDComplexType', 'Extension', 'AttributeGroup', 'Group')]
LIBRARY += [(v, n) for v in (wsdl11, wsdl12) for n in ('Definitions', 'Types', 'Binding', 'PortType', 'Service', 'Port', 'Operation', 'Message', 'Input', 'Output')]
LIBRARY += [(v, n) for v in (soap11, soap12) for n in ('Envelope', 'Body', 'Header', 'Fault')] + [(wsa, 'Header')]


@sx.case(params=[{'i': i} for i in range(len(LIBRARY))])
def library_types(i):
    T = getattr(*LIBRARY[i])
    a, b = T(), T()
    lists = [f._name for f in T._meta.all if isinstance(getattr(a, f._name), list)]
    for f in lists:
        list.append(getattr(a, f), 'x')
    c = T()
    for f in lists:
        sx.check(sx.truth(len(getattr(a, f)) == 1 and len(getattr(b, f)) == 0 and len(getattr(c, f)) == 0), 'lists of different objects')

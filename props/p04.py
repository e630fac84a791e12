"""An object written to XML and read back is the same object."""
import sx
from lxml import etree
from soapfish import xsd

BOUNDS = ('objects of eleven shapes (attributes, elements, lists, nested objects, groups, attribute groups, inheritance, tag names, nillable fields, documents) nested to '
          'depth 3, lists of 0..3 items, each field present, absent or nil; texts of 1..2 symbolic characters, symbolic integers, booleans and decimals; '
          'no namespace, unqualified and qualified')
OUTSIDE = 'fields read back with a default, empty strings, choice content, references to types that are no groups, instances of subclasses in fields of the base type'

MODES = {'plain': {}, 'unqualified': {'namespace': 'urn:x'}, 'qualified': {'namespace': 'urn:x', 'elementFormDefault': xsd.ElementFormDefault.QUALIFIED}}


def again(obj, mode='plain', tag='obj'):
    return type(obj).parsexml(obj.xml(tag, **MODES[mode]))


def same(label, a, b, *names):
    for n in names:
        x, y = getattr(a, n), getattr(b, n)
        if isinstance(x, list):
            sx.check(len(x) == len(y), label + ': as many items in ' + n)
            for p, q in zip(x, y):
                sx.check(p == q, label + ': item of ' + n)
        elif x is None:
            sx.check(sx.truth(y is None), label + ': absent ' + n + ' stays absent')
        elif x is xsd.NIL:
            sx.check(sx.truth(y is xsd.NIL), label + ': nil ' + n + ' stays nil')
        else:
            sx.check(sx.truth(y is not None and y is not xsd.NIL), label + ': ' + n + ' is there')
            sx.check(x == y, label + ': value of ' + n)


def maybe(name, value):
    return value() if sx.flag('has_' + name) else None


def simple():
    class Simple(xsd.ComplexType):
        s = xsd.Element(xsd.String)
        number = xsd.Element(xsd.Integer, minOccurs=0)
        b = xsd.Element(xsd.Boolean(), minOccurs=0)
        a = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)
        req = xsd.Attribute(xsd.Int)
    return Simple


@sx.case(params=[{'mode': m} for m in MODES])
def flat(mode):
    T = simple()
    o = T(req=sx.int('req', -99, 99))
    o.s = maybe('s', lambda: sx.str('s', 1, 2))
    o.number = maybe('n', lambda: sx.int('n', -99, 99))
    o.b = maybe('b', lambda: sx.bool('b'))
    o.a = maybe('a', lambda: sx.str('a', 0, 1))
    p = again(o, mode)
    sx.check(sx.truth(type(p) is T), 'type of the object')
    same('flat', o, p, 's', 'number', 'b', 'a', 'req')
    sx.observe('p', [p.s, p.number, p.b, p.a, p.req])


@sx.case(params=[{'mode': m} for m in MODES])
def two_strings(mode):
    """neighbouring fields of one type are not mixed up"""
    class T(xsd.ComplexType):
        zulu = xsd.Element(xsd.String)
        alpha = xsd.Element(xsd.String)
        z = xsd.Attribute(xsd.String)
        a = xsd.Attribute(xsd.String)
    o = T(zulu=sx.str('zulu', 1, 2, 'alpha'), alpha=sx.str('alpha', 1, 2, 'alpha'), z=sx.str('z', 1, 1, 'alpha'), a=sx.str('a', 1, 1, 'alpha'))
    p = again(o, mode)
    same('two', o, p, 'zulu', 'alpha', 'z', 'a')


@sx.case(params=[{'mode': m} for m in MODES])
def lists(mode):
    class T(xsd.ComplexType):
        words = xsd.ListElement(xsd.String, 'word')
        numbers = xsd.ListElement(xsd.Integer, tagname='number', minOccurs=0, maxOccurs=3)
        other = xsd.Element(xsd.String, minOccurs=0)
    o = T()
    for i in range(sx.choice('words', [0, 1, 2, 3])):
        o.words.append(sx.str('w%d' % i, 1, 1, 'alpha'))
    for i in range(sx.choice('numbers', [0, 1, 3])):
        o.numbers.append(sx.int('n%d' % i, -9, 9))
    o.other = maybe('other', lambda: sx.str('o', 1, 1, 'alpha'))
    empty = len(o.words) and sx.flag('empty')
    if empty:
        o.words.append('')
        o.words.append('last')
    p = again(o, mode)
    if empty:
        sx.check(len(p.words) == len(o.words), 'lists: empty items count')
        sx.check(sx.truth(p.words[-1] == 'last' and not p.words[-2]), 'lists: empty items stay in place')
        for q in (o, p):
            del q.words[-2:]
    same('lists', o, p, 'words', 'numbers', 'other')
    sx.observe('p', [list(p.words), list(p.numbers), p.other])


@sx.case(params=[{'mode': m, 'how': h} for m in MODES for h in ('class', 'instance', 'name')])
def nested(mode, how):
    class Inner(xsd.ComplexType):
        code = xsd.Element(xsd.String, minOccurs=0)
        kind = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)

    ref = {'class': Inner, 'instance': Inner(), 'name': 'soapfish.xsd.VerifInner'}[how]
    if how == 'name':
        sx.patch(xsd, 'VerifInner', Inner)

    class Middle(xsd.ComplexType):
        first = xsd.Element(ref)
        second = xsd.Element(ref, minOccurs=0)
        code = xsd.Element(xsd.Integer, minOccurs=0)

    class Outer(xsd.ComplexType):
        middle = xsd.Element(Middle)
        code = xsd.Element(xsd.Boolean)

    def inner(n):
        """possibly without any content"""
        i = Inner()
        i.code = maybe('c' + n, lambda: sx.str('c' + n, 1, 1, 'alpha'))
        i.kind = maybe('k' + n, lambda: sx.str('k' + n, 1, 1, 'alpha'))
        return i
    o = Outer(middle=Middle(first=inner('1'), code=sx.int('code', -99, 99)), code=sx.bool('b'))
    o.middle.second = maybe('second', lambda: inner('2'))
    p = again(o, mode)
    sx.check(sx.truth(type(p.middle) is Middle and type(p.middle.first) is Inner), 'types of nested objects')
    same('outer', o, p, 'code')
    same('middle', o.middle, p.middle, 'code')
    same('first', o.middle.first, p.middle.first, 'code', 'kind')
    if o.middle.second is None:
        sx.check(sx.truth(p.middle.second is None), 'absent object stays absent')
    else:
        sx.check(sx.truth(p.middle.second is not None), 'object is there')
        same('second', o.middle.second, p.middle.second, 'code', 'kind')


@sx.case(params=[{'mode': m} for m in MODES])
def lists_of_objects(mode):
    class Item(xsd.ComplexType):
        name = xsd.Element(xsd.String)
        sizes = xsd.ListElement(xsd.Integer, 'size')
        a = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)

    class Box(xsd.ComplexType):
        items = xsd.ListElement(Item, 'item')
        name = xsd.Element(xsd.String)
    o = Box(name=sx.str('name', 1, 1, 'alpha'))
    for i in range(sx.choice('items', [0, 1, 3])):
        it = Item(name=sx.str('n%d' % i, 1, 1, 'alpha'), a=sx.str('a%d' % i, 1, 1, 'alpha'))
        for j in range(sx.choice('sizes%d' % i, [0, 2])):
            it.sizes.append(sx.int('s%d%d' % (i, j), 0, 9))
        o.items.append(it)
    if sx.flag('empty'):
        o.items.append(Item())
    p = again(o, mode)
    same('box', o, p, 'name')
    sx.check(len(p.items) == len(o.items), 'as many objects')
    for x, y in zip(o.items, p.items):
        sx.check(sx.truth(type(y) is Item), 'type of listed objects')
        same('item', x, y, 'name', 'a', 'sizes')


def three(name, value):
    k = sx.choice('how_' + name, ['absent', 'nil', 'value'])
    return None if k == 'absent' else xsd.NIL if k == 'nil' else value()


@sx.case(params=[{'mode': m} for m in MODES])
def nils(mode):
    class Sub(xsd.ComplexType):
        x = xsd.Element(xsd.String)

    class T(xsd.ComplexType):
        s = xsd.Element(xsd.String, nillable=True)
        n = xsd.Element(xsd.Integer, nillable=True, minOccurs=0)
        sub = xsd.Element(Sub, nillable=True, minOccurs=0)
        l = xsd.ListElement(xsd.String, 'item', nillable=True)
    o = T(s=three('s', lambda: sx.str('s', 1, 1, 'alpha')), n=three('n', lambda: sx.int('n', -99, 99)), sub=three('sub', lambda: Sub(x=sx.str('x', 1, 1, 'alpha'))))
    for i in range(sx.choice('l', [0, 2])):
        o.l.append(xsd.NIL if sx.flag('nil%d' % i) else sx.str('l%d' % i, 1, 1, 'alpha'))
    p = again(o, mode)
    same('nils', o, p, 's', 'n')
    sx.check(len(p.l) == len(o.l), 'as many items')
    for x, y in zip(o.l, p.l):
        sx.check(sx.truth((x is xsd.NIL) == (y is xsd.NIL)), 'nil items stay nil')
        if x is not xsd.NIL:
            sx.check(x == y, 'item')
    if o.sub is None or o.sub is xsd.NIL:
        same('nils', o, p, 'sub')
    else:
        sx.check(sx.truth(isinstance(p.sub, Sub)), 'object beside nils')
        same('sub', o.sub, p.sub, 'x')


@sx.case(params=[{'mode': m} for m in MODES])
def tagnames(mode):
    """tag names replace field names; a field may be named like another one's tag"""
    class T(xsd.ComplexType):
        import_ = xsd.Element(xsd.String, tagname='import')
        swap1 = xsd.Element(xsd.String, tagname='swap2')
        swap2 = xsd.Element(xsd.String, tagname='swap1')
        many = xsd.ListElement(xsd.String, tagname='one', minOccurs=0)
        one = xsd.Element(xsd.String, tagname='many', minOccurs=0)
        class_ = xsd.Attribute(xsd.String, tagname='class', use=xsd.Use.OPTIONAL)
        klass = xsd.Attribute(xsd.Integer, tagname='class_', use=xsd.Use.OPTIONAL)
    o = T(import_=sx.str('i', 1, 1, 'alpha'), swap1=sx.str('s1', 1, 1, 'alpha'), swap2=sx.str('s2', 1, 1, 'alpha'))
    o.class_ = maybe('c', lambda: sx.str('c', 1, 1, 'alpha'))
    o.klass = maybe('k', lambda: sx.int('k', -99, 99))
    o.one = maybe('o', lambda: sx.str('o', 1, 1, 'alpha'))
    for i in range(sx.choice('many', [0, 1, 2])):
        o.many.append(sx.str('m%d' % i, 1, 1, 'alpha'))
    p = again(o, mode)
    same('tagnames', o, p, 'import_', 'swap1', 'swap2', 'one', 'many', 'class_')
    if o.klass is not None:
        same('tagnames', o, p, 'klass')


@sx.case(params=[{'mode': m} for m in MODES])
def inheritance(mode):
    class Base(xsd.ComplexType):
        x = xsd.Element(xsd.String)
        a = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)

    class Derived(Base):
        INHERITANCE = xsd.Inheritance.EXTENSION
        y = xsd.Element(xsd.Integer)
        l = xsd.ListElement(xsd.String, 'i')

    class Last(Derived):
        INHERITANCE = xsd.Inheritance.EXTENSION
        z = xsd.Element(xsd.String, minOccurs=0)
    o = Last(x=sx.str('x', 1, 1, 'alpha'), y=sx.int('y', -99, 99))
    o.a = maybe('a', lambda: sx.str('a', 1, 1, 'alpha'))
    o.z = maybe('z', lambda: sx.str('z', 1, 1, 'alpha'))
    for i in range(sx.choice('l', [0, 2])):
        o.l.append(sx.str('l%d' % i, 1, 1, 'alpha'))
    p = again(o, mode)
    same('inheritance', o, p, 'x', 'a', 'y', 'z', 'l')
    b = Base(x=sx.str('bx', 1, 1, 'alpha'))
    same('base', b, again(b, mode), 'x', 'a')


@sx.case(params=[{'mode': m} for m in MODES])
def groups(mode):
    class Name(xsd.Group):
        first = xsd.Element(xsd.String)
        last = xsd.Element(xsd.String, minOccurs=0)
        nick = xsd.ListElement(xsd.String, 'nick')

    class Marks(xsd.AttributeGroup):
        m = xsd.Attribute(xsd.Integer, use=xsd.Use.OPTIONAL)

    class Person(xsd.ComplexType):
        title = xsd.Element(xsd.String)
        name = xsd.Ref(Name)
        age = xsd.Element(xsd.Integer)
        marks = xsd.Ref(Marks)
    o = Person(title=sx.str('t', 1, 1, 'alpha'), age=sx.int('age', 0, 999))
    o.name.first = sx.str('f', 1, 1, 'alpha')
    o.name.last = maybe('last', lambda: sx.str('l', 1, 1, 'alpha'))
    for i in range(sx.choice('nick', [0, 2])):
        o.name.nick.append(sx.str('n%d' % i, 1, 1, 'alpha'))
    o.marks.m = sx.int('m', -99, 99)
    p = again(o, mode)
    same('person', o, p, 'title', 'age')
    same('group', o.name, p.name, 'first', 'last', 'nick')
    same('attribute group', o.marks, p.marks, 'm')


@sx.case(params=[{'ns': n} for n in (None, 'urn:doc')])
def documents(ns):
    class Root(xsd.ComplexType):
        s = xsd.Element(xsd.String)
        a = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)

    class Doc(xsd.Document):
        NAMESPACE = ns
        root = xsd.Element(Root)
    o = Doc(root=Root(s=sx.str('s', 1, 2, 'alpha'), a=sx.str('a', 0, 1, 'alpha')))
    text = o.render()
    p = Doc.parsexml(text)
    q = Doc.parsexml(text)
    sx.check(sx.truth(type(p) is Doc and p is not q and p.root is not q.root), 'parsing a document gives a new document each time')
    same('document', o.root, p.root, 's', 'a')


@sx.case(params=[{'mode': m} for m in MODES])
def schema_types(mode):
    """types that belong to a schema, element and type namespaces differing"""
    class Inner(xsd.ComplexType):
        v = xsd.Element(xsd.String)

    class Outer(xsd.ComplexType):
        own = xsd.Element(Inner, namespace='urn:own')
        inner = xsd.Element(Inner)
        l = xsd.ListElement(xsd.String, 'item', namespace='urn:list')
        d = xsd.Element(xsd.Decimal)
    xsd.Schema('urn:t', elementFormDefault=xsd.ElementFormDefault.QUALIFIED, complexTypes=[Inner, Outer], elements={'outer': xsd.Element(Outer)})
    o = Outer(own=Inner(v=sx.str('a', 1, 1, 'alpha')), inner=Inner(v=sx.str('b', 1, 1, 'alpha')), d=sx.float('d', 6, 2))
    for i in range(sx.choice('l', [0, 2])):
        o.l.append(sx.str('l%d' % i, 1, 1, 'alpha'))
    p = again(o, mode)
    same('schema', o, p, 'l', 'd')
    same('own', o.own, p.own, 'v')
    same('inner', o.inner, p.inner, 'v')


@sx.case(params=[{'mode': m} for m in MODES])
def twice(mode):
    """what was read writes the same document again"""
    T = simple()
    o = T(req=sx.int('req', -99, 99), s=sx.str('s', 1, 1, 'alpha'), a=maybe('a', lambda: sx.str('a', 1, 1, 'alpha')), number=maybe('n', lambda: sx.int('n', -99, 99)))
    p = again(o, mode)
    q = again(p, mode)
    same('twice', o, q, 's', 'number', 'b', 'a', 'req')
    sx.check(sx.truth(p == q), 'both readings are equal')


@sx.case(params=[{'where': w} for w in ('plain', 'comment', 'pi', 'unknown', 'spaced', 'shuffled')])
def foreign_content(where):
    """comments, processing instructions, unknown elements, white space and order do not change what is read"""
    class T(xsd.ComplexType):
        s = xsd.Element(xsd.String)
        l = xsd.ListElement(xsd.String, 'i')
        n = xsd.Element(xsd.Integer)
    s, a, b, n = sx.str('s', 1, 1, 'alpha'), sx.str('a', 1, 1, 'alpha'), sx.str('b', 1, 1, 'alpha'), sx.int('n', 0, 99)
    root = etree.Element('{urn:q}t' if sx.flag('ns') else 't')
    noise = {'comment': lambda: root.append(etree.Comment('s')), 'pi': lambda: root.append(etree.ProcessingInstruction('s', 'i')),
             'unknown': lambda: etree.SubElement(root, 'unknown').append(etree.Element('s'))}.get(where, lambda: None)
    parts = [('s', s), ('i', a), ('i', b), ('n', str(n))]
    if where == 'shuffled':
        parts = [('n', str(n)), ('i', a), ('s', s), ('i', b)]
    for tag, text in parts:
        noise()
        e = etree.SubElement(root, tag)
        e.text = text
        if where == 'spaced':
            e.tail = '\n   '
    noise()
    o = T.parse_xmlelement(root)
    sx.check(o.s == s, 'element')
    sx.check(o.n == n, 'number')
    sx.check(len(o.l) == 2, 'list length')
    sx.check(sx.and_(o.l[0] == a, o.l[1] == b), 'list in document order')


@sx.case(params=[{'form': f} for f in ('true', '1', 'false', '0', 'none')])
def nil_forms(form):
    class T(xsd.ComplexType):
        s = xsd.Element(xsd.String, nillable=True)
        l = xsd.ListElement(xsd.String, 'i', nillable=True)
    x = sx.str('x', 1, 1, 'alpha')
    root = etree.Element('t')
    for tag in ('s', 'i'):
        e = etree.SubElement(root, tag)
        if form != 'none':
            e.set('{http://www.w3.org/2001/XMLSchema-instance}nil', form)
        if form not in ('true', '1'):
            e.text = x
    o = T.parse_xmlelement(root)
    if form in ('true', '1'):
        sx.check(sx.truth(o.s is xsd.NIL), 'nil element')
        sx.check(sx.truth(len(o.l) == 1 and o.l[0] is xsd.NIL), 'nil item')
    else:
        sx.check(o.s == x, 'element that is not nil')
        sx.check(sx.and_(len(o.l) == 1, o.l[0] == x), 'item that is not nil')


@sx.case()
def defaults():
    class T(xsd.ComplexType):
        e = xsd.Element(xsd.String, default='de', minOccurs=0)
        a = xsd.Attribute(xsd.String, default='da', use=xsd.Use.OPTIONAL)
        n = xsd.Element(xsd.Integer, default=7, minOccurs=0)
    o = T()
    if sx.flag('e'):
        o.e = sx.str('es', 1, 1, 'alpha')
    if sx.flag('a'):
        o.a = sx.str('as', 1, 1, 'alpha')
    if sx.flag('n'):
        o.n = sx.int('ns', -99, 99)
    p = again(o)
    same('defaults', o, p, 'e', 'a', 'n')
    q = T.parsexml('<t/>')
    sx.check(sx.truth(q.e == 'de' and q.a == 'da' and q.n == 7), 'absent fields take their default')


@sx.case()
def split_text():
    """comments and processing instructions inside a value are not part of it"""
    class T(xsd.ComplexType):
        s = xsd.Element(xsd.String)
        l = xsd.ListElement(xsd.String, 'i')
        n = xsd.Element(xsd.Integer, minOccurs=0)
    a, b = sx.str('a', 0, 1, 'alpha'), sx.str('b', 0, 1, 'alpha')
    root = etree.Element('t')

    def split(tag, first, second):
        e = etree.SubElement(root, tag)
        e.text = first or None
        c = etree.Comment('x') if sx.flag('comment' + tag) else etree.ProcessingInstruction('x', 'y')
        e.append(c)
        c.tail = second or None
    split('s', a, b)
    split('i', b, a)
    split('n', '1', '2')
    o = T.parse_xmlelement(root)
    if a + b:
        sx.check(o.s == a + b, 'text on both sides')
    sx.check(o.n == 12, 'digits on both sides')
    if a + b:
        sx.check(o.l[0] == b + a, 'item')

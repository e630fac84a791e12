"""Equality, hash and order of objects that were read follow their documents."""
import sx
from lxml import etree
from soapfish import xsd

BOUNDS = 'pairs and triples of objects of two classes, read from documents with symbolic texts of one character, attributes and lists of 0..2 items, also as fields and list items of others'
OUTSIDE = 'objects of different classes read from the same document, and documents that differ in what no field tells (white space between elements, order of attributes); order of documents whose texts contain characters that XML escapes; objects that were built, not read'


def types():
    class A(xsd.ComplexType):
        s = xsd.Element(xsd.String)
        l = xsd.ListElement(xsd.String, 'i')
        a = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)

    class B(xsd.ComplexType):
        s = xsd.Element(xsd.String)
    return A, B


def element(n, items, att):
    root = etree.Element('t')
    s = sx.str('s' + n, 1, 1, 'alpha')
    etree.SubElement(root, 's').text = s
    k = sx.choice('k' + n, items)
    l = [sx.str('i%s%d' % (n, j), 1, 1, 'alpha') for j in range(k)]
    for v in l:
        etree.SubElement(root, 'i').text = v
    a = sx.str('a' + n, 1, 1, 'alpha') if att and sx.flag('att' + n) else None
    if a is not None:
        root.set('a', a)
    return root, (s, l, a)


def equal(x, y):
    if len(x[1]) != len(y[1]) or (x[2] is None) != (y[2] is None):
        return False
    return sx.and_(x[0] == y[0], *[p == q for p, q in zip(x[1], y[1])], True if x[2] is None else x[2] == y[2])


@sx.case(params=[{'how': h} for h in ('text', 'element')], reach=['equal', 'unequal'])
def equality(how):
    A, _ = types()
    (e1, c1), (e2, c2) = element('1', [0, 1, 2], True), element('2', [0, 1, 2], True)
    if how == 'text':
        a, b = A.parsexml(etree.tostring(e1)), A.parsexml(etree.tostring(e2))
    else:
        a, b = A.parse_xmlelement(e1), A.parse_xmlelement(e2)
    same = sx.truth(equal(c1, c2))
    sx.check(sx.truth(a == a and b == b), 'an object equals itself')
    sx.check(sx.truth((a == b) == same), 'equal exactly when the documents are')
    sx.check(sx.truth((b == a) == same), 'equality is symmetric')
    sx.check(sx.truth((a != b) == (not same)), 'unequal is the opposite')
    if same:
        sx.check(sx.truth(hash(a) == hash(b)), 'equal objects have equal hashes')
        sx.check(sx.truth(b in [a]), 'found in a list')
    sx.reach('equal' if same else 'unequal')


@sx.case()
def order():
    A, _ = types()
    objs, texts = [], []
    for n in '123':
        root = etree.Element('t')
        s = sx.str('s' + n, 1, 1, 'abAB')
        etree.SubElement(root, 's').text = s
        objs.append(A.parse_xmlelement(root))
        texts.append(s)
    a, b, c = objs
    lt = [[sx.truth(x < y) for y in objs] for x in objs]
    eq = [[sx.truth(x == y) for y in objs] for x in objs]
    for i in range(3):
        sx.check(sx.truth(not lt[i][i]), 'no object is before itself')
        for j in range(3):
            sx.check(sx.truth(lt[i][j] + lt[j][i] + eq[i][j] == 1), 'before, after or equal: exactly one')
            sx.check(sx.truth(lt[i][j] == sx.truth(texts[i] < texts[j])), 'order of the documents')
            for k in range(3):
                sx.check(sx.truth(not (lt[i][j] and lt[j][k]) or lt[i][k]), 'order is transitive')
    sx.check(sx.truth((a <= b) == (lt[0][1] or eq[0][1])), 'at most')
    sx.check(sx.truth((a >= b) == (lt[1][0] or eq[0][1])), 'at least')
    sx.check(sx.truth((a > b) == lt[1][0]), 'after')


@sx.case(params=[{'how': h} for h in ('text', 'element')])
def nested(how):
    """objects within objects are compared by their own part of the document"""
    class N(xsd.ComplexType):
        v = xsd.Element(xsd.String)
        w = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)

    class A(xsd.ComplexType):
        n = xsd.Element(N)
        m = xsd.ListElement(N, 'm')
    objs, content = [], []
    for i in '12':
        root, got = etree.Element('t'), []
        for tag in ('n', 'm', 'm'):
            sub = etree.SubElement(root, tag)
            v, w = sx.str('v%d%s' % (len(got), i), 1, 1, 'ab<'), sx.choice('w%d%s' % (len(got), i), [None, '', 'x']) if tag == 'n' else None
            etree.SubElement(sub, 'v').text = v
            if w is not None:
                sub.set('w', w)
            got.append((v, w))
        objs.append(A.parsexml(etree.tostring(root)) if how == 'text' else A.parse_xmlelement(root))
        content.append(got)
    a, b = objs
    (n1, x1, y1), (n2, x2, y2) = content
    alike = [sx.truth(p[0] == q[0]) and p[1] == q[1] for p, q in zip(*content)]
    sx.check(sx.truth((a == b) == all(alike)), 'the whole objects')
    sx.check(sx.truth((a.n == b.n) == alike[0]), 'the inner objects')
    sx.check(sx.truth((a.n != b.n) == (not alike[0])), 'the inner objects are unequal')
    sx.check(sx.truth((a.n < b.n) + (b.n < a.n) + alike[0] == 1), 'order of the inner objects')
    if alike[0]:
        sx.check(sx.truth(hash(a.n) == hash(b.n)), 'hashes of the inner objects')
    sx.check(sx.truth((a.m[0] == b.m[1]) == sx.truth(x1[0] == y2[0])), 'items of lists')
    sx.check(sx.truth((a.m == b.m) == (alike[1] and alike[2])), 'lists')
    sx.check(sx.truth((a.m[0] in b.m) == (alike[1] or sx.truth(x1[0] == y2[0]))), 'item found in another list')
    sx.check(sx.truth(not (a == a.n) and not (a.n == a.m[0])), 'elements of another name')
    before = (a == b)
    sx.check(sx.truth((a == b) == before), 'comparing changes nothing')


@sx.case()
def unread():
    A, B = types()
    e, c = element('1', [0, 1], False)
    a = A.parse_xmlelement(e)
    for other in (A(s=c[0]), 'text', 1, None, object()):
        sx.check(sx.truth(not (a == other)), 'a read object equals none that was not read')
        sx.check(sx.truth(not (other == a)), 'none that was not read equals it')
    x, y = A(), A()
    sx.check(sx.truth(not (x == y)), 'built objects are different objects')
    sx.check(sx.truth(isinstance(hash(x), int) and hash(x) == hash(x)), 'built objects can be hashed')


@sx.case()
def sets():
    A, _ = types()
    (e1, c1), (e2, c2) = element('1', [0, 1], False), element('2', [0, 1], False)
    a, b = A.parse_xmlelement(e1), A.parse_xmlelement(e2)
    same = sx.truth(equal(c1, c2))
    sx.check(sx.truth(len([x for i, x in enumerate((a, b)) if x not in (a, b)[:i]]) == (1 if same else 2)), 'distinct objects in a list')
    d = {a: 1}
    d[b] = 2
    sx.check(sx.truth(len(d) == (1 if same else 2)), 'distinct keys of a dictionary')
    sx.check(sx.truth(d[b] == 2), 'looked up again')

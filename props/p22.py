"""Code is generated from exactly the files that the documents name, each once and in a usable order."""
import sx
from lxml import etree

from props.gen import Files, a_type, folder, place, relative, s, same, schema, w, x, HTTP
from soapfish import utils, wsdl2py, xsd, xsd2py

BOUNDS = ('locations of 0..3 symbolic characters ahead of the file name, at two levels of documents, beside imports without a location and of other hosts, for local folders and URLs; trees of up to 3 included or imported files and 3 WSDL documents in different folders, '
          'every shape of references, cycles included; up to 4 schemas in one WSDL with symbolic namespaces and imports; up to 4 types with symbolic bases')
OUTSIDE = 'symbolic links, locations with percent escapes or a query, cycles through the document that generation starts from, types derived from those of a later schema of a WSDL where the imports form a cycle'

BASES = {'local': '/w/m', 'remote': 'http://h/w/m', 'remote slash': 'http://h/w/m/', 'secure': 'https://h/w/m'}


def location(name, hi, file):
    loc = sx.str(name, 0, hi, './d') + file
    sx.assume(sx.not_(loc.startswith('//')))
    return loc


def generated(code):
    return code.decode('utf-8')


def once(code, name, label):
    sx.check(sx.truth(code.count('class %s(' % name) == 1), label)


def beside(kind):
    """an import ahead of the one that is looked at"""
    if kind == 'none':
        return []
    return [x('import', namespace='urn:z', schemaLocation='http://g/z.xsd' if kind == 'absolute' else None)]


@sx.case(params=[{'base': b, 'tag': t} for b in BASES for t in ('include', 'import')])
def nested_locations(base, tag):
    """a location is relative to the document in which it stands"""
    deep = sx.tier() == 'thorough'
    first, second = location('one', 3 if deep else 2, 'a.xsd'), location('two', 4 if deep else 3, 'b.xsd')
    ns = 'urn:t' if tag == 'include' else 'urn:u'
    files = Files(xsd2py)
    a = relative(first, place(BASES[base]))
    b = relative(second, folder(a))
    sx.assume(not same(a, b))
    n = None if tag == 'include' else 'urn:u'
    where = 'import' if tag == 'include' else 'include'
    siblings = sx.choice('siblings', [('none', 'none'), ('no location', 'absolute'), ('absolute', 'no location')])
    files.add(a, schema(*beside(siblings[1]), x(where, schemaLocation=second, namespace='urn:v' if where == 'import' else None), a_type('one'), targetNamespace=ns))
    files.add(b, schema(a_type('two'), targetNamespace='urn:v' if where == 'import' else ns))
    files.add('http://g/z.xsd', schema(a_type('far'), targetNamespace='urn:z'))
    far = place('http://g/z.xsd')
    sx.assume(not same(a, far) and not same(b, far))
    code = generated(xsd2py.generate_code_from_xsd(schema(*beside(siblings[0]), x(tag, schemaLocation=first, namespace=n), a_type('main')), cwd=BASES[base]))
    read = [p for p in files.opened if not same(p, far)]
    sx.check(len(read) == 2 and same(read[0], a) and same(read[1], b), 'files read')
    sx.check(sx.truth(code.count('class Far(') == (1 if 'absolute' in siblings else 0)), 'other files once')
    for name in ('Main', 'One', 'Two'):
        once(code, name, 'class ' + name)
    m = sx.load(code)
    sx.check(m.Two.v is not None and m.One.v is not None and m.Main.v is not None, 'classes')


def spelling(name, file, frm, to):
    """a location of the file in the folder `to`, as seen from the folder `frm`"""
    up = ('../' if frm else '') + (to + '/' if to else '') + file
    return sx.choice(name, [up, ('' if frm else './') + up if not frm else '../' + frm + '/' + up] + (['/w/m/' + (to + '/' if to else '') + file] if sx.tier() == 'thorough' else []))


FOLDERS = ('', 'p', 'q')


@sx.case(params=[{'kind': k, 'names': n} for k in ('acyclic', 'cyclic') for n in ('different', 'same')], reach=['all', 'none'])
def trees(kind, names):
    """every file is generated once, whatever refers to it however often"""
    files = Files(xsd2py)
    name = ['f%d.xsd' % i if names == 'different' else 'f.xsd' for i in range(3)]
    edges = {}
    for i in range(-1, 3):
        for j in range(3):
            if j > i or kind == 'cyclic' and i != -1:
                if i == j and sx.tier() != 'thorough':
                    continue
                edges[i, j] = sx.flag('e%d%d' % (i + 1, j))

    def refs(i):
        out = []
        for j in range(3):
            if edges.get((i, j)):
                loc = ('../' if i > 0 else '') + (FOLDERS[j] + '/' if FOLDERS[j] else '') + name[j]
                if (i + j) % 2:
                    loc = './q/../' + loc if i <= 0 else '../p/' + loc
                out.append(x('include', schemaLocation=loc) if j != 2 else x('import', schemaLocation=loc, namespace='urn:u'))
        return out
    for i in range(3):
        files.add('/w/m/%s/%s' % (FOLDERS[i], name[i]), schema(*refs(i), a_type('t%d' % i), targetNamespace='urn:u' if i == 2 else 'urn:t'))
    code = generated(xsd2py.generate_code_from_xsd(schema(*refs(-1), a_type('main')), cwd='/w/m'))
    reached, todo = set(), [-1]
    while todo:
        i = todo.pop()
        for j in range(3):
            if edges.get((i, j)) and j not in reached:
                reached.add(j)
                todo.append(j)
    for j in range(3):
        sx.check(sx.truth(code.count('class T%d(' % j) == (1 if j in reached else 0)), 'once each')
    once(code, 'Main', 'the document itself')
    m = sx.load(code)
    for j in range(3):
        sx.check((getattr(m, 'T%d' % j, None) is not None) == (j in reached), 'classes')
    if kind == 'acyclic':
        schemas = [v for v in vars(m).values() if isinstance(v, xsd.Schema)]
        main = [v for v in schemas if any(t.__name__ == 'Main' for t in v.complexTypes)][0]
        sx.check(len(main.includes) == sum(1 for j in (0, 1) if edges.get((-1, j))) and len(main.imports) == sum(1 for j in (2,) if edges.get((-1, j))), 'references of the schema')
    sx.reach('all' if len(reached) == 3 else 'none' if not reached else 'some')


def wsdl(*kids, **attrs):
    attrs.setdefault('targetNamespace', 'urn:t')
    return w('definitions', *kids, **attrs)


def message(name):
    return w('message', w('part', name='body', element='tns:a'), name=name)


def service(name, input_='tns:in', url='http://h/x'):
    """port type, binding and service with one operation"""
    return [w('portType', w('operation', w('input', message=input_), w('output', message=input_), name='op'), name=name + 'PT'),
            w('binding', s('binding', style='document', transport=HTTP),
              w('operation', s('operation', soapAction='act', style='document'), w('input', s('body', use='literal')), w('output', s('body', use='literal')), name='op'),
              name=name + 'B', type='tns:' + name + 'PT'),
            w('service', w('port', s('address', location=url), name=name, binding='tns:' + name + 'B'), name=name)]


@sx.case(params=[{'base': b} for b in BASES])
def wsdl_locations(base):
    """locations in imported WSDL documents and their schemas are relative to these"""
    first = location('one', 3, 'a.wsdl')
    second = sx.choice('two', ['b.wsdl', '../b.wsdl', 'd/b.wsdl', '/b.wsdl', 'http://g/b.wsdl'])
    third = sx.str('three', 0, 1, './d') + sx.choice('rest', ['/c.xsd', 'c.xsd', '../c.xsd'])
    sx.assume(sx.not_(third.startswith('//')))
    files = Files(wsdl2py, xsd2py)
    a = relative(first, place(BASES[base]))
    b = relative(second, folder(a))
    after = relative('z.wsdl', place(BASES[base]))
    c = relative(third, folder(b))
    files.add(a, wsdl(w('import', location=second, namespace='urn:t')))
    files.add(b, wsdl(w('types', schema(x('include', schemaLocation=third), x('element', name='a', type='xs:string'))), message('in')))
    files.add(after, wsdl(message('out')))
    files.add(c, schema(a_type('one')))
    main = wsdl(w('import', location=first, namespace='urn:t'), w('import', location='z.wsdl', namespace='urn:t'), *service('S'))
    code = generated(wsdl2py.generate_code_from_wsdl(main, 'client', cwd=BASES[base]))
    want = [a, b, after, c]
    sx.check(len(files.opened) == 4 and all(same(p, q) for p, q in zip(files.opened, want)), 'files read')
    m = sx.load(code)
    sx.check(m.One.v is not None and m.op_method.input == 'a', 'definitions')


@sx.case(params=[{'names': n} for n in ('different', 'same')], reach=['all', 'cycle'])
def wsdl_trees(names):
    """WSDL documents contribute their definitions once, cycles end"""
    files = Files(wsdl2py, xsd2py)
    edges = {(i, j): sx.flag('e%d%d' % (i, j)) for i in range(3) for j in range(3) if j or i}
    names = ['/w/m/a.wsdl', '/w/m/p/b.wsdl', '/w/m/q/c.wsdl'] if names == 'different' else ['/w/m/a.wsdl', '/w/m/p/a.wsdl', '/w/m/q/a.wsdl']

    def refs(i):
        out = []
        for j in range(3):
            if edges.get((i, j)):
                loc = ('../' if i else '') + names[j][5:]
                out.append(w('import', location=loc if (i + j) % 2 else './' + loc, namespace='urn:t'))
        return out
    docs = []
    for i in range(3):
        parts = [w('types', schema(a_type('t%d' % i), x('element', name='a', type='xs:string'), targetNamespace='urn:t%d' % i)), message('m%d' % i)]
        parts += service('S%d' % i, 'tns:m%d' % i)
        docs.append(wsdl(*refs(i), *parts))
        files.add(names[i], docs[i])
    code = generated(wsdl2py.generate_code_from_wsdl(docs[0], 'client', cwd='/w/m'))
    reached, todo = {0}, [0]
    while todo:
        i = todo.pop()
        for j in range(3):
            if edges.get((i, j)) and j not in reached:
                reached.add(j)
                todo.append(j)
    for j in range(3):
        n = 1 if j in reached else 0
        sx.check(sx.truth(code.count('class T%d(' % j) == n), 'types')
        sx.check(sx.truth(code.count('class S%dServiceStub(' % j) == n and code.count('S%d_SERVICE = ' % j) == n), 'services')
    sx.load(code)
    if len(reached) == 3:
        sx.reach('all')
    if edges.get((1, 0)) and edges.get((0, 1)):
        sx.reach('cycle')


def namespace(name):
    return 'urn:' + sx.str(name, 1, 1, 'abcd')


@sx.case(params=[{'n': n, 'how': 'names'} for n in (2, 3)] + [{'n': 3, 'how': 'graph'}], reach=['ordered'])
def schema_order(n, how):
    """schemas of one WSDL come after those they import, whatever their order in the document; how: the namespaces
    of a few imports are any, or every schema imports any others"""
    if how == 'names':
        spaces = [namespace('ns%d' % i) for i in range(n)]
        imports = [[namespace('im%d%d' % (i, k)) for k in range(sx.choice('k%d' % i, [0, 1] if n > 2 else [0, 1, 2]))] for i in range(n)]
    else:
        spaces = ['urn:%d' % i for i in range(n)]
        imports = [[u for k, u in enumerate(spaces) if sx.flag('im%d%d' % (i, k))] for i in range(n)]
    schemas = []
    for i in range(n):
        schemas.append(schema(*[x('import', namespace=u) for u in imports[i]], a_type('t%d' % i), x('element', name='e%d' % i, type='tns:t%d' % i), targetNamespace=spaces[i]))
    parsed = [wsdl2py.get_wsdl_classes(wsdl2py.SOAPVersion.SOAP11.BINDING_NAMESPACE).Types.parse_xmlelement(w('types', *schemas)).schemas][0]
    before = list(parsed)
    after = wsdl2py.reorder_schemas(before)
    sx.check(len(after) == n and all(any(a is b for b in after) for a in before), 'all schemas, each once')
    index = {id(s_): i for i, s_ in enumerate(before)}
    order = [index[id(s_)] for s_ in after]
    # waits[i]: the schemas that i needs
    waits = [{j for j in range(n) if sx.truth(spaces[j] != spaces[i]) and any(sx.truth(u == spaces[j]) for u in imports[i])} for i in range(n)]
    done, ready = set(), True
    while ready:
        ready = [i for i in range(n) if i not in done and waits[i] <= done]
        done.update(ready)
    for i in range(n):
        # schemas of a cycle, and those that need them, come after the others that they need.
        sx.check(all(order.index(j) < order.index(i) for j in waits[i] if j in done), 'imported schemas first')
    if len(done) == n and any(waits):
        sx.reach('ordered')


@sx.case(params=[{'n': n} for n in (2, 3)])
def schemas_of_a_wsdl(n):
    """the code of all schemas can be used, whatever their order, also when types are derived from those of other schemas"""
    files = Files(wsdl2py, xsd2py)
    files.add('/w/m/common.xsd', schema(a_type('common'), targetNamespace='urn:c'))
    order = sx.choice('order', [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)] if n == 3 else [(0, 1), (1, 0)])
    bases = [None] + [sx.choice('base%d' % i, [None] + list(range(i))) for i in range(1, n)]
    uses = [sx.flag('common%d' % i) for i in range(n)]
    more = sx.choice('more', ['nothing', 'unknown', 'cycle'])
    sx.assume(more != 'cycle' or all(b is None or order.index(b) < order.index(i) for i, b in enumerate(bases)))
    schemas = []
    for i in range(n):
        field = x('sequence', x('element', name='f%d' % i, type='xs:string'), *([x('element', name='c%d' % i, type='c:common')] if uses[i] else []))
        if bases[i] is None:
            t = x('complexType', field, name='t%d' % i)
        else:
            t = x('complexType', x('complexContent', x('extension', field, base='b:t%d' % bases[i])), name='t%d' % i)
        parts = [x('import', namespace='urn:%d' % bases[i])] if bases[i] is not None else []
        if more == 'unknown':
            parts.insert(0, x('import', namespace='http://schemas.xmlsoap.org/soap/encoding/'))
        elif more == 'cycle' and bases[i] is None:
            parts += [x('import', namespace='urn:%d' % k) for k in range(n) if k != i]
        if uses[i]:
            parts.append(x('import', namespace='urn:c', schemaLocation='common.xsd'))
        schemas.append(schema(*parts, t, targetNamespace='urn:%d' % i))
    main = wsdl(w('types', *[schemas[i] for i in order]), message('in'), *service('S'))
    code = generated(wsdl2py.generate_code_from_wsdl(main, sx.choice('target', ['client', 'server']), cwd='/w/m'))
    sx.check(sx.truth(code.count('class Common(') == (1 if any(uses) else 0)), 'shared files once')
    m = sx.load(code)
    for i in range(n):
        t = getattr(m, 'T%d' % i)
        j = i
        while j is not None:
            sx.check(sx.truth(issubclass(t, getattr(m, 'T%d' % j)) and getattr(t(), 'f%d' % j) is None), 'derived')
            j = bases[j]
        if uses[i]:
            o = t()
            sx.check(sx.outcome(setattr, o, 'c%d' % i, m.Common(v='a')).ok, 'values of shared types')


@sx.case(params=[{'n': n, 'how': h} for n in (2, 3) for h in ('extension', 'restriction', 'simple')] + [{'n': 4, 'how': 'extension'}], reach=['chain'])
def type_order(n, how):
    """types can be used whatever their order in the document"""
    names = [sx.str('n%d' % i, 1, 1, 'abcd') for i in range(n)]
    for i in range(n):
        for j in range(i):
            sx.assume(names[i] != names[j])
    order = list(range(n))
    bases = [sx.choice('b%d' % i, [None] + [j for j in order if j != i]) for i in order]
    for i in order:
        seen, j = set(), i
        while j is not None and j not in seen:
            seen.add(j)
            j = bases[j]
        sx.assume(j is None)
    kids = []
    for i in order:
        prefix = sx.choice('p%d' % i, ['tns:', '']) if n == 2 else 'tns:'
        if how == 'simple':
            base = 'xs:string' if bases[i] is None else prefix + names[bases[i]]
            kids.append(x('simpleType', x('restriction', x('maxLength', value=str(9 - i)), base=base), name=names[i]))
            continue
        field = x('sequence', x('element', name='f%d' % i, type='xs:string'))
        if bases[i] is None:
            kids.append(x('complexType', field, name=names[i]))
        else:
            kids.append(x('complexType', x('complexContent', x(how, field, base=prefix + names[bases[i]])), name=names[i]))
    m = sx.load(generated(xsd2py.generate_code_from_xsd(schema(*kids))))
    classes = [vars(m)[names[i].upper()] for i in order]
    for i in order:
        j = i
        while j is not None:
            sx.check(sx.truth(issubclass(classes[i], classes[j])), 'derived')
            j = bases[j]
        if how == 'simple':
            sx.check(sx.truth(classes[i].maxLength == 9 - i), 'facets')
        else:
            sx.check(sx.truth(getattr(classes[i](), 'f%d' % i) is None), 'fields')
    if n == 2 or any(b is not None and bases[b] is not None for b in bases):
        sx.reach('chain')


@sx.case()
def adopted_namespace():
    """included files without a namespace of their own belong to the one of the document, at any depth"""
    files = Files(xsd2py)
    space = 'urn:' + sx.str('ns', 0, 2, "ab")
    own = [sx.flag('own1'), sx.flag('own2')]
    depth = sx.choice('depth', [1, 2])
    files.add('/w/m/p/a.xsd', schema(x('include', schemaLocation='../b.xsd') if depth == 2 else None, a_type('one'), targetNamespace=space if own[0] else None))
    files.add('/w/m/b.xsd', schema(a_type('two'), targetNamespace=space if own[1] else None))
    code = xsd2py.generate_code_from_xsd(schema(x('include', schemaLocation='p/a.xsd'), a_type('main'), targetNamespace=space), cwd='/w/m')
    m = sx.load(code)
    schemas = [v for v in vars(m).values() if isinstance(v, xsd.Schema)]
    for name in ['Main', 'One', 'Two'][:depth + 1]:
        mine = [v for v in schemas if any(t.__name__ == name for t in v.complexTypes)]
        sx.check(len(mine) > 0 and sx.truth(sx.and_(*[v.targetNamespace == space for v in mine])), 'namespace of ' + name)


class Stream:
    def __init__(self, data=b''):
        self.data, self.written = data, []
        self.buffer = self

    def read(self):
        return self.data

    def write(self, data):
        self.written.append(data)


class System:
    def __init__(self, stdin):
        self.stdin, self.stdout, self.argv = Stream(stdin), Stream(), ['x', 'wrong.xsd']


PLACES = {'absolute': '/w/m/main', 'relative': 'm/main', 'here': 'main', 'url': 'http://h/m/main'}


@sx.case(params=[{'what': k, 'where': p} for k in ('xsd', 'client', 'server') for p in sorted(PLACES) + ['stdin']])
def commands(what, where):
    """the commands read the named document, and the files it names relative to it, and write the code"""
    loc = location('one', 2 if where == 'url' else 3, 'a.xsd')
    module = xsd2py if what == 'xsd' else wsdl2py
    files = Files(xsd2py, wsdl2py)
    sx.patch(xsd2py.os, 'getcwd', lambda: '/w/here')
    path = PLACES.get(where, 'main')
    base = folder(relative(path, files.cwd))
    inner = schema(x('include', schemaLocation=loc), a_type('main'), x('element', name='a', type='xs:string'))
    doc = inner if what == 'xsd' else wsdl(w('types', inner), message('in'), *service('S'))
    if where != 'stdin':
        files.add(relative(path, files.cwd), doc)
    sx.assume(not same(relative(loc, base), relative(path, files.cwd)))
    files.add(relative(loc, base), schema(a_type('one')))
    system = System(etree.tostring(doc))
    sx.patch(module, 'sys', system)
    argv = ['-' if where == 'stdin' else path]
    if what != 'xsd':
        argv.insert(0, sx.choice('option', ['--' + what, '-' + what[0]]))
    status = module.main(argv)
    sx.check(status == 0 and len(system.stdout.written) == 1, 'written')
    m = sx.load(system.stdout.written[0])
    sx.check(m.One.v is not None and m.Main.v is not None, 'classes')
    if what != 'xsd':
        sx.check(hasattr(m, 'SServiceStub') == (what == 'client') and hasattr(m, 'op') == (what == 'server'), 'kind of code')

"""The command-line programs write exactly what the library makes of the documents they are given."""
import argparse
import os
import sys

import sx
from lxml import etree

from props.gen import Files, a_type, place, relative, folder, s, same, schema, w, x, HTTP
from soapfish import py2wsdl, py2xsd, soap, wsa, wsdl2py, xsd, xsd2py

BOUNDS = ('all four programs; documents named by paths and URLs of 0..4 symbolic characters ahead of the file name and by -, referring to another file by a location of 0..2 symbolic characters; output to the standard stream, to - and to a '
          'file; every option and its long form ahead of and behind the files; command lines of up to 3 arguments with options of 1..2 symbolic letters; modules with symbolic namespaces, names, enumerations, limits, actions and addresses')
OUTSIDE = 'options between the files and abbreviated options (argparse), the help text, documents that cannot be read, the comment with the time in generated code'

DATA = os.path.join(os.path.dirname(__file__), 'data', 'described.py')


class Out:
    """a binary stream"""

    def __init__(self):
        self.parts = []

    def write(self, data):
        self.parts.append(data)

    def flush(self):
        pass

    def close(self):
        pass

    @property
    def content(self):
        out = self.parts[0] if self.parts else b''
        for p in self.parts[1:]:
            out = out + p
        return out


class Text:
    """a text stream over a binary one, as sys.stdout is"""

    def __init__(self, data=b''):
        self.buffer = Out()
        self.messages = []
        self.buffer.read = lambda: data

    def write(self, message):
        self.messages.append(message)

    def flush(self):
        pass


class Machine:
    """standard streams, folder and files that programs see"""

    def __init__(self, stdin=b''):
        self.stdout, self.stdin, self.stderr = Text(), Text(stdin), Text()
        self.files = []
        sx.patch(sys, 'stdout', self.stdout)
        sx.patch(sys, 'stdin', self.stdin)
        sx.patch(sys, 'stderr', self.stderr)
        sx.patch(argparse, 'open', self.open)
        sx.patch(os, 'getcwd', lambda: '/w/here')

    def open(self, name, mode='r', *a, **kw):
        f = Out()
        self.files.append((name, mode, f))
        return f

    def run(self, main, argv, given=True):
        """(return value, exit code) with the arguments given to main, or those of the process"""
        sx.patch(sys, 'argv', ['program', 'a'] if given else ['program'] + argv)
        try:
            return (main(argv) if given else main()), None
        except SystemExit as e:
            return None, e.code

    def written(self):
        """what the program wrote, and whether it wrote to one place only"""
        places = [f for _, _, f in self.files if f.parts] + [self.stdout.buffer] * (1 if self.stdout.buffer.parts else 0)
        return places


WORD = 'é€ж'


def words():
    """a type with a value outside of ASCII"""
    return x('simpleType', x('restriction', x('enumeration', value=WORD), base='xs:string'), name='words')


def source(kind):
    """(argument, place of the document) for the document that a program is asked to read"""
    if kind == 'stdin':
        return '-', None
    if kind == 'url':
        arg = 'http://h/' + sx.str('path', 0, 3, 'd/.') + 'main.x'
        sx.assume(sx.not_('//' in arg[7:]))
        return arg, place(arg)
    arg = sx.str('path', 0, 4 if sx.tier() == 'thorough' else 3, './d') + 'main.x'
    sx.assume(sx.not_(arg.startswith('//')))
    return arg, relative(arg, Files.cwd)


def arguments(name, options, doc):
    """the command line: options anywhere, output as given"""
    out = sx.choice(name, ['stdout', 'file', 'dash'])
    rest = [doc] + {'stdout': [], 'file': ['/w/out/result'], 'dash': ['-']}[out]
    if not options:
        return out, rest
    return out, options + rest if sx.choice('place of options', ['before', 'after']) == 'before' else rest + options


def result(machine, out, ended):
    """what was written, in the place asked for"""
    sx.check(sx.truth(ended == (0, None)), 'exit status')
    if out == 'file':
        ok = len(machine.files) == 1 and machine.files[0][:2] == ('/w/out/result', 'wb') and not machine.stdout.buffer.parts
        sx.check(ok, 'output file')
        content = machine.files[0][2].content
    else:
        sx.check(not machine.files, 'output')
        content = machine.stdout.buffer.content
    sx.check(not machine.stdout.messages and not machine.stderr.messages, 'no messages')
    return content


@sx.case(params=[{'kind': k, 'tag': t} for k in ('file', 'url', 'stdin') for t in ('include', 'import')])
def xsd_program(kind, tag):
    """xsd2py reads the schema, and others relative to it"""
    arg, at = source(kind)
    location = sx.str('location', 0, 2, './d') + 'sub.xsd'
    sx.assume(sx.not_(location.startswith('//')))
    base = folder(at) if at else Files.cwd
    sub = relative(location, base)
    ns = 'urn:t' if tag == 'include' else 'urn:u'
    doc = schema(x(tag, schemaLocation=location, namespace=None if tag == 'include' else ns), words(), a_type('main'))
    files = Files(xsd2py)
    files.add(sub, schema(a_type('sub'), targetNamespace=ns))
    if at:
        files.add(at, doc)
    machine = Machine(etree.tostring(doc))
    out, argv = arguments('out', [], arg)
    content = result(machine, out, machine.run(xsd2py.main, argv, given=out != 'stdout'))
    read = ([at] if at else []) + [sub]
    sx.check(len(files.opened) == len(read) and all(same(a, b) for a, b in zip(files.opened, read)), 'documents read')
    m = sx.load(content.decode('utf-8'))
    sx.check(m.Main.v is not None and m.Sub.v is not None, 'classes')
    sx.check(sx.truth(list(m.Words().enumeration) == [WORD]), 'values outside of ASCII')
    schemas = [v for v in vars(m).values() if isinstance(v, xsd.Schema)]
    main = [v for v in schemas if m.Main in v.complexTypes]
    sx.check(len(main) == 1 or all(v is main[0] for v in main), 'schema of the document')
    sx.check(main[0].targetNamespace == 'urn:t', 'namespace')


def wsdl_document(location, url):
    return w('definitions', w('types', schema(x('include', schemaLocation=location), words(), x('element', name='a', type='xs:string'))),
             w('message', w('part', name='body', element='tns:a'), name='in'),
             w('portType', w('operation', w('input', message='tns:in'), w('output', message='tns:in'), name='op'), name='PT'),
             w('binding', s('binding', style='document', transport=HTTP),
               w('operation', s('operation', soapAction='act', style='document'), w('input', s('body', use='literal')), w('output', s('body', use='literal')), name='op'),
               name='B', type='tns:PT'),
             w('service', w('port', s('address', location=url), name='P', binding='tns:B'), name='S'), targetNamespace='urn:t')


@sx.case(params=[{'kind': k, 'target': t} for k in ('file', 'url', 'stdin') for t in ('client', 'server')])
def wsdl_program(kind, target):
    """wsdl2py makes the code asked for, of the document given"""
    arg, at = source(kind)
    location = sx.str('location', 0, 2 if sx.tier() == 'thorough' else 1, './d') + 'sub.xsd'
    sx.assume(sx.not_(location.startswith('//')))
    sub = relative(location, folder(at) if at else Files.cwd)
    doc = wsdl_document(location, 'http://h/x')
    files = Files(wsdl2py, xsd2py)
    files.add(sub, schema(a_type('sub')))
    if at:
        files.add(at, doc)
    machine = Machine(etree.tostring(doc))
    use_wsa = sx.choice('wsa', [None, '-w', '--use-wsa'])
    options = [sx.choice('target', ['-' + target[0], '--' + target])]
    if use_wsa:
        options.insert(sx.choice('first', [0, 1]), use_wsa)
    out, argv = arguments('out', options, arg)
    content = result(machine, out, machine.run(wsdl2py.main, argv, given=out != 'stdout'))
    read = ([at] if at else []) + [sub]
    sx.check(len(files.opened) == len(read) and all(same(a, b) for a, b in zip(files.opened, read)), 'documents read')
    m = sx.load(content.decode('utf-8'))
    sx.check(m.Sub.v is not None, 'classes')
    sx.check(sx.truth(list(m.Words().enumeration) == [WORD]), 'values outside of ASCII')
    sx.check(isinstance(m.P_SERVICE, soap.Service), 'service')
    stubs = [v for v in vars(m).values() if isinstance(v, type) and issubclass(v, soap.Stub)]
    sx.check(len(stubs) == (1 if target == 'client' else 0), 'stub')
    sx.check((m.P_SERVICE.methods[0].function is not None) == (target == 'server'), 'function')
    sx.check(m.BaseHeader is (wsa.Header if use_wsa else xsd.ComplexType), 'headers')


PROGRAMS = {'py2xsd': py2xsd, 'py2wsdl': py2wsdl, 'xsd2py': xsd2py, 'wsdl2py': wsdl2py}


@sx.case(params=[{'program': p} for p in PROGRAMS])
def wrong_usage(program):
    """a command line that is not understood ends the program, which reads and writes nothing"""
    module = PROGRAMS[program]
    files = Files(wsdl2py, xsd2py)
    files.add('/w/here/a', wsdl_document('b', 'http://h/x') if program == 'wsdl2py' else schema(a_type('main')))
    files.add('/w/here/b', schema(a_type('sub')))
    machine = Machine()
    option = '-' + sx.str('option', 1, 2, 'cswx' if program == 'wsdl2py' else 'cswx-')
    count = sx.choice('arguments', [0, 1, 2, 3])
    argv = ([option] if count else []) + ['a'] * max(0, count - 1)
    if program == 'wsdl2py':
        legal = sx.or_(option in ('-c', '-s', '-cw', '-wc', '-sw', '-ws', '-cc', '-ss'))
        sx.assume(sx.or_(sx.not_(legal), count < 2))
    else:
        sx.assume(sx.or_(sx.not_(option == '--'), count < 2))
    value, code = machine.run(module.main, argv, given=sx.flag('given'))
    sx.check(value is None and code == 2, 'exit status')
    sx.check(not files.opened and not machine.stdout.buffer.parts and not machine.stdout.messages, 'nothing is written')
    sx.check(not [f for _, _, f in machine.files if f.parts], 'no file')
    sx.check(len(machine.stderr.messages) > 0, 'message')


@sx.case(params=[{'program': 'py2xsd'}, {'program': 'py2wsdl'}])
def python_programs(program):
    """py2xsd writes the schema, py2wsdl the document of the service of a module"""
    module = PROGRAMS[program]
    machine = Machine()
    sys.modules.setdefault('sx', sx)
    sys.modules.pop('', None)
    out, argv = arguments('out', [], DATA)
    content = result(machine, out, machine.run(module.main, argv, given=out != 'stdout'))
    loaded = sys.modules['']
    wanted = py2xsd.generate_xsd(loaded.Schema) if program == 'py2xsd' else py2wsdl.generate_wsdl(loaded.SERVICE)
    equal(etree.fromstring(content), wanted)


def equal(a, b):
    """the same tree, apart from white space between elements"""
    sx.check(a.tag == b.tag, 'element')
    sx.check(sorted(a.attrib) == sorted(b.attrib), 'attributes')
    for k in b.attrib:
        sx.check(a.get(k) == b.get(k), 'value')
    sx.check(len(a) == len(b), 'children')
    for c, d in zip(a, b):
        equal(c, d)

#!/opt/veriftools/pyvenv/bin/python
"""Writes the generated part of DESIGN.md: one section for each property and the table of planted bugs."""
import ast
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '<!-- everything below is written by tools/design.py -->\n'

# how it is decided; the oracle
HOW = {
    'P01': ('A symbolic value of every built-in type is put into an object, written by the real `render`/`xmlvalue`, and read by the real `parse_xmlelement`/`pythonvalue`.',
            'equality with the value put in, and a hand-written grammar of the lexical space of each type for the text in between'),
    'P02': ('A text of symbolic characters (or a legal layout with symbolic digits, with and without one symbolic defect) is read by the real `pythonvalue` and by a parsed document.',
            'the lexical-to-value mapping of XML Schema part 2, written down independently on the symbolic characters (arithmetic on the digits, calendar rules)'),
    'P03': ('Facet settings and the value are symbolic, and the value goes in over each route (assignment, constructor, append, element, attribute).',
            'the definition of each facet, as a formula over the facet and the value; accepted exactly when the conjunction holds'),
    'P04': ('Objects of eleven shapes with symbolic presence, nil and values are written and read back.',
            'field by field equality with the original; ignored content is added at symbolic places'),
    'P05': ('Objects of eight shapes with symbolic presence, occurrence limits and values are written.',
            'the expected tree (tags, namespaces, order, attributes, texts, nil) computed from the declaration by the harness, and the state of the object before and after'),
    'P06': ('A field of each of 18 types holds a symbolic legal value and is offered a symbolic value of each of 24 kinds, over each route.',
            'a table of which kind is legal for which type, and the unchanged state of all fields after a refusal'),
    'P07': ('The operations of a history (chosen symbolically, on objects chosen symbolically) are run on the real classes.',
            'a model that gives each object a state of its own: after every step all objects must be as their models say'),
    'P08': ('Pairs and triples of documents with symbolic content are read and compared.',
            'equality of the model values of all fields; the laws of equality, hashing and order as formulas'),
    'P09': ('Names on both sides are symbolic, so which item matches is decided by the solver.',
            'first item in document order whose name is equal to the part of the reference after the colon'),
    'P10': ('Requests with symbolic actions, quoting, header names and root names are dispatched to services whose operations record their calls.',
            'the operation that the harness derives from the same symbolic action or root; exactly one recorded call, or none and a client fault'),
    'P11': ('Requests with symbolic texts, children, names, headers and damage are dispatched; validation runs through the schema generated from the classes and the model of XML Schema validation.',
            'validity of the symbolic document, stated by the harness from the class declarations; recorded calls and their values; the fault code'),
    'P12': ('Operations and middlewares raise or return errors with symbolic codes and messages.',
            'the fault read from the symbolic answer by independent code: code, message, header, status; answers to later requests'),
    'P13': ('The client stub posts into the dispatcher (the HTTP library is replaced by a function that hands the request over), so both sides run symbolically in one path.',
            'equality of what was sent with what the operation saw, of what it answered with what the call returned, and of the recorded HTTP call with the expected one'),
    'P14': ('The schedule is an input: the number of the statement ahead of which the first activity is stopped is symbolic and compared with that of each statement of the library that it reaches (a monitor on the real statements, transformed or not), so the solver decides at each one whether the second activity runs there.',
            'the answer each activity gives alone, stated by the harness from its own symbolic texts; recorded calls, messages, middlewares and hooks of each'),
    'P15': ('Symbolic query strings, hosts and schemes are dispatched; the links in the served documents are followed by asking the dispatcher again.',
            'the document expected for the query, decided on the symbolic characters; every link answered with status 200 and the schema it stands for'),
    'P16': ('Symbolic hook names and every set of hooks for every kind of request; the hooks record their calls.',
            'exact sequence of calls with their arguments, and the processed request and the sent response being those that the hooks returned'),
    'P17': ('Chains of middlewares whose behaviours are chosen symbolically are run; everything is recorded.',
            'the sequence of entries and exits that the chain must have; the response as the last one left it; the log of the exception logger'),
    'P18': ('The same symbolic request goes to the dispatcher and through each adapter. The frameworks are modelled for the symbolic run, and every path is replayed on real Django and Flask.',
            'equality with the answer of the dispatcher'),
    'P19': ('A schema is generated from classes with symbolic facets, names, limits; a symbolic document is validated against it (model of libxml2, replayed on libxml2).',
            'the validity that the classes declare, as a formula over the facets and the document; acceptance by the classes themselves'),
    'P20': ('A symbolic schema goes through the templates; the generated code (whose text is symbolic) is compiled path by path, imported, and its classes and the schema generated from them judge a symbolic document.',
            'the verdict of the original schema on the same document; the declared names, bases and facets'),
    'P21': ('Symbolic services are turned into WSDL documents and read back by plain tree access; symbolic WSDL documents are turned into client and server code that is imported and made to talk.',
            'the description that the document was made from; the messages recorded on the wire'),
    'P22': ('Symbolic locations and graphs of files; opening a document is replaced by a function that records the path and gives the content.',
            'RFC 3986/path resolution done by the harness on the symbolic location; the set of reachable files; import of the generated code in the order given'),
    'P23': ('Symbolic header blocks are dispatched, called through the stub, and filled with `fill_header`.',
            'values sent, legality by the schema of WS-Addressing, and relations between request and answer'),
    'P24': ('Symbolic documents are read into the object models and written again.',
            'the same document tree (kinds, order, attributes, namespaces) and the values of the objects'),
    'P26': ('A use is chosen symbolically for each step of a history; all steps act on one service, its schemas and classes. The judged use is made ahead of the history on a service of its own, and after it on the used one.',
            'equality of the two results (documents, code without its time, answers, messages, values of objects)'),
    'P25': ('The `main` functions of the four programs run on symbolic arguments and file contents, with opening, standard streams and module loading replaced by recorders.',
            'what the library functions give for the same document, target and folder; where it is written'),
}


def constants(path):
    tree = ast.parse(open(path).read())
    return {n.targets[0].id: ast.literal_eval(n.value) for n in tree.body
            if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('BOUNDS', 'OUTSIDE')}


def main():
    path = os.path.join(HERE, 'DESIGN.md')
    head = open(path).read().split(MARK)[0]
    out = [head.rstrip('\n') + '\n\n', MARK, '\n## The properties\n\n',
           'Every property is decided by the executor described above: symbolic inputs, the real source, one query for every check on every path. ',
           'None is out of reach of the technique; what each one leaves out is listed under "outside".\n\n']
    for line in open(os.path.join(HERE, 'properties.jsonl')):
        d = json.loads(line)
        harness = os.path.join(HERE, 'props', d['id'].lower() + '.py')
        if not os.path.exists(harness):
            continue
        c = constants(harness)
        how, oracle = HOW[d['id']]
        cases = len(re.findall(r'(?m)^@case', open(harness).read()))
        out.append(f"### {d['id']} {d['title']}\n\n{d['statement']}\n\n"
                   f"* How: {how}\n* Oracle: {oracle}.\n* Bounds: {c.get('BOUNDS', '')}.\n* Outside: {c.get('OUTSIDE', '')}.\n"
                   f"* Beyond the tests: {d['why_tests_cant']}\n* Anchors: " + '; '.join(f"{m['name']} ({m['where']})" for m in d['anchors']['mechanism']) + '.\n\n')
    out.append('## Planted bugs\n\nAll of these pass the tests of the repository, have a demonstration, and are caught by the quick check of their property (the last run of each is in the log of its batch).\n\n'
               '| bug | property | what it needs | what breaks |\n|---|---|---|---|\n')
    for meta in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
        m = json.load(open(meta))
        clean = {k: m[k].replace('|', '/').replace('\n', ' ') for k in ('needs', 'what_it_breaks')}
        out.append(f"| {os.path.basename(os.path.dirname(meta))} | {m['property']} | {clean['needs']} | {clean['what_it_breaks']} |\n")
    with open(path, 'w') as f:
        f.write(''.join(out))


if __name__ == '__main__':
    main()

"""Two activities at the same time: the first is stopped ahead of one statement of
soapfish, the second runs to its end there, then the first goes on.

Which statement it is, is an input of the harness: `when` is compared with the
number of every statement that is about to run for the first time, so that the
solver decides about all of them.  Statements are numbered by file and line of
the source, which are the same for the transformed and for the real code."""
import ast
import gc
import os
import sys
import types

FILES = {}
LAST = 10 ** 6


def numbers(path):
    """{line: number} of the statements within functions"""
    if path not in FILES:
        folder = os.path.dirname(path)
        at = sorted(n for n in os.listdir(folder) if n.endswith('.py')).index(os.path.basename(path))
        with open(path, 'rb') as f:
            tree = ast.parse(f.read())
        lines = set()
        for node in ast.walk(tree):
            if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for x in ast.walk(node):
                    if isinstance(x, ast.stmt) and not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Global, ast.Nonlocal)) and not (
                            isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)):
                        lines.add(x.lineno)
        FILES[path] = {n: at * 10000 + n for n in lines}
    return FILES[path]


CODES = {}


def watched():
    """the code of all functions of soapfish"""
    loaded = len([m for m in sys.modules if m.split('.')[0] == 'soapfish'])
    if CODES.get('loaded') != loaded:
        found, todo = set(), [o.__code__ for o in gc.get_objects() if type(o) is types.FunctionType]
        while todo:
            c = todo.pop()
            name = c.co_filename
            if c not in found and name.endswith('.py') and os.path.basename(os.path.dirname(name)) == 'soapfish':
                found.add(c)
                todo.extend(k for k in c.co_consts if type(k) is types.CodeType)
        CODES.update(loaded=loaded, found=found)
    return CODES['found']


def importing():
    """a module is being loaded, for which other threads wait"""
    frame = sys._getframe(2)
    while frame is not None:
        if frame.f_code.co_filename.startswith('<frozen importlib'):
            return True
        frame = frame.f_back
    return False


def during(when, truth, outcome, first, second):
    """(outcome of the first, outcome of the second, place at which the first was stopped or None)"""
    done, seen = [], set()
    m, tool = sys.monitoring, sys.monitoring.PROFILER_ID

    def line(code, at):
        if done:
            return
        key = (code.co_filename, at)
        if key not in seen:
            if importing():
                return
            seen.add(key)
            n = numbers(key[0]).get(at)
            if n is not None and truth(when == n):
                done.append(None)
                done.append(outcome(second))
                done.append('%s:%d' % (os.path.basename(key[0]), at))
    codes = watched()
    m.use_tool_id(tool, 'symx')
    try:
        m.register_callback(tool, m.events.LINE, line)
        for c in codes:
            m.set_local_events(tool, c, m.events.LINE)
        a = outcome(first)
    finally:
        for c in codes:
            m.set_local_events(tool, c, 0)
        m.register_callback(tool, m.events.LINE, None)
        m.free_tool_id(tool)
    if not done:
        done[:] = [None, outcome(second), None]
    return a, done[1], done[2]

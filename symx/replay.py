"""Concrete replay: run harness cases on witnesses against the real code.

usage: replay.py --serve            (JSON lines on stdin/stdout)
       replay.py FILE.json          (one replay file; exit 1 when the violation reproduces)
Runs in /opt/venv (the project's own environment), soapfish imported from /repo.
"""
import importlib
import json
import logging
import os
import sys
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
sys.path[:0] = [REPO, VERIF]
sys.path = [p for p in sys.path if os.path.abspath(p or '.') != os.path.join(VERIF, 'symx')]
from symx import sx_conc  # noqa: E402

sys.modules['sx'] = sx_conc.module()
logging.disable(logging.CRITICAL)


def _remember_templates():
    """jinja2 compiles each template once per process instead of once per rendering"""
    import jinja2
    compile_, seen = jinja2.Environment.compile, {}

    def compile(self, source, name=None, filename=None, raw=False, defer_init=False):
        key = (source, name, filename, raw, defer_init)
        if key not in seen:
            seen[key] = compile_(self, source, name, filename, raw, defer_init)
        return seen[key]
    jinja2.Environment.compile = compile


_remember_templates()


def run(req):
    sx_conc.WITNESS = req['witness']
    sx_conc.TIER = req.get('tier', 'quick')
    sx_conc.KNOWN = frozenset(req.get('known', ()))
    del sx_conc.OBSERVED[:]
    del sx_conc.KNOWN_HITS[:]
    importlib.import_module('props.' + req['module'])
    c = sx_conc.CASES.get(req['case'])
    if c is None:
        return {'status': 'error', 'detail': 'no case ' + req['case']}
    try:
        c['fn'](**c['params'])
        res = {'status': 'ok'}
    except sx_conc.Violated as e:
        res = {'status': 'violation', 'label': e.label}
    except sx_conc.AssumeFailed:
        res = {'status': 'assume'}
    except Exception as e:
        res = {'status': 'violation', 'label': 'uncaught ' + type(e).__name__, 'detail': traceback.format_exc()[-1500:]}
    finally:
        sx_conc.unpatch()
    res['observed'] = list(sx_conc.OBSERVED)
    res['known'] = list(sx_conc.KNOWN_HITS)
    return res


def serve():
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    for line in sys.stdin:
        try:
            res = run(json.loads(line))
        except BaseException as e:
            res = {'status': 'error', 'detail': repr(e) + traceback.format_exc()[-1000:]}
        out.write(json.dumps(res) + '\n')
        out.flush()


if __name__ == '__main__':
    if sys.argv[1] == '--serve':
        serve()
    else:
        with open(sys.argv[1]) as f:
            req = json.load(f)
        res = run(req)
        print(json.dumps(res, indent=1))
        sys.exit(1 if res['status'] == 'violation' else 0)

"""Sets up the symbolic process: import rewriting, environment models, state reset."""
import builtins
import enum
import hashlib
import logging
import os
import sys
import sysconfig
import types
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SITE = '/opt/venv/lib/python3.12/site-packages'

warnings.simplefilter('ignore')
sys.dont_write_bytecode = True
if SITE not in sys.path:
    sys.path.append(SITE)
logging.disable(logging.CRITICAL)
sys.setrecursionlimit(6000)

from . import engine, loader, rt, sre, symdt, fake_lxml  # noqa: E402

STDLIB = sysconfig.get_paths()['stdlib']


def _posixpath():
    import posixpath as realpp
    m = types.ModuleType('posixpath')
    m.__file__ = realpp.__file__
    class NoPosix:
        pass
    loader.IMPORT_MAP['posix'] = types.ModuleType('posix')
    loader.exec_module_source(m, realpp.__file__, strip_cache=True)
    rt.OVERRIDES[os.fspath] = lambda p: p if engine.is_sym(p) else os.fspath(p)
    return m


def _os():
    m = types.ModuleType('os')
    for n in dir(os):
        if not n.startswith('__'):
            setattr(m, n, getattr(os, n))
    m.path = _posixpath_mod
    return m


def _copy(name, fn):
    def make():
        return loader.load_copy(name, os.path.join(STDLIB, fn))
    return make


def _urlparse():
    """urllib.parse from source; percent-encoding of symbolic text is modelled"""
    m = loader.load_copy('urllib.parse', os.path.join(STDLIB, 'urllib/parse.py'))
    import urllib.parse as real
    always = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_.-~'
    quote0, unquote0 = m.quote, m.unquote

    def value(c):
        return c if type(c) is int else engine.ctx().concretize(c)

    def quote(string, safe='/', encoding=None, errors=None):
        if isinstance(string, engine.SymBytes):
            string = string.s
        if not engine.is_sym(string):
            return quote0(string, safe, encoding, errors)
        ok = sorted({ord(c) for c in always + safe if ord(c) < 128})
        out = []
        for c in string.cps:
            if engine.in_ranges(c, [(o, o) for o in ok]):
                out.append(c)
            else:
                out.extend(map(ord, real.quote(chr(value(c)), safe=safe)))
        return engine.mkstr(out)

    def unquote(string, encoding='utf-8', errors='replace'):
        if not engine.is_sym(string):
            return unquote0(string, encoding, errors)
        out, raw, cps, i = [], [], string.cps, 0

        def flush():
            out.extend(map(ord, bytes(raw).decode(encoding, errors)))
            del raw[:]
        hexes = [(48, 57), (65, 70), (97, 102)]
        while i < len(cps):
            if engine.cp_eq(cps[i], 37) and i + 2 < len(cps) and engine.and_(engine.in_ranges(cps[i + 1], hexes), engine.in_ranges(cps[i + 2], hexes)):
                raw.append(int(chr(value(cps[i + 1])) + chr(value(cps[i + 2])), 16))
                i += 3
            else:
                flush()
                out.append(cps[i])
                i += 1
        flush()
        return engine.mkstr(out)
    m.quote, m.unquote = quote, unquote
    return m


def _hashlib():
    """md5 of symbolic text: equal for equal text, different for different text"""
    import hashlib as real
    m = types.ModuleType('hashlib')
    for n in dir(real):
        if not n.startswith('__'):
            setattr(m, n, getattr(real, n))

    class Digest:
        def __init__(self, text):
            self.text = text

        def hexdigest(self):
            return self.text

    def text_of(v):
        if isinstance(v, engine.SymBytes):
            return v.s
        return v.decode('utf-8') if type(v) is bytes else v

    def md5(value=b'', **k):
        t = text_of(value)
        seen = engine.ctx().__dict__.setdefault('hashed', [])
        if engine.is_sym(t):
            if isinstance(t, engine.SymStr):
                t = t.force()
        for u, h in seen:
            if engine.is_sym(t) or engine.is_sym(u):
                if t == u:
                    return Digest(h)
        h = 'z%04d' % len(seen) + '0' * 27 if engine.is_sym(t) else real.md5(t.encode() if type(t) is str else t).hexdigest()
        if engine.is_sym(t) or t not in [u for u, _ in seen if not engine.is_sym(u)]:
            seen.append((t, h))
        return Digest(h)
    m.md5 = md5
    return m


def requests_stub():
    m = types.ModuleType('requests')
    def post(*a, **k):
        raise engine.Unsupported('network')
    m.post = m.get = post
    return m



def boot():
    global _posixpath_mod
    lx, et = fake_lxml.make_module()
    loader.IMPORT_MAP.update({
        're': sre.make_module(), 'datetime': symdt, 'lxml': lx, 'lxml.etree': et, 'requests': requests_stub(),
    })
    _posixpath_mod = _posixpath()
    loader.IMPORT_MAP['os.path'] = loader.IMPORT_MAP['posixpath'] = _posixpath_mod
    loader.IMPORT_MAP['os'] = _posixpath_mod.os = _os()
    loader.LAZY_MAP.update({
        'string': _copy('string', 'string.py'),
        'urllib.parse': _urlparse,
        'hashlib': _hashlib,
        'cgi': _copy('cgi', 'cgi.py'),
        'argparse': _copy('argparse', 'argparse.py'),
    })
    def _urllib():
        m = types.ModuleType('urllib')
        m.parse = loader._lookup('urllib.parse')
        return m
    loader.LAZY_MAP['urllib'] = _urllib
    from . import fake_web, jinja, sx_sym
    loader.IMPORT_MAP.update(fake_web.modules())
    loader.IMPORT_MAP['sx'] = sx_sym.module()
    loader.LAZY_MAP['jinja2'] = jinja.make
    sys.meta_path.insert(0, loader.Finder({
        'soapfish': os.path.join(REPO, 'soapfish'),
        'iso8601': os.path.join(SITE, 'iso8601'),
        'props': os.path.join(VERIF, 'props'),
    }))
    val = loader.load_copy('xsdval', os.path.join(VERIF, 'symx', 'xsdval.py'), {'fake': fake_lxml})
    fake_lxml.XMLSchema.VALIDATOR = staticmethod(val.validate)


# ------------------------------------------------------------------ state reset between paths

_SNAP = None


def _copyval(v):
    if type(v) is dict:
        return ('d', v, dict(v))
    if type(v) is list:
        return ('l', v, list(v))
    if type(v) is set:
        return ('s', v, set(v))
    return None


def _restore(c):
    kind, obj, copy = c
    if kind == 'd':
        if obj != copy or list(obj) != list(copy):
            obj.clear()
            obj.update(copy)
    elif kind == 'l':
        obj[:] = copy
    else:
        obj.clear()
        obj.update(copy)


def snapshot():
    global _SNAP
    snap = []
    seen = set()
    for m in loader.LOADED:
        if not m.__name__.startswith('soapfish'):
            continue
        g = {k: v for k, v in m.__dict__.items() if not (k.startswith('__') and k.endswith('__'))}
        snap.append(('mod', m, g, [c for c in map(_copyval, g.values()) if c]))
        for v in list(g.values()):
            if isinstance(v, type) and v.__module__.startswith('soapfish') and id(v) not in seen and not issubclass(v, enum.Enum):
                seen.add(id(v))
                d = {k: x for k, x in vars(v).items() if k not in ('__dict__', '__weakref__', '__doc__')}
                snap.append(('cls', v, d, [c for c in map(_copyval, d.values()) if c]))
    _SNAP = snap


def reset():
    for c in rt.LruCache.ALL:
        c.store.clear()
    if _SNAP is None:
        return
    for kind, o, d, cs in _SNAP:
        if kind == 'mod':
            cur = o.__dict__
            for k in [k for k in cur if k not in d and not (k.startswith('__') and k.endswith('__'))]:
                if not isinstance(cur[k], types.ModuleType):
                    del cur[k]
            for k, v in d.items():
                if cur.get(k, _SNAP) is not v:
                    cur[k] = v
        else:
            cur = vars(o)
            for k in [k for k in cur if k not in d and k not in ('__dict__', '__weakref__', '__doc__', '__abstractmethods__')]:
                try:
                    type.__delattr__(o, k)
                except (AttributeError, TypeError):
                    pass
            for k, v in d.items():
                if cur.get(k, _SNAP) is not v:
                    type.__setattr__(o, k, v)
        for c in cs:
            _restore(c)


def source_digest():
    h = hashlib.sha256()
    for root, _, files in sorted(os.walk(os.path.join(REPO, 'soapfish'))):
        for f in sorted(files):
            if f.endswith(('.py', '.jinja2')):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, REPO).encode())
                with open(p, 'rb') as fh:
                    h.update(fh.read())
    return h.hexdigest()[:16]

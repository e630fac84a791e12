"""jinja2 with its generated template code routed through the rewriter."""
import sys
import types

from . import engine, loader, rt


COMPILED = {}


def make():
    import jinja2
    import jinja2.environment
    import jinja2.filters

    @jinja2.pass_eval_context
    def join(ctx, value, d='', attribute=None):
        if attribute is not None:
            value = map(jinja2.filters.make_attrgetter(ctx.environment, attribute), value)
        return rt.cm(rt.r_str(d), 'join', [rt.r_str(x) for x in value])

    FILTERS = {n: (lambda s, n=n: rt.cm(rt.r_str(s), n)) for n in ('upper', 'lower', 'title')}
    FILTERS['trim'] = lambda s, chars=None: rt.cm(rt.r_str(s), 'strip', chars)
    FILTERS['replace'] = lambda s, old, new, count=None: rt.cm(rt.r_str(s), 'replace', rt.r_str(old), rt.r_str(new), -1 if count is None else count)
    FILTERS['string'] = rt.r_str
    FILTERS['join'] = join

    class SymEnvironment(jinja2.Environment):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            self.filters.update(FILTERS)

        def compile(self, source, name=None, filename=None, raw=False, defer_init=False):
            # template code depends on the text of the template only
            key = (source, name, filename)
            if key not in COMPILED:
                COMPILED[key] = super().compile(source, name, filename, raw, defer_init)
            return COMPILED[key]

        def _compile(self, source, filename):
            code = loader.transform(source, filename)
            return code

    def concat(parts):
        return rt.cm('', 'join', list(parts))

    SymEnvironment.concat = staticmethod(concat)

    orig = jinja2.environment.Template._from_namespace.__func__

    def from_code(cls, environment, code, globals, uptodate=None):
        namespace = {'environment': environment, '__file__': code.co_filename,
                     '__rt__': rt, '__builtins__': loader.BUILTINS}
        exec(code, namespace)
        ns = namespace
        ns['str'] = rt.r_str
        ns['str_join'] = lambda seq: concat(rt.r_str(x) for x in seq)
        rv = cls._from_namespace(environment, namespace, globals)
        rv._uptodate = uptodate
        return rv

    class SymTemplate(jinja2.Template):
        def render(self, *args, **kwargs):
            ctx = self.new_context(dict(*args, **kwargs))
            return concat(self.root_render_func(ctx))
    SymTemplate.from_code = classmethod(from_code)
    SymEnvironment.template_class = SymTemplate

    m = types.ModuleType('jinja2')
    for n in dir(jinja2):
        if not n.startswith('__'):
            setattr(m, n, getattr(jinja2, n))

    class _Loader(jinja2.BaseLoader):
        """PackageLoader reading straight from the source tree."""
        def __init__(self, package_name, package_path='templates', encoding='utf-8'):
            import os
            from . import boot
            self.dir = os.path.join(boot.REPO, *package_name.split('.'), package_path)

        def get_source(self, environment, template):
            import os
            p = os.path.join(self.dir, template)
            if not os.path.exists(p):
                raise jinja2.TemplateNotFound(template)
            with open(p, encoding='utf-8') as f:
                return f.read(), p, lambda: True
    m.Environment = SymEnvironment
    m.Template = SymTemplate
    m.PackageLoader = _Loader
    return m

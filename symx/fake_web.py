"""Stand-ins for the parts of Django and Flask that the adapters use.  Every path
is replayed with the real frameworks, so a difference shows up as a mismatch."""
import http.client
import types


class _Headers:
    def __init__(self):
        self.pairs = [['Content-Type', 'text/html; charset=utf-8']]

    def set(self, k, v):
        if not isinstance(v, str):
            v = str(v)
        for p in self.pairs:
            if p[0].lower() == k.lower():
                p[:] = [k, v]
                return
        self.pairs.append([k, v])

    def __setitem__(self, k, v):
        self.set(k, v)

    def __getitem__(self, k):
        for a, v in self.pairs:
            if a.lower() == k.lower():
                return v
        raise KeyError(k)

    def __delitem__(self, k):
        self.pairs = [p for p in self.pairs if p[0].lower() != k.lower()]

    def __contains__(self, k):
        return any(a.lower() == k.lower() for a, v in self.pairs)

    def __iter__(self):
        return iter([p[0] for p in self.pairs])

    def __len__(self):
        return len(self.pairs)

    def get(self, k, default=None):
        try:
            return self[k]
        except KeyError:
            return default

    def setdefault(self, k, v=None):
        if k not in self:
            self[k] = v
        return self[k]

    def update(self, *a, **k):
        for x in (*a, k):
            for n, v in (x.items() if hasattr(x, 'items') else x):
                self[n] = v

    extend_as_set = update

    def pop(self, k, *default):
        if k in self:
            v = self[k]
            del self[k]
            return v
        if default:
            return default[0]
        raise KeyError(k)

    def items(self):
        return [tuple(p) for p in self.pairs]

    def keys(self):
        return [p[0] for p in self.pairs]

    def values(self):
        return [p[1] for p in self.pairs]


class _WerkzeugHeaders(_Headers):
    def add(self, k, v):
        self.pairs.append([k, v])

    def extend(self, *a, **k):
        for x in (*a, k):
            for n, v in (x.items() if hasattr(x, 'items') else x):
                self.add(n, v)


class HttpResponse:
    def __init__(self, content=b'', content_type=None, status=None, reason=None, charset=None, headers=None):
        if isinstance(content, str):
            content = content.encode()
        elif content is None:
            content = b'None'
        if reason is not None or charset is not None:
            raise NotImplementedError('arguments of HttpResponse')
        self.content, self.headers = content, _Headers()
        self.status_code = 200 if status is None else status if isinstance(status, int) else int(status)
        if not 100 <= self.status_code <= 599:
            raise ValueError('HTTP status code must be an integer from 100 to 599.')
        if content_type is not None:
            self.headers['Content-Type'] = content_type
        if headers:
            if any(n.lower() == 'content-type' for n in headers) and content_type:
                raise ValueError("'headers' must not contain 'Content-Type' when the 'content_type' parameter is provided.")
            self.headers.update(headers)

    def __setitem__(self, k, v):
        self.headers[k] = v

    def __getitem__(self, k):
        return self.headers[k]

    def __delitem__(self, k):
        del self.headers[k]

    def has_header(self, k):
        return k in self.headers

    __contains__ = has_header

    def get(self, k, default=None):
        return self.headers.get(k, default)

    def setdefault(self, k, v):
        self.headers.setdefault(k, v)

    def items(self):
        return self.headers.items()

    def write(self, x):
        self.content = self.content + (x.encode() if isinstance(x, str) else x)


def csrf_exempt(f):
    def wrapped(*a, **k):
        return f(*a, **k)
    wrapped.csrf_exempt = True
    return wrapped


class Response:
    def __init__(self, response=None, status=None, headers=None, mimetype=None, content_type=None, **k):
        if k:
            raise NotImplementedError('arguments of Response')
        self.headers = _WerkzeugHeaders()
        if headers is not None:
            if not any(n.lower() == 'content-type' for n in (headers if hasattr(headers, 'items') else [n for n, v in headers])):
                pass
            else:
                self.headers.pairs = []
            self.headers.extend(headers)
        if content_type is None:
            if mimetype is not None:
                content_type = mimetype + ('; charset=utf-8' if mimetype.startswith('text/') or mimetype in (
                    'application/javascript', 'application/ecmascript', 'application/sql', 'application/xml', 'application/xml-dtd',
                    'application/xml-external-parsed-entity') or mimetype.endswith('+xml') else '')
        if content_type is not None:
            self.headers['Content-Type'] = content_type
        self._data = b''
        self.set_data(b'' if response is None else response)
        if isinstance(status, str):
            self.status = status
        else:
            self.status_code = 200 if status is None else status if isinstance(status, int) else int(status)

    def set_data(self, x):
        if isinstance(x, str):
            x = x.encode()
        elif isinstance(x, (list, tuple)):
            x = b''.join([y.encode() if isinstance(y, str) else y for y in x])
        self._data = x

    @property
    def content_type(self):
        return self.headers.get('Content-Type')

    @content_type.setter
    def content_type(self, v):
        self.headers['Content-Type'] = v

    @property
    def status(self):
        text = http.client.responses.get(self.status_code, 'UNKNOWN')
        return f'{self.status_code:d} {text.upper()}'

    @status.setter
    def status(self, value):
        self.status_code = value if isinstance(value, int) else int(value.strip().split(None, 1)[0])

    def get_data(self, as_text=False):
        return self._data.decode() if as_text else self._data

    data = property(get_data, set_data)


class _Request:
    """the request of the context"""
    current = None

    @property
    def environ(self): return _Request.current[0]

    @property
    def data(self): return _Request.current[1]

    @property
    def method(self): return _Request.current[0].get('REQUEST_METHOD', 'GET')

    def get_data(self, cache=True, as_text=False, parse_form_data=False):
        return _Request.current[1].decode() if as_text else _Request.current[1]


def make_response(*a):
    if len(a) == 1 and isinstance(a[0], tuple):
        a = a[0]
    if len(a) == 3:
        return Response(a[0], a[1], a[2])
    if len(a) == 2:
        return Response(a[0], headers=a[1]) if isinstance(a[1], (dict, list, tuple, _Headers)) else Response(a[0], a[1])
    return Response(*a)


def modules():
    django, http, views, dec, csrf, flask = (types.ModuleType(n) for n in ('django', 'django.http', 'django.views', 'django.views.decorators', 'django.views.decorators.csrf', 'flask'))
    django.http, django.views, views.decorators, dec.csrf = http, views, dec, csrf
    http.HttpResponse, csrf.csrf_exempt = HttpResponse, csrf_exempt
    flask.request, flask.Response, flask._Request, flask.make_response = _Request(), Response, _Request, make_response
    return {m.__name__: m for m in (django, http, views, dec, csrf, flask)}

"""The world the code under test runs in: clock stand-ins, output, a fake web.

Imported before resync, so that the stand-ins are in place however resync
refers to them.
"""

import contextlib
import copy
import email.message
import io
import locale
import logging
import os
import socket
import sys
import time
import urllib.error
import urllib.request
import urllib.response

_real_sleep = time.sleep
SLEEPS = []          # every time.sleep() since the last reset


def _fake_sleep(seconds):
    SLEEPS.append(seconds)


time.sleep = _fake_sleep

logging.getLogger().addHandler(logging.NullHandler())
logging.lastResort = None
logging.raiseExceptions = False


_FRESH = {}           # values the settings and counters of url_or_file_open have in a fresh process


def remember():
    """Note the state of a fresh process (the code under test has just been imported)."""
    m = sys.modules.get('resync.url_or_file_open')
    for k, v in list(vars(m).items()) if m is not None else ():
        if not k.startswith('__') and (v is None or isinstance(v, (bool, int, float, str, dict, list, set))):
            _FRESH[k] = copy.deepcopy(v)


def _reset_module():
    m = sys.modules.get('resync.url_or_file_open')
    if m is None:
        return
    for k, v in _FRESH.items():
        now = getattr(m, k, None)
        if isinstance(v, (dict, list, set)) and type(now) is type(v):
            # others may hold it
            now.clear()
            if isinstance(v, list):
                now.extend(copy.deepcopy(v))
            else:
                now.update(copy.deepcopy(v))
        else:
            setattr(m, k, copy.deepcopy(v))


def reset():
    """Put all process-wide state back to what a fresh process has."""
    del SLEEPS[:]
    _install(NoWeb)
    _reset_module()
    d = sys.modules.get('distutils.dir_util')
    if d is not None:
        for name in ('_path_created', 'SkipRepeatAbsolutePaths'):
            c = getattr(d, name, None)
            if hasattr(c, 'clear'):
                try:
                    c.clear()
                except TypeError:
                    pass
    for name in ('client', 'resync'):
        lg = logging.getLogger(name)
        for h in list(lg.handlers):
            lg.removeHandler(h)
            h.close()


@contextlib.contextmanager
def quiet():
    """Swallow what the code under test prints."""
    out, err = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        yield
    finally:
        sys.stdout, sys.stderr = out, err


@contextlib.contextmanager
def captured():
    """Capture stdout; yields the StringIO."""
    out = sys.stdout
    sys.stdout = io.StringIO()
    try:
        yield sys.stdout
    finally:
        sys.stdout = out


class LogCapture(logging.Handler):
    """Collect log messages of a logger."""

    def __init__(self, name='resync', level=logging.DEBUG):
        super().__init__(level)
        self.records = []
        self._logger = logging.getLogger(name)

    def emit(self, record):
        self.records.append((record.levelno, record.getMessage()))

    def messages(self, minlevel=0):
        return [m for (lv, m) in self.records if lv >= minlevel]

    def __enter__(self):
        self._logger.addHandler(self)
        self._old = self._logger.level
        self._logger.setLevel(logging.DEBUG)
        return self

    def __exit__(self, *a):
        self._logger.removeHandler(self)
        self._logger.setLevel(self._old)


class _Body(io.RawIOBase):
    """Response body that can fail part-way."""

    def __init__(self, data, fail_at=None, exc=None, on_read=None):
        self._on_read = on_read
        self._data = data
        self._pos = 0
        self._fail_at = fail_at
        self._exc = exc

    def readable(self):
        return True

    def readinto(self, b):
        if self._on_read is not None:
            self._on_read()
        end = len(self._data)
        if self._exc is not None:
            end = min(end, self._fail_at)
            if self._pos >= end:
                raise self._exc
        n = min(len(b), end - self._pos)
        b[:n] = self._data[self._pos:self._pos + n]
        self._pos += n
        return n


class FakeWeb(object):
    """All of http: and https:, served from a dict, with scripted faults.

    pages  - {url: bytes}
    faults - {url: [fault, ...]} consumed one per request before success:
             'ok', 'timeout' (no response), 'connect-timeout', ['mid-timeout', n] / ['mid-reset', n]
             (n bytes, then failure), 'refused', 'reset', an int (HTTP status)
    """

    def __init__(self, pages=None, faults=None):
        self.pages = dict(pages or {})
        self.faults = {u: list(f) for u, f in (faults or {}).items()}
        self.headers = {}
        self.log = []          # (method, url)
        self.requests = []     # dicts
        self.on_request = None
        self.on_read = None    # called with the URL before each read of a response
        self.default = None    # served for every other URL
        self.codes = {}
        self.no_length = False  # leave out Content-Length

    def install(self):
        _install(self)
        return self

    def count(self, url, method=None):
        return sum(1 for (m, u) in self.log if u == url and (method is None or m == method))

    def serve(self, req):
        url = req.full_url
        self.log.append((req.get_method(), url))
        self.requests.append({
            'method': req.get_method(), 'url': url,
            'timeout': req.timeout,
            'headers': {k.lower(): v for k, v in req.header_items()},
            'sleeps': len(SLEEPS)})
        if self.on_request is not None:
            self.on_request(req)
        fault = 'ok'
        if self.faults.get(url):
            fault = self.faults[url].pop(0)
        if fault == 'timeout':
            raise socket.timeout('timed out')
        if fault == 'connect-timeout':
            raise urllib.error.URLError(socket.timeout('timed out'))
        if fault == 'refused':
            raise urllib.error.URLError(ConnectionRefusedError(111, 'Connection refused'))
        if fault == 'reset':
            raise ConnectionResetError(104, 'Connection reset by peer')
        if isinstance(fault, int):
            return self._response(url, b'error', fault)
        if url not in self.pages and self.default is None:
            return self._response(url, b'not found', 404)
        data = self.pages.get(url, self.default)
        if req.get_method() == 'HEAD':
            return self._response(url, b'', self.codes.get(url, 200), length=len(data))
        if isinstance(fault, (list, tuple)):
            exc = (socket.timeout('timed out') if fault[0] == 'mid-timeout'
                   else ConnectionResetError(104, 'Connection reset by peer'))
            return self._response(url, data, 200, fail_at=min(fault[1], len(data)), exc=exc)
        return self._response(url, data, 200)

    def _response(self, url, data, code, length=None, fail_at=None, exc=None):
        h = email.message.Message()
        if not self.no_length:
            h['Content-Length'] = str(len(data) if length is None else length)
        for k, v in self.headers.get(url, {}).items():
            h[k] = v
        body = _Body(data, fail_at, exc, self.on_read and (lambda: self.on_read(url)))
        r = urllib.response.addinfourl(io.BufferedReader(body) if exc is None else body, h, url, code)
        r.msg = {200: 'OK', 404: 'Not Found'}.get(code, 'Error')
        return r


class _NoWeb(object):
    """No fake web installed: nothing answers."""

    def serve(self, req):
        raise urllib.error.URLError('no network in this check')


NoWeb = _NoWeb()
_current = [NoWeb]


class _HTTP(urllib.request.HTTPHandler):
    def http_open(self, req):
        return _current[0].serve(req)


class _HTTPS(urllib.request.HTTPSHandler):
    def https_open(self, req):
        return _current[0].serve(req)


# Openers made by others end here as well (without reading certificates each time)
urllib.request.HTTPSHandler.__init__ = lambda self, debuglevel=None, context=None, check_hostname=None: (
    urllib.request.AbstractHTTPHandler.__init__(self, debuglevel or 0))
urllib.request.HTTPHandler.http_open = _HTTP.http_open
urllib.request.HTTPSHandler.https_open = _HTTPS.https_open
_opener = urllib.request.build_opener(urllib.request.ProxyHandler({}), _HTTP, _HTTPS)


def _install(web):
    _current[0] = web
    urllib.request.install_opener(_opener)


def drop_privileges(uid=65534, gid=65534):
    """Become an unprivileged user for good, if we are root."""
    if os.getuid() == 0:
        try:
            os.setgroups([])
            os.setgid(gid)
            os.setuid(uid)
        except OSError:
            return False
    return True


def encoding(ctype):
    """Make the default encoding of text files that of a locale (that of file names stays UTF-8)."""
    if ctype:
        try:
            locale.setlocale(locale.LC_CTYPE, ctype)
        except locale.Error:
            pass

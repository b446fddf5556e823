"""Generators shared by the property modules. All yield JSON-able values."""

from hypothesis import strategies as st

# --- strings -------------------------------------------------------------

# Characters legal in XML 1.0, without white space and without surrogates
_XMLISH = st.characters(blacklist_categories=('Cs', 'Cc', 'Zs', 'Zl', 'Zp', 'Cn'),
                        blacklist_characters='\ufffe\uffff\ufeff')
SEG_PLAIN = st.text('abcdefgh0123456789', min_size=1, max_size=6)
SEG_ODD = st.text(st.one_of(st.sampled_from("abAB01-_.~+()[]{}$*!',;:@&=%^|\\\"<>#?é日ß€\U0001F600\x85\u2028\x7f"),
                            _XMLISH), min_size=1, max_size=8)
SEG_REGEX = st.sampled_from(['a.b', 'a+b', '(x)', '[y]', 'a*', '$1', '^q', 'x|y', 'a{2}', 'b\\d', '.hid', 'axb', 'aab'])


def no_dots(s):
    return s not in ('.', '..')


def segs(odd=True):
    base = [SEG_PLAIN, SEG_PLAIN]
    if odd:
        base += [SEG_ODD.filter(no_dots), SEG_REGEX]
    return st.one_of(*base)


HOSTS = st.sampled_from(['example.org', 'example.com', 'a.example.org', 'www.x-y.net', 'localhost:8080',
                         'h', '127.0.0.1'])
SCHEMES = st.sampled_from(['http', 'http', 'https'])


@st.composite
def uris(draw, odd=True, max_segs=4, hosts=HOSTS, trailing=True):
    """Absolute http(s) URI, any printable characters in its path."""
    s = draw(st.lists(segs(odd), min_size=0 if trailing else 1, max_size=max_segs))
    u = draw(SCHEMES) + '://' + draw(hosts) + '/' + '/'.join(s)
    if odd:
        q = draw(st.sampled_from(['', '', '', '?a=1&b=2', '?q', '#frag']))
        u += q
    return u


# --- numbers -------------------------------------------------------------

@st.composite
def timestamps(draw, lo=0, hi=4102444799):
    """Seconds since the epoch, to at most a microsecond."""
    s = draw(st.one_of(st.integers(lo, hi), st.integers(1000000000, 1700000000),
                       st.sampled_from([0, 1, 951782400, 1330473600, 1356998399, 2147483647, 2147483648, 4102444799])))
    us = draw(st.one_of(st.just(0), st.just(0), st.integers(0, 999999),
                        st.sampled_from([1, 10, 100000, 500000, 499999, 999999, 999990])))
    return s if us == 0 else s + us / 1e6


LENGTHS = st.one_of(st.integers(0, 2 ** 40), st.sampled_from([0, 1, 2 ** 31, 2 ** 63]), st.integers(0, 300))
MD5 = st.text('0123456789abcdef', min_size=32, max_size=32)
SHA1 = st.text('0123456789abcdef', min_size=40, max_size=40)
SHA256 = st.text('0123456789abcdef', min_size=64, max_size=64)
MIME = st.sampled_from(['text/html', 'application/xml', 'image/png', 'text/plain; charset="utf-8"',
                        'application/atom+xml', 'x/&<y>'])

CAPABILITIES = ['resourcelist', 'changelist', 'resourcedump', 'changedump',
                'resourcedump-manifest', 'changedump-manifest', 'capabilitylist', 'description',
                'resourcelist-archive', 'resourcedump-archive', 'changelist-archive', 'changedump-archive']

# Attribute values: anything legal in XML
ATT_TEXT = st.text(st.one_of(st.sampled_from('abcXYZ012 -_.~+()&<>"\'/=;%é日\n\t\r\x85\u2028'), _XMLISH), max_size=12)


def opt(s, weight=1):
    """s or None."""
    return st.one_of(*([st.none()] + [s] * weight))


@st.composite
def links(draw):
    ln = {'rel': draw(st.sampled_from(['describedby', 'up', 'index', 'contents', 'duplicate', 'alternate',
                                       'canonical', 'http://www.openarchives.org/rs/terms/patch', 'memento'])),
          'href': draw(st.one_of(uris(), ATT_TEXT))}
    for att, s in (('hash', MD5.map(lambda x: 'md5:' + x)), ('length', LENGTHS),
                   ('modified', timestamps().map(w3c)), ('path', ATT_TEXT),
                   ('pri', st.sampled_from([1, 2, 500, 999998, 999999])), ('mime_type', MIME)):
        if draw(st.integers(0, 3)) == 0:
            ln[att] = draw(s)
    return ln


def w3c(t):
    """Independent W3C datetime formatter: UTC, microseconds when there are any."""
    import datetime
    us = int(round(t * 1000000))
    d = datetime.datetime(1970, 1, 1) + datetime.timedelta(microseconds=us)
    return d.strftime('%Y-%m-%dT%H:%M:%S').zfill(19) + ('.%06d' % d.microsecond if d.microsecond else '') + 'Z'


RES_FIELDS = ['timestamp', 'length', 'mime_type', 'md5', 'sha1', 'sha256', 'change', 'ts_datetime', 'path', 'ln',
              'capability', 'ts_at', 'ts_completed', 'ts_from', 'ts_until']


@st.composite
def resources(draw, uri=None, need_change=False, rich=True):
    """A Resource as a dict of constructor arguments."""
    r = {'uri': draw(uri if uri is not None else uris())}
    p = {'timestamp': timestamps(), 'length': LENGTHS, 'mime_type': MIME, 'md5': MD5, 'sha1': SHA1,
         'sha256': SHA256, 'change': st.sampled_from(['created', 'updated', 'deleted']),
         'ts_datetime': timestamps(), 'path': ATT_TEXT}
    if rich:
        p.update({'ln': st.lists(links(), min_size=1, max_size=3),
                  'capability': st.sampled_from(CAPABILITIES + ['x-new']),
                  'ts_at': timestamps(), 'ts_completed': timestamps(),
                  'ts_from': timestamps(), 'ts_until': timestamps()})
    names = sorted(p)
    chosen = draw(st.lists(st.sampled_from(names), unique=True, max_size=len(names)))
    if need_change and 'change' not in chosen:
        chosen.append('change')
    for k in chosen:
        r[k] = draw(p[k])
    return r


def make(Resource, d):
    """Resource from a dict, with its own copies of the links."""
    d = dict(d)
    if d.get('ln') is not None:
        d['ln'] = [dict(x) for x in d['ln']]
    return Resource(**d)


def same_time(a, b):
    """Equal timestamps to the microsecond (None equals None only)."""
    if a is None or b is None:
        return a is None and b is None
    return abs(a - b) < 6e-7


# --- file trees ----------------------------------------------------------

@st.composite
def file_paths(draw, min_size=0, max_size=6, names=None, max_depth=3):
    """Relative file paths none of which is a directory of another."""
    names = names if names is not None else SEG_PLAIN
    raw = draw(st.lists(st.lists(names, min_size=1, max_size=max_depth), min_size=min_size, max_size=max_size))
    out = []
    for p in raw:
        s = '/'.join(p)
        if any(s == o or s.startswith(o + '/') or o.startswith(s + '/') for o in out):
            continue
        out.append(s)
    return out


CONTENT = st.one_of(st.text('ab\n', max_size=8), st.integers(0, 40).map(lambda n: 'x' * n),
                    st.sampled_from(['', 'hello', '\x00\xff\x80', 'a\r\nb']))


BIG = '\u0100'   # begins the short form of a big content: BIG + number of bytes + ':' + its end


def big(n, end='.'):
    return '%s%d:%s' % (BIG, n, end)


def content_bytes(s):
    if s.startswith(BIG):
        n, end = s[1:].split(':', 1)
        return (b'0123456789abcdef\n' * (int(n) // 17 + 1))[:int(n)] + end.encode('latin-1')
    return s.encode('latin-1')


def swapped(s):
    """Another content of the same size (which is not 0)."""
    if s.startswith(BIG):
        return s[:-1] + ('x' if s[-1] != 'x' else 'y')
    return ('x' if s[0] != 'x' else 'y') + s[1:]

"""Shared pieces of the synchronization checks: sources, trees, running the client."""

import hashlib
import os
import re

from rsverif import env, gen

STATUS = re.compile(r'Status:\s+(.*?) \((.*)\)')


def digests(data, kinds):
    out = {}
    for k in kinds:
        if k == 'md5':
            out['md5'] = hashlib.md5(data).hexdigest()
        elif k == 'sha-1':
            out['sha1'] = hashlib.sha1(data).hexdigest()
        elif k == 'sha-256':
            out['sha256'] = hashlib.sha256(data).hexdigest()
    return out


def write_file(path, data, mtime=None):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'wb') as fh:
        fh.write(data)
    if mtime is not None:
        us = int(round(mtime * 1000000))
        os.utime(path, ns=(us * 1000, us * 1000))


def tree(top, times=False):
    """{relative path: content} of all files (symlinks and directories marked)."""
    out = {}
    for base, dirs, files in os.walk(top):
        for f in files:
            p = os.path.join(base, f)
            if os.path.islink(p):
                out[os.path.relpath(p, top)] = ('link', os.readlink(p))
                continue
            with open(p, 'rb') as fh:
                data = fh.read()
            out[os.path.relpath(p, top)] = (data, os.stat(p).st_mtime_ns) if times else data
        if times:
            for x in dirs:
                out[os.path.relpath(os.path.join(base, x), top) + '/'] = 'dir'
    return out


def escape(s):
    return (s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('"', '&quot;'))


def document(capability, entries, root='urlset', md=None, ln=()):
    """A ResourceSync document made without the code under test.

    entries - dicts with uri and optionally lastmod, and any rs:md attributes
    """
    out = ['<?xml version="1.0" encoding="UTF-8"?>\n<%s xmlns="http://www.sitemaps.org/schemas/sitemap/0.9" '
           'xmlns:rs="http://www.openarchives.org/rs/terms/">' % root]
    for x in ln:
        out.append('<rs:ln rel="%s" href="%s"/>' % (escape(x[0]), escape(x[1])))
    atts = dict(md or {})
    if capability is not None:
        atts['capability'] = capability
    if atts:
        out.append('<rs:md %s/>' % ' '.join('%s="%s"' % (k, escape(str(v))) for k, v in sorted(atts.items())))
    tag = 'sitemap' if root == 'sitemapindex' else 'url'
    for e in entries:
        e = dict(e)
        out.append('<%s><loc>%s</loc>' % (tag, escape(e.pop('uri'))))
        if e.get('lastmod') is not None:
            out.append('<lastmod>%s</lastmod>' % e['lastmod'])
        e.pop('lastmod', None)
        if e:
            out.append('<rs:md %s/>' % ' '.join('%s="%s"' % (k, escape(str(v))) for k, v in sorted(e.items())))
        out.append('</%s>' % tag)
    out.append('</%s>\n' % root)
    return ''.join(out).encode('utf-8')


def split_document(capability, entries, uri, limit):
    """{uri: bytes} of a list, as an index with parts when there are more than limit entries."""
    if limit is None or len(entries) <= limit:
        return {uri: document(capability, entries)}
    stem = uri[:-4] if uri.endswith('.xml') else uri
    pages, parts = {}, []
    for i in range(0, len(entries), limit):
        u = '%s%05d.xml' % (stem, i // limit)
        parts.append({'uri': u})
        pages[u] = document(capability, entries[i:i + limit], ln=[('index', uri)])
    pages[uri] = document(capability, parts, root='sitemapindex')
    return pages


def hash_att(data, kinds):
    d = digests(data, kinds)
    names = (('md5', 'md5'), ('sha1', 'sha-1'), ('sha256', 'sha-256'))
    return ' '.join('%s:%s' % (n, d[k]) for k, n in names if k in d)


class Outcome(object):
    """What one call of the client did."""

    def __init__(self):
        self.error = None
        self.status = []      # (words, {label: number})
        self.messages = []
        self.records = []     # (level, message)

    def last(self):
        return self.status[-1] if self.status else None


def parse_status(messages):
    out = []
    for m in messages:
        x = STATUS.search(m)
        if x:
            nums = {}
            for part in x.group(2).split(', '):
                k, v = part.rsplit('=', 1)
                k = k.strip()
                base = ('same' if k == 'same' else 'created' if 'creat' in k else
                        'updated' if 'updat' in k else 'deleted')
                nums[base] = int(v)
            out.append((x.group(1).strip(), nums))
    return out


def call(f, *args, **kw):
    """Run a client method; returns its Outcome (errors of the client's own kind are kept)."""
    from resync.client_utils import ClientFatalError, ClientError
    o = Outcome()
    with env.LogCapture('resync') as log:
        try:
            f(*args, **kw)
        except (ClientFatalError, ClientError) as e:
            o.error = e
    o.messages = log.messages()
    o.records = log.records
    o.status = parse_status(log.messages())
    return o


# Names of files in a synchronized tree: valid in URLs as they are
NAME_CHARS = "abcdefgh0123456789ABZ-_.~+()[]$*!',;:@&=%^"
MAP_PREFIXES = ['http://h.example/x', 'http://h.example/xy', 'http://h.example/d/e', 'http://sub.h.example/x',
                'http://h.example/%7Ea.b+c']
DST_NAMES = ['out', 'out2', 'o/deep', 'o.x', 'ou']


KINDS = ['new', 'new', 'extra', 'same', 'same', 'touched', 'edited', 'resized', 'swapped', 'hashless']


def worlds(sources=('http', 'http', 'http', 'file'), want_src=False, kinds=KINDS):
    """A source, the state of a destination before synchronization, and the options of the client."""
    from hypothesis import strategies as st
    name = st.one_of(st.text('abcd01', min_size=1, max_size=3), st.text(NAME_CHARS, min_size=1, max_size=6).filter(
        lambda s: s not in ('.', '..')))

    @st.composite
    def build(draw):
        n = draw(st.sampled_from([1, 1, 2, 3]))
        w = {'src': draw(st.sampled_from(sources)), 'rel': draw(st.booleans()),
             'prefixes': draw(st.permutations(MAP_PREFIXES))[:n], 'dsts': draw(st.permutations(DST_NAMES))[:n],
             'hashes': draw(st.sampled_from([[], [], ['md5'], ['sha-1'], ['sha-256'], ['md5', 'sha-256'],
                                             ['md5', 'sha-1', 'sha-256']])),
             'delete': draw(st.booleans()), 'limit': draw(st.sampled_from([None, None, 1, 2, 3])),
             'where': draw(st.sampled_from(['default', 'default', 'explicit', 'wellknown'])),
             'noauth': draw(st.booleans()), 'files': []}
        if w['prefixes'][0] == 'http://sub.h.example/x':
            w['noauth'] = True
        if w['src'] == 'file':
            w['limit'] = None
            w['where'] = draw(st.sampled_from(['default', 'explicit']))
        for i in range(n):
            for p in draw(gen.file_paths(min_size=1 if want_src and i == 0 else 0, max_size=6 if n == 1 else 3, names=name)):
                f = {'map': i, 'path': p, 'src': None, 'dst': None}
                kind = draw(st.sampled_from(kinds))
                ts = draw(st.one_of(st.integers(1000000000, 1400000000), gen.timestamps(1000000000, 1400000000),
                                    st.sampled_from([-1, -86400.5, -2000000000, 1000000000.5])))
                data = draw(st.text('ab\n', max_size=5))
                if draw(st.integers(0, 19)) == 0:
                    # more than what is copied in one go
                    data = gen.big(draw(st.sampled_from([8192, 65535, 65536, 140000, 1100000])))
                given = draw(st.sampled_from([[], ['md5'], ['sha-1'], ['sha-256'], ['md5', 'sha-1', 'sha-256']]))
                if kind != 'extra':
                    f['src'] = {'data': data, 'ts': ts, 'length': True, 'hashes': given}
                    if kind in ('touched', 'edited', 'new') and draw(st.booleans()):
                        f['src']['length'] = False
                    if kind in ('edited', 'new') and draw(st.integers(0, 5)) == 0:
                        f['src']['ts'] = None
                if kind != 'new':
                    d = {'data': data, 'ts': int(ts) + draw(st.sampled_from([0, 0, 0.25])) if ts == int(ts) else int(ts)}
                    if kind in ('touched', 'edited'):
                        d['ts'] = int(ts) + draw(st.sampled_from([-3600, -2, 3, 86400, 400000000]))
                        if ts == int(ts) and draw(st.booleans()):
                            d['ts'] = int(ts) + draw(st.sampled_from([-1, 1]))
                    if kind == 'edited':
                        d['data'] = draw(st.text('ab\n', max_size=5))
                    elif kind == 'resized':
                        d['data'] = data + draw(st.text('xy', min_size=1, max_size=3))
                    elif kind == 'swapped' and data and set(given) & set(w['hashes']):
                        d['data'] = gen.swapped(data)
                    elif kind == 'hashless' and data:
                        f['src']['hashes'] = []
                    f['dst'] = d
                w['files'].append(f)
        if draw(st.integers(0, 3)) == 0 and w['files']:
            # names that differ in case only
            f = draw(st.sampled_from(w['files']))
            p = draw(st.sampled_from([f['path'].upper(), f['path'].swapcase(), f['path'].capitalize()]))
            if not any(p == g['path'] or p.startswith(g['path'] + '/') or g['path'].startswith(p + '/')
                       for g in w['files'] if g['map'] == f['map']):
                kind = draw(st.sampled_from(['new', 'extra', 'same']))
                x = {'data': draw(st.text('ab', max_size=2)), 'ts': draw(st.integers(1000000000, 1400000000))}
                w['files'].append({'map': f['map'], 'path': p, 'src': None if kind == 'extra' else dict(x, length=True, hashes=[]),
                                   'dst': None if kind == 'new' else x})
        if want_src and not any(f['src'] for f in w['files']):
            f = w['files'][0]
            f['src'] = {'data': 'a', 'ts': 1234567890, 'length': True, 'hashes': []}
            if f['dst']:
                f['dst'] = {'data': 'a', 'ts': 1234567890}
        return w
    return build()


class World(object):
    """A generated world put on disk and on the (fake) web."""

    def __init__(self, w, ctx):
        self.w = w
        self.top = ctx.dir
        self.dsts, self.prefixes = [], []
        for i, (p, d) in enumerate(zip(w['prefixes'], w['dsts'])):
            self.dsts.append(d if w['rel'] else os.path.join(self.top, d))
            self.prefixes.append(p if w['src'] == 'http' else os.path.join(self.top, 'src', str(i)))
        self.web = env.FakeWeb().install()
        self.docs = set()
        os.makedirs(os.path.join(self.top, 'other'))
        write_file(os.path.join(self.top, 'other', 'keep'), b'keep', 1000)
        for f in w['files']:
            if f['dst'] is not None:
                write_file(self.path(f), gen.content_bytes(f['dst']['data']), f['dst']['ts'])
        self.publish()

    def path(self, f):
        return os.path.join(self.top, self.w['dsts'][f['map']], f['path'])

    def uri(self, f):
        return self.prefixes[f['map']] + '/' + f['path']

    def entry(self, f):
        s = f['src']
        data = gen.content_bytes(s['data'])
        e = {'uri': self.uri(f)}
        if s['ts'] is not None:
            e['lastmod'] = gen.w3c(s['ts'])
        if s['length']:
            e['length'] = len(data)
        if s['hashes']:
            e['hash'] = hash_att(data, s['hashes'])
        return e

    @property
    def base(self):
        return self.prefixes[0]

    @property
    def list_uri(self):
        if self.w['where'] == 'default':
            return self.base + '/resourcelist.xml'
        if self.w['src'] == 'file':
            return os.path.join(self.top, 'src', 'the list.xml')
        return 'http://h.example/lists/rl.xml'

    def publish(self):
        files = [f for f in self.w['files'] if f['src'] is not None]
        for f in files:
            self.put(self.uri(f), gen.content_bytes(f['src']['data']))
        pages = split_document('resourcelist', [self.entry(f) for f in files], self.list_uri, self.w['limit'])
        if self.w['where'] == 'wellknown':
            pages['http://h.example/cl.xml'] = document('capabilitylist', [
                {'uri': self.list_uri, 'capability': 'resourcelist'}])
            host = '/'.join(self.base.split('/')[:3])
            pages[host + '/.well-known/resourcesync'] = document('description', [
                {'uri': 'http://h.example/cl.xml', 'capability': 'capabilitylist'}])
        for u, data in pages.items():
            self.docs.add(u)
            self.put(u, data)

    def put(self, uri, data):
        if uri.startswith('http'):
            self.web.pages[uri] = data
        else:
            write_file(uri, data)

    def client(self, dryrun=False):
        from resync.client import Client
        c = Client(hashes=self.w['hashes'], dryrun=dryrun)
        maps = ['%s=%s' % m for m in zip(self.prefixes, self.dsts)]
        if len(maps) == 1:
            maps = [self.prefixes[0], self.dsts[0]]
        c.set_mappings(maps)
        c.noauth = self.w['noauth']
        if self.w['where'] == 'explicit':
            c.sitemap_name = self.list_uri
        return c

    def expect(self):
        """{same, updated, deleted, created: [file]} a comparison of source and destination gives."""
        from rsverif.props.c03 import model_equal
        given = set(k for f in self.w['files'] if f['src'] for k in f['src']['hashes'])
        use = set(self.w['hashes']) & given
        out = {'same': [], 'updated': [], 'deleted': [], 'created': []}
        for f in self.w['files']:
            s, d = f['src'], f['dst']
            if s is None and d is not None:
                out['deleted'].append(f)
            elif d is None and s is not None:
                out['created'].append(f)
            elif s is not None:
                sd, dd = gen.content_bytes(s['data']), gen.content_bytes(d['data'])
                a = dict(digests(sd, s['hashes']), uri='u')
                if s['ts'] is not None:
                    a['timestamp'] = s['ts']
                if s['length']:
                    a['length'] = len(sd)
                b = dict(digests(dd, use), uri='u', timestamp=d['ts'], length=len(dd))
                out['same' if model_equal(a, b, 1.0) else 'updated'].append(f)
        return out

    def counts(self, exp):
        return {k: len(v) for k, v in exp.items()}

    def fetched(self):
        """URIs of resources (not documents) requested, in order."""
        return [u for (m, u) in self.web.log if u in self.web.pages and u not in self.docs]

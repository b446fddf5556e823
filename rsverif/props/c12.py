"""C12: mappings between source URIs and destination paths."""

import os
import re
from urllib.parse import quote, unquote

from hypothesis import strategies as st

from rsverif import gen
from rsverif.core import Check
from rsverif.sync import call, document, tree, write_file

RULE = ("lists of mappings whose URIs and paths share prefixes and contain characters special to regular expressions, "
        "and URIs and paths made from them by extending and by small edits; non-trivial: a query is below a mapping or "
        "differs from one below by a small edit")
ASSUMPTIONS = ["no equals sign in URIs and paths given as uri=path", "local sources without colons"]

URI_BASES = ['http://h.example/x', 'http://h.example/x.y', 'http://h.example/x+y', 'http://h.example/(x)', 'http://h.example',
             'http://h.example/x/y', 'http://h.example/[ab]', 'http://h.example/a*b', 'http://h.example/$', 'http://h.example/^a|b',
             'http://h.example/x\\d', 'http://h.example/{2}', 'http://h.example/xy', 'http://h-example/x', 'http://hxexample/x',
             'https://h.example/x', 'http://h.example/x y', 'http://h.example/\u00e9', 'http://h.example/x?q', '/data/src', 'src',
             '/data/src.d', '../src', 'http://h.example/X', 'file:///data/src', 'file://localhost/data/src/in', 'file:///data/o%20p',
             '/data/src?x', 'src#1', '/data/o;p', 'file:///data/o%3Fp',
             'http://_h.example/x', 'http://..h.example/_x_', 'http://u:p@h.example:80/x/..']
PATH_BASES = ['out', 'out2', '/data/out', '/data/out/deep', 'out.d', 'outxd', 'o+', 'o(1)', 'out/deep', '/', './out', 'o u t', '[o]',
              'o*', '/data/src', '/data/src/in', '/data', 'src', 'src/in', '$', 'o|p', '/data/srcx', 'OUT', '/data/o p',
              '/data/o%20p/in', '/data/src?x', '/data/src?y', 'src#1/in', 'src#2', '/data/o;p', '/data/o;q', '/data/o?p/in']
DOTTED = st.lists(st.sampled_from(['..', '..', '.', '', 'a', '...']), min_size=1, max_size=6).map('/'.join)
REST = st.one_of(st.just(''), DOTTED, st.lists(st.one_of(gen.SEG_PLAIN, st.sampled_from(
    ['a', '', 'x.y', 'a b', '..', '.', '..a', 'out', '%2e%2e', 'a\nb', 'x?q=1', 'http:', '\u00e9', 'a;b', '&', "'", '$1', '\\1', '\\g<0>'])),
    min_size=1, max_size=4).map('/'.join))


@st.composite
def maps(draw, max_size=4):
    n = draw(st.integers(1, max_size))
    u = draw(st.lists(st.sampled_from(URI_BASES), min_size=n, max_size=n, unique=draw(st.integers(0, 5)) > 0))
    p = draw(st.lists(st.sampled_from(PATH_BASES), min_size=n, max_size=n, unique=draw(st.integers(0, 5)) > 0))
    slash = st.sampled_from(['', '', '', '/', '//'])
    return [[a + draw(slash), b + draw(slash)] for a, b in zip(u, p)]


@st.composite
def queries(draw, bases):
    base = draw(st.sampled_from(bases)).rstrip('/')
    k = draw(st.integers(0, 9))
    if k < 6:
        return base + '/' + draw(REST)
    if k == 6:
        return base + draw(st.sampled_from(['', 'x', '.', '2/a', '\n', '/\n', '?', '-a/b', ' ']))
    if k == 7 and base:
        i = draw(st.integers(0, len(base) - 1))
        return base[:i] + draw(st.sampled_from(['', 'x', '.', 'X', '/'])) + base[i + draw(st.integers(0, 1)):] + '/' + draw(REST)
    if k == 8:
        return draw(st.sampled_from(['x', ' ', '/', 'see '])) + base + '/a'
    return draw(st.one_of(gen.uris(), REST))


@st.composite
def cases(draw):
    m = draw(maps())
    return {'maps': m, 'form': draw(st.sampled_from(['pairs', 'pairs', 'pairs', 'two', 'default', 'objects'])),
            'uris': draw(st.lists(queries([x[0] for x in m] + URI_BASES[:3]), min_size=1, max_size=6)),
            'paths': draw(st.lists(queries([x[1] for x in m] + PATH_BASES[:3]), min_size=1, max_size=6))}


def literal(frm, to, s):
    """s translated by a mapping, or None."""
    frm, to = frm.rstrip('/'), to.rstrip('/')
    if s == frm:
        return to + '/'
    if s.startswith(frm + '/'):
        return to + s[len(frm):]
    return None


def escapes(rel):
    depth = 0
    for x in rel.split('/'):
        depth += -1 if x == '..' else 0 if x in ('', '.') else 1
        if depth < 0:
            return True
    return False


def default_path(uri):
    """Local path derived from a URI, for http URIs without parameters or query."""
    host, path = re.match(r'\w+://([^/]*)(.*)\Z', uri, re.S).groups()
    s = ''.join(c if c.isalnum() or c in '_-.' else '_' for c in host + '/' + path)
    while '__' in s:
        s = s.replace('__', '_')
    return s.strip('_.')


def local_path(uri):
    """Path of a local source, None if it is not local."""
    if uri.startswith('file:'):
        return unquote(re.match(r'file:(//[^/]*)?(.*)\Z', uri, re.S).group(2)) or '/'
    return None if re.match(r'\w+:', uri) else uri


def overlap(a, b):
    a, b = (os.path.abspath(x).strip('/').split('/') for x in (a, b))
    if a == ['']:
        a = []
    if b == ['']:
        b = []
    n = min(len(a), len(b))
    return a[:n] == b[:n]


def run(case, ctx):
    from resync.mapper import Map, Mapper, MapperError
    m = [tuple(x) for x in case['maps']]
    form = case['form']
    ctx.dir
    if form == 'two':
        m = m[:1]
        mapper = Mapper([m[0][0], m[0][1]], use_default_path=len(case['uris']) % 2 == 0)
    elif form == 'default':
        u = m[0][0]
        m = m[:1]
        mapper = Mapper([u], use_default_path=True)
        got = mapper.mappings[0].dst_path
        if '://' not in u or u.startswith('file:///'):
            ctx.equal(got, u.rstrip('/'), 'default path for a local source')
            m = [(u, u)]
        else:
            ctx.expect('/' not in got and got not in ('', '.', '..') and not got.startswith('.'), 'unsafe default path', got=got)
            if not set(u) & set(';?#'):
                ctx.equal(got, default_path(u.rstrip('/')), 'default path for ' + u)
            m = [(u, got)]
    else:
        seen_u, seen_p, dupe = [], [], False
        for u, p in m:
            dupe = dupe or u.rstrip('/') in seen_u or p.rstrip('/') in seen_p
            seen_u.append(u.rstrip('/'))
            seen_p.append(p.rstrip('/'))
        if form == 'objects':
            mapper = Mapper()
            mapper.mappings = [Map(u, p) for u, p in m]
        else:
            try:
                mapper = Mapper(['%s=%s' % x for x in m], use_default_path=len(case['uris']) % 2 == 0)
                ctx.expect(not dupe, 'duplicate mapping accepted', maps=m)
            except MapperError:
                ctx.expect(dupe, 'mappings refused', maps=m)
                ctx.label('duplicate')
                return
    ctx.equal(len(mapper), len(m), 'number of mappings')
    ctx.equal(mapper.default_src_uri(), m[0][0].rstrip('/'), 'default source URI')
    for u in case['uris']:
        want, frm = None, None
        for a, b in m:
            t = literal(a, b, u)
            if t is not None and not escapes(u[len(a.rstrip('/')):]):
                want, frm = t, (a, b)
                break
        dots = '..' in u.split('/')
        ctx.nontrivial(want is not None)
        ctx.label('mapped' if want is not None else 'not mapped')
        try:
            got = mapper.src_to_dst(u)
        except MapperError:
            got = None
        if dots:
            # which of these are refused is not laid down, but what comes out is below a destination
            ctx.label('dot segments')
            if got is not None:
                ctx.expect(any(literal(a, b, u) == got and not escapes(u[len(a.rstrip('/')):]) for a, b in m),
                           'translated to a path outside', uri=u, path=got, maps=m)
        else:
            ctx.equal(got, want, 'path for %r' % u, maps=m)
        if got is not None and frm is not None and not dots:
            single = Map(*frm)
            ctx.equal(single.src_to_dst(u), got, 'path by the mapping alone')
            back = u if u != frm[0].rstrip('/') else u + '/'
            ctx.equal(single.dst_to_src(got), back, 'there and back by the mapping that applies', uri=u)
            if len(m) == 1 or not any(literal(b, a, got) is not None for a, b in m if (a, b) != frm):
                ctx.equal(mapper.dst_to_src(got), back, 'there and back', uri=u, maps=m)
    for p in case['paths']:
        want, frm = None, None
        for a, b in m:
            want = literal(b, a, p)
            if want is not None:
                frm = (a, b)
                break
        ctx.nontrivial(want is not None)
        try:
            got = mapper.dst_to_src(p)
        except MapperError:
            got = None
        ctx.equal(got, want, 'URI for %r' % p, maps=m)
        if want is not None and '..' not in p.split('/'):
            single = Map(*frm)
            ctx.equal(single.src_to_dst(want), p if p != frm[1].rstrip('/') else p + '/', 'back and there by the mapping that applies',
                      path=p)
    want = any(local_path(a) is not None and overlap(local_path(a).rstrip('/') or ('' if a == '' else '/'), b.rstrip('/') or '/') for a, b in m)
    if not any(b.rstrip('/') == '' for a, b in m):
        ctx.label('unsafe', want)
        ctx.equal(mapper.unsafe(), want, 'unsafe', maps=m)


ARG = st.one_of(st.sampled_from(['http://h.example/x', 'out', 'http://h.example/x=out', 'http://h.example/y=out2', 'a=b=c', '=', '=out',
                                 'http://h.example/x/=out3', 'src', '/data', 'http://h.example/z=out/', 'http://h.example/q?a=b', '']))


GOOD = st.sampled_from(['http://h.example/%s=%s' % (a, b) for a in ('x', 'y', 'x/', 'z', 'x/y', 'x+', 'x.') for b in ('o', 'o/', 'p', 'q', 'o.', 'r')])
PLAIN = st.sampled_from(['http://h.example/x', 'http://h.example/x/', 'out', 'out/', '/data/', 'src', 'http://h.example/a;b'])


def run_args(case, ctx):
    """What is made of a list of arguments, as documented."""
    from resync.mapper import Mapper, MapperError
    args = case['args']
    eq = [a.count('=') for a in args]
    want = None
    if not args:
        want = []
    elif case['default'] and len(args) == 1 and eq[0] == 0:
        want = 'default'
    elif len(args) == 2 and eq == [0, 0]:
        want = [(args[0].rstrip('/'), args[1].rstrip('/'))]
    elif all(n == 1 for n in eq):
        pairs = [tuple(x.rstrip('/') for x in a.split('=')) for a in args]
        if len(set(p[0] for p in pairs)) == len(set(p[1] for p in pairs)) == len(pairs):
            want = pairs
    ctx.nontrivial(len(args) > 1)
    ctx.label('good' if want is not None else 'refused')
    try:
        m = Mapper(args, use_default_path=case['default'])
        ctx.expect(want is not None, 'bad mappings accepted', args=args)
        got = [(x.src_uri, x.dst_path) for x in m.mappings]
        if want == 'default':
            ctx.equal(len(got), 1, 'number of mappings')
            ctx.equal(got[0][0], args[0].rstrip('/'), 'source URI')
        else:
            ctx.equal(got, want, 'mappings')
        if not args:
            for f in (m.default_src_uri, lambda: m.src_to_dst('a'), lambda: m.dst_to_src('a')):
                try:
                    f()
                    ctx.fail('no MapperError from an empty mapper')
                except MapperError:
                    pass
            ctx.expect(not m.unsafe(), 'empty mapper unsafe')
    except MapperError:
        ctx.expect(want is None, 'good mappings refused', args=args)


PLACES = [['s', 'd'], ['s', 's'], ['s', 's/in'], ['d/s', 'd'], ['s', 'sx'], ['sx', 's'], ['s/in', 's/inner'], ['s', 'd/s'],
          ['s.d', 's'], ['d/s', 'd/s/in/deep'], ['s/in/deep', 's'], ['s', 'd/../s'], ['s', 'd/../s/in']]


@st.composite
def guarded(draw):
    return {'place': draw(st.sampled_from(PLACES)), 'rel': draw(st.sampled_from(['no', 'no', 'both', 'source', 'destination', 'file'])),
            'slash': draw(st.tuples(st.sampled_from(['', '/']), st.sampled_from(['', '/'])).map(list)),
            'extra': draw(st.sampled_from([None, None, 'first', 'last'])), 'delete': draw(st.booleans()),
            'dry': draw(st.integers(0, 3)) == 0, 'stray': draw(st.booleans()),
            'mode': draw(st.sampled_from(['baseline', 'baseline', 'incremental', 'audit']))}


def run_guarded(case, ctx):
    """No synchronization is done with unsafe mappings."""
    from resync.client import Client
    a, b = case['place']
    os.makedirs(os.path.join(ctx.dir, 'd'))
    top = ctx.dir
    src, dst = os.path.join(top, a), os.path.join(top, b)
    unsafe = overlap(src, dst)
    if case['rel'] in ('both', 'source'):
        src = a
    if case['rel'] in ('both', 'destination'):
        dst = b
    if case['rel'] == 'file':
        src = 'file://' + quote(src)
    content = {'f1': b'one', 'g/f2': b'two'}
    t = 1234567890
    entries = []
    for n, data in content.items():
        write_file(os.path.join(top, a, n), data, t)
        entries.append({'uri': src + '/' + n, 'lastmod': '2009-02-13T23:31:30Z', 'length': len(data)})
    write_file(os.path.join(top, a, 'resourcelist.xml'), document('resourcelist', entries), t)
    write_file(os.path.join(top, a, 'changelist.xml'), document('changelist', [
        dict(e, change='updated', datetime='2009-02-13T23:31:31Z') for e in entries]), t)
    if case['stray']:
        write_file(os.path.join(top, b, 'stray'), b'stray', t)
    maps = [src + case['slash'][0] + '=' + dst + case['slash'][1]]
    if case['extra'] is not None:
        os.makedirs(os.path.join(top, 'e1'))
        maps.insert(0 if case['extra'] == 'first' else 1, '%s=%s' % (os.path.join(top, 'e1'), os.path.join(top, 'e2')))
    c = Client(dryrun=case['dry'])
    c.set_mappings(maps)
    c.noauth = True
    before = tree(top, times=True)
    if case['mode'] == 'incremental':
        o = call(c.incremental, allow_deletion=case['delete'], from_datetime='2009-01-01T00:00:00Z',
                 change_list_uri=os.path.join(top, a, 'changelist.xml'))
    else:
        c.sitemap_name = os.path.join(src, 'resourcelist.xml')
        o = call(c.baseline_or_audit, allow_deletion=case['delete'], audit_only=case['mode'] == 'audit')
    ctx.nontrivial()
    if unsafe and case['mode'] != 'audit':
        ctx.label('unsafe')
        ctx.expect(o.error is not None, 'synchronization with unsafe mappings', maps=maps)
        ctx.equal(tree(top, times=True), before, 'everything on disk after refusing unsafe mappings')
        return
    ctx.label('safe', case['mode'] != 'audit')
    ctx.expect(o.error is None, 'refused with safe mappings' if not unsafe else 'audit refused', maps=maps, error=str(o.error))
    if case['dry'] or case['mode'] == 'audit':
        ctx.equal(tree(top, times=True), before, 'everything on disk after an audit or dry run')
    else:
        got = tree(os.path.join(top, b))
        for n, data in content.items():
            ctx.equal(got.get(n), data, 'content of ' + n)
        ctx.equal({n: x for n, x in tree(os.path.join(top, a), times=True).items() if n in content or n.endswith('.xml')},
                  {os.path.relpath(n, a): x for n, x in before.items() if n.startswith(a + '/') and (
                      os.path.relpath(n, a) in content or n.endswith('.xml'))}, 'the source')


CHECKS = [Check('unsafe', guarded, run_guarded, quick=300, thorough=3000), Check('mappings', cases, run, quick=1500, thorough=30000, shards=4),
          Check('arguments', lambda: st.fixed_dictionaries({'args': st.one_of(st.lists(ARG, max_size=4), st.lists(GOOD, max_size=4), st.lists(PLAIN, max_size=2)),
                                                              'default': st.booleans()}),
                run_args, quick=1000, thorough=5000)]

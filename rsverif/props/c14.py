"""C14: resource lists built from files on disk."""

import contextlib
import os
import re
import socket

from hypothesis import strategies as st

from rsverif import gen
from rsverif.core import Check
from rsverif.sync import digests, write_file

RULE = ("directory trees with odd names, nested directories, symbolic links, unreadable files, pipes and sockets below one to three mappings, with exclude "
        "patterns and every choice of recorded attributes; non-trivial: at least two files to list, or one to list and "
        "one to leave out")
ASSUMPTIONS = ["destinations of mappings do not overlap and are reached without symbolic links inside them",
               "all directories can be read",
               "a resource list to start from lists none of the files found"]

NAMES = st.one_of(st.sampled_from(['a', 'b', 'a.txt', 'b.xml', '.git', '.hidden', 'a b', 'caf\u00e9', '%41', 'x&y', "it's", 'a+b', 'CVS', 'a~',
                                   '-n', 'new\nline', '..a', '#x', 'c?d', 'resourcelist.xml', '\u65e5\u672c', 'a\n', ' a', 'a ', 'b~']),
                  st.text('abt.', min_size=1, max_size=5).filter(lambda s: s not in ('.', '..')))
PATTERNS = ['a', 'a$', r'.*\.txt$', r'\.', '.git', 'CVS', 'b', '.*b', r'.*\.xml', '[a-b]+$', 'd', 'x|y', '^a', '.*', r'.*/', '', 'caf', 'n.w', 'A']
DSTS = ['out', 'out2', 'o.x', 'deep/er', 'ou', ' out ']
SRCS = ['http://h.example/x', 'http://h.example/xy', 'http://h.example/a.b/c+d', 'https://h.example', 'file:///data']


@st.composite
def cases(draw):
    n = draw(st.sampled_from([1, 1, 2, 3]))
    c = {'srcs': draw(st.permutations(SRCS))[:n], 'dsts': draw(st.permutations(DSTS))[:n], 'files': [],
         'slash': draw(st.booleans()), 'abs': draw(st.booleans()), 'links': draw(st.booleans()), 'length': draw(st.booleans()),
         'set_path': draw(st.booleans()),
         'hashes': draw(st.sampled_from([None, [], ['md5'], ['sha-1'], ['sha-256'], ['md5', 'sha-1'], ['md5', 'sha-1', 'sha-256']])),
         'exclude': draw(st.lists(st.sampled_from(PATTERNS), max_size=3)) if draw(st.booleans()) else [],
         'exclude_calls': draw(st.booleans()), 'start': draw(st.sampled_from([None, None, 'empty', 'some', 'some-at'])),
         'ordered': draw(st.booleans()), 'missing': draw(st.booleans()), 'empty_dir': draw(st.booleans())}
    for i in range(n):
        for p in draw(gen.file_paths(min_size=0, max_size=8 if n == 1 else 4, names=NAMES, max_depth=4)):
            c['files'].append({'map': i, 'path': p, 'data': draw(gen.CONTENT),
                               'ts': draw(gen.timestamps(0, 2000000000)),
                               'link': draw(st.sampled_from([None] * 10 + ['file', 'dangling', 'dir', 'unreadable', 'pipe', 'socket']))})
    k = draw(st.integers(0, 4))
    c['paths'] = None
    if k == 0 and c['files']:
        c['paths'] = draw(st.lists(st.integers(0, len(c['files']) - 1), min_size=1, max_size=3, unique=True))
        c['paths_as'] = draw(st.sampled_from(['file', 'dir']))
    elif k == 1:
        c['paths'] = 'missing'
    return c


def run(case, ctx):
    from resync.mapper import Mapper
    from resync.resource import Resource
    from resync.resource_list import ResourceList, ResourceListOrdered
    from resync.resource_list_builder import ResourceListBuilder
    top = ctx.dir
    dsts = [os.path.join(top, d) if case['abs'] else d for d in case['dsts']]
    slash = '/' if case['slash'] else ''
    mapper = Mapper(['%s=%s' % (s + slash, d + slash) for s, d in zip(case['srcs'], dsts)])
    write_file(os.path.join(top, 'target', 'file'), b'target', 1111111111)
    write_file(os.path.join(top, 'elsewhere', 'x'), b'x', 1000)
    for i, d in enumerate(dsts):
        if not (case['missing'] and i == len(dsts) - 1 and not any(f['map'] == i for f in case['files'])):
            os.makedirs(os.path.join(top, d))
    if case['empty_dir'] and os.path.isdir(os.path.join(top, dsts[0])):
        os.makedirs(os.path.join(top, dsts[0], 'empty', 'dir'))
    for f in case['files']:
        p = os.path.join(top, dsts[f['map']], f['path'])
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if f['link'] in (None, 'unreadable'):
            write_file(p, gen.content_bytes(f['data']), f['ts'])
            if f['link']:
                os.chmod(p, 0)
        elif f['link'] == 'pipe':
            os.mkfifo(p)
        elif f['link'] == 'socket':
            s = socket.socket(socket.AF_UNIX)
            with contextlib.closing(s):
                cwd = os.getcwd()
                os.chdir(os.path.dirname(p))    # such names must be short
                try:
                    s.bind(os.path.basename(p))
                finally:
                    os.chdir(cwd)
        else:
            os.symlink({'file': os.path.join(top, 'target', 'file'), 'dir': os.path.join(top, 'target'),
                        'dangling': os.path.join(top, 'nothing', 'here')}[f['link']], p)
    rlb = ResourceListBuilder(mapper=mapper, set_hashes=case['hashes'], set_length=case['length'], set_path=case['set_path'])
    ctx.expect(rlb.include_symlinks is False, 'symbolic links included by default')
    rlb.include_symlinks = case['links']
    if case['exclude_calls']:
        for p in case['exclude']:
            rlb.add_exclude_patterns([p])
    else:
        rlb.add_exclude_patterns(case['exclude'])

    def excluded(name):
        return any(re.match(p, name) for p in case['exclude'])

    # What is to be scanned
    kw = {}
    roots = [(i, d, None) for i, d in enumerate(dsts)]      # (mapping, start, single file or None)
    if case['paths'] == 'missing':
        kw['paths'] = [os.path.join(dsts[0], 'no such file'), os.path.join(dsts[0], 'no/such')]
        roots = []
    elif case['paths'] is not None:
        roots = []
        for k in case['paths']:
            f = case['files'][k]
            p = os.path.join(dsts[f['map']], f['path'])
            if case['paths_as'] == 'dir':
                p = os.path.dirname(p)
            roots.append((f['map'], p, p if case['paths_as'] == 'file' and f['link'] != 'dir' else None))
        # none inside another
        roots = [r for n, r in enumerate(roots) if not any(
            m != n and (r[1] == q[1] and m < n or r[1].startswith(q[1] + '/')) for m, q in enumerate(roots))]
        kw['paths'] = [r[1] for r in roots]
    want = {}
    left_out = 0
    for f in case['files']:
        p = os.path.join(dsts[f['map']], f['path'])
        for i, start, single in roots:
            if single is not None:
                if single != p:
                    continue
                skip = excluded(p)
            else:
                if i != f['map'] or not p.startswith(start + '/'):
                    continue
                skip = any(excluded(x) for x in p[len(start) + 1:].split('/'))
            if f['link'] in ('dir', 'dangling', 'pipe', 'socket') or (f['link'] == 'file' and not case['links']):
                skip = True
            if f['link'] == 'unreadable' and case['hashes'] and not os.access(p, os.R_OK):
                skip = True
                ctx.label('unreadable')
            if skip:
                left_out += 1
                continue
            want[case['srcs'][i] + p[len(dsts[i]):]] = (f, p)
    if case['paths'] and case['paths'] != 'missing' and case['paths_as'] == 'file':
        # a symbolic link to a directory given as a start is followed, or not: not laid down
        if any(case['files'][k]['link'] == 'dir' for k in case['paths']):
            return
    ctx.nontrivial(len(want) >= 2 or (want and left_out))
    ctx.label('excluded', bool(case['exclude']) and left_out > 0)
    ctx.label('pipe or socket', any(f['link'] in ('pipe', 'socket') for f in case['files']))
    ctx.label('links', any(f['link'] for f in case['files']))
    ctx.label('several mappings', len(dsts) > 1)
    start = {}
    if case['start']:
        kw['resource_list'] = ResourceList(resources_class=ResourceListOrdered) if case['ordered'] else ResourceList()
        if case['start'] != 'empty':
            for u in ('http://other.example/b', 'http://other.example/a'):
                kw['resource_list'].add(Resource(u, length=7, timestamp=77.5))
                start[u] = True
        if case['start'] == 'some-at':
            kw['resource_list'].md_at = '2001-02-03T04:05:06Z'
    rl = rlb.from_disk(**kw)
    if case['start']:
        ctx.expect(rl is kw['resource_list'], 'not the resource list given')
    got = {}
    for r in rl:
        ctx.expect(r.uri not in got, 'listed twice', uri=r.uri)
        got[r.uri] = r
    ctx.equal(sorted(got), sorted(list(want) + list(start)), 'URIs')
    ctx.equal(len(rl), len(want) + len(start), 'number of resources')
    for u in start:
        ctx.equal((got[u].length, got[u].timestamp), (7, 77.5), 'entry of the list to start from')
    for u, (f, p) in want.items():
        r = got[u]
        data = b'target' if f['link'] == 'file' else gen.content_bytes(f['data'])
        ctx.equal(r.length, len(data) if case['length'] else None, 'length of ' + u)
        ctx.expect(gen.same_time(r.timestamp, 1111111111 if f['link'] == 'file' else f['ts']), 'time of ' + u, got=r.timestamp, want=f['ts'])
        ctx.equal(r.path, p if case['set_path'] else None, 'path of ' + u)
        ctx.equal({k: getattr(r, k) for k in ('md5', 'sha1', 'sha256') if getattr(r, k) is not None},
                  digests(data, case['hashes'] or []), 'hashes of ' + u)
        for k in ('change', 'ts_datetime', 'mime_type', 'capability'):
            ctx.expect(getattr(r, k) is None, 'attribute not asked for', name=k)
    ctx.expect(rl.md_at is not None and rl.md_completed is not None, 'times of the scan not recorded')
    from resync.w3c_datetime import str_to_datetime
    if case['start'] == 'some-at':
        ctx.equal(rl.md_at, '2001-02-03T04:05:06Z', 'start time given')
    ctx.expect(str_to_datetime(rl.md_at) <= str_to_datetime(rl.md_completed), 'scan completed before it began')


@st.composite
def client_cases(draw):
    c = draw(cases().filter(lambda c: len(c['files']) > 0))
    c['cl'] = {'hashes': draw(st.sampled_from([[], ['md5'], ['sha-256', 'md5']])),
               'max': draw(st.sampled_from([None, 1, 2, 50000])), 'multi': draw(st.booleans()), 'pretty': draw(st.booleans()),
               'bad': draw(st.sampled_from([None, None, None, '(', '[a', 'nomap'])), 'set_path': draw(st.booleans()),
               'paths': draw(st.sampled_from([None, 'all', 'first']))}
    c['files'] = [dict(f, link=None) for f in c['files']]
    return c


def run_client(case, ctx):
    """The same through the client."""
    from resync.client import Client, ClientFatalError
    top = ctx.dir
    o = case['cl']
    c = Client(hashes=o['hashes'])
    maps = ['%s=%s' % x for x in zip(case['srcs'], case['dsts'])]
    if o['bad'] != 'nomap':
        c.set_mappings(maps)
    c.exclude_patterns = list(case['exclude']) + ([o['bad']] if o['bad'] and o['bad'] != 'nomap' else [])
    c.allow_multifile, c.pretty_xml, c.max_sitemap_entries = o['multi'], o['pretty'], o['max']
    want = {}
    chosen = list(case['dsts'])
    if o['paths'] == 'first':
        chosen = chosen[:1]
    for d in case['dsts']:
        os.makedirs(os.path.join(top, d))
    for f in case['files']:
        d = case['dsts'][f['map']]
        write_file(os.path.join(top, d, f['path']), gen.content_bytes(f['data']), f['ts'])
        if d in chosen and not any(re.match(p, x) for p in case['exclude'] for x in f['path'].split('/')):
            want[case['srcs'][f['map']] + '/' + f['path']] = f
    ctx.nontrivial(len(want) >= 2)
    try:
        rl = c.build_resource_list(paths=','.join(chosen) if o['paths'] else None, set_path=o['set_path'])
        ctx.expect(not o['bad'], 'accepted', bad=o['bad'])
    except ClientFatalError:
        ctx.expect(o['bad'], 'refused')
        ctx.label('refused')
        return
    got = {r.uri: r for r in rl}
    ctx.equal(sorted(got), sorted(want), 'URIs')
    for u, f in want.items():
        r, data = got[u], gen.content_bytes(f['data'])
        ctx.equal(r.length, len(data), 'length of ' + u)
        ctx.equal({k: getattr(r, k) for k in ('md5', 'sha1', 'sha256') if getattr(r, k) is not None},
                  digests(data, o['hashes']), 'hashes of ' + u)
        ctx.equal(r.path, os.path.join(case['dsts'][f['map']], f['path']) if o['set_path'] else None, 'path of ' + u)
    ctx.equal((rl.allow_multifile, rl.pretty_xml, rl.max_sitemap_entries),
              (o['multi'], o['pretty'], o['max'] if o['max'] is not None else 50000), 'settings of the list')


CHECKS = [Check('scan', cases, run, quick=500, thorough=8000, shards=5, thorough_shards=5),
          Check('client', client_cases, run_client, quick=400, thorough=5000, shards=2, thorough_shards=2)]

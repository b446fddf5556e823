"""C18: which documents of a source are used."""

import os
import posixpath
from urllib.parse import quote

from hypothesis import strategies as st

from rsverif import env, gen
from rsverif.core import Check
from rsverif.sync import call, document, split_document, tree

RULE = ("sources (at the root of a server, below it, on the local disk) with any of 16 kinds of document at each of the "
        "candidate URIs, named by absolute, relative and host-relative URIs, searched with and without an explicit list or "
        "capability list; change lists at several places for incremental synchronization; non-trivial: a document that must "
        "be passed over or refused comes before the one to use, or the list is reached through others")
ASSUMPTIONS = ["documents are not split over several when multi-file support is off",
               "a capability list names at most one resource list"]

H = 'http://h.example'
BASES = [H, H + '/data', H + '/a/b', H + '/a.b/c+d', 'https://h.example:8080/x', H + '/data/']
# what may be found where a source description, a capability list and a resource list are looked for
DESC = ['missing', 'missing', 'missing', 'error', 'malformed', 'list', 'caps', 'untyped', 'feed', 'none', 'two', 'one', 'one', 'one',
        'one', 'index']
CAPS = ['missing', 'error', 'malformed', 'list', 'desc', 'untyped', 'index', 'none', 'other', 'good', 'good', 'good', 'good']
LIST = ['missing', 'missing', 'error', 'malformed', 'changes', 'desc', 'archive', 'baddate', 'good', 'good', 'good', 'untyped',
        'index', 'brokenindex', 'empty', 'dupes']
REL = ['abs', 'abs', 'path', 'rel', 'net']


@st.composite
def cases(draw):
    base = draw(st.sampled_from(BASES))
    lists = {k: draw(st.sampled_from(LIST)) for k in ('rl', 'sm', 'hostsm', 'x1', 'x2', 'x3')}
    c = {'base': base, 'lists': lists,
         'desc': {k: draw(st.sampled_from(DESC)) for k in ('wk', 'hostwk')},
         'caps': {k: draw(st.sampled_from(CAPS)) for k in ('c1', 'c2', 'c3')},
         'rel': {k: draw(st.sampled_from(REL)) for k in ('wk', 'hostwk', 'c1', 'c2', 'c3')},
         'how': draw(st.sampled_from(['search'] * 6 + ['sitemap', 'sitemap', 'caplist', 'caplist', 'both'])),
         'multi': draw(st.integers(0, 5)) != 0, 'run': draw(st.sampled_from(['find', 'find', 'audit', 'baseline'])),
         'dst': draw(st.sampled_from(['empty', 'file'])), 'maps': draw(st.sampled_from([1, 1, 2]))}
    if draw(st.booleans()):
        # thin out, so that later candidates matter too
        c['desc'] = {k: draw(st.sampled_from(['missing', 'malformed', 'list'])) for k in c['desc']}
        if draw(st.booleans()):
            c['lists']['rl'] = draw(st.sampled_from(LIST[:8]))
    return c


def relative(how, where, target):
    """target as written in the document at where."""
    if how == 'abs':
        return target
    ts, th, tp = target.split('/', 3)[0], target.split('/', 3)[2], '/' + target.split('/', 3)[3]
    ws, wh, wp = where.split('/', 3)[0], where.split('/', 3)[2], '/' + where.split('/', 3)[3]
    if ts != ws:
        return target
    if how == 'net':
        return '//' + th + tp
    if th != wh:
        return target
    if how == 'path':
        return tp
    return posixpath.relpath(tp, posixpath.dirname(wp))


def run(case, ctx):
    from resync.client import Client
    from resync.client_utils import ClientError, ClientFatalError
    base = case['base'].rstrip('/')
    host = '/'.join(base.split('/')[:3])
    pages, faults = {}, {}
    lists = {'rl': base + '/resourcelist.xml', 'sm': base + '/sitemap.xml', 'hostsm': host + '/sitemap.xml',
             'x1': host + '/data/lists/one.xml', 'x2': 'http://other.example/two.xml', 'x3': base + '/l/three.xml'}
    caps = {'c1': base + '/caps/c1.xml', 'c2': 'http://other.example/c/c2.xml', 'c3': host + '/c3.xml'}
    descs = {'wk': base + '/.well-known/resourcesync', 'hostwk': host + '/.well-known/resourcesync'}
    if base == host:
        case = dict(case, desc=dict(case['desc'], hostwk=case['desc']['wk']),
                    lists=dict(case['lists'], hostsm=case['lists']['sm']))
    docs = set()

    def put(u, data):
        pages[u] = data
        docs.add(u)

    def common(kind, u):
        """Documents that serve no purpose here; True if kind is one of them."""
        if kind == 'missing':
            return True
        if kind == 'error':
            put(u, b'error')
            faults[u] = [500] * 9
        elif kind == 'malformed':
            put(u, b'<urlset><url>')
        elif kind == 'feed':
            put(u, b'<feed xmlns="http://www.w3.org/2005/Atom"/>')
        else:
            return False
        return True

    # lists of resources: each holds a resource that tells which list it is
    found = {}
    for k, u in lists.items():
        kind = case['lists'][k]
        if base == host and k == 'hostsm':
            continue
        res = [{'uri': base + '/from-' + k, 'lastmod': '2001-01-01T00:00:00Z'}]
        if common(kind, u):
            found[u] = None
            continue
        uris = [e['uri'] for e in res]
        if kind == 'good':
            put(u, document('resourcelist', res))
        elif kind == 'untyped':
            put(u, document(None, res))
        elif kind == 'empty':
            put(u, document('resourcelist', []))
            uris = []
        elif kind in ('index', 'brokenindex'):
            res = res + [dict(res[0], uri=base + '/second-' + k)]
            for x, data in split_document('resourcelist', res, u, 1).items():
                put(x, data)
            uris = [e['uri'] for e in res]
            if kind == 'brokenindex':
                pages.pop(u[:-4] + '00001.xml')
            if kind == 'brokenindex' or not case['multi']:
                uris = None
        else:
            uris = None
            if kind == 'changes':
                put(u, document('changelist', [dict(res[0], change='updated')]))
            elif kind == 'desc':
                put(u, document('description', res))
            elif kind == 'archive':
                put(u, document('resourcelist-archive', res))
            elif kind == 'baddate':
                put(u, document('resourcelist', [dict(res[0], lastmod='2001-02-30')]))
            elif kind == 'dupes':
                put(u, document('resourcelist', res + res))
        found[u] = uris
    if base == host:
        found[lists['hostsm']] = found[lists['sm']]
    # capability lists: 'fatal', None (to be passed over) or URI of the resource list
    target = {'c1': lists['x1'], 'c2': lists['x2'], 'c3': lists['x3']}
    named = {}
    for k, u in caps.items():
        kind = case['caps'][k]
        named[u] = None
        rl = {'uri': relative(case['rel'][k], u, target[k]), 'capability': 'resourcelist'}
        other = {'uri': host + '/changelist.xml', 'capability': 'changelist'}
        if common(kind, u):
            continue
        if kind == 'good':
            named[u] = target[k]
            put(u, document('capabilitylist', [other, rl, {'uri': host + '/a', 'capability': 'resourcedump'}]))
        elif kind == 'none':
            named[u] = 'fatal'
            put(u, document('capabilitylist', []))
        elif kind == 'other':
            named[u] = 'fatal'
            put(u, document('capabilitylist', [other, dict(rl, capability='resourcelist-archive')]))
        elif kind == 'list':
            put(u, document('resourcelist', [rl]))
        elif kind == 'desc':
            put(u, document('description', [rl]))
        elif kind == 'untyped':
            put(u, document(None, [rl]))
        elif kind == 'index':
            put(u, document('capabilitylist', [rl], root='sitemapindex'))
    # source descriptions: likewise
    result = {}
    leads = {'wk': caps['c1'], 'hostwk': caps['c2']}
    for k, u in descs.items():
        if base == host and k == 'hostwk':
            result[u] = result[descs['wk']]
            continue
        kind = case['desc'][k]
        cl = {'uri': relative(case['rel'][k], u, leads[k]), 'capability': 'capabilitylist'}
        result[u] = None
        if common(kind, u):
            continue
        if kind == 'one':
            put(u, document('description', [cl]))
            result[u] = leads[k]
        elif kind == 'two':
            put(u, document('description', [cl, dict(cl, uri=caps['c3'])]))
            result[u] = 'fatal'
        elif kind == 'none':
            put(u, document('description', []))
            result[u] = 'fatal'
        elif kind == 'index':
            put(u, document('description', [{'uri': u + '-part'}], root='sitemapindex'))
            put(u + '-part', document('description', [cl]))
            result[u] = leads[k]
        elif kind == 'list':
            put(u, document('resourcelist', [cl]))
        elif kind == 'caps':
            put(u, document('capabilitylist', [cl]))
        elif kind == 'untyped':
            put(u, document(None, [cl]))
    # what is to come of it
    tried = []

    def via_caps(u):
        tried.append(u)
        rl = named.get(u)
        if rl is None or rl == 'fatal':
            return rl
        tried.append(rl)
        return found[rl]

    def search():
        for u in (descs['wk'], descs['hostwk']):
            tried.append(u)
            r = result[u]
            if r is not None and r != 'fatal':
                r = via_caps(r)
            if r is not None:
                return r
        for u in (lists['rl'], lists['sm'], lists['hostsm']):
            tried.append(u)
            if found[u] is not None:
                return found[u]
        return 'fatal'
    how = case['how']
    if how == 'search':
        want = search()
    elif how == 'caplist':
        want = via_caps(caps['c3'])
    else:
        tried.append(lists['x1'])
        want = found[lists['x1']]
    ctx.nontrivial(how == 'caplist' or len(tried) > 1)
    ctx.label('%s: %s' % (how, 'fatal' if want == 'fatal' else 'refused' if want is None else 'used'))
    ctx.label('tried %d' % len(set(tried)))
    pages.update({base + '/' + a + '-' + k: b'data' for a in ('from', 'second') for k in lists})
    web = env.FakeWeb(pages, faults).install()
    dst = os.path.join(ctx.dir, 'dst')
    os.makedirs(dst)
    if case['dst'] == 'file':
        with open(os.path.join(dst, 'old'), 'w') as fh:
            fh.write('old')
    c = Client()
    if case['maps'] == 2:
        c.set_mappings(['%s=%s' % (case['base'], dst), 'http://third.example/z=%s' % os.path.join(ctx.dir, 'z')])
    else:
        c.set_mappings([case['base'], dst])
    c.noauth = True
    c.allow_multifile = case['multi']
    if how in ('sitemap', 'both'):
        c.sitemap_name = lists['x1']
    if how in ('caplist', 'both'):
        c.capability_list_uri = caps['c3']
    before = tree(dst, times=True)
    if case['run'] == 'find':
        try:
            rl = c.find_resource_list()
        except (ClientFatalError, ClientError) as e:
            ctx.expect(want is None or want == 'fatal', 'no list found', error=str(e), tried=tried, want=want)
            if want == 'fatal':
                ctx.expect(isinstance(e, ClientFatalError), 'not a fatal error', error=repr(e))
        else:
            ctx.expect(isinstance(want, list), 'not refused', got=[r.uri for r in rl], tried=tried, want=want)
            ctx.equal([r.uri for r in rl], sorted(want), 'list used', tried=tried)
    else:
        o = call(c.baseline_or_audit, allow_deletion=True, audit_only=(case['run'] == 'audit'))
        if not isinstance(want, list) or not want:
            ctx.expect(o.error is not None, 'not refused', status=o.status)
            ctx.equal(tree(dst, times=True), before, 'destination after a refusal')
        else:
            ctx.expect(o.error is None, 'failed', error=str(o.error), tried=tried)
            if case['run'] == 'audit':
                ctx.equal(o.status[-1][1]['created'], len(want), 'resources to create')
                ctx.equal(tree(dst, times=True), before, 'destination after an audit')
            else:
                ctx.equal(sorted(tree(dst)), sorted(u[len(base) + 1:] for u in want), 'files in the destination')
    got = [u for m, u in web.log if u in docs]
    if how != 'search':
        ctx.expect(set(got) <= set(tried) | set(p for t in tried for p in docs if p.startswith(t[:-4])),
                   'documents other than those named were read', got=got, named=tried)


@st.composite
def change_cases(draw):
    return {'base': draw(st.sampled_from(BASES)), 'maps': draw(st.sampled_from([1, 1, 2])),
            'name': draw(st.sampled_from([None, None, 'cl2.xml', 'sub/cl3.xml', 'abs', 'abs2', 'default.name', 'sub/a:b.xml', '2-1:3', './http://x', '.c:d', 'http', 'a?b:c'])),
            'kind': draw(st.sampled_from(['good', 'good', 'good', 'missing', 'error', 'malformed', 'list', 'untyped', 'index',
                                          'nochange', 'dump'])),
            'explicit': draw(st.booleans()), 'others': draw(st.booleans()), 'multi': draw(st.booleans())}


def run_change(case, ctx):
    """The change list of an incremental synchronization."""
    from resync.client import Client
    base = case['base'].rstrip('/')
    places = {None: base + '/changelist.xml', 'cl2.xml': base + '/cl2.xml', 'sub/cl3.xml': base + '/sub/cl3.xml',
              'abs': 'http://h.example/else/c.xml', 'sub/a:b.xml': base + '/sub/a:b.xml', '2-1:3': base + '/2-1:3', '.c:d': base + '/.c:d',
              './http://x': base + '/./http://x', 'http': base + '/http', 'a?b:c': base + '/a?b:c', 'abs2': 'https://other.example/c.xml', 'default.name': base + '/my.xml'}
    pages = {}
    docs = set()
    dt = '2010-01-01T00:00:00Z'

    def entry(what, **kw):
        pages[base + '/from-' + what] = b'data'
        return dict({'uri': base + '/from-' + what, 'change': 'created', 'datetime': dt}, **kw)
    target = places[case['name']]
    kind = case['kind']
    good = False
    e = entry('target')
    if kind == 'good':
        good = True
        pages[target] = document('changelist', [e])
    elif kind == 'index':
        good = case['multi']
        pages.update(split_document('changelist', [e, entry('target2')], target, 1))
    elif kind == 'list':
        pages[target] = document('resourcelist', [e])
    elif kind == 'dump':
        pages[target] = document('changedump', [e])
    elif kind == 'untyped':
        pages[target] = document(None, [e])
    elif kind == 'nochange':
        x = dict(e)
        del x['change']
        pages[target] = document('changelist', [e, x])
    elif kind == 'malformed':
        pages[target] = b'<urlset'
    faults = {target: [500] * 5} if kind == 'error' else {}
    if case['others']:
        for i, u in enumerate(sorted(set(places.values()) | {base + '/changelist.xml', 'http://h.example/changelist.xml',
                                                             'http://h.example/.well-known/resourcesync'})):
            if u != target and u not in pages:
                pages[u] = document('changelist', [entry('other%d' % i)])
    ctx.nontrivial(case['others'] or case['name'] is not None)
    web = env.FakeWeb(pages, faults).install()
    dst = os.path.join(ctx.dir, 'dst')
    os.makedirs(dst)
    c = Client()
    c.noauth = True
    c.allow_multifile = case['multi']
    c.set_mappings(['%s=%s' % (case['base'], dst), 'http://third.example/z=%s' % os.path.join(ctx.dir, 'z')][:case['maps']])
    if case['explicit']:
        c.sitemap_name = 'http://h.example/elsewhere/rl.xml'
    kw = {'from_datetime': '2009-01-01'}
    if case['name'] == 'default.name':
        c.change_list_name = 'my.xml'
    elif case['name'] is not None:
        kw['change_list_uri'] = target if case['name'].startswith('abs') else case['name']
    o = call(c.incremental, allow_deletion=True, **kw)
    ctx.label('%s %s' % (kind, 'used' if good else 'refused'))
    if good:
        ctx.expect(o.error is None, 'failed', error=str(o.error))
        ctx.equal(sorted(tree(dst)), ['from-target'] + (['from-target2'] if kind == 'index' else []), 'files')
    else:
        ctx.expect(o.error is not None, 'not refused', status=o.status, files=sorted(tree(dst)))
        ctx.equal(sorted(tree(dst)), [], 'files after a refusal')


@st.composite
def local_cases(draw):
    return {'name': draw(st.sampled_from(['src', 'src', 's r c', 's%20c', 's\u00e9%', 's#1', 's?x'])), 'rel': draw(st.booleans()), 'slash': draw(st.booleans()), 'scheme': draw(st.sampled_from(['', '', 'file:', 'file://'])),
            'lists': {k: draw(st.sampled_from(['missing', 'malformed', 'changes', 'good', 'untyped'])) for k in
                      ('resourcelist.xml', 'sitemap.xml', 'named.xml')},
            'wk': draw(st.sampled_from(['missing', 'missing', 'one', 'two', 'malformed'])),
            'how': draw(st.sampled_from(['search', 'search', 'sitemap', 'caplist']))}


def run_local(case, ctx):
    """A source on the local disk."""
    from resync.client import Client
    from resync.client_utils import ClientError, ClientFatalError
    name = case['name']
    if case['how'] != 'sitemap' and not case['scheme']:
        # paths with these are no URI references to resolve others against
        name = name.replace('#', '').replace('?', '')
    src = os.path.join(ctx.dir, 'work', name)
    os.makedirs(os.path.join(src, '.well-known'))
    os.chdir(os.path.join(ctx.dir, 'work'))
    base = name if case['rel'] and not case['scheme'] else case['scheme'] + quote(src) if case['scheme'] else src
    found = {}
    for name, kind in case['lists'].items():
        found[name] = ['http://e/%s' % name] if kind in ('good', 'untyped') else None
        data = {'good': document('resourcelist', [{'uri': 'http://e/' + name}]), 'malformed': b'<a>',
                'untyped': document(None, [{'uri': 'http://e/' + name}]),
                'changes': document('changelist', [{'uri': 'http://e/' + name, 'change': 'updated'}])}.get(kind)
        if data is not None:
            with open(os.path.join(src, name), 'wb') as fh:
                fh.write(data)
    with open(os.path.join(src, 'caps.xml'), 'wb') as fh:
        fh.write(document('capabilitylist', [{'uri': 'named.xml', 'capability': 'resourcelist'}]))
    n = {'one': 1, 'two': 2}.get(case['wk'])
    if case['wk'] != 'missing':
        with open(os.path.join(src, '.well-known', 'resourcesync'), 'wb') as fh:
            fh.write(b'' if n is None else document('description', [
                {'uri': u, 'capability': 'capabilitylist'} for u in ['../caps.xml', '../caps2.xml'][:n]]))
    if case['how'] == 'search':
        want = found['resourcelist.xml'] or found['sitemap.xml'] or 'fatal'
        if n == 2:
            want = 'fatal'
        elif n == 1 and found['named.xml']:
            want = found['named.xml']
    else:
        want = found['named.xml']
    ctx.nontrivial(case['how'] != 'search' or case['wk'] != 'missing' or found['resourcelist.xml'] is None)
    c = Client()
    c.set_mappings([base + ('/' if case['slash'] else ''), os.path.join(ctx.dir, 'dst')])
    sep = base + '/'
    if case['how'] == 'sitemap':
        c.sitemap_name = sep + 'named.xml'
    elif case['how'] == 'caplist':
        c.capability_list_uri = sep + 'caps.xml'
    try:
        rl = c.find_resource_list()
    except (ClientFatalError, ClientError) as e:
        ctx.expect(not isinstance(want, list), 'no list found', error=str(e), want=want)
        if want == 'fatal':
            ctx.expect(isinstance(e, ClientFatalError), 'not a fatal error', error=repr(e))
    else:
        ctx.equal([r.uri for r in rl], want, 'list used')


CHECKS = [
    Check('search', cases, run, quick=700, thorough=10000, shards=4, thorough_shards=6),
    Check('changes', change_cases, run_change, quick=400, thorough=4000, shards=1, thorough_shards=2),
    Check('local', local_cases, run_local, quick=400, thorough=4000, shards=1, thorough_shards=2),
]

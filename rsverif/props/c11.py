"""C11: authority of source documents over resources."""

import os

from hypothesis import strategies as st

from rsverif import env, gen
from rsverif.core import Check
from rsverif.sync import call, document, split_document, tree, write_file

RULE = ("pairs of URIs made from related schemes, hosts, ports and paths; whole synchronizations from lists with and "
        "without resources elsewhere; non-trivial: the URIs of a pair share a part of their host, or something is to "
        "be fetched and at least two places are involved, or a component of an index is elsewhere")
ASSUMPTIONS = ["hosts without user names; nothing is said of hosts that differ in case only", "paths start with one slash",
               "resource lists are given explicitly or by default name, not found by discovery"]

HOSTS = ['h.example', 'sub.h.example', 'a.sub.h.example', 'xh.example', 'h.example.org', 'example', 'h', 'sub-h.example',
         'h.example:80', 'h.example:8080', 'sub.h.example:8080', 'ubsub.h.example', 'hxexample', 'sub.hxexample', '127.0.0.1',
         '1.127.0.0.1', 'xn--h.example', 'H.example', 'sub.H.example', '']
SEG = st.sampled_from(['a', 'a', 'b', 'ab', 'a.b', 'axb', 'a%20b', 'A', 'a+', 'c', '..', '.', 'a;p'])
LAST = st.sampled_from(['', '', 'x', '.', '..', '..?q', '.#f', '...', 'a', 'rl.xml', 'ab', 'x?q=/../b', 'x#/a', '..x', 'x?http://h.example/'])


@st.composite
def urls(draw):
    u = {'scheme': draw(st.sampled_from(['http', 'http', 'http', 'https', 'ftp'])),
         'host': draw(st.sampled_from(HOSTS)), 'dirs': draw(st.lists(SEG, max_size=4)), 'last': draw(LAST)}
    return u


@st.composite
def pairs(draw):
    a = draw(urls())
    b = draw(st.one_of(urls(), urls(), st.just(dict(a))))
    k = draw(st.integers(0, 7))
    if k == 0:
        b['host'] = a['host']
    elif k == 1:
        b['host'] = draw(st.sampled_from(['s.', 's.t.', 'x', '.', ''])) + a['host']
    elif k == 2:
        b['host'] = a['host'] + draw(st.sampled_from(['.s', 'x', ':80']))
    if draw(st.booleans()):
        b['scheme'] = a['scheme']
    if draw(st.booleans()):
        b['host'] = a['host']
    if draw(st.integers(0, 2)) == 0:
        b['dirs'] = a['dirs'] + draw(st.lists(SEG, max_size=2))
    if b['host'].startswith('.'):
        b['host'] = 's' + b['host']
    return {'a': a, 'b': b}


def text(u):
    return '%s://%s/%s' % (u['scheme'], u['host'], ''.join(d + '/' for d in u['dirs']) + u['last'])


def resolve(dirs):
    out = []
    for d in dirs:
        if d == '..':
            out = out[:-1]
        elif d != '.':
            out.append(d)
    return out


def directory(u):
    last = u['last'].split('?')[0].split('#')[0]
    return u['dirs'] + ([last] if last in ('.', '..') else [])


def model(a, b, strict):
    """Whether a has authority over b, for URLs in parts."""
    if a['scheme'] != b['scheme']:
        return False
    ha, hb = a['host'].split('.'), b['host'].split('.')
    if hb[-len(ha):] != ha:
        return False
    if strict:
        da, db = resolve(directory(a)), resolve(directory(b))
        return db[:len(da)] == da
    return True


def parts(url):
    scheme, rest = url.split('://')
    host, path = rest.split('/', 1)
    segs = path.split('/')
    return {'scheme': scheme, 'host': host, 'dirs': segs[:-1], 'last': segs[-1]}


def run_pairs(case, ctx):
    from resync.url_authority import UrlAuthority
    a, b = case['a'], case['b']
    share = a['host'].split('.')[-1] == b['host'].split('.')[-1]
    ctx.nontrivial(share)
    if b['host'].endswith('.') and not a['host']:
        return
    for strict in (False, True):
        want = model(a, b, strict)
        if want != model(dict(a, host=a['host'].lower()), dict(b, host=b['host'].lower()), strict):
            continue
        ctx.label('authority' if want else 'no authority')
        ctx.equal(UrlAuthority(text(a), strict).has_authority_over(text(b)), want,
                  'authority of %s over %s%s' % (text(a), text(b), ' (strict)' if strict else ''))
        ua = UrlAuthority(strict=strict)
        ctx.expect(ua.has_authority_over(text(b)) is False, 'authority without a master', url=text(b))
        ua.set_master(text(a))
        for k in range(2):
            # asking changes nothing
            ctx.equal(ua.has_authority_over(text(b)), want, 'authority of %s over %s' % (text(a), text(b)))
        ctx.expect(ua.has_authority_over(text(a)), 'no authority over itself', url=text(a))


PLACES = ['http://h.example/x', 'http://h.example/x/y', 'http://h.example/z', 'http://h.example/xy', 'http://sub.h.example/x',
          'http://xh.example/x', 'https://h.example/x', 'http://h.example:8080/x', 'http://example/x', 'http://other.org/x',
          'http://sub.h.example/z']
LISTS = ['http://h.example/x/rl.xml', 'http://h.example/x/lists/rl.xml', 'http://h.example/rl.xml', 'http://example/rl.xml',
         'http://sub.h.example/x/rl.xml', 'https://h.example/x/rl.xml', 'http://h.example/x/y/rl.xml', 'http://other.org/rl.xml']


@st.composite
def syncs(draw):
    n = draw(st.integers(1, 3))
    places = draw(st.lists(st.sampled_from(PLACES), min_size=n, max_size=n, unique=True))
    if draw(st.booleans()):
        places = ['http://h.example/x'] + [p for p in places if p != 'http://h.example/x'][:2]
    res = []
    for i, p in enumerate(places):
        for q in draw(st.lists(st.sampled_from(['a', 'd/b', 'd/c', 'e']), unique=True, max_size=3, min_size=1)):
            res.append({'place': i, 'path': q, 'have': draw(st.sampled_from([None, None, 'same', 'old'])),
                        'change': draw(st.sampled_from(['created', 'updated', 'deleted']))})
    return {'places': places, 'res': draw(st.permutations(res)), 'auth': draw(st.sampled_from(['lax', 'lax', 'strict', 'strict', 'off', 'off strict'])),
            'inc': draw(st.booleans()), 'list': draw(st.sampled_from([None] + LISTS)),
            'change_list': draw(st.one_of(st.none(), st.none(), st.sampled_from(LISTS).map(lambda u: u.replace('rl.xml', 'cl.xml')))),
            'limit': draw(st.sampled_from([None, None, 1, 2])), 'old_first': draw(st.booleans()),
            'dry': draw(st.integers(0, 4)) == 0}


def run_sync(case, ctx):
    from resync.client import Client
    top = ctx.dir
    web = env.FakeWeb().install()
    # the more specific mapping first, as it should be given
    order = sorted(range(len(case['places'])), key=lambda i: (i != 0 or any(
        p != case['places'][0] and p.startswith(case['places'][0] + '/') for p in case['places']), -len(case['places'][i])))
    maps = ['%s=%s' % (case['places'][i], 'out%d' % i) for i in order]
    base = case['places'][order[0]]
    strict = case['auth'].endswith('strict')
    entries, files = [], {}
    t = 1200000000
    for r in case['res']:
        u = case['places'][r['place']] + '/' + r['path']
        p = os.path.join('out%d' % r['place'], r['path'])
        if any(f[1] == u for f in files.values()):
            continue
        data = b'content of ' + u.encode()
        t += 10
        if r['have'] == 'same':
            write_file(os.path.join(top, p), data, t)
        elif r['have'] == 'old':
            write_file(os.path.join(top, p), b'old', t - 5000)
        files[p] = (r, u, data)
        e = {'uri': u, 'lastmod': gen.w3c(t), 'length': len(data)}
        if case['inc']:
            e = {'uri': u, 'change': r['change'], 'datetime': gen.w3c(t), 'lastmod': gen.w3c(t)}
        web.pages[u] = data
        entries.append(e)
    if case['inc']:
        entries.sort(key=lambda e: e['datetime'])
    c = Client(dryrun=case['dry'])
    c.set_mappings(maps)
    c.noauth = case['auth'].startswith('off')
    c.strictauth = strict
    c.allow_multifile = True
    rl = case['list'] or base + '/resourcelist.xml'
    if case['list']:
        c.sitemap_name = rl
    masters = [rl]
    kw = {}
    uri = rl
    if case['inc']:
        uri = case['change_list'] or base + '/changelist.xml'
        if case['change_list']:
            kw['change_list_uri'] = uri
            masters = [uri]
        else:
            masters = [rl, uri]
        # a start after the first change, which counts all the same
        kw['from_datetime'] = gen.w3c(1200000011 if case['old_first'] else 1100000000)
    docs = split_document('changelist' if case['inc'] else 'resourcelist', entries, uri, case['limit'])
    web.pages.update(docs)
    foreign = [e['uri'] for e in entries if not any(model(parts(m), parts(e['uri']), strict) for m in masters)]
    todo = {}
    for p, (r, u, data) in files.items():
        if case['inc']:
            if not (case['old_first'] and entries[0]['uri'] == u):
                todo[p] = None if r['change'] == 'deleted' else data
        elif r['have'] != 'same':
            todo[p] = data
    abort = bool(foreign) and not case['auth'].startswith('off') and (bool(todo) or case['inc'])
    ctx.nontrivial(bool(todo) and len(set(case['places'])) > 1 or bool(foreign))
    ctx.label('foreign', bool(foreign))
    ctx.label('abort', abort)
    ctx.label('none foreign, to do', not foreign and bool(todo))
    before = tree(top, times=True)
    if case['inc']:
        o = call(c.incremental, allow_deletion=True, **kw)
    else:
        o = call(c.baseline_or_audit, allow_deletion=True)
    fetched = sorted(u for m, u in web.log if u in web.pages and u not in docs)
    if abort:
        ctx.expect(o.error is not None, 'carried on with a resource it has no authority over', masters=masters,
                   foreign=foreign, auth=case['auth'])
        ctx.equal(fetched, [], 'resources fetched before aborting')
        ctx.equal(tree(top, times=True), before, 'everything on disk after aborting')
        return
    ctx.expect(o.error is None, 'refused although there is authority over all or checks are off', error=str(o.error),
               masters=masters, uris=[e['uri'] for e in entries], auth=case['auth'])
    if case['dry']:
        return
    got = {p: d for p, d in tree(top).items() if not p.startswith('.')}
    want = {p: d for p, (d, mt) in ((p, x) for p, x in before.items() if not p.endswith('/'))}
    for p, data in todo.items():
        if data is None:
            want.pop(p, None)
        else:
            want[p] = data
    ctx.equal(got, want, 'files after synchronization')


@st.composite
def indexes(draw):
    return {'index': draw(st.sampled_from(LISTS)), 'on': draw(st.sampled_from([True, True, False])),
            'kind': draw(st.sampled_from(['ResourceList', 'ChangeList', 'ResourceDump'])),
            'parts': draw(st.lists(st.one_of(st.sampled_from(LISTS), st.just(None)), min_size=1, max_size=4)),
            'mapper': draw(st.booleans())}


def run_index(case, ctx):
    from resync.change_list import ChangeList
    from resync.list_base_with_index import ListBaseIndexError
    from resync.mapper import Mapper
    from resync.resource_dump import ResourceDump
    from resync.resource_list import ResourceList
    web = env.FakeWeb().install()
    cls = {'ResourceList': ResourceList, 'ChangeList': ChangeList, 'ResourceDump': ResourceDump}[case['kind']]
    cap = case['kind'].lower()
    more = {'change': 'updated', 'datetime': '2001-01-01T00:00:00Z'} if cap == 'changelist' else {}
    components, want = [], []
    for i, p in enumerate(case['parts']):
        u = (p or case['index']).replace('rl.xml', 'part%d.xml' % i)
        components.append({'uri': u})
        want.append('http://any.example/%d' % i)
        web.pages[u] = document(cap, [dict(more, uri=want[-1])])
    web.pages[case['index']] = document(cap, components, root='sitemapindex')
    foreign = [e['uri'] for e in components if not model(parts(case['index']), parts(e['uri']), False)]
    ctx.nontrivial(len(components) > 1 and bool(foreign))
    ctx.label('foreign part', bool(foreign))
    lst = cls(mapper=Mapper(['http://h.example=out']) if case['mapper'] else None)
    ctx.expect(not lst.check_url_authority, 'check of authority over components is on without being asked for')
    lst.check_url_authority = case['on']
    try:
        lst.read(uri=case['index'])
        refused = None
    except ListBaseIndexError as e:
        refused = e
    if case['on'] and foreign:
        ctx.expect(refused is not None, 'component read that the index has no authority over', foreign=foreign)
        ctx.expect(not any(u in foreign for m, u in web.log), 'component fetched that the index has no authority over', log=web.log)
    else:
        ctx.expect(refused is None, 'index refused', error=str(refused))
        ctx.equal([r.uri for r in lst], want, 'entries read')


CHECKS = [Check('indexes', indexes, run_index, quick=400, thorough=4000),
          Check('pairs', pairs, run_pairs, quick=2500, thorough=40000, shards=3),
          Check('synchronizations', syncs, run_sync, quick=500, thorough=8000, shards=4)]

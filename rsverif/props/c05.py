"""C05: lists split over several documents."""

import hashlib
import os
import re
import shutil
import xml.etree.ElementTree as ET

from hypothesis import strategies as st

from rsverif import env, gen
from rsverif.core import Check
from rsverif.props.c01 import RS, SM, TIMES, check_resource, expected, new, xml_atts

RULE = ("lists of 0 to 14 entries with a maximum of 1 to 6 per document, of six kinds, written to files and read back "
        "from files and from the web; non-trivial: more entries than the maximum")
ASSUMPTIONS = ["a maximum is always set (the default is 50000)", "the list has at most one link rel=index of its own"]

KINDS = {'ResourceList': ('resourcelist', False, 'sorted'), 'ResourceListOrdered': ('resourcelist', False, 'order'),
         'ChangeList': ('changelist', True, 'order'), 'ResourceDump': ('resourcedump', False, 'sorted'),
         'ResourceDumpManifest': ('resourcedump-manifest', False, 'sorted'), 'ChangeDump': ('changedump', False, 'sorted'),
         'ChangeDumpManifest': ('changedump-manifest', True, 'order'),
         'SourceDescription': ('description', False, 'sorted'), 'Archive': ('changelist-archive', False, 'order')}


def long(kind, m, n, parts, k):
    m = m if m < 3 else 1
    res = [{'uri': 'http://e/%04d' % i, 'length': i} for i in range(m * parts - (k if m > 1 and k < m else 0))]
    for r in res:
        if KINDS[kind][1]:
            r.update(change='updated', ts_datetime=1000000000)
    return {'kind': kind, 'max': m, 'resources': res, 'md': {}, 'ln': [], 'base': 'list.xml', 'map': 'http://h.example/lists',
            'how': 'list', 'spec': '1.1', 'pretty': False, 'lose': k * 25, 'no_length': False}


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(sorted(KINDS)))
    m = draw(st.integers(1, 6))
    n = draw(st.one_of(st.integers(0, 14), st.sampled_from([max(m - 1, 0), m, m + 1, 2 * m - 1, 2 * m, 2 * m + 1, 3 * m])))
    if draw(st.integers(0, 60)) == 0:
        # numbers of parts with more digits
        return long(kind, m, n, draw(st.sampled_from([10, 99, 100, 101, 102, 113, 130])), draw(st.integers(0, 5)))
    names = draw(st.permutations(['u%02d' % i for i in range(n)]))
    res = []
    for i in names:
        r = {'uri': 'http://e/' + i}
        if KINDS[kind][1]:
            r['change'] = draw(st.sampled_from(['created', 'updated', 'deleted']))
            r['ts_datetime'] = draw(gen.timestamps())
        if draw(st.booleans()):
            r['length'] = draw(st.integers(0, 99))
        if draw(st.integers(0, 2)) == 0:
            r['timestamp'] = draw(gen.timestamps())
        res.append(r)
    if kind in ('ChangeList', 'ChangeDumpManifest', 'Archive') and n > 1 and draw(st.booleans()):
        for i in range(draw(st.integers(1, 3))):
            res[draw(st.integers(0, n - 1))]['uri'] = res[draw(st.integers(0, n - 1))]['uri']
    md = draw(st.dictionaries(st.sampled_from(['md_at', 'md_completed', 'md_from', 'md_until']), gen.timestamps(), max_size=2))
    ln = draw(st.lists(gen.links().filter(lambda x: x['rel'] != 'index'), max_size=2))
    if draw(st.integers(0, 3)) == 0:
        # read from a part of an earlier index, say
        ln.insert(draw(st.integers(0, len(ln))), dict(draw(gen.links()), rel='index'))
    return {'kind': kind, 'max': m, 'resources': res, 'md': md, 'ln': ln,
            'base': draw(st.sampled_from(['list.xml', 'list', 'a.b', 'x.xml.xml', 'sub/list.xml', '.xml'])),
            'map': draw(st.sampled_from(['http://h.example/lists', 'https://h.example/', 'http://h.example/a.b/c+d', 'local'])),
            'how': draw(st.sampled_from(['list', 'list', 'iter'])),
            'spec': draw(st.sampled_from(['1.1', '1.1', '1.0'])), 'pretty': draw(st.booleans()),
            'lose': draw(st.integers(0, 20)), 'no_length': draw(st.integers(0, 3)) == 0}


def fresh(case, **kw):
    if case['kind'] == 'Archive':
        from resync.list_base_with_index import ListBaseWithIndex
        return ListBaseWithIndex(capability_name='changelist-archive', spec_version=case['spec'], **kw)
    return new(case['kind'], spec_version=case['spec'], **kw)


def locs(root, tag):
    return [e.find(SM + 'loc').text for e in root.findall(SM + tag)]


def run(case, ctx):
    from resync.mapper import Mapper
    from resync.resource import Resource
    from resync.list_base_with_index import ListBaseIndexError
    cap, need, order = KINDS[case['kind']]
    m, n = case['max'], len(case['resources'])
    d = os.path.join(ctx.dir, 'out')
    os.makedirs(os.path.join(d, 'sub'))
    top = (d if case['map'] == 'local' else case['map']).rstrip('/')
    mapper = Mapper([top, d])
    path = os.path.join(d, case['base'])
    index_uri = top + '/' + case['base']
    multi = n > m
    parts = (n + m - 1) // m
    ctx.nontrivial(multi)
    ctx.label('exact multiple', multi and n % m == 0)
    ctx.label(case['kind'], multi)
    entries = [expected(r, {'spec': case['spec'], 'add_lastmod': False}) for r in case['resources']]
    if order == 'sorted':
        entries.sort(key=lambda e: e['uri'])

    def build(how='list', **kw):
        res = [gen.make(Resource, r) for r in case['resources']]
        if how == 'iter' and order == 'order' and case['kind'] != 'ResourceListOrdered':
            lst = fresh(case, resources=iter(res), **kw)
        else:
            lst = fresh(case, **kw)
            for r in res:
                lst.add(r)
        lst.mapper = mapper
        lst.max_sitemap_entries = m
        lst.pretty_xml = case['pretty']
        for k, t in case['md'].items():
            setattr(lst, k, gen.w3c(t))
        lst.ln = [dict(x) for x in case['ln']]
        return lst
    want_md = dict({k: gen.w3c(t) for k, t in case['md'].items()}, capability=cap)

    def check_back(lst, what):
        ctx.equal([r.uri for r in lst], [e['uri'] for e in entries], 'URIs ' + what)
        for r, e in zip(lst, entries):
            check_resource(r, e, ctx)
        ctx.equal({k: v for k, v in lst.md.items() if v is not None}, want_md, 'metadata ' + what)
        ctx.equal(lst.ln, case['ln'], 'links ' + what)
        ctx.equal(lst.num_files, parts + 1 if multi else 1, 'number of files ' + what)

    # In memory
    lst = build()
    ctx.equal(bool(lst.requires_multifile()), multi, 'needs several files')
    mem_parts = []
    if multi:
        ctx.equal(lst.requires_multifile(), parts, 'number of parts')
        try:
            lst.as_xml()
            ctx.fail('list over the maximum given as one document')
        except ListBaseIndexError:
            pass
        mem = ET.fromstring(lst.as_xml(allow_multifile=True, basename=index_uri))
        ctx.equal(mem.tag, SM + 'sitemapindex', 'root of index')
        ctx.equal([x.get('capability') for x in mem.findall(RS + 'md')], [cap], 'capability of index')
        mem_uris = locs(mem, 'sitemap')
        ctx.equal(len(mem_uris), parts, 'entries of index')
        for i in range(parts):
            p = ET.fromstring(lst.as_xml_part(basename=index_uri, part_number=i))
            ctx.equal(p.tag, SM + 'urlset', 'root of part')
            ctx.equal(locs(p, 'url'), [e['uri'] for e in entries[i * m:(i + 1) * m]], 'entries of part %d' % i)
            ctx.equal([x.get('href') for x in p.findall(RS + 'ln') if x.get('rel') == 'index'], [index_uri], 'index link')
            ctx.equal([x.get('capability') for x in p.findall(RS + 'md')], [cap], 'capability of part')
        for i in (parts, parts + 1, parts + 7):
            try:
                lst.as_xml_part(basename=index_uri, part_number=i)
            except ListBaseIndexError:
                continue
            ctx.fail('part %d of %d given' % (i, parts))
    else:
        mem = ET.fromstring(lst.as_xml())
        ctx.equal(locs(mem, 'url'), [e['uri'] for e in entries], 'entries in memory')
        for f in (lambda: lst.as_xml_index(index_uri), lambda: lst.as_xml_part(index_uri, 0)):
            try:
                f()
            except ListBaseIndexError:
                continue
            ctx.fail('index or part of a list that needs none')
    # Refusals
    if multi:
        lst = build(case['how'], **({} if n % 2 or case['kind'] == 'SourceDescription' else {'allow_multifile': False}))
        if n % 2 or case['kind'] == 'SourceDescription':
            lst.allow_multifile = False
        try:
            lst.write(path)
            ctx.fail('list over the maximum written with multifile off')
        except ListBaseIndexError:
            pass
        lst = build(case['how'])
        lst.mapper = Mapper(['http://other.example/', os.path.join(ctx.dir, 'elsewhere')])
        try:
            lst.write(path)
            ctx.fail('index written where no mapping gives its URI')
        except ListBaseIndexError:
            pass
        ctx.equal(sorted(os.listdir(d) + os.listdir(os.path.join(d, 'sub'))), ['sub'], 'files after refusals')
    # Files
    lst = build(case['how'])
    lst.write(path)
    files = sorted(os.path.relpath(os.path.join(t, f), d) for t, ds, fs in os.walk(d) for f in fs)
    root = ET.parse(path).getroot()
    if not multi:
        ctx.equal(files, [case['base']], 'files written')
        ctx.equal(root.tag, SM + 'urlset', 'root')
        ctx.equal(locs(root, 'url'), [e['uri'] for e in entries], 'entries')
    else:
        ctx.equal(root.tag, SM + 'sitemapindex', 'root')
        uris = locs(root, 'sitemap')
        ctx.equal(uris, mem_uris, 'parts of written and in-memory index')
        ctx.expect(all(u.startswith(top + '/') for u in uris), 'unmapped part URI', uris=uris)
        ctx.equal(sorted([u[len(top) + 1:] for u in uris] + [case['base']]), files, 'files written')
        ctx.equal([dict(x.attrib) for x in root.findall(RS + 'md')],
                  [dict({k[3:]: gen.w3c(t) for k, t in case['md'].items()}, capability=cap)], 'metadata of index')
        ctx.equal([dict(x.attrib) for x in root.findall(RS + 'ln')], [xml_atts(x) for x in case['ln']], 'links of index')
        seen = []
        for u, e in zip(uris, root.findall(SM + 'sitemap')):
            f = os.path.join(d, u[len(top) + 1:])
            with open(f, 'rb') as fh:
                data = fh.read()
            ctx.equal([x.get('hash') for x in e.findall(RS + 'md')], ['md5:' + hashlib.md5(data).hexdigest()], 'md5 of part')
            from resync.w3c_datetime import str_to_datetime
            ctx.expect(gen.same_time(str_to_datetime(e.find(SM + 'lastmod').text), os.stat(f).st_mtime), 'time of part')
            p = ET.fromstring(data)
            ctx.equal(p.tag, SM + 'urlset', 'root of part')
            us = locs(p, 'url')
            ctx.expect(0 < len(us) <= m, 'part with %d entries, maximum %d' % (len(us), m))
            seen.extend(us)
            ctx.equal([x.get('href') for x in p.findall(RS + 'ln') if x.get('rel') == 'index'], [index_uri], 'index link')
            ctx.equal([x.get('capability') for x in p.findall(RS + 'md')], [cap], 'capability of part')
        ctx.equal(seen, [e['uri'] for e in entries], 'entries of all parts')
        ctx.equal(len(uris), parts, 'number of parts')
    # Writing leaves the list as it was, and can be repeated (an iterator can be read but once)
    if case['how'] != 'iter':
        ctx.equal([r.uri for r in lst], [e['uri'] for e in entries], 'URIs after writing')
        whole = {e['uri']: [] for e in entries}
        for r in case['resources']:
            whole[r['uri']].append(expected(r, {'spec': '1.1', 'add_lastmod': False}))
        for r in lst:
            check_resource(r, whole[r.uri].pop(0), ctx)
        ctx.equal(lst.ln, case['ln'], 'links after writing')
        ctx.equal({k: v for k, v in lst.md.items() if v is not None and k != 'capability'},
                  {k: v for k, v in want_md.items() if k != 'capability'}, 'metadata after writing')
        first = {}
        for f in files:
            with open(os.path.join(d, f), 'rb') as fh:
                first[f] = fh.read()
            with open(os.path.join(d, f), 'ab') as fh:
                fh.write(b'<!-- more from an older, longer list -->' * 50)
            os.utime(os.path.join(d, f), (1500000000, 1500000000))
        lst.write(path)
        ctx.equal(sorted(os.path.relpath(os.path.join(t, f), d) for t, ds, fs in os.walk(d) for f in fs), files, 'files written again')
        for f in files:
            with open(os.path.join(d, f), 'rb') as fh:
                data = fh.read()
            if f != case['base'] or not multi:
                ctx.equal(data, first[f], 'document written again')
            else:
                ctx.equal(locs(ET.fromstring(data), 'sitemap'), uris, 'components of index written again')
    # Read back from files
    back = fresh(case)
    back.mapper = mapper
    back.read(path)
    check_back(back, 'read from files')
    if not re.search('[^!-~]|[%#?]', path):
        back = fresh(case)
        back.mapper = mapper
        back.read('file://' + path)
        check_back(back, 'read from a file: URI')
    if multi:
        # components in other places, under other names
        tree = ET.parse(path)
        for i, (u, e) in enumerate(zip(uris, tree.getroot().findall(SM + 'sitemap'))):
            name = ('other/' if i % 2 else 'moved') + str((i * 7 + 3) % parts if parts % 7 else i) + ' x'
            os.makedirs(os.path.dirname(os.path.join(d, name)), exist_ok=True)
            shutil.copy(os.path.join(d, u[len(top) + 1:]), os.path.join(d, name))
            if n % 2:
                # ... that say more about themselves, which is not said of the list
                part = ET.parse(os.path.join(d, name))
                part.getroot().find(RS + 'md').attrib.update(at='2001-01-01', completed='2001-01-02', until='2001-01-03')
                part.getroot().insert(0, ET.Element(RS + 'ln', rel='up', href='http://h.example/of-part'))
                part.write(os.path.join(d, name), encoding='utf-8')
            e.find(SM + 'loc').text = top + '/' + name
        os.makedirs(os.path.join(d, 'third'))
        tree.write(os.path.join(d, 'third', 'index'), encoding='utf-8')
        back = fresh(case)
        back.mapper = mapper
        back.read(('file://' if n % 3 == 0 and not re.search('[^!-~]|[%#?]', d) else '') + os.path.join(d, 'third', 'index'))
        check_back(back, 'read with the parts moved')
    # ... and from the web
    if case['map'] != 'local':
        pages = {}
        for f in files:
            with open(os.path.join(d, f), 'rb') as fh:
                pages[top + '/' + f] = fh.read()
        web = env.FakeWeb(pages).install()
        web.no_length = case['no_length']
        back = fresh(case)
        back.read(index_uri)
        check_back(back, 'read from the web')
        for u in pages:
            ctx.equal(web.count(u), 1, 'requests for ' + u)
        if not case['no_length']:
            ctx.equal(back.bytes_read, sum(len(v) for v in pages.values()), 'bytes read')
    if multi:
        only = fresh(case)
        only.read(path, index_only=True)
        ctx.expect(only.sitemapindex, 'not recognized as index')
        ctx.equal(sorted(r.uri for r in only), sorted(uris), 'entries of index alone')
        ctx.equal({k: v for k, v in only.md.items() if v is not None}, want_md, 'metadata of index alone')
        off = fresh(case, **({} if n % 2 or case['kind'] == 'SourceDescription' else {'allow_multifile': False}))
        off.mapper = mapper
        if n % 2 or case['kind'] == 'SourceDescription':
            off.allow_multifile = False
        try:
            off.read(path)
            ctx.fail('index read with multifile off')
        except ListBaseIndexError:
            pass
        os.unlink(os.path.join(d, uris[case['lose'] % parts][len(top) + 1:]))
        back = fresh(case)
        back.mapper = mapper
        try:
            back.read(path)
        except ListBaseIndexError:
            return
        ctx.fail('index with a missing part read')


CHECKS = [Check('split', cases, run, quick=500, thorough=4000, shards=6, thorough_shards=7, examples=[long('ResourceList', 1, 0, 104, 1), long('ChangeList', 1, 0, 101, 0)])]

"""C01: documents survive writing and reading back."""

import io
import os
import xml.etree.ElementTree as ET

from hypothesis import strategies as st

from rsverif.core import Check
from rsverif import gen

RULE = ("documents of every list type with random subsets of fields, odd characters, every configuration and output "
        "route; non-trivial: at least two entries or links with at least four fields set between them")
ASSUMPTIONS = ["URIs do not contain white space; control characters other than tab, line breaks and U+0085 are left out",
               "times 1970-2100 on the microsecond grid"]

SM = '{http://www.sitemaps.org/schemas/sitemap/0.9}'
RS = '{http://www.openarchives.org/rs/terms/}'
ORDER = ['resourcelist', 'resourcedump', 'changelist', 'changedump', 'resourcelist-archive', 'resourcedump-archive',
         'changelist-archive', 'changedump-archive']

# kind -> (capability name, entries need a change, unique URIs)
KINDS = {
    'ResourceList': ('resourcelist', False, True),
    'ResourceListOrdered': ('resourcelist', False, True),
    'ChangeList': ('changelist', True, False),
    'CapabilityList': ('capabilitylist', False, True),
    'SourceDescription': ('description', False, True),
    'ResourceDump': ('resourcedump', False, True),
    'ResourceDumpManifest': ('resourcedump-manifest', False, True),
    'ChangeDump': ('changedump', False, True),
    'ChangeDumpManifest': ('changedump-manifest', True, False),
    'ListBase': ('unknown', False, False),
    'Archive': ('resourcelist-archive', False, False),
    'ResourceListArchive': ('resourcelist-archive', False, False),
    'ChangeListArchive': ('changelist-archive', False, False),
    'ResourceDumpArchive': ('resourcedump-archive', False, False),
    'ChangeDumpArchive': ('changedump-archive', False, False),
}
INDEXABLE = ['ResourceList', 'ResourceListOrdered', 'SourceDescription', 'ResourceDump', 'ResourceDumpManifest',
             'ChangeDump', 'Archive', 'ResourceListArchive', 'ChangeListArchive', 'ResourceDumpArchive', 'ChangeDumpArchive']
SORTED = ['ResourceList', 'SourceDescription', 'ResourceDump', 'ResourceDumpManifest', 'ChangeDump']
TIMES = {'ts_at': 'at', 'ts_completed': 'completed', 'ts_from': 'from', 'ts_until': 'until'}


def new(kind, **kw):
    import resync
    from resync.resource_list import ResourceListOrdered
    from resync.list_base import ListBase
    from resync.list_base_with_index import ListBaseWithIndex
    if kind == 'ResourceListOrdered':
        if 'resources' not in kw:
            kw['resources_class'] = ResourceListOrdered
        return resync.ResourceList(**kw)
    if kind == 'ListBase':
        return ListBase(**kw)
    if kind == 'Archive':
        return ListBaseWithIndex(capability_name='resourcelist-archive', **kw)
    if kind.endswith('Archive'):
        import resync.archives
        return getattr(resync.archives, kind)(**kw)
    import importlib
    mod = importlib.import_module('resync.' + ''.join('_' + c.lower() if c.isupper() else c for c in kind)[1:])
    return getattr(mod, kind)(**kw)


@st.composite
def documents(draw):
    kind = draw(st.sampled_from(sorted(KINDS)))
    cap, need, uniq = KINDS[kind]
    index = kind in INDEXABLE and draw(st.integers(0, 4)) == 0
    res = draw(st.lists(gen.resources(need_change=need), max_size=5,
                        unique_by=(lambda r: r['uri']) if uniq else None))
    if kind == 'CapabilityList':
        # a mixture of known capabilities, so that the canonical order matters
        for r in res:
            c = draw(gen.opt(st.sampled_from(ORDER + ['x-new']), 4))
            r.pop('capability', None)
            if c is not None:
                r['capability'] = c
    md = {}
    for k in ('md_at', 'md_completed', 'md_from', 'md_until'):
        if draw(st.integers(0, 2)) == 0:
            md[k] = draw(gen.timestamps())
    return {'kind': kind, 'index': index, 'resources': res, 'md': md, 'md_how': draw(st.sampled_from(['dict', 'str', 'num'])),
            'set_cap': draw(st.booleans()),
            'ln': draw(st.lists(gen.links(), max_size=3)),
            'spec': draw(st.sampled_from(['1.1', '1.1', '1.0'])),
            'add_lastmod': draw(st.booleans()), 'pretty': draw(st.booleans()),
            'route': draw(st.sampled_from(['str', 'str', 'fh', 'file', 'file_parse', 'iter', 'bytes']))}


def in_order(kind, res):
    """Entries in the order the document lists them."""
    if kind in SORTED:
        return sorted(res, key=lambda r: r['uri'])
    if kind == 'CapabilityList':
        known = [r for r in res if r.get('capability') in ORDER]
        return sorted(known, key=lambda r: (ORDER.index(r['capability']), r['uri']))
    return list(res)


def expected(r, case):
    """Values an entry has after reading, as a dict without None."""
    e = {k: v for k, v in r.items() if v is not None}
    if e.get('timestamp') is None and (case['spec'] == '1.0' or case['add_lastmod']) and 'ts_datetime' in e:
        e['timestamp'] = e['ts_datetime']
    if case['spec'] == '1.0':
        e.pop('ts_datetime', None)
    return e


def hash_set(e):
    return set((['md5:' + e['md5']] if 'md5' in e else []) + (['sha-1:' + e['sha1']] if 'sha1' in e else []) +
               (['sha-256:' + e['sha256']] if 'sha256' in e else []))


def xml_atts(d):
    return {('type' if k == 'mime_type' else k): str(v) for k, v in d.items()}


def xml_md(e):
    m = {}
    for k, name in TIMES.items():
        if k in e:
            m[name] = gen.w3c(e[k])
    for k in ('capability', 'change', 'length', 'path'):
        if k in e:
            m[k] = str(e[k])
    if 'mime_type' in e:
        m['type'] = e['mime_type']
    if 'ts_datetime' in e:
        m['datetime'] = gen.w3c(e['ts_datetime'])
    if hash_set(e):
        m['hash'] = hash_set(e)
    return m


def check_entry_xml(el, e, ctx, tag):
    ctx.equal(el.tag, SM + tag, 'entry element')
    ctx.equal([x.text for x in el.findall(SM + 'loc')], [e['uri']], 'loc')
    ctx.equal([x.text for x in el.findall(SM + 'lastmod')],
              [gen.w3c(e['timestamp'])] if 'timestamp' in e else [], 'lastmod of ' + e['uri'])
    mds = [dict(x.attrib) for x in el.findall(RS + 'md')]
    want = xml_md(e)
    for m in mds:
        if 'hash' in m:
            m['hash'] = set(m['hash'].split())
    ctx.equal(mds, [want] if want else [], 'metadata of ' + e['uri'])
    ctx.equal([dict(x.attrib) for x in el.findall(RS + 'ln')], [xml_atts(l) for l in e.get('ln', [])],
              'links of ' + e['uri'])
    known = {SM + 'loc', SM + 'lastmod', RS + 'md', RS + 'ln'}
    ctx.equal([x.tag for x in el if x.tag not in known], [], 'other elements')


def check_resource(r, e, ctx):
    for k in ('uri', 'length', 'mime_type', 'md5', 'sha1', 'sha256', 'change', 'path', 'capability'):
        got = getattr(r, k)
        ctx.equal(got, e.get(k), '%s of %s' % (k, e['uri']))
        ctx.equal(type(got), type(e.get(k)), 'type of %s of %s' % (k, e['uri']))
    for k, prop in (('timestamp', 'lastmod'), ('ts_datetime', 'datetime'), ('ts_at', 'md_at'),
                    ('ts_completed', 'md_completed'), ('ts_from', 'md_from'), ('ts_until', 'md_until')):
        ctx.expect(gen.same_time(getattr(r, k), e.get(k)), '%s of %s' % (k, e['uri']), got=getattr(r, k), want=e.get(k))
        ctx.equal(getattr(r, prop), gen.w3c(e[k]) if k in e else None, '%s of %s' % (prop, e['uri']))
    ctx.equal(list(r.ln or []), e.get('ln', []), 'links of ' + e['uri'])
    ctx.equal(set((r.hash or '').split()), hash_set(e), 'hash of ' + e['uri'])


def norm_md(md):
    return {k: v for k, v in md.items() if v is not None}


def build(case):
    from resync.resource import Resource
    kind = case['kind']
    kw = {'spec_version': case['spec'], 'add_lastmod': case['add_lastmod']}
    res = [gen.make(Resource, r) for r in case['resources']]
    if case['route'] == 'iter' and not KINDS[kind][2]:
        kw['resources'] = iter(res)
        if kind in ('ListBase', 'Archive'):
            kw['count'] = len(res)
        else:
            kw['resources'] = list(res)
        lst = new(kind, **kw)
    else:
        lst = new(kind, **kw)
        if len(res) % 2:
            lst.add(res)
        else:
            for r in res:
                lst.add(r)
    lst.pretty_xml = case['pretty']
    for k, t in case['md'].items():
        if case['md_how'] == 'dict':
            lst.md[k] = gen.w3c(t)
        else:
            setattr(lst, k, gen.w3c(t) if case['md_how'] == 'str' else t)
    if case['set_cap']:
        lst.capability = KINDS[kind][0]
    lst.ln = [dict(x) for x in case['ln']]
    if case['index']:
        lst.sitemapindex = True
    return lst


def output(lst, case, d):
    """Write by the chosen route; returns the text."""
    route = case['route']
    if route in ('file', 'file_parse'):
        p = os.path.join(d, 'doc.xml')
        if route == 'file' and not os.path.exists(p):
            with open(p, 'w') as fh:
                fh.write('<!-- an older, longer document -->\n' * 1000)
        lst.write(p)
        with open(p, encoding='utf-8', newline='') as fh:
            return fh.read()
    if route == 'fh':
        lst.default_capability()
        fh = io.StringIO()
        lst.new_sitemap().resources_as_xml(lst, sitemapindex=case['index'], fh=fh)
        return fh.getvalue()
    if case['index'] and hasattr(lst, 'index_as_xml') and case['pretty']:
        return lst.index_as_xml()
    return lst.as_xml()


def run_roundtrip(case, ctx):
    from resync.resource_container import ResourceContainer
    from resync.sitemap import Sitemap
    kind, cap = case['kind'], KINDS[case['kind']][0]
    lst = build(case)
    text = output(lst, case, ctx.dir)
    entries = [expected(r, case) for r in case['resources']]
    ordered = in_order(kind, entries)
    nfields = sum(len(r) for r in case['resources']) + len(case['ln']) * 2 + len(case['md'])
    ctx.nontrivial(len(entries) + len(case['ln']) >= 2 and nfields >= 6)
    ctx.label(kind)
    ctx.label('index', case['index'])
    # 1. The document itself, looked at with another parser
    root = ET.fromstring(text.encode('utf-8') if text.startswith('<?xml') else text)
    ctx.equal(root.tag, SM + ('sitemapindex' if case['index'] else 'urlset'), 'root element')
    tag = 'sitemap' if case['index'] else 'url'
    kids = list(root)
    # pretty printed or not: each top-level element on a line of its own, or nothing between them
    ctx.equal([x or '' for x in [root.text] + [k.tail for k in kids]] if kids else [],
              [case['pretty'] * '\n'] * (len(kids) + 1 if kids else 0), 'text between the top-level elements')
    first = min([i for i, k in enumerate(kids) if k.tag == SM + tag] or [len(kids)])
    head, body = kids[:first], kids[first:]
    want_md = {'capability': cap}
    for k, t in case['md'].items():
        want_md[k[3:]] = gen.w3c(t)
    ctx.equal([dict(x.attrib) for x in head if x.tag == RS + 'md'], [want_md], 'top-level metadata')
    ctx.equal([dict(x.attrib) for x in head if x.tag == RS + 'ln'], [xml_atts(l) for l in case['ln']],
              'top-level links')
    ctx.equal(len(head), 1 + len(case['ln']), 'number of top-level elements')
    ctx.equal(len(body), len(entries), 'number of entries')
    got_uris = [(b.find(SM + 'loc').text if b.find(SM + 'loc') is not None else None) for b in body]
    if kind == 'CapabilityList':
        ctx.equal(got_uris[:len(ordered)], [e['uri'] for e in ordered], 'order of capabilities')
        by_uri = {e['uri']: e for e in entries}
        ctx.equal(sorted(map(str, got_uris)), sorted(by_uri), 'URIs')
        ordered = [by_uri[u] for u in got_uris]
    ctx.equal(got_uris, [e['uri'] for e in ordered], 'URIs in order')
    for b, e in zip(body, ordered):
        check_entry_xml(b, e, ctx, tag)
    # 2. Read back as the same kind of list
    back = new(kind, spec_version=case['spec'], add_lastmod=case['add_lastmod'])
    path = os.path.join(ctx.dir, 'back.xml')
    with open(path, 'w', encoding='utf-8', newline='') as fh:
        fh.write(text)
    if case['index']:
        back.read(path, index_only=True)
        ctx.expect(back.sitemapindex, 'index not recognized')
    elif case['route'] == 'file':
        back.read(path)
    elif case['route'] == 'file_parse':
        back.parse(uri='file:' + path)
    elif case['route'] == 'fh':
        back.parse(fh=io.StringIO(text))
    elif case['route'] == 'bytes':
        with open(path, 'rb') as fh:
            back.parse(fh=fh)
    else:
        back.parse(str_data=text)
    md = norm_md(back.md)
    want = {'capability': cap}
    want.update({k: gen.w3c(t) for k, t in case['md'].items()})
    ctx.equal(md, want, 'metadata read back')
    ctx.equal(back.capability, cap, 'capability read back')
    for k in ('md_at', 'md_completed', 'md_from', 'md_until'):
        ctx.equal(getattr(back, k), want.get(k), k)
    ctx.equal(back.ln, case['ln'], 'links read back')
    got = list(back)
    ctx.equal([r.uri for r in got], [e['uri'] for e in ordered], 'URIs read back')
    ctx.equal(len(back), len(entries), 'length of list read back')
    for r, e in zip(got, ordered):
        check_resource(r, e, ctx)
    # 3. Read with no particular type in mind
    s = Sitemap(spec_version=case['spec'])
    rc = s.parse_xml(fh=io.StringIO(text), resources=ResourceContainer())
    ctx.equal(s.parsed_index, case['index'], 'index recognized')
    ctx.equal(s.resources_created, len(entries), 'number of entries parsed')
    for r, e in zip(list(rc), ordered):
        check_resource(r, e, ctx)
    # 4. Write what was read
    back.pretty_xml = case['pretty']
    back.sitemapindex = case['index']
    # (the XML declaration of a file names its encoding in upper case)
    ctx.equal(back.as_xml().split('?>', 1)[1], text.split('?>', 1)[1], 'document written again')


def run_snippet(case, ctx):
    """One entry on its own."""
    from resync.resource import Resource
    from resync.sitemap import Sitemap
    s = Sitemap(spec_version=case['spec'], add_lastmod=case['add_lastmod'], pretty_xml=case['pretty'])
    text = s.resource_as_xml(gen.make(Resource, case['resource']))
    e = expected(case['resource'], case)
    ctx.nontrivial(len(e) > 3)
    root = ET.fromstring('<urlset xmlns="%s" xmlns:rs="%s">%s</urlset>' % (SM[1:-1], RS[1:-1], text))
    check_entry_xml(root[0], e, ctx, 'url')
    check_resource(s.resource_from_etree(root[0], Resource), e, ctx)


CHECKS = [
    Check('roundtrip', documents, run_roundtrip, quick=900, thorough=15000, shards=5, thorough_shards=7),
    Check('snippet', lambda: st.fixed_dictionaries({
        'resource': gen.resources(), 'spec': st.sampled_from(['1.0', '1.1']), 'add_lastmod': st.booleans(),
        'pretty': st.booleans()}), run_snippet, quick=1500, thorough=20000, shards=1),
]

"""C17: what is read from any document, or refused."""

import io
import os
import re
import xml.etree.ElementTree as ET

from hypothesis import strategies as st

from rsverif import env, gen, refdoc
from rsverif.core import Check
from rsverif.props.c01 import KINDS as C01KINDS, ORDER, SORTED, new

RULE = ("documents of every kind with up to four structured edits, or up to eight cuts, copies, replacements and insertions "
        "in their text, read by every route and judged by an independent reading of the same document; indexes whose "
        "components are good, missing, of a wrong kind or broken; non-trivial: at least one edit, or a component that is "
        "not plain")
ASSUMPTIONS = ["the XML library itself is right about well-formedness",
               "white space around locations and times, numbers as only Python accepts them, hash parts without a type and "
               "24:00 or second 60 may be read or refused",
               "either sign of the offset of a time is let through here (C02 decides it)"]

KINDS = dict(C01KINDS)
RSNS = 'http://www.openarchives.org/rs/terms/'
SMNS = 'http://www.sitemaps.org/schemas/sitemap/0.9'
NS = {'sm': SMNS, 'rs': RSNS, 'ot': 'http://other.example/ns', 'none': '', 'rs2': RSNS.rstrip('/'), 'smx': SMNS + '/',
      'smg': 'http://www.google.com/schemas/sitemap/0.84'}

BAD_TIMES = ['', '2001', '2001-02', '2001-02-29', '2000-02-29', '2001-01-01T00:00:00', '2001-01-01T00:00Z', 'yesterday',
             '2001-13-01', '2001-01-01T00:00:00+25:00', '2001-01-01T00:00:00.5Z', '2001-01-01T25:00:00Z', '20010101',
             '2001-01-01 00:00:00Z', '2001-1-1', '1012345678', '2001-01-01T00:00:00.Z', '2001-01-01T00:00:60Z',
             '0000-01-01', '2001-01-01T00:00:00z', '2001-01-01T01:00:00+01:00', ' 2001-01-01', '2001-01-01T00:00:00Z;']
NUMBERS = ['', '12', '0', '-1', '1.5', 'abc', ' 7 ', '1e3', '0x10', '1_0', '\u0661', '9' * 30, '12;', 'None', '1 2']
PRIS = ['0', '1', '999999', '1000000', '-5', '', 'high', '5.5', '000001']
CHANGES = ['created', 'updated', 'deleted', '', 'Created', 'modified', 'created ', 'deletedx', 'none']
HASHES = ['', 'md5:', 'md5:abc', 'md5:a sha-1:b sha-256:c', 'sha1:abc', 'md5:a md5:b', 'sha-512:x md5:q', 'x', 'md5:a:b',
          ':', ':v', ' md5:a ', 'MD5:a', 'md5:a sha-1', 'sha-256:c  md5:a', 'sha-1:1 sha-512:2 sha-512:3 sha-256:4']
CAPS = ['resourcelist', 'changelist', 'resourcedump', 'changedump', 'resourcedump-manifest', 'changedump-manifest',
        'capabilitylist', 'description', 'unknown', '', 'ResourceList', 'resourcelist ', 'resourcelist-archive', 'x']
TAGS = [('sm', 'urlset'), ('sm', 'sitemapindex'), ('sm', 'url'), ('sm', 'sitemap'), ('sm', 'loc'), ('sm', 'lastmod'),
        ('rs', 'md'), ('rs', 'ln'), ('sm', 'md'), ('sm', 'ln'), ('rs', 'url'), ('rs', 'loc'), ('none', 'urlset'),
        ('none', 'url'), ('none', 'loc'), ('none', 'md'), ('ot', 'md'), ('ot', 'url'), ('ot', 'loc'), ('rs2', 'md'),
        ('rs2', 'ln'), ('smx', 'url'), ('smg', 'urlset'), ('smg', 'url'), ('sm', 'changefreq'), ('sm', 'priority'),
        ('ot', 'thing'), ('sm', 'Loc'), ('ot', 'sitemapindex')]
RELS = ['up', 'index', 'describedby', 'next', 'prev', 'duplicate', 'contents', 'canonical', 'x', 'Up']
ATTS = ['capability', 'change', 'datetime', 'length', 'path', 'type', 'at', 'completed', 'from', 'until', 'hash', 'rel',
        'href', 'pri', 'modified', 'encoding', 'other', 'rs:length', 'ot:hash', 'mime_type', 'md_at', 'md5', 'uri', 'Length']


def node(t, a=None, c=(), x=None):
    return {'t': t, 'a': dict(a or {}), 'c': list(c), 'x': x}


def tree(kind, index, res, md, ln):
    """Element tree of a document, as nested plain objects."""
    root = node(['sm', 'sitemapindex' if index else 'urlset'])
    for l in ln:
        root['c'].append(node(['rs', 'ln'], {('type' if k == 'mime_type' else k): str(v) for k, v in l.items()}))
    root['c'].append(node(['rs', 'md'], dict({k[3:]: gen.w3c(t) for k, t in md.items()}, capability=KINDS[kind][0])))
    names = {'ts_at': 'at', 'ts_completed': 'completed', 'ts_from': 'from', 'ts_until': 'until', 'ts_datetime': 'datetime'}
    for r in res:
        e = node(['sm', 'sitemap' if index else 'url'], c=[node(['sm', 'loc'], x=r['uri'])])
        if 'timestamp' in r:
            e['c'].append(node(['sm', 'lastmod'], x=gen.w3c(r['timestamp'])))
        m = {}
        for k, a in names.items():
            if k in r:
                m[a] = gen.w3c(r[k])
        for k in ('capability', 'change', 'length', 'path'):
            if k in r:
                m[k] = str(r[k])
        if 'mime_type' in r:
            m['type'] = r['mime_type']
        hs = [p + r[k] for k, p in (('md5', 'md5:'), ('sha1', 'sha-1:'), ('sha256', 'sha-256:')) if k in r]
        if hs:
            m['hash'] = ' '.join(hs)
        if m:
            e['c'].append(node(['rs', 'md'], m))
        for l in r.get('ln', []):
            e['c'].append(node(['rs', 'ln'], {('type' if k == 'mime_type' else k): str(v) for k, v in l.items()}))
        root['c'].append(e)
    return root


def walk(n, path=()):
    yield path, n
    for i, c in enumerate(n['c']):
        for x in walk(c, path + (i,)):
            yield x


@st.composite
def edits(draw):
    e = draw(st.sampled_from(['retag', 'delete', 'copy', 'move', 'insert', 'att', 'att', 'att', 'value', 'value', 'value',
                              'value', 'own', 'own', 'own', 'own', 'noatt', 'noatt', 'text', 'wrap',
                              'swap', 'uri', 'late', 'late']))
    o = {'e': e, 'i': draw(st.integers(0, 400)), 'j': draw(st.integers(0, 400))}
    if e in ('retag', 'insert', 'wrap'):
        o['t'] = list(draw(st.sampled_from(TAGS)))
        o['a'] = draw(st.dictionaries(st.sampled_from(ATTS), st.sampled_from(['x', '5', 'updated', '2001-01-01']), max_size=2))
        o['x'] = draw(st.sampled_from([None, 'http://e/x', '', 'text']))
    if e == 'late':
        o['t'] = draw(st.sampled_from([['rs', 'md'], ['rs', 'ln'], ['rs', 'ln']]))
        o['a'] = draw(st.dictionaries(st.sampled_from(ATTS), st.sampled_from(['x', '5', 'updated', '2001-01-01']), max_size=1))
        if o['t'][1] == 'ln':
            o['a'].update(rel=draw(st.sampled_from(RELS)), href='http://e/l')
        else:
            o['a'].update(draw(st.sampled_from([{}, {'capability': 'resourcelist'}, {'until': '2001-01-01'}])))
    if e in ('att', 'value', 'own'):
        o['k'] = draw(st.sampled_from(ATTS))
        o['v'] = draw(st.integers(0, 400))
        o['w'] = draw(gen.ATT_TEXT)
    if e == 'text':
        o['x'] = draw(st.one_of(st.sampled_from(['', 'http://e/new', ' http://e/sp ', 'x', None]), st.sampled_from(BAD_TIMES)))
    return o


def value_for(k, v, w):
    pool = {'capability': CAPS, 'change': CHANGES, 'length': NUMBERS, 'pri': PRIS, 'hash': HASHES,
            'modified': BAD_TIMES}.get(k)
    if k in ('datetime', 'at', 'completed', 'from', 'until'):
        pool = BAD_TIMES
    if k == 'capability' and v % 3 == 0:
        # near the name wanted
        return [c + s for c in CAPS[:8] for s in ('-archive', '-manifest', '2', '/', ' x')][v // 3 % 40]
    return pool[v % len(pool)] if pool else w


def apply(root, o):
    """One structured edit, in place."""
    all_nodes = list(walk(root))
    e = o['e']

    def pick(pred, n):
        c = [(p, x) for p, x in all_nodes if pred(p, x)]
        return c[n % len(c)] if c else (None, None)

    def parent(p):
        n = root
        for i in p[:-1]:
            n = n['c'][i]
        return n
    if e == 'retag':
        p, n = pick(lambda p, x: True, o['i'])
        n['t'] = o['t']
    elif e in ('delete', 'copy', 'wrap'):
        p, n = pick(lambda p, x: p != (), o['i'])
        if n is None:
            return
        par = parent(p)
        if e == 'delete':
            del par['c'][p[-1]]
        elif e == 'copy':
            par['c'].insert(o['j'] % (len(par['c']) + 1), clone(n))
        else:
            par['c'][p[-1]] = node(o['t'], o['a'], [n])
    elif e == 'move':
        p, n = pick(lambda p, x: p != (), o['i'])
        if n is None:
            return
        q, m = pick(lambda q, x: q[:len(p)] != p, o['j'])
        del parent(p)['c'][p[-1]]
        m['c'].insert(o['j'] % (len(m['c']) + 1), n)
    elif e == 'swap':
        p, n = pick(lambda p, x: len(x['c']) > 1, o['i'])
        if n is None:
            return
        a, b = o['i'] % len(n['c']), o['j'] % len(n['c'])
        n['c'][a], n['c'][b] = n['c'][b], n['c'][a]
    elif e == 'insert':
        p, n = pick(lambda p, x: True, o['i'])
        n['c'].insert(o['j'] % (len(n['c']) + 1), node(o['t'], o['a'], x=o['x']))
    elif e == 'att':
        p, n = pick(lambda p, x: x['t'] in (['rs', 'md'], ['rs', 'ln']), o['i'])
        if n is not None:
            n['a'][o['k']] = value_for(o['k'], o['v'], o['w'])
    elif e == 'own':
        # an attribute that means something there
        p, n = pick(lambda p, x: x['t'] in (['rs', 'md'], ['rs', 'ln']), o['i'])
        if n is not None:
            ks = ['pri', 'length', 'pri', 'rel', 'href', 'modified'] if n['t'] == ['rs', 'ln'] else [
                'change', 'length', 'datetime', 'at', 'completed', 'from', 'until', 'hash', 'hash', 'capability']
            k = ks[o['j'] % len(ks)]
            n['a'][k] = value_for(k, o['v'], o['w'])
    elif e == 'value':
        p, n = pick(lambda p, x: x['a'], o['i'])
        if n is not None:
            k = sorted(n['a'])[o['j'] % len(n['a'])]
            n['a'][k] = value_for(k, o['v'], o['w'])
    elif e == 'noatt':
        p, n = pick(lambda p, x: x['a'], o['i'])
        if n is not None:
            del n['a'][sorted(n['a'])[o['j'] % len(n['a'])]]
    elif e == 'text':
        p, n = pick(lambda p, x: x['t'] in (['sm', 'loc'], ['sm', 'lastmod']), o['i'])
        if n is not None:
            n['x'] = o['x']
    elif e == 'late':
        # metadata or a link of the document among the entries or at the end
        # (what is there already may be the metadata to repeat)
        at = [i for i, x in enumerate(root['c']) if x['t'] in (['sm', 'url'], ['sm', 'sitemap'])]
        first = at[0] + 1 if at else len(root['c'])
        where = [len(root['c']), first, first + o['j'] % (len(root['c']) - first + 1)][o['i'] % 3]
        root['c'].insert(where, node(o['t'], o['a']))
    elif e == 'uri':
        locs = [x for p, x in all_nodes if x['t'] == ['sm', 'loc']]
        if locs:
            locs[o['i'] % len(locs)]['x'] = locs[o['j'] % len(locs)]['x']


def clone(n):
    return node(list(n['t']), n['a'], [clone(c) for c in n['c']], n['x'])


def esc(s, quote=False):
    out = []
    for c in s:
        if c in '&<>"\'' or (quote and c in '\n\t\r') or c == '\r':
            out.append('&#%d;' % ord(c))
        else:
            out.append(c)
    return ''.join(out)


def serialise(root, style):
    """Text of the tree. style: dict of choices that change nothing of what it says."""
    prefixes = {'sm': '' if style['default'] else 's', 'rs': style['rs'], 'ot': 'o', 'rs2': 'r2', 'smx': 's2', 'smg': 'g'}
    noise = ['', ' ', '\n', '<!-- <rs:md capability="no"/> -->', '<?pi <loc>x</loc>?>', 'text', '<![CDATA[<url/>]]>']
    state = [style['noise']]

    def some():
        if not style['noise']:
            return ''
        state[0] = (state[0] * 1103515245 + 12345) % 2 ** 31
        return noise[(state[0] >> 8) % len(noise)]

    def name(t, inner_default):
        p = prefixes.get(t[0], '')
        return (p + ':' if p else '') + t[1]

    def out(n, top):
        t = n['t']
        atts = []
        decl = ''
        if top:
            for k, p in prefixes.items():
                decl += ' xmlns%s="%s"' % (':' + p if p else '', NS[k])
        if t[0] == 'none' and style['default']:
            decl += ' xmlns=""' if not top else ''
        for k in sorted(n['a'], reverse=style['noise'] % 2 == 1):
            kk = k
            if ':' in k:
                p, l = k.split(':')
                kk = prefixes[p] + ':' + l
            atts.append(' %s=%s' % (kk, '"%s"' % esc(n['a'][k], True)))
        s = '<' + name(t, None) + decl + ''.join(atts)
        if not n['c'] and not n['x']:
            return s + ('/>' if style['noise'] % 3 else '></%s>' % name(t, None))
        leaf = t in (['sm', 'loc'], ['sm', 'lastmod'])
        x = n['x'] or ''
        if leaf and style['cdata'] and ']]>' not in x and '\r' not in x:
            body = '<![CDATA[%s]]>' % x if x else ''
        elif leaf and style['noise'] and len(x) > 2:
            body = esc(x[:2]) + ('<!-- c -->' if style['noise'] % 5 == 0 else '') + ''.join('&#x%x;' % ord(c) for c in x[2:3]) + esc(x[3:])
        else:
            body = esc(x)
        # children of an undeclared-namespace element would otherwise inherit xmlns=""
        inner = ''
        for c in n['c']:
            inner += ('' if leaf else some()) + out(c, False)
        if t[0] == 'none' and style['default'] and n['c'] and not top:
            inner = '' if not any(True for _ in n['c']) else inner
        return s + '>' + body + inner + ('' if leaf else some()) + '</%s>' % name(t, None)
    return style['decl'] + out(root, True) + style['tail']


@st.composite
def styles(draw):
    return {'default': draw(st.booleans()), 'rs': draw(st.sampled_from(['rs', 'rs', 'x', 'ns0'])),
            'noise': draw(st.sampled_from([0, 0, 3, 8, 15, 77, 1234])), 'cdata': draw(st.integers(0, 4)) == 0,
            'decl': draw(st.sampled_from(['', '<?xml version="1.0"?>', "<?xml version='1.0' encoding='UTF-8'?>\n",
                                          '<!-- first -->', '<!DOCTYPE urlset>'])),
            'tail': draw(st.sampled_from(['', '\n', '<!-- last -->'])),
            'code': draw(st.sampled_from(['utf-8', 'utf-8', 'utf-8-sig', 'utf-16', 'ascii']))}


ROUTES = ['str', 'str', 'fh', 'file', 'path', 'read', 'web', 'etree', 'sitemap']


@st.composite
def documents(draw, max_edits=4):
    kind = draw(st.sampled_from(sorted(KINDS)))
    cap, need, uniq = KINDS[kind]
    index = draw(st.integers(0, 9)) == 0
    res = draw(st.lists(gen.resources(need_change=need), max_size=4, unique_by=(lambda r: r['uri']) if uniq else None))
    md = {k: draw(gen.timestamps()) for k in ('md_at', 'md_completed', 'md_from', 'md_until') if draw(st.integers(0, 3)) == 0}
    return {'kind': kind, 'index': index, 'root': tree(kind, index, res, md, draw(st.lists(gen.links(), max_size=2))),
            'edits': draw(st.lists(edits(), max_size=max_edits)), 'style': draw(styles()),
            'spec': draw(st.sampled_from(['1.1', '1.1', '1.1', '1.0'])), 'route': draw(st.sampled_from(ROUTES)),
            'want': draw(st.sampled_from([None, None, False, True])),
            'entity': draw(st.sampled_from([None] * 15 + ['internal', 'external', 'parameter']))}


def text_of(case):
    root = clone(case['root'])
    for o in case['edits']:
        apply(root, o)
    return serialise(root, case['style'])


def encode(text, case):
    code = case['style']['code']
    if code == 'ascii':
        return text.encode('ascii', 'xmlcharrefreplace')
    if 'encoding=' in text[:60]:
        code = 'utf-8'
    return text.encode(code, 'replace')


def documented():
    from resync.list_base_with_index import ListBaseIndexError
    from resync.resource import ChangeTypeError
    from resync.resource_list import ResourceListDupeError
    from resync.resource_set import ResourceSetDupeError
    from resync.sitemap import SitemapDupeError, SitemapIndexError, SitemapParseError
    return (SitemapParseError, SitemapIndexError, SitemapDupeError, ListBaseIndexError, ChangeTypeError,
            ResourceListDupeError, ResourceSetDupeError)


def run_document(case, ctx):
    text = text_of(case)
    ctx.nontrivial(bool(case['edits']))
    if case['entity'] is not None:
        # the expansion of entities would let a document take any amount of memory or read files
        at = text.index('<', 1) if text.startswith('<?xml') or text.startswith('<!') else 0
        if '<!DOCTYPE' in text or '<!-- first' in text:
            return
        d = {'internal': '<!DOCTYPE urlset [<!ENTITY e "v">]>', 'parameter': '<!DOCTYPE urlset [<!ENTITY % p "v">]>',
             'external': '<!DOCTYPE urlset [<!ENTITY e SYSTEM "file:///etc/passwd">]>'}[case['entity']]
        text = text[:at] + d + text[at:]
    judge(case, encode(text, case), text, ctx)


def judge(case, data, text, ctx):
    """Read data by the route of the case and compare with the independent reading of it."""
    from resync.sitemap import Sitemap
    kind, route, spec = case['kind'], case['route'], case['spec']
    cap, need, uniq = KINDS[kind]
    if route == 'str':
        # a string has no encoding of its own
        if not text.isprintable() and '\ud800' <= max(text) <= '\udfff':
            return
        source = text
    else:
        source = data
    xml_error = None
    try:
        root = ET.fromstring(source)
    except Exception as e:
        xml_error = type(e)
    want_index = case['want'] if route == 'sitemap' else (None if route in ('read', 'web') else False)
    if xml_error is None:
        plain = route == 'sitemap'
        doc = refdoc.Doc(root, spec, None if plain else cap, want_index, need and not plain, uniq and not plain)
    lst = new(kind, spec_version=spec)
    p = os.path.join(ctx.dir, 'doc.xml')
    url = 'http://h.example/doc.xml'
    if route in ('path', 'read', 'file', 'etree'):
        with open(p, 'wb') as fh:
            fh.write(source)
    elif route == 'web':
        env.FakeWeb({url: source}).install()
    if route in ('read', 'web') and (xml_error is None and doc.index):
        # reading of the components is judged elsewhere
        if not hasattr(lst, 'allow_multifile'):
            # capability lists have no indexes
            want_index = False
        else:
            lst.allow_multifile = False
        if doc.refused is None:
            doc.refused = 'index'
    elif route in ('read', 'web') and not hasattr(lst, 'allow_multifile') and xml_error is None and doc.index:
        doc.refused = 'index'
    if xml_error is None and case.get('entity') is not None:
        doc.refused = 'entity'
    s = None
    err = None
    n_before = 0
    try:
        if route == 'str':
            lst.parse(str_data=source)
        elif route == 'fh':
            lst.parse(fh=io.BytesIO(source))
        elif route == 'file':
            with open(p, 'rb') as fh:
                lst.parse(fh=fh)
        elif route == 'path':
            lst.parse(p)
        elif route == 'read':
            lst.read(p)
        elif route == 'web':
            lst.read(url)
        else:
            s = Sitemap(spec_version=spec)
            kw = {} if want_index is None else {'sitemapindex': want_index}
            if route == 'etree' and xml_error is None and case.get('entity') is None:
                out = s.parse_xml(etree=ET.parse(p), resources=lst, capability=cap, sitemapindex=False)
                ctx.expect(out is lst, 'another container returned')
            elif route == 'etree':
                with open(p, 'rb') as fh:
                    s.parse_xml(fh=fh, resources=lst, capability=cap, sitemapindex=False)
            else:
                lst = s.parse_xml(fh=io.BytesIO(source), **kw)
    except documented() as e:
        err = e
    except Exception as e:
        if xml_error is not None and type(e) is xml_error:
            err = e
        elif xml_error is None and case.get('entity') is not None and 'defusedxml' in type(e).__module__:
            err = e
        elif xml_error is not None and isinstance(e, (ET.ParseError, ValueError, LookupError)):
            err = e
        else:
            raise
    if xml_error is not None:
        ctx.label('not XML')
        ctx.expect(err is not None, 'read what is not well-formed XML', text=text[:300])
        ctx.equal(len(list(lst)), 0, 'entries of what is not XML')
        return
    from resync.sitemap import SitemapIndexError
    if doc.refused == 'kind of root':
        ctx.expect(isinstance(err, SitemapIndexError), 'index and list not told apart', err=err)
    if doc.refused is not None:
        ctx.label('refused: ' + (doc.refused if ' ' not in doc.refused else doc.refused.split(' ')[0]))
        ctx.expect(err is not None, 'not refused: ' + doc.refused, text=text[:600])
        # nothing but whole entries, in order
        check_entries(list(lst), doc.entries, kind, ctx, partial=True)
        return
    ctx.label('loose', doc.loose)
    if err is not None:
        ctx.expect(doc.loose, 'refused: %r' % err, text=text[:600])
        return
    ctx.label('read')
    if s is not None:
        ctx.equal(s.parsed_index, doc.index, 'kind of document')
        ctx.equal(s.resources_created, len(doc.entries), 'number of entries read')
    elif route in ('str', 'fh', 'file', 'path'):
        ctx.equal(lst.parsed_index, False, 'kind of document')
    d = refdoc.match_links(lst.ln, doc.ln)
    ctx.expect(d is None, 'links of the document: %s' % d)
    names = {'type': 'mime_type', 'at': 'md_at', 'completed': 'md_completed', 'from': 'md_from', 'until': 'md_until'}
    want = {names.get(k, k): v for k, v in doc.md.items() if v is not refdoc.LOOSE}
    got = {k: v for k, v in lst.md.items() if v is not None and not
           (doc.md.get({v2: k2 for k2, v2 in names.items()}.get(k, k)) is refdoc.LOOSE)}
    ctx.equal(got, want, 'metadata of the document')
    check_entries(list(lst), doc.entries, 'ListBase' if route == 'sitemap' else kind, ctx)


def check_entries(got, want, kind, ctx, partial=False):
    loose = any(e['uri'] is refdoc.LOOSE for e in want)
    if loose and (partial or kind in SORTED or kind == 'CapabilityList'):
        return
    if partial:
        ctx.expect(len(got) <= len(want), 'more entries than there are good ones before what is refused', n=len(got))
        want = want[:len(got)]
    if kind in SORTED:
        want = sorted(want, key=lambda e: e['uri'])
    elif kind == 'CapabilityList':
        def key(e):
            return ORDER.index(e['capability']) if e.get('capability') in ORDER else 99
        ctx.equal([r.capability if r.capability in ORDER else None for r in got],
                  [e.get('capability') if e.get('capability') in ORDER else None for e in sorted(want, key=key)],
                  'order of capabilities')
        got = sorted(got, key=lambda r: r.uri)
        want = sorted(want, key=lambda e: e['uri'])
    ctx.equal([r.uri for r in got], [r.uri if e['uri'] is refdoc.LOOSE else e['uri'] for r, e in zip(got, want)] +
              [e['uri'] for e in want[len(got):]], 'URIs of entries')
    for r, e in zip(got, want):
        d = refdoc.match_entry(r, e)
        ctx.expect(d is None, 'entry %r: %s' % (r.uri, d))


# --- mutations of the text

TOKENS = ['<', '>', '/', '"', "'", '=', '&', ';', '&#0;', '&#65;', '&amp;', '&bogus;', '<!--', '-->', '<![CDATA[', ']]>', '<?',
          '?>', '<url>', '</url>', '<loc>', '</loc>', '<rs:md/>', '<rs:ln/>', ' rel="up"', ' href="http://e/"', ' length="x"',
          ' change="updated"', ' xmlns=""', ' xmlns="urn:x"', '<urlset>', '</urlset>', '\x00', '\x0b', '\ufeff', '\uffff',
          '\u2028', 'http://', '2001-02-30', '-', '9', '0', ' ', '\n', '<lastmod/>', '<lastmod>2001</lastmod>', 'encoding="x"',
          'utf-16', 'version="1.1"', '<sitemapindex', 'rs:', ':']


INNER = ['', '0', '9', '-', '+', '.', ':', 'T', 'Z', ' ', 'x', '&#10;', '&#9;', '&#32;', '&lt;', '\u0663', 'md5:', '  ', '00',
         '\xa0', '1e1', '_', 'e', '&#13;']


@st.composite
def mutants(draw):
    d = draw(documents(max_edits=1))
    d['entity'] = None
    d['mutations'] = draw(st.lists(st.tuples(st.sampled_from(['cut', 'copy', 'put', 'char', 'name', 'name', 'inner', 'inner', 'inner', 'element', 'element']), st.integers(0, 10 ** 6),
                                             st.integers(0, 30), st.integers(0, 10 ** 6), st.sampled_from(TOKENS)).map(list),
                                   min_size=1, max_size=draw(st.sampled_from([1, 2, 3, 8]))))
    d['raw'] = draw(st.lists(st.tuples(st.integers(0, 10 ** 6), st.integers(0, 255)).map(list), max_size=2)
                    if draw(st.integers(0, 7)) == 0 else st.just([]))
    return d


def run_mutant(case, ctx):
    text = text_of(case)
    names = ['loc', 'lastmod', 'url', 'urlset', 'sitemap', 'sitemapindex', 'rs:md', 'rs:ln', 'capability', 'change', 'length',
             'hash', 'href', 'rel', 'pri', 'datetime', 'at', 'path', 'type', 'from']
    for how, i, n, j, token in case['mutations']:
        i %= len(text) + 1
        if how == 'cut':
            text = text[:i] + text[i + n:]
        elif how == 'copy':
            j %= len(text) + 1
            text = text[:j] + text[i:i + n] + text[j:]
        elif how == 'put':
            text = text[:i] + token + text[i:]
        elif how == 'char':
            text = text[:i] + chr(32 + j % 95) + text[i + 1:]
        elif how == 'inner':
            # inside a value or a text, where the result is likely still XML
            spans = [m.span() for m in re.finditer(r'(?<==")[^"]*(?=")|(?<=>)[^<>]+(?=<)', text)]
            if spans:
                a, b = spans[i % len(spans)]
                k = a + j % (b - a + 1)
                c = INNER[n % len(INNER)]
                text = text[:k] + c + text[k + (j // 7) % 3:] if (j // 7) % 3 <= b - k else text[:a] + c + text[b:]
        elif how == 'element':
            spans = [m.span() for m in re.finditer(r'<[^<>/!?]*/>|<([\w:]+)[^<>]*>[^<>]*</\1>', text)]
            if spans:
                a, b = spans[i % len(spans)]
                c, d = spans[j % len(spans)]
                e = text[a:b]
                text = (text[:a] + text[b:] if n % 3 == 0 else text[:c] + e + text[c:] if n % 3 == 1 else
                        text[:c] + e + text[d:])
        else:
            a, b = names[i % len(names)], names[j % len(names)]
            k = text.find(a, n * 7)
            if k >= 0:
                text = text[:k] + b + text[k + len(a):]
    if '<!ENTITY' in text:
        return
    data = bytearray(encode(text, case))
    for i, b in case['raw']:
        if data:
            data[i % len(data)] = b
    ctx.nontrivial(True)
    judge(case, bytes(data), text, ctx)


# --- indexes

@st.composite
def indexes(draw):
    kind = draw(st.sampled_from(['ResourceList', 'ChangeList', 'ResourceDump', 'ChangeDump', 'ResourceDumpManifest',
                                 'ChangeDumpManifest', 'SourceDescription', 'ListBaseWithIndex']))
    near = draw(st.sampled_from(['', '-archive', '-manifest', 's', ' ', 'X']))
    comps = draw(st.lists(st.tuples(st.sampled_from(['good'] * 8 + ['missing', 'index', 'self', 'not xml', 'wrong root', 'bad entry',
                                                     'empty']), st.integers(0, 3)).map(list), max_size=4))
    return {'kind': kind, 'comps': comps, 'names': draw(st.permutations(['p0', 'p1', 'p2', 'p3'])),
            'multi': draw(st.sampled_from([True, True, True, False])),
            'cap': draw(st.sampled_from(['right', 'right', 'right', 'right', 'wrong', 'none', 'near'])), 'near': near,
            'local': draw(st.booleans()), 'only': draw(st.integers(0, 7)) == 0, 'dup': draw(st.integers(0, 7)) == 0,
            'md': draw(st.booleans()), 'ln': draw(st.lists(gen.links(), max_size=2)), 'own': draw(st.booleans())}


def run_index(case, ctx):
    from resync.mapper import Mapper
    kind = case['kind']
    if kind == 'ListBaseWithIndex':
        from resync.list_base_with_index import ListBaseWithIndex
        cap, need = 'x-list', False
        lst = ListBaseWithIndex(capability_name=cap, allow_multifile=case['multi'])
        uniq = False
    else:
        cap, need, uniq = KINDS[kind]
        lst = new(kind)
        lst.allow_multifile = case['multi']
    base = 'http://h.example/l/'
    style = {'default': True, 'rs': 'rs', 'noise': 0, 'cdata': False, 'decl': '', 'tail': '', 'code': 'utf-8'}

    def urlset(uris, c=cap, root='urlset', item='url', extra=()):
        md = node(['rs', 'md'], {'capability': c} if c else {})
        if case['md']:
            md['a']['at'] = '2001-02-03T04:05:06Z'
        lns = [node(['rs', 'ln'], {('type' if k == 'mime_type' else k): str(v) for k, v in l.items()})
               for l in (case['ln'] if root == 'sitemapindex' else [])]
        if root == 'urlset' and case.get('own'):
            # what the components say of themselves is not said of the list
            md['a'].update(at='2002-01-01T00:00:%02dZ' % len(uris), completed='2002-01-02', until='2002-01-03')
            lns = [node(['rs', 'ln'], {'rel': r, 'href': base + r}) for r in ('index', 'up', 'describedby')]
        return serialise(node(['sm', root], c=lns + [md] + [
            node(['sm', item], c=[node(['sm', 'loc'], x=u), node(['rs', 'md'], {'change': 'updated', 'length': str(i)} if need
                                                                 else {'length': str(i)})])
            for i, u in enumerate(uris)] + list(extra)), style).encode()
    pages = {}
    comps = []
    entries = []
    bad = False
    for i, (what, n) in enumerate(case['comps']):
        u = base + case['names'][i] + '.xml'
        if what == 'self':
            u = base + 'index.xml'
        comps.append(u)
        uris = ['http://e/%s/%d' % (case['names'][i], k) for k in range(n)]
        if case['dup'] and uris:
            uris[0] = 'http://e/dup'
        if what == 'good':
            pages[u] = urlset(uris)
            for k, x in enumerate(uris):
                if uniq and x in [e[0] for e in entries]:
                    bad = bad or 'duplicate'
                entries.append((x, k))
        elif what == 'empty':
            pages[u] = urlset([])
        else:
            bad = bad or what
            if what == 'index':
                pages[u] = urlset(uris, root='sitemapindex', item='sitemap')
            elif what == 'not xml':
                pages[u] = b'<urlset'
            elif what == 'wrong root':
                pages[u] = urlset(uris, root='feed')
            elif what == 'bad entry':
                pages[u] = urlset(uris, extra=[node(['sm', 'url'])])
    ctx.nontrivial(len(comps) > 1 or bool(bad))
    c = {'right': cap, 'near': cap + case.get('near', '') if case.get('near') else cap[:-1], 'wrong': 'changelist' if cap != 'changelist' else 'resourcelist', 'none': None}[case['cap']]
    if case['cap'] == 'none' and cap == 'resourcelist':
        c = cap
    if c != cap:
        bad = 'capability'
    if not case['multi']:
        bad = bad or 'index where a list is required'
    if case['only'] and c == cap and case['multi']:
        # the components are not looked at
        bad = 'component twice' if uniq and len(set(comps)) < len(comps) else False
    pages[base + 'index.xml'] = urlset(comps, c=c if case['cap'] != 'none' else None, root='sitemapindex', item='sitemap')
    if case['local']:
        for u, b in pages.items():
            with open(os.path.join(ctx.dir, u[len(base):]), 'wb') as fh:
                fh.write(b)
        lst.mapper = Mapper([base.rstrip('/'), ctx.dir])
        where = os.path.join(ctx.dir, 'index.xml')
        web = env.FakeWeb({}).install()
    else:
        web = env.FakeWeb(pages).install()
        where = base + 'index.xml'
    ctx.label('bad: %s' % bad)
    try:
        lst.read(where, index_only=True) if case['only'] else lst.read(where)
    except documented() as e:
        ctx.expect(bad, 'refused: %r' % e)
    except ET.ParseError:
        ctx.expect(any(w == 'not xml' for w, n in case['comps']), 'XML error')
    else:
        ctx.expect(not bad, 'not refused: %s' % bad)
        if case['only']:
            ctx.label('index only')
            ctx.equal(sorted(r.uri for r in lst), sorted(comps), 'components listed')
            ctx.equal(web.log, [] if case['local'] else [('GET', where)], 'documents fetched')
        else:
            want = sorted(entries) if uniq else entries
            ctx.equal([(r.uri, r.length) for r in lst], want, 'entries of the components')
        ctx.equal(lst.capability, cap, 'capability')
        ctx.equal(lst.md_at, '2001-02-03T04:05:06Z' if case['md'] else None, 'time')
        ctx.equal((lst.md_completed, lst.md_until), (None, None), 'other times')
        d = refdoc.match_links(lst.ln, [dict(x) for x in case['ln']])
        ctx.expect(d is None, 'links: %s' % d)
    ctx.expect(len(web.log) <= len(comps) + 1, 'documents fetched more than once', log=web.log)


CHECKS = [
    Check('documents', documents, run_document, quick=1100, thorough=15000, shards=4, thorough_shards=8),
    Check('text', mutants, run_mutant, quick=900, thorough=15000, shards=4, thorough_shards=8),
    Check('indexes', indexes, run_index, quick=500, thorough=6000, shards=2, thorough_shards=4),
]

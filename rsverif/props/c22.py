"""C22: the explorer, driven by scripted users through graphs of documents."""

import builtins
import os
import re
import sys
import urllib.parse

from hypothesis import strategies as st

from rsverif import env, gen
from rsverif.core import Check
from rsverif.props.c19 import check_request
from rsverif.props.c21 import Ran
from rsverif.sync import document, write_file

RULE = ("graphs of up to 7 documents of all types, resources and broken or missing pages, on the web or in local files, with "
        "relative and absolute references, explored by scripts of up to 14 inputs from every kind of starting point, and visits of the resources of a list; "
        "non-trivial: at least two pages explored and an option followed")
ASSUMPTIONS = ["references have no fragment", "an index reached where its kind of list is expected may or may not be warned of",
               "indexes of archives, manifests and unknown types may or may not be called unknown"]

KNOWN = ['resourcelist', 'changelist', 'resourcedump', 'changedump']
ARCHIVES = [k + '-archive' for k in KNOWN]
IN_CAPLIST = KNOWN + ARCHIVES
KINDS = ['description', 'capabilitylist', 'capabilitylist'] + KNOWN * 3 + ARCHIVES[:2] + [
    'resourcedump-manifest', 'x-new', None]
PLACES = ['', 'd/', 'd/e/', 'other/']
HEADERS = {'Content-Type': ['text/html', 'text/plain', 'text/html; charset=utf-8'], 'Last-Modified': ['Mon, 01 Jan 2001 00:00:00 GMT', '2001-01-01T00:00:00Z'],
           'ETag': ['"x"']}


@st.composite
def graphs(draw):
    n = draw(st.integers(2, 7))
    nodes = []
    for i in range(n):
        t = draw(st.sampled_from(['doc'] * 6 + ['res', 'res', 'res', 'res', 'broken', 'missing', 'fault'])) if i else 'doc'
        nd = {'t': t, 'name': draw(st.sampled_from(PLACES)) + 'n%d' % i + draw(st.sampled_from(['.xml', '', ' x.xml', '%20y', ':z']))}
        if t == 'doc':
            nd['cap'] = draw(st.sampled_from(KINDS))
            nd['index'] = draw(st.integers(0, 4)) == 0
            ref = st.tuples(st.integers(0, n - 1), st.sampled_from(['abs', 'rel', 'rel', 'root', 'dots', 'net']))
            nd['links'] = draw(st.lists(st.tuples(st.sampled_from(['describedby', 'up', 'index', 'up', 'contents', 'next']), ref).map(list),
                                        max_size=3))
            es = []
            for r in draw(st.lists(ref, max_size=4)):
                e = {'ref': list(r)}
                if draw(st.integers(0, 1)):
                    e['capability'] = draw(st.sampled_from(['resourcelist', 'changelist', 'capabilitylist', 'description', 'x-new', 'changelist-archive']))
                for k, s in (('length', st.sampled_from([0, 5, 6])), ('type', st.sampled_from(['text/html', 'text/plain'])),
                             ('lastmod', st.sampled_from(['2001-01-01T00:00:00Z', '2001-01-01', '1970-01-01T00:00:00Z']))):
                    if draw(st.integers(0, 2)) == 0:
                        e[k] = draw(s)
                es.append(e)
            nd['entries'] = es
            nd['many'] = draw(st.sampled_from([0] * 7 + [18, 20, 21, 22, 30]))
        elif t == 'res':
            nd['data'] = draw(st.sampled_from(['', 'hello', 'hello!']))
            nd['status'] = draw(st.sampled_from([200] * 9 + [203, 204, 206]))
            nd['headers'] = {k: draw(st.sampled_from(v)) for k, v in sorted(HEADERS.items()) if draw(st.booleans())}
        elif t == 'broken':
            nd['data'] = draw(st.sampled_from(['', '<', 'text', '<html/>', '<urlset/>',
                                               '<urlset xmlns="http://www.sitemaps.org/schemas/sitemap/0.9"><url/></urlset>']))
        elif t == 'fault':
            nd['how'] = draw(st.sampled_from(['timeout', 'refused', 'reset', 500, 403]))
        nodes.append(nd)
    for nd in nodes:
        for e in nd.get('entries', []):
            if nodes[e['ref'][0]]['t'] == 'res' and draw(st.booleans()):
                # something to compare
                e.update({'type': draw(st.sampled_from(['text/html', 'text/plain'])), 'length': draw(st.sampled_from([0, 5, 6])),
                          'lastmod': draw(st.sampled_from(['2001-01-01T00:00:00Z', '1970-01-01T00:00:00Z']))})
                e.pop('capability', None)
    inputs = draw(st.lists(st.one_of(st.integers(0, 40), st.integers(0, 40), st.sampled_from(['1', '1', '1', '2', '2', '3', '4', 'd', 'u', 'i', 'b', '5', '20', '21', '22', '', 'x', '0', '-1',
                                            'Q', ' 1', '01', 'q'] + ['1', '2', 'u', 'd', 'b'] * 2)), max_size=14))
    return {'nodes': nodes, 'inputs': inputs, 'local': draw(st.integers(0, 3)) == 0,
            'start': draw(st.sampled_from(['sitemap', 'sitemap', 'script', 'mapping', 'root', 'dir', 'none'])),
            'wk': draw(st.sampled_from([None, 0, 1])), 'rel': draw(st.booleans()),
            'verbose': draw(st.integers(0, 4)) == 0,
            'token': draw(st.sampled_from([None, None, 'tok', 'a b'])), 'delay': draw(st.sampled_from([None, None, 0, 1.5]))}


@st.composite
def visits(draw):
    """A list and visits of the resources in it."""
    n = draw(st.integers(1, 4))
    nodes = [{'t': 'doc', 'cap': draw(st.sampled_from(KNOWN)), 'index': False, 'links': [], 'entries': [], 'many': 0,
              'name': draw(st.sampled_from(PLACES)) + 'list.xml'}]
    local = draw(st.integers(0, 3)) == 0
    inputs = []
    nodes[0]['before'] = before = draw(st.sampled_from([0, 0, 0, 0, 8, 9, 16, 17]))
    odd = draw(st.sampled_from(['', '', ':x']))
    for i in range(1, n + 1):
        data = draw(st.sampled_from(['', 'hello', 'hello!', '0123456789']))
        nd = {'t': draw(st.sampled_from(['res'] * 9 + ['missing'])), 'name': draw(st.sampled_from(PLACES)) + 'r%d' % i + odd, 'data': data,
              'status': draw(st.sampled_from([200] * 9 + [203, 204, 206])),
              'headers': {k: draw(st.sampled_from(v)) for k, v in sorted(HEADERS.items()) if draw(st.integers(0, 2))}}
        nodes.append(nd)
        e = {'ref': [i, draw(st.sampled_from(['abs', 'rel', 'root', 'dots', 'net']))]}
        if draw(st.integers(0, 3)):
            e['length'] = draw(st.sampled_from([len(data), len(data), 0, 1, 5, 50, 100]))
        if draw(st.integers(0, 3)):
            e['type'] = draw(st.sampled_from(['text/html', 'text/html', 'text/plain', 'text/html; charset=utf-8', 'TEXT/HTML']))
        if draw(st.integers(0, 3)):
            e['lastmod'] = draw(st.sampled_from(['2001-01-01T00:00:00Z', '2001-01-01', '1970-01-01T00:00:00Z', '2001-01-01T00:00:00.500000Z']))
        if draw(st.integers(0, 4)) == 0:
            e['capability'] = 'resource'
        nodes[0]['entries'].append(e)
        inputs += [str(before + draw(st.integers(1, n))), 'b']
    if draw(st.integers(0, 4)) == 0:
        nodes[0]['links'].append(['describedby', [1, 'rel']])
        inputs[0] = 'd'
    return {'nodes': nodes, 'inputs': inputs, 'local': local, 'start': draw(st.sampled_from(['sitemap', 'sitemap', 'script', 'mapping'])),
            'wk': None, 'rel': draw(st.booleans()), 'verbose': False, 'token': None, 'delay': None}


class World(object):
    def __init__(self, case, ctx):
        self.case = case
        self.local = case['local']
        self.base = os.path.join(ctx.dir, 'src') if self.local else 'http://h.example/base'
        if self.local and case['rel']:
            self.base = 'src'
        self.web = env.FakeWeb().install()
        self.pages = {}
        for i, nd in enumerate(case['nodes']):
            self.put(self.uri(i), nd)
        if case['wk'] is not None and not self.local:
            # the same document, at the well-known place
            self.put('http://h.example/.well-known/resourcesync', case['nodes'][case['wk']])

    def uri(self, i):
        return self.base + '/' + self.case['nodes'][i]['name']

    def ref(self, at, r):
        """Reference to a node as written in the document at a URI."""
        i, how = r
        target = self.uri(i)
        if how == 'abs':
            return target
        if how == 'root':
            return '/' + target.split('/', 3)[3] if not self.local else target
        if how == 'net':
            return target.split(':', 1)[1] if not self.local else target
        name = os.path.relpath(target, os.path.dirname(at)) if at.startswith(self.base) else target
        return './' + name if how == 'dots' or ':' in name.split('/')[0] else name

    def put(self, uri, nd):
        t = nd['t']
        self.pages[uri] = nd
        data = None
        if t == 'doc':
            entries, seen = [], set()
            for e in self.entries(uri, nd):
                e = dict(e)
                entries.append(e)
            data = document(nd['cap'], entries, root='sitemapindex' if nd['index'] else 'urlset',
                            ln=[(rel, self.ref(uri, r)) for rel, r in nd['links']])
        elif t in ('res', 'broken'):
            data = nd['data'].encode()
        elif t == 'fault':
            data = b'x'
            self.web.faults[uri] = [nd['how']] * 40
        if self.local:
            if data is not None and t != 'fault':
                write_file(uri, data, 978307200)
        elif data is not None:
            self.web.pages[uri] = data
            if t == 'res':
                self.web.headers[uri] = nd['headers']
                self.web.codes[uri] = nd['status']

    def entries(self, uri, nd):
        out = [{'uri': 'http://h.example/before/%d' % k} for k in range(nd.get('before', 0))]
        for e in nd['entries']:
            e = dict(e)
            e['uri'] = self.ref(uri, e.pop('ref'))
            out.append(e)
        for k in range(nd['many']):
            out.append({'uri': 'http://h.example/many/%d' % k})
        return out


def model_page(w, uri, expected, checks):
    """(kind of page, what must be seen, options)."""
    nd = w.pages.get(uri)
    if expected == 'resource':
        return 'resource', nd, {}
    if nd is None or nd['t'] in ('missing', 'fault'):
        return 'unreadable', nd, {}
    if nd['t'] != 'doc':
        return 'unparsable', nd, {}
    cap = nd['cap']
    kind = ('(unknown capability)' if cap is None else cap) + ('index' if nd['index'] else '')
    options, shown = {}, []
    for key, rel in (('d', 'describedby'), ('u', 'up'), ('i', 'index')):
        for r, ref in nd['links']:
            if r == rel:
                h = w.ref(uri, ref)
                options[key] = (urllib.parse.urljoin(uri, h), 'resource' if key == 'd' else None, {})
                shown.append((key, h, None))
                break
    entries = w.entries(uri, nd)
    limit = 20 if len(entries) > 21 else len(entries)
    if nd['index']:
        allowed = [kind[:-5]] if kind != 'capabilitylistindex' else []
    elif kind.endswith('-archive'):
        allowed = [kind[:-8]]
    elif kind == 'description':
        allowed = ['capabilitylist']
    elif kind == 'capabilitylist':
        allowed = IN_CAPLIST
    else:
        allowed = []
    for n, e in enumerate(entries[:limit]):
        c = e.get('capability')
        if c is not None:
            follow = 'resource' if c == 'resource' else [c]
        elif kind in KNOWN:
            follow = 'resource'
        else:
            follow = allowed
        ch = {}
        if 'length' in e:
            ch['content-length'] = str(e['length'])
        if 'lastmod' in e:
            ch['last-modified'] = e['lastmod'] if 'T' in e['lastmod'] else e['lastmod'] + 'T00:00:00Z'
        if 'type' in e:
            ch['content-type'] = e['type']
        options[str(n + 1)] = (urllib.parse.urljoin(uri, e['uri']), follow, ch)
        shown.append((str(n + 1), e['uri'], c is not None and c not in allowed))
    return 'doc', {'kind': kind, 'shown': shown, 'n': len(entries), 'hidden': len(entries) - limit, 'nd': nd}, options


def check_doc(text, uri, expected, info, ctx, what):
    lines = text.split('\n')
    m = [re.match(r'Parsed (.*) document with (\d+) entries', x) for x in lines]
    ctx.equal([x.groups() for x in m if x], [(info['kind'], str(info['n']))], 'summary' + what)
    got = []
    blocks = {}
    cur = None
    for x in lines:
        o = re.match(r'\[(\w+)\] (.*)$', x)
        if o:
            cur = o.group(1)
            blocks[cur] = []
            got.append((cur, o.group(2)))
        elif cur is not None and x.startswith('  '):
            blocks[cur].append(x)
    ctx.equal([g[0] for g in got], [s[0] for s in info['shown']], 'options shown' + what)
    for (key, said), (k, u, odd) in zip(got, info['shown']):
        ctx.expect(said == u or said.endswith(' ' + u) and key in 'dui', 'reference shown' + what, option=key, got=said, want=u)
        full = urllib.parse.urljoin(uri, u)
        ctx.equal([x for x in blocks[key] if 'relative' in x and x.endswith(full)] != [], full != u, 'expansion told of option %s' % key + what)
        if key not in 'dui':
            ctx.equal(any('EXPECTED' in x for x in blocks[key]), bool(odd), 'warning about entry %s' % key + what)
    rest = [int(x) for x in re.findall(r'not showing remaining (\d+)', text)]
    ctx.equal(rest, [info['hidden']] if info['hidden'] else [], 'entries not shown' + what)
    kind = info['kind']
    warned = any(x.startswith('WARNING') and 'expected' in x for x in lines)
    if expected is None or kind in expected:
        ctx.expect(not warned, 'warning of an expected type' + what, kind=kind, expected=expected)
    elif not (info['nd']['index'] and kind[:-5] in expected):
        ctx.expect(warned, 'no warning of an unexpected type' + what, kind=kind, expected=expected)
        ctx.label('unexpected type')
    unknown = any(x.startswith('WARNING') and 'unknown' in x and 'expected' not in x for x in lines)
    if kind in ['description', 'descriptionindex', 'capabilitylist'] + KNOWN + ARCHIVES + [k + 'index' for k in KNOWN]:
        ctx.expect(not unknown, 'known type called unknown' + what, kind=kind)
    elif info['nd']['cap'] in (None, 'x-new') :
        ctx.expect(unknown, 'unknown type not warned of' + what, kind=kind)


def check_resource(text, uri, nd, checks, w, ctx, what):
    lines = text.split('\n')
    status = [x.split(': ', 1)[1] for x in lines if x.strip().startswith('status: ')]
    if w.local and not uri.startswith('http'):
        there = nd is not None and nd['t'] not in ('missing', 'fault')
        ctx.equal(status, ['200' if there else '404'], 'status' + what)
        headers = {}
        if there:
            headers = {'content-length': str(os.path.getsize(uri)), 'last-modified': '2001-01-01T00:00:00Z'}
    else:
        if nd is None or nd['t'] in ('missing', 'fault'):
            ctx.equal(status, [], 'status' + what)
            ctx.expect(any(x.startswith('Cannot read') and uri in x for x in lines), 'nothing said about what cannot be read' + what,
                       text=text)
            return
        ctx.equal(status, [str(nd.get('status', 200))], 'status' + what)
        if nd.get('status', 200) != 200:
            return
        headers = {'content-length': str(len(w.web.pages[uri]))}
        headers.update({k.lower(): v for k, v in nd.get('headers', {}).items()})
    got = {}
    for x in lines:
        m = re.match(r'  ([a-z-]+): (.*)$', x)
        if m and m.group(1) != 'status':
            ctx.expect(m.group(1) not in got, 'header shown twice' + what)
            got[m.group(1)] = m.group(2)
    ctx.equal(sorted(got), sorted(headers), 'headers shown' + what)
    for h in headers:
        ctx.expect(got[h].startswith(headers[h]), 'value of header' + what, header=h, got=got[h], want=headers[h])
        note = got[h][len(headers[h]):].strip()
        if h not in checks:
            ctx.equal(note, '', 'comparison of %s' % h + what)
        elif checks[h] == headers[h]:
            ctx.expect('MATCH' in note.upper(), 'comparison of %s' % h + what, note=note)
            ctx.label('header matches')
        else:
            ctx.expect('MATCH' not in note.upper() and checks[h] in note, 'comparison of %s' % h + what, note=note, expected=checks[h])
            ctx.label('header differs')


def run(case, ctx):
    from resync.client_utils import ClientFatalError
    from resync.explorer import Explorer
    ctx.dir
    w = World(case, ctx)
    start = case['start']
    e = Explorer(verbose=case['verbose'])
    wk = 'http://h.example/.well-known/resourcesync'
    wk_caps = ['description', 'descriptionindex', 'capabilitylist', 'capabilitylistindex']
    first = w.uri(0)
    if start in ('sitemap', 'script'):
        e.sitemap_name = first
        starts = [(first, None, {})]
    elif start == 'mapping':
        e.set_mappings([first, 'dst'])
        starts = [(first, None, {})] if w.local else [(first, None, {}), (wk, wk_caps, {})]
        if w.local and os.path.isdir(first):
            return
    elif start == 'root':
        e.set_mappings(['http://h.example', 'dst'])
        starts = [(wk, wk_caps, {})]
    elif start == 'dir':
        d = os.path.join(ctx.dir, 'docs')
        os.makedirs(d)
        starts = []
        nd = {'t': 'doc', 'cap': 'capabilitylist', 'index': False, 'links': [], 'many': 2, 'entries': []}
        w.local = True
        for i, name in enumerate(['resourcesync', 'capabilities.xml', 'resourcelist.xml', 'changelist.xml', 'other.xml']):
            if i < len(case['nodes']) and case['nodes'][i]['t'] == 'doc':
                w.put(os.path.join(d, name), nd)
                if i < 4:
                    starts.append((os.path.join(d, name), None, {}))
        e.set_mappings([d, 'dst'])
    else:
        starts = []
    # what the user types, and what is on the screen when it is typed
    # (numbers stand for one of the options there are)
    inputs = list(case['inputs']) + ['q'] * 3
    # history as the user sees it, and what is to be seen on each page
    pages, trace = [], []
    left = list(starts)
    history = []
    quit_ = False
    k = 0
    while left and not quit_:
        history = [left.pop(0)]
        while history and not quit_:
            here = history.pop()
            kind, info, options = model_page(w, *here)
            page = (here, kind, info, options, len(history) > 0)
            pages.append(page)
            n = 0
            while True:
                x = inputs[k] if k < len(inputs) else 'q'
                if isinstance(x, int):
                    x = (sorted(options) or ['b'])[x % max(1, len(options))]
                    inputs[k] = x
                k += 1
                trace.append((len(pages) - 1, n))
                n += 1
                if x in options:
                    history += [here, options[x]]
                    break
                if x == 'q':
                    quit_ = True
                    break
                if x == 'b':
                    break
    screens, prompts = [], []
    seen = [0]
    given = iter([str(x) for x in inputs])

    def fake_input(prompt=''):
        text = sys.stdout.getvalue()
        screens.append(text[seen[0]:])
        seen[0] = len(text)
        prompts.append(prompt)
        return next(given, 'q')
    old = builtins.input
    builtins.input = fake_input
    m = sys.modules['resync.explorer']
    try:
        if start == 'script':
            t = Ran('resync-explorer', ['--sitemap', first] + (['-v'] if case['verbose'] else []) + (
                ['--access-token', case['token']] if case['token'] is not None else []) + (
                ['--delay=%s' % case['delay']] if case['delay'] is not None else []))
            ctx.expect(not t.refused, 'tool failed', stderr=t.err[-400:])
            out = t.out
        else:
            with env.captured() as buf:
                try:
                    e.explore()
                    fatal = None
                except ClientFatalError as x:
                    fatal = x
            ctx.equal(fatal is not None, not starts, 'error without anything to start from', error=str(fatal))
            if fatal is not None:
                ctx.label('nothing to start from')
                return
            out = buf.getvalue()
    finally:
        builtins.input = old
    ctx.expect('done' in out[seen[0]:], 'end of the session not told')
    ctx.equal(len(screens), len(trace), 'inputs asked for')
    followed = sum(1 for i in range(1, len(pages)) if pages[i][4])
    ctx.nontrivial(len(pages) > 1 and followed)
    requests = []
    for (p, n), text, prompt in zip(trace, screens, prompts):
        here, kind, info, options, back = pages[p]
        uri, expected, checks = here
        what = ', page %d (%s %s) after inputs %r' % (p, kind, uri, inputs[:trace.index((p, n))])
        ctx.equal('number' in prompt, len(options) > 0, 'number offered' + what)
        ctx.equal('b(ack)' in prompt, back, 'back offered' + what)
        if n:
            ctx.equal(text, '', 'output after bad input' + what)
            continue
        ctx.label(kind)
        ctx.equal(re.findall(r'(?m)^Reading (.*)$', text), [uri], 'document read' + what)
        if kind == 'doc':
            check_doc(text, uri, expected, info, ctx, what)
        elif kind == 'resource':
            check_resource(text, uri, info, checks, w, ctx, what)
        else:
            ctx.expect(re.search(r'(?m)^Cannot %s .*%s' % ('read' if kind == 'unreadable' else 'parse', re.escape(uri)), text),
                       'nothing said about a document that is %s' % kind + what, text=text)
        if re.match(r'\w+:', uri):
            requests.append(('HEAD' if kind == 'resource' else 'GET', uri))
    ctx.equal(w.web.log, requests, 'requests')
    set_ = start == 'script'
    for r in w.web.requests:
        check_request(r, case['token'] if set_ else None, None, ctx, 'request of ' + r['url'])
    if not w.local:
        ctx.equal(env.SLEEPS, [case['delay']] * (len(requests) - 1) if set_ and case['delay'] else [], 'delays')


CHECKS = [Check('visits', visits, run, quick=600, thorough=6000),
          Check('sessions', graphs, run, quick=900, thorough=15000, shards=3, thorough_shards=6)]

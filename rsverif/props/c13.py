"""C13: dumps."""

import io
import os
import xml.etree.ElementTree as ET
import zipfile

from hypothesis import strategies as st

from rsverif import gen
from rsverif.core import Check
from rsverif.props.c01 import RS, SM, hash_set
from rsverif.sync import digests, tree, write_file

RULE = ("trees of up to 8 files under odd names, described by several kinds of list, with small limits on number and size; "
        "non-trivial: at least two files, and more than one package or files in more than one directory")
ASSUMPTIONS = ["local paths are all absolute or all relative, without dot segments in the middle", "no URI is listed twice"]

NAMES = st.one_of(st.sampled_from(['a', 'b', 'manifest.xml', '_manifest.xml', 'a b', 'caf\u00e9', '%20', '..a', 'x&y', 'a.txt', '<', 'ab',
                                   'manifest.xm', 'MANIFEST.XML', "'", 'A', 'B', 'A B', '__manifest.xml', 'n' * 210]),
                  st.text('abm_.', min_size=1, max_size=4).filter(lambda s: s not in ('.', '..')))


@st.composite
def cases(draw):
    paths = draw(gen.file_paths(min_size=0 if draw(st.integers(0, 9)) == 0 else 1, max_size=8, names=NAMES))
    if paths and draw(st.integers(0, 2)) == 0:
        # all in or below one directory, some with a common beginning of their names
        top = draw(st.sampled_from(['d', 'd/e', 'manifest.xml']))
        paths = [top + '/' + p for p in paths]
    files = []
    for p in paths:
        f = {'path': p, 'size': draw(st.one_of(st.integers(0, 30), st.sampled_from([0, 1, 10, 20] * 4 + [140000]))),
             'ts': draw(st.one_of(st.integers(400000000, 1500000000), st.integers(400000000, 1500000000), st.integers(0, 1500000000),
                                  # the zip format has no times before 1980 or after 2107
                                  st.sampled_from([0, 1, -1, 315532799, 315532801, 4354819198, 4354819201, 10 ** 10]))),
             'length': draw(st.booleans()),
             'hashes': draw(st.sampled_from([[], ['md5'], ['sha-1', 'sha-256'], ['md5', 'sha-1', 'sha-256']])),
             'mime': draw(st.sampled_from([None, None, 'text/plain'])), 'lastmod': draw(st.booleans()),
             'change': draw(st.sampled_from([None, 'created', 'updated'])),
             'ln': draw(st.sampled_from([[], [], [{'rel': 'describedby', 'href': 'http://h.example/d'}]]))}
        files.append(f)
    c = {'files': draw(st.permutations(files)), 'max_files': draw(st.sampled_from([1, 2, 2, 3, 4, 5, 50000])),
         'max_size': draw(st.sampled_from([30, 31, 40, 60, 100, 10 ** 8])),
         'list': draw(st.sampled_from(['ResourceList', 'ResourceListOrdered', 'ChangeList', 'list', 'set'])),
         'root': draw(st.sampled_from(['abs', 'rel', 'dot'])), 'compress': draw(st.booleans()),
         'separate': draw(st.booleans()), 'old': draw(st.booleans()), 'base': draw(st.sampled_from(['dump', 'o/rd_', 'abs', 'd0', 'a.b', 'o/', 'o/00', 'dump.zip', '-', '%20', 'o/x/../y']))}
    for f in files:
        f['size'] = min(f['size'], c['max_size'])
    if files and draw(st.integers(0, 3)) == 0:
        # a file listed again under other URIs
        c['again'] = draw(st.lists(st.integers(0, len(files) - 1), min_size=1, max_size=3))
    if draw(st.integers(0, 4)) == 0 and files:
        c['bad'] = [draw(st.integers(0, len(files) - 1)),
                    draw(st.sampled_from(['missing', 'pathless', 'longer', 'shorter', 'too big', 'directory']))]
    else:
        c['bad'] = None
    return c


def read_manifest(data, ctx):
    """[(uri, lastmod, md attributes)] of a manifest."""
    root = ET.fromstring(data)
    ctx.equal(root.tag, SM + 'urlset', 'root of manifest')
    caps = [x.get('capability') for x in root.findall(RS + 'md')]
    ctx.equal(caps, ['resourcedump-manifest'], 'capability of manifest')
    out = []
    for u in root.findall(SM + 'url'):
        md = [dict(x.attrib) for x in u.findall(RS + 'md')]
        ctx.expect(len(md) == 1, 'metadata of an entry of the manifest', md=md)
        m = md[0]
        if 'hash' in m:
            m['hash'] = set(m['hash'].split())
        lastmod = [x.text for x in u.findall(SM + 'lastmod')]
        ln = [dict(x.attrib) for x in u.findall(RS + 'ln')]
        out.append((u.find(SM + 'loc').text, lastmod[0] if lastmod else None, m, ln))
    return out


def fields(r):
    return dict(uri=r.uri, path=r.path, timestamp=r.timestamp, length=r.length, md5=r.md5, sha1=r.sha1, sha256=r.sha256,
                mime=r.mime_type, change=r.change, ln=[dict(x) for x in r.ln or []])


def run(case, ctx):
    from resync.change_list import ChangeList
    from resync.dump import Dump, DumpError
    from resync.resource import Resource
    from resync.resource_list import ResourceList, ResourceListOrdered
    top = ctx.dir
    root = {'abs': os.path.join(top, 'src'), 'rel': 'src', 'dot': '../w/src'}[case['root']]
    os.makedirs(os.path.join(top, 'o'))
    os.makedirs(os.path.join(top, 'o', 'x'))
    base = os.path.join(top, 'o', 'x') if case['base'] == 'abs' else case['base']
    res, content = [], {}
    for i, f in enumerate(case['files']):
        data = (b'%d:' % i + b'abcdefghij' * (f['size'] // 10 + 1))[:f['size']]
        p = root + '/' + f['path']
        write_file(os.path.join(top, p), data, f['ts'])
        u = 'http://h.example/r/%s' % f['path']
        content[u] = data
        d = digests(data, f['hashes'])
        r = Resource(uri=u, path=p, mime_type=f['mime'],
                     change=f['change'] or ('updated' if case['list'] == 'ChangeList' else None), **d)
        if f['length']:
            r.length = len(data)
        if f['lastmod']:
            r.timestamp = f['ts']
        if f['ln']:
            r.ln = [dict(x) for x in f['ln']]
        res.append(r)
    for n, i in enumerate(case.get('again', [])):
        r = Resource(uri='http://h.example/again/%d' % n, path=res[i].path,
                     change='updated' if case['list'] == 'ChangeList' else None)
        content[r.uri] = content[res[i].uri]
        if n == 1:
            r.length = len(content[r.uri])
        res.append(r)
    if case['bad']:
        i, what = case['bad']
        r = res[i]
        if what == 'missing':
            os.unlink(os.path.join(top, r.path))
        elif what == 'directory':
            os.unlink(os.path.join(top, r.path))
            r.path = r.path + '.gone/x'
        elif what == 'pathless':
            r.path = None
        elif what == 'longer':
            r.length = len(content[r.uri]) + 1
        elif what == 'shorter':
            r.length = len(content[r.uri]) - 1
        else:
            with open(os.path.join(top, r.path), 'wb') as fh:
                fh.write(b'x' * (case['max_size'] + 1 if case['max_size'] < 1000 else 0))
            r.length = None
            if case['max_size'] >= 1000:
                case = dict(case, max_size=len(content[r.uri]))
                with open(os.path.join(top, r.path), 'wb') as fh:
                    fh.write(b'x' * (case['max_size'] + 1))
    kind = case['list']
    if kind == 'ResourceList':
        lst = ResourceList()
        lst.add(res)
    elif kind == 'ResourceListOrdered':
        lst = ResourceList(resources_class=ResourceListOrdered)
        lst.add(res)
    elif kind == 'ChangeList':
        lst = ChangeList(resources=list(res))
    elif kind == 'set':
        from resync.resource_set import ResourceSet
        lst = ResourceSet()
        for r in res:
            lst.add(r)
    else:
        lst = list(res)
    order = [r.uri for r in lst]
    given = {r.uri: fields(r) for r in res}
    left = ['%s%05d%s' % (base, 0, ext) for ext in ('.zip', '.xml')[:1 + case['separate']]] if case['old'] and res else []
    for p in left:
        if p.endswith('.zip'):
            with zipfile.ZipFile(p, 'w') as old:
                old.writestr('manifest.xml', 'of an older dump ' * 1000)
                old.writestr('older/file', 'no longer there ' * 1000)
        else:
            with open(p, 'wb') as fh:
                fh.write(b'from an older, larger dump ' * 2000)
    left = set(os.path.relpath(p, top) for p in left)
    before = tree(top, times=True)
    if not case['bad'] and res and not case['separate']:
        try:
            Dump(resources=lst, format='tar', compress=case['compress']).write(basename=base, write_separate_manifests=False)
            ctx.fail('dump in an unknown format written')
        except DumpError:
            ctx.equal(tree(top, times=True), before, 'everything on disk after refusing the format')
    d = Dump(lst, 'zip', case['compress']) if len(order) % 2 else Dump(resources=lst, compress=case['compress'])
    ctx.equal((d.max_size, d.max_files), (100 * 1024 * 1024, 50000), 'default limits')
    d.max_size, d.max_files = case['max_size'], case['max_files']
    try:
        n = d.write(basename=base, write_separate_manifests=case['separate'])
    except (DumpError, OSError) as e:
        ctx.expect(case['bad'], 'dump refused', error=str(e))
        if case['bad'][1] == 'too big' and case['bad'][0] in case.get('again', []):
            ctx.label('refused, listed twice')
        ctx.label('refused')
        ctx.nontrivial(len(res) > 1)
        ctx.equal(tree(top, times=True), before, 'everything on disk after refusing')
        return
    ctx.expect(not case['bad'], 'dump written from a bad list', bad=case['bad'])
    after = tree(top)
    outdir = os.path.relpath(os.path.join(top, base + '#'), top)[:-1]
    want_files = set()
    for i in range(n):
        want_files.add('%s%05d.zip' % (outdir, i))
        if case['separate']:
            want_files.add('%s%05d.xml' % (outdir, i))
    old = set(p for p in before if not p.endswith('/')) - left
    ctx.equal(sorted(set(after) - old), sorted(want_files), 'files written')
    for p in old:
        ctx.equal(after[p], before[p][0], 'source file ' + p)
    # The list given
    ctx.equal([r.uri for r in lst], order, 'order of the list given')
    for r in res:
        g = dict(given[r.uri])
        if g['length'] is None:
            g['length'] = len(content[r.uri])
        ctx.equal(fields(r), g, 'resource given')
    # The packages
    seen = []
    for i in range(n):
        name = '%s%05d' % (outdir, i)
        zf = zipfile.ZipFile(io.BytesIO(after[name + '.zip']))
        ctx.equal(zf.testzip(), None, 'test of package')
        names = zf.namelist()
        ctx.equal(len(names), len(set(names)), 'names in package are distinct', names=names)
        ctx.expect('manifest.xml' in names, 'no manifest in package', names=names)
        for x in zf.infolist():
            ctx.equal(x.compress_type, zipfile.ZIP_DEFLATED if case['compress'] else zipfile.ZIP_STORED, 'compression')
        man = read_manifest(zf.read('manifest.xml'), ctx)
        paths = [m['path'] for u, lm, m, ln in man]
        ctx.equal(sorted(paths), sorted(x for x in names if x != 'manifest.xml'), 'paths in manifest')
        sizes = {}
        for u, lm, m, ln in man:
            ctx.expect(u in content and u not in seen, 'listed twice or not known', uri=u)
            seen.append(u)
            ctx.equal(zf.read(m['path']), content[u], 'content of ' + u)
            p = m['path']
            ctx.expect(not p.startswith('/') and '..' not in p.split('/'), 'path leads out of the package', path=p)
            sizes[u] = len(content[u])
            g = given[u]
            ctx.equal(lm, gen.w3c(g['timestamp']) if g['timestamp'] is not None else None, 'lastmod in manifest')
            want = {'path': p, 'length': str(len(content[u]))}
            if g['mime']:
                want['type'] = g['mime']
            if g['change']:
                want['change'] = g['change']
            h = hash_set({k: v for k, v in g.items() if v is not None})
            if h:
                want['hash'] = h
            ctx.equal(m, want, 'description in manifest of ' + u)
            ctx.equal(ln, g['ln'], 'links in manifest of ' + u)
        ctx.expect(man, 'empty package', number=i)
        # limits
        ctx.expect(len(man) <= case['max_files'], 'too many files', number=i, files=len(man), limit=case['max_files'])
        total = sum(sizes.values())
        last = [u for u in order if u in sizes][-1]
        ctx.expect(total - sizes[last] < case['max_size'], 'too big before its last file', total=total, limit=case['max_size'])
        if i < n - 1:
            ctx.expect(len(man) == case['max_files'] or total >= case['max_size'], 'package ended early', files=len(man), total=total)
        if case['separate']:
            sep = read_manifest(after[name + '.xml'], ctx)
            ctx.equal(sorted(sep, key=str), sorted(man, key=str), 'separate manifest')
    ctx.equal(sorted(seen), sorted(content), 'resources in all packages')
    ctx.nontrivial(len(res) >= 2 and (n > 1 or len(set(os.path.dirname(f['path']) for f in case['files'])) > 1))
    ctx.label('packages', n > 1)
    # ... and each manifest reads as what it is
    if n:
        from resync.resource_dump_manifest import ResourceDumpManifest
        rdm = ResourceDumpManifest()
        zf = zipfile.ZipFile(io.BytesIO(after[outdir + '00000.zip']))
        rdm.parse(fh=zf.open('manifest.xml'))
        ctx.equal(sorted((r.uri, r.path) for r in rdm), sorted((u, m['path']) for u, lm, m, ln in
                                                               read_manifest(zf.read('manifest.xml'), ctx)), 'manifest parsed')


CHECKS = [Check('dumps', cases, run, quick=450, thorough=8000, shards=7, thorough_shards=7)]

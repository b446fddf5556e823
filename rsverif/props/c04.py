"""C04: comparing two resource lists."""

import os

from hypothesis import strategies as st

from rsverif.core import Check
from rsverif import gen
from rsverif.props.c03 import model_equal

RULE = ("pairs of lists over a common pool of URIs, each URI in one or both lists, the same or with differences that do "
        "or do not matter; non-trivial: at least two of same, updated, deleted and created are non-empty")
ASSUMPTIONS = ["timestamps of the two descriptions differ by zero or by at least a millisecond from the one second tolerance"]

FIELDS = ['timestamp', 'length', 'mime_type', 'md5', 'sha1', 'sha256', 'ts_datetime', 'path', 'capability', 'ts_at']


@st.composite
def list_pairs(draw):
    uris = draw(st.lists(st.one_of(
        st.sampled_from(['http://e/' + c for c in 'abcdefgh']),
        st.sampled_from(['http://e/a/', 'http://e/a/b', 'http://e/A', 'http://e/\xe9', 'http://e/a b', 'http://e', 'a', 'b',
                         'https://e/a', 'http://e/\U0001F600', 'http://e/~', 'http://e/aa', 'http://e/a0']),
        gen.uris()), unique=True, max_size=9))
    entries = []
    for u in uris:
        where = draw(st.sampled_from(['src', 'dst', 'same', 'other', 'both', 'both']))
        s = draw(gen.resources(uri=st.just(u), rich=False))
        s.pop('change', None)
        d = dict(s)
        if where == 'other':
            d = draw(gen.resources(uri=st.just(u), rich=False))
            d.pop('change', None)
        if where in ('both', 'other'):
            for i in range(draw(st.integers(0, 2))):
                k = draw(st.sampled_from(['shift', 'length', 'md5', 'sha1', 'sha256', 'mime_type', 'path', 'drop', 'dropt']))
                if k == 'shift':
                    t = draw(st.integers(10, 2000000000))
                    s['timestamp'] = t
                    d['timestamp'] = t + draw(st.sampled_from([0, 0.5, 0.999, 1, 1.25, 3600, -0.5, -1, -5]))
                elif k == 'drop':
                    d.pop(draw(st.sampled_from(FIELDS[1:])), None)
                elif k == 'dropt':
                    d.pop('timestamp', None)
                else:
                    d[k] = draw({'length': gen.LENGTHS, 'md5': gen.MD5, 'sha1': gen.SHA1, 'sha256': gen.SHA256,
                                 'mime_type': gen.MIME, 'path': gen.ATT_TEXT}[k])
        ts, td = s.get('timestamp'), d.get('timestamp')
        if ts is not None and td is not None and ts != int(ts) and abs(abs(ts - td) - 1) < 1e-5:
            d['timestamp'] = ts     # not a difference floats can be relied on to tell
        entries.append({'src': s if where != 'dst' else None, 'dst': d if where != 'src' else None})
    return {'entries': entries,
            'src_order': draw(st.permutations(range(len(entries)))),
            'dst_order': draw(st.permutations(range(len(entries)))),
            'src_class': draw(st.sampled_from(['dict', 'ordered'])),
            'dst_class': draw(st.sampled_from(['dict', 'ordered']))}


def make_list(descriptions, cls):
    from resync.resource import Resource
    from resync.resource_list import ResourceList, ResourceListOrdered
    rl = ResourceList() if cls == 'dict' else ResourceList(resources_class=ResourceListOrdered)
    for d in descriptions:
        rl.add(gen.make(Resource, d))
    return rl


def values(r):
    return {k: getattr(r, k) for k in ['uri', 'change'] + FIELDS if getattr(r, k) is not None}


def model(case):
    parts = {'same': {}, 'updated': {}, 'deleted': {}, 'created': {}}
    for e in case['entries']:
        s, d = e['src'], e['dst']
        if s is None:
            parts['deleted'][d['uri']] = d
        elif d is None:
            parts['created'][s['uri']] = s
        elif model_equal(s, d, 1.0):
            parts['same'][s['uri']] = (s, d)
        else:
            parts['updated'][s['uri']] = s
    return parts


def lists(case):
    es = case['entries']
    src = make_list([es[i]['src'] for i in case['src_order'] if es[i]['src']], case['src_class'])
    dst = make_list([es[i]['dst'] for i in case['dst_order'] if es[i]['dst']], case['dst_class'])
    return src, dst


def check_parts(parts, want, ctx, what):
    for name, got in zip(('same', 'updated', 'deleted', 'created'), parts):
        ctx.equal(sorted(r.uri for r in got), sorted(want[name]), '%s in %s' % (name, what))
        ctx.equal(len(got), len(want[name]), 'number of %s in %s' % (name, what))
        for r in got:
            w = want[name][r.uri]
            w = w if isinstance(w, tuple) else (w,)
            ctx.expect(values(r) in w, 'description of %s resource in %s' % (name, what), got=values(r), want=w)


def run_compare(case, ctx):
    from resync.resource_list import ResourceList
    src, dst = lists(case)
    want = model(case)
    for name in want:
        ctx.label(name, bool(want[name]))
    ctx.nontrivial(sum(1 for p in want.values() if p) >= 2)
    parts = dst.compare(src)
    check_parts(parts, want, ctx, 'comparison')
    # The inputs are as before
    es = case['entries']
    for lst, side, cls in ((src, 'src', case['src_class']), (dst, 'dst', case['dst_class'])):
        w = [es[i][side] for i in case[side + '_order'] if es[i][side]]
        if cls == 'dict':
            w = sorted(w, key=lambda r: r['uri'])
        ctx.equal([values(r) for r in lst], w, side + ' list after comparison')
    # Comparing again gives the same
    check_parts(dst.compare(src), want, ctx, 'second comparison')
    # The other way round
    back = src.compare(dst)
    flip = {'same': want['same'], 'created': want['deleted'], 'deleted': want['created'],
            'updated': {u: [e['dst'] for e in es if e['dst'] and e['dst']['uri'] == u][0] for u in want['updated']}}
    check_parts(back, flip, ctx, 'reverse comparison')
    # With itself
    s, u, d, c = src.compare(src)
    ctx.equal((len(s), len(u), len(d), len(c)), (len(src), 0, 0, 0), 'comparison with itself')
    # Patching the destination gives the source
    same, updated, deleted, created = parts
    patched = ResourceList()
    gone = set(r.uri for r in deleted)
    for r in dst:
        if r.uri not in gone:
            patched.add(r)
    for r in updated:
        patched.add(r, replace=True)
    for r in created:
        patched.add(r)
    s, u, d, c = patched.compare(src)
    ctx.equal((len(s), len(u), len(d), len(c)), (len(src), 0, 0, 0), 'comparison after applying the changes')


def want_changes(want):
    out = {}
    for name in ('updated', 'deleted', 'created'):
        for u, d in want[name].items():
            out[u] = dict(d, change=name)
    return out


def check_changes(cl, want, ctx, what):
    ctx.equal(sorted(r.uri for r in cl), sorted(want), 'URIs in ' + what)
    for r in cl:
        ctx.equal(values(r), want[r.uri], 'change in ' + what)


def run_change_list(case, ctx):
    from resync.change_list import ChangeList
    src, dst = lists(case)
    want = model(case)
    ctx.nontrivial(sum(1 for p in want.values() if p) >= 2)
    same, updated, deleted, created = dst.compare(src)
    cl = ChangeList()
    for name, part in (('updated', updated), ('deleted', deleted), ('created', created)):
        cl.add_changed_resources(part, change=name)
    check_changes(cl, want_changes(want), ctx, 'change list')
    check_parts((same, updated, deleted, created), want, ctx, 'parts after building a change list')


def run_client(case, ctx):
    """The change list the client calculates between two resource lists."""
    import io
    import contextlib
    from resync.client import Client
    from resync.change_list import ChangeList
    src, dst = lists(case)
    want = model(case)
    ctx.nontrivial(sum(1 for p in want.values() if p) >= 2)
    d = ctx.dir
    dst.write(os.path.join(d, 'old.xml'))
    src.write(os.path.join(d, 'new.xml'))
    c = Client()
    c.set_mappings(['http://e/', d])
    out = os.path.join(d, 'cl.xml')
    links = [{'rel': 'up', 'href': 'http://e/cap.xml'}] if case['links'] else None
    kw = {'empty': True} if case['empty'] else {'ref_sitemap': os.path.join(d, 'old.xml'),
                                                'newref_sitemap': os.path.join(d, 'new.xml')}
    text = None
    if case['stdout']:
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            c.write_change_list(links=links, **kw)
        text = buf.getvalue()
    else:
        c.write_change_list(outfile=out, links=links, **kw)
        with open(out, encoding='utf-8') as fh:
            text = fh.read()
    cl = ChangeList()
    cl.parse(str_data=text)
    ctx.equal(cl.capability, 'changelist', 'capability')
    ctx.equal(cl.ln, links or [], 'links')
    w = {} if case['empty'] else want_changes(want)
    ctx.equal(sorted(r.uri for r in cl), sorted(w), 'URIs in the client change list')
    for r in cl:
        got, m = values(r), w[r.uri]
        for k in ('timestamp', 'ts_datetime', 'ts_at'):
            ctx.expect(gen.same_time(got.pop(k, None), m.get(k)), 'wrong %s in change list' % k, uri=r.uri)
        ctx.equal(got, {k: v for k, v in m.items() if k not in ('timestamp', 'ts_datetime', 'ts_at')},
                  'change in the client change list')


@st.composite
def client_cases(draw):
    case = draw(list_pairs())
    case['empty'] = draw(st.integers(0, 9)) == 0
    case['links'] = draw(st.booleans())
    case['stdout'] = draw(st.booleans())
    return case


CHECKS = [
    Check('compare', list_pairs, run_compare, quick=600, thorough=10000, shards=4, thorough_shards=5),
    Check('change_list', list_pairs, run_change_list, quick=300, thorough=6000),
    Check('client', client_cases, run_client, quick=400, thorough=6000, shards=2),
]

"""C10: containment below the mapped destinations, whatever the source lists."""

import os

from hypothesis import strategies as st

from rsverif import env, gen
from rsverif.core import Check
from rsverif.sync import call, document, write_file

RULE = ("resource lists, change lists and component names with hostile URIs next to ordinary ones, read by baseline and "
        "incremental synchronizations and audits; non-trivial: an entry joined naively with its destination would lie "
        "outside, or has a look-alike of a mapping as its prefix")
ASSUMPTIONS = ["the destinations contain no symbolic links", "at most five levels up are tried (the checks stay in their "
               "scratch directory)"]

MAPS = [
    [['http://h.example/x', 'out']],
    [['http://h.example/x/', 'out/']],
    [['http://h.example/x', 'ABS/a/b/c/w/out']],
    [['http://h.example/x', './o/../out']],
    [['http://h.example/x', 'out'], ['http://h.example/y', 'o/deep']],
    [['http://h.example/x', 'o/deep'], ['http://h.example/x/y', 'out']],
    [['http://h.example', 'out']],
]
DOTS = st.sampled_from(['..', '..', '..', '.', '', '%2e%2e', '%2E%2e', '.%2e', '..%2F..', '%2e%2e%2f', '..\\', '..;', '...', '..%00',
                        '.. ', ' ..', '..%252f'])
PLAIN = st.sampled_from(['a', 'b', 'secret', 'out', 'out2', 'outside', 'o', 'deep', 'w', 'keep', 'new'])


def dotdots(s):
    """How many levels up a path could lead at most, however often it is decoded."""
    low = s.lower().replace('%25', '%').replace('%2e', '.').replace('%2f', '/').replace('\\', '/')
    return low.count('..')


@st.composite
def hostile(draw):
    prefix = draw(st.sampled_from(['http://h.example/x'] * 12 + ['http://h.example/y'] * 3 + [
                                   'http://h.example/x/y', 'http://h.example', 'http://sub.h.example/x', 'http://evil.example/x',
                                   'https://h.example/x', 'HTTP://h.example/x', 'http://h.example/X', 'http://h_example/x',
                                   'http://h.example:80/x', 'http://u@h.example/x', 'file://', '', 'ABS', '../x', 'out', 'x']))
    glue = draw(st.sampled_from(['/'] * 8 + ['//', '//', '', '', '-', '2/', '.', '/../', '\\', '?/', '#/', '%2f']))
    k = draw(st.integers(0, 3))
    if k == 0:
        rest = 'ABS/' + draw(st.sampled_from(['a/abs', 'a/b/secret', 'a/b/c/w/secret', 'top']))
    elif k == 1:
        # straight up to somewhere that exists
        n = draw(st.integers(1, 5))
        between = draw(st.sampled_from(['..', '..', '..', './..', '/..', './/./..', 'a/./../..']))
        rest = '/'.join([between] * n + [draw(PLAIN)])
        if draw(st.booleans()):
            rest = 'a/' + rest
    else:
        rest = '/'.join(draw(st.lists(st.one_of(DOTS, DOTS, PLAIN), min_size=1, max_size=7)))
    u = prefix + glue + rest + draw(st.sampled_from(['', '', '', '/', '/.', '/..', '?q', '#f', '%0a', '\u00e9', '\n', '\u2028']))
    return u


@st.composite
def cases(draw):
    n = draw(st.sampled_from([1, 1, 1, 2, 3]))
    bad = draw(st.lists(hostile().filter(lambda u: dotdots(u) <= 5), min_size=n, max_size=n))
    good = draw(st.lists(st.sampled_from(['http://h.example/x/a', 'http://h.example/x/d/b', 'http://h.example/y/c',
                                          'http://h.example/x/..a/b..', 'http://h.example/x/...']), max_size=2, unique=True))
    mode = draw(st.sampled_from(['baseline', 'baseline', 'incremental', 'incremental', 'dry']))
    entries = [{'u': u, 'change': draw(st.sampled_from(['created', 'updated', 'deleted', 'deleted']))} for u in bad + good]
    entries = draw(st.permutations(entries))
    return {'maps': draw(st.sampled_from(MAPS)), 'mode': mode, 'entries': entries, 'delete': draw(st.sampled_from([True, True, False])),
            'noauth': draw(st.sampled_from([True, True, True, False])), 'ignore': draw(st.booleans()),
            'length': draw(st.booleans()), 'hashes': draw(st.booleans()), 'made': draw(st.booleans())}


def everything(top, inside):
    """Paths below top except below the directories inside, with what is there."""
    out = {}
    for base, dirs, files in os.walk(top):
        rel = os.path.relpath(base, top)
        st_ = os.lstat(base)
        out[rel + '/'] = ('dir', st_.st_mode)
        keep = []
        for d in dirs:
            if os.path.normpath(os.path.join(base, d)) not in inside:
                keep.append(d)
        dirs[:] = keep
        for f in files:
            p = os.path.join(base, f)
            s = os.lstat(p)
            if f == '.resync-client-status.cfg' and base == os.getcwd():
                continue
            with open(p, 'rb') as fh:
                out[os.path.relpath(p, top)] = (fh.read(), s.st_mtime_ns, s.st_mode)
    return out


def run(case, ctx):
    from resync.client import Client
    w = ctx.dir
    top = ctx.outer

    def fill(s):
        return s.replace('ABS', top)

    maps = [(m[0], fill(m[1])) for m in case['maps']]
    inside = set(os.path.normpath(os.path.join(w, m[1])) for m in maps)
    # what an escape could hit: files and directories all the way up and around
    for d in ('.', 'w', '..', '../..', '../../..', '../../../..', 'o', 'outside', 'out2', 'o/deep2'):
        for f in ('secret', 'keep', 'a', 'out-secret', 'abs', 'b'):
            p = os.path.normpath(os.path.join(w, d, f))
            if not os.path.exists(p) and not any(p == i or i.startswith(p + '/') for i in inside):
                write_file(p, b'planted ' + f.encode(), 1000000000)
    if case['made']:
        for i in inside:
            write_file(os.path.join(i, 'secret'), b'old', 1100000000)
            write_file(os.path.join(i, 'sub', 'keep'), b'old', 1100000000)
    web = env.FakeWeb().install()
    web.default = b'hostile content'
    entries = []
    naive = []
    for n, e in enumerate(case['entries']):
        u = fill(e['u'])
        x = {'uri': u, 'lastmod': gen.w3c(1200000000 + n)}
        if case['mode'] != 'baseline':
            x['change'] = e['change']
            x['datetime'] = gen.w3c(1200000000 + n)
        if case['length']:
            x['length'] = 15
        if case['hashes']:
            x['hash'] = 'md5:' + 'a' * 32
        entries.append(x)
        for src, dst in maps:
            src = src.rstrip('/')
            if u.startswith(src):
                p = os.path.normpath(os.path.join(w, dst + u[len(src):]))
                q = os.path.normpath(os.path.join(w, dst, u[len(src):].lstrip('/')))
                r = os.path.normpath(os.path.join(w, dst, u[len(src) + 1:]))
                base = os.path.normpath(os.path.join(w, dst))
                naive.append(any(not (y == base or y.startswith(base + '/')) for y in (p, q, r)))
    ctx.nontrivial(any(naive))
    ctx.label('escape by joining', any(naive))
    ctx.label(case['mode'])
    base = maps[0][0].rstrip('/')
    web.pages[base + '/resourcelist.xml'] = document('resourcelist', entries)
    web.pages[base + '/changelist.xml'] = document('changelist', entries)
    before = everything(top, inside)
    c = Client(hashes=['md5'] if case['hashes'] else [], dryrun=(case['mode'] == 'dry'))
    c.set_mappings(['%s=%s' % m for m in maps])
    c.noauth = case['noauth']
    c.ignore_failures = case['ignore']
    c.tries = 2
    c.sitemap_name = base + '/resourcelist.xml'
    try:
        if case['mode'] == 'baseline':
            o = call(c.baseline_or_audit, allow_deletion=case['delete'])
        else:
            o = call(c.incremental, allow_deletion=case['delete'], from_datetime='2001-01-01T00:00:00Z')
        ctx.label('completed', o.error is None)
    except Exception:
        # refusal in whatever way is fine: what counts is what happened on disk
        ctx.label('stopped')
    after = everything(top, inside)
    for p in sorted(set(before) | set(after)):
        if before.get(p) != after.get(p):
            ctx.fail('changed outside the destinations: %r' % p, before=before.get(p), after=after.get(p))
    ctx.expect(os.getcwd() == w, 'working directory changed')


CHECKS = [Check('contained', cases, run, quick=700, thorough=15000, shards=7, thorough_shards=7, examples=[
    {'maps': MAPS[0], 'mode': m, 'entries': [{'u': u, 'change': ch}], 'delete': True, 'noauth': True, 'ignore': True,
     'length': False, 'hashes': False, 'made': True}
    for m, ch in (('baseline', 'created'), ('incremental', 'updated'), ('incremental', 'deleted'))
    for u in ('http://h.example/x/../secret', 'http://h.example/x/../new', 'http://h.example/x/a/../../secret',
              'http://h.example/x/./../secret', 'http://h.example/x//../secret', 'http://h.example/xABS/a/secret', 'http://h.example/x-secret', 'http://h.example/x/sub/../../../secret')])]

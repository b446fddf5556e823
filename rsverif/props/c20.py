"""C20: stored synchronization times, per source."""

import os
import re

from hypothesis import strategies as st

from rsverif import gen
from rsverif.core import Check

RULE = ("histories of up to 14 operations (store, clear, read, in this or another process, with one or several objects) over "
        "up to six sources in one or two status files, all sources read back after each; non-trivial: at least two sources "
        "stored and one stored again, cleared or stored by another process")
ASSUMPTIONS = ["no two sources have the same name when everything but letters, digits and underscores is taken as an "
               "underscore and case is ignored (documented limitation)", "one process at a time", "the status file is not damaged"]

CH = st.one_of(st.sampled_from("abcXYZ019_-.~+()[]{}$*!',;:@&=%^|\\#?é日ß \"<>/"), st.characters(
    blacklist_categories=('Cs', 'Cc', 'Zl', 'Zp', 'Cn')))


@st.composite
def sites(draw):
    s = draw(st.one_of(
        st.tuples(st.sampled_from(['http://e.org/', 'https://e.org/', '/', 'file:///', 'http://E.org:80/', 'src/', '', '[x]', '#', ';',
                                   'DEFAULT/', 'incremental/', '%(x)s']),
                  st.text(CH, max_size=8)).map(''.join),
        # Long ones, which differ at the start, in the middle or at the end only
        st.tuples(st.sampled_from(['http://e.org/', 'http://f.org/', 'https://e.org/', '']),
                  st.sampled_from([0, 60, 70, 125, 250, 300, 1000]), st.sampled_from(['', 'x', 'y1']),
                  st.sampled_from([0, 60, 70, 125, 250, 300]), st.sampled_from(['', 'a', 'b', '.xml'])).map(
                      lambda x: x[0] + 'l' * x[1] + x[2] + 'r' * x[3] + x[4]),
        st.sampled_from(['http://e/a', 'http://e/ab', 'http://e/a/b', 'e', 'incremental', 'DEFAULT', 'http://e/%41', 'rem x',
                         '__name__', 'http://e/a=1', 'http://e/a:1'])))
    return s or 'x'


def folded(s):
    return re.sub(r'\W', '_', s).lower()


NEAR = [(None, 'index.xml'), (None, '/index.xml'), (None, '/index.html'), (None, 'resourcelist.xml'), (None, '/resourcelist.xml'),
        (None, '/sitemap.xml'), (None, '/capabilitylist.xml'), (None, '?a=1'), (None, '#f'), (None, '.gz'), (None, '.xml'), (None, '1'),
        (None, '0'), (None, '/a'), (None, '_'), ('http://', 'https://'), ('http://', 'http://www.'), ('http://', 'http://user@'),
        ('http://', ''), ('.org', '.org:80'), ('.org', '.com'), ('/', '/../x/'), ('/', '/x/../'), ('e', '%65'), ('e', 'E0'), ('', 'x')]
TIMES = st.one_of(gen.timestamps(), st.floats(0, 5e9, allow_nan=False), st.sampled_from(
    [0, 0.0, 1, 1e-6, 1234567890.123456, 1.7e9 + 0.1, 4102444799.999999, 2 ** 53, 1e-300]))


@st.composite
def histories(draw):
    ss = draw(st.lists(sites(), min_size=1, max_size=5, unique_by=folded))
    for i in range(draw(st.integers(0, 3))):
        # others that differ from one of these by something that might not matter elsewhere
        s = draw(st.sampled_from(ss))
        a, b = draw(st.sampled_from(NEAR))
        s = s + b if a is None else s.replace(a, b, 1) if a in s else b + s
        if folded(s) not in [folded(x) for x in ss]:
            ss.append(s)
    i = st.integers(0, len(ss) - 1)
    op = st.one_of(
        st.fixed_dictionaries({'op': st.just('set'), 'site': i, 't': TIMES, 'who': st.integers(0, 3)}),
        st.fixed_dictionaries({'op': st.just('set'), 'site': i, 't': TIMES, 'who': st.integers(0, 3)}),
        st.fixed_dictionaries({'op': st.just('clear'), 'site': i, 'who': st.integers(0, 3), 'how': st.sampled_from(['', 'none'])}),
        st.fixed_dictionaries({'op': st.just('move'), 'to': st.integers(0, 1)}),
        st.fixed_dictionaries({'op': st.just('lose')}))
    return {'sites': ss, 'ops': draw(st.lists(op, min_size=1, max_size=14)),
            'file': draw(st.sampled_from(['default', 'default', 'named', 'deep'])),
            'start': draw(st.sampled_from(['missing', 'missing', 'empty', 'other', 'old', 'many', 'many']))}


def run(case, ctx):
    from resync.client_state import ClientState
    dirs = [os.path.join(ctx.dir, d) for d in ('one', 'two')]
    name = {'default': '.resync-client-status.cfg', 'named': 'my state.cfg', 'deep': 'sub/state'}[case['file']]
    for d in dirs:
        os.makedirs(os.path.join(d, 'sub'))
        os.chdir(d)
        if case['start'] == 'empty':
            open(name, 'w').close()
        elif case['start'] == 'other':
            with open(name, 'w') as fh:
                fh.write('[other]\nx = 1\n')
        elif case['start'] == 'old':
            with open(name, 'w') as fh:
                fh.write('[incremental]\nsome_other_source = 12.5\n')
        elif case['start'] == 'many':
            cs = ClientState()
            cs.status_file = name
            with open(name, 'w') as fh:
                fh.write('[incremental]\n' + ''.join('http___many_%03d_%s = %d.5\n' % (i, 'z' * (i % 90), i) for i in range(150)))
    os.chdir(dirs[0])
    here = 0
    stored = [{}, {}]     # per directory: site -> time

    def make():
        cs = ClientState()
        if name != '.resync-client-status.cfg':
            cs.status_file = name
        return cs
    kept = make()
    written = interesting = 0
    for n, o in enumerate(case['ops'] + [{'op': 'end'}]):
        what = 'operation %d %s' % (n, o['op'])
        k = o['op']
        if k in ('set', 'clear'):
            site = case['sites'][o['site']]

            def act(cs):
                if k == 'set':
                    cs.set_state(site, o['t'])
                elif o['how'] == 'none':
                    cs.set_state(site, None)
                else:
                    cs.set_state(site)
            if o['who'] == 3:
                # another process
                interesting += 1
                pid = os.fork()
                if pid == 0:
                    code = 1
                    try:
                        act(make())
                        code = 0
                    finally:
                        os._exit(code)
                ctx.equal(os.waitpid(pid, 0)[1], 0, 'status of the other process, ' + what)
            else:
                act(kept if o['who'] == 0 else make())
            if k == 'set':
                interesting += site in stored[here]
                stored[here][site] = o['t']
            else:
                interesting += stored[here].pop(site, None) is not None
            written += k == 'set'
        elif k == 'move':
            # the status file is that of the directory worked in
            here = o['to']
            os.chdir(dirs[here])
        elif k == 'lose':
            if os.path.exists(name):
                os.unlink(name)
            stored[here] = {}
            ctx.label('file lost')
        for who, cs in (('same object', kept), ('new object', make())):
            for site in case['sites']:
                got = cs.get_state(site)
                want = stored[here].get(site)
                ctx.equal(got, want, 'time stored for %r, %s, %s' % (site, who, what))
                ctx.expect(got is None or isinstance(got, float), 'kind of value', got=got)
        ctx.equal(make().get_state('http://never.example/stored'), None, 'time of a source never stored')
        if case['start'] == 'old' and not any(x['op'] == 'lose' for x in case['ops'][:n + 1]):
            ctx.equal(make().get_state('some-other.source'), 12.5, 'time of a source stored earlier')
        elif case['start'] == 'many' and not any(x['op'] == 'lose' for x in case['ops'][:n + 1]):
            for i in (0, 77, 149):
                ctx.equal(make().get_state('http://many/%03d/%s' % (i, 'z' * (i % 90))), i + 0.5, 'time of one of many stored earlier')
    ctx.nontrivial(written >= 2 and interesting and len(case['sites']) > 1)
    ctx.label('several sources', len(case['sites']) > 1)


CHECKS = [Check('histories', histories, run, quick=700, thorough=10000, shards=4, thorough_shards=6)]

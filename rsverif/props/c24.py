"""C24: synchronizations that are stopped at any point."""

import os
import signal
import sys

from hypothesis import strategies as st

from rsverif import gen
from rsverif.core import REPO, Check
from rsverif.props.c07 import FROM
from rsverif.sync import World, call, split_document, tree, worlds, write_file

RULE = ("a source and an earlier destination, one to three runs that are killed or interrupted just before one of their "
        "operations on files or reads of a response, with or without changes of the source in between, then a whole run; "
        "non-trivial: a run was stopped after it had begun to change something and before it was done")
ASSUMPTIONS = ["every resource is listed with its length or time, so that a partial copy can be told from a whole one",
               "the system itself keeps running: what was written before the stop is kept",
               "no resource is newer than the changes listed",
               "no path is a file on one side and a directory on the other", "mappings do not overlap"]

STATE = '.resync-client-status.cfg'
OPS = ('open', 'os.mkdir', 'os.remove', 'os.rename', 'os.utime', 'os.rmdir', 'os.truncate', 'os.link', 'os.symlink')
MODES = ['baseline', 'incremental']


@st.composite
def cases(draw):
    w = draw(worlds(sources=('http', 'http', 'file'), want_src=True,
                    kinds=['new', 'new', 'new', 'extra', 'same', 'touched', 'edited', 'resized', 'swapped']))
    for f in w['files']:
        if f['src'] and f['src']['ts'] is None:
            f['src']['length'] = True
        elif f['src'] and f['src']['ts'] > 1400000000:
            # no resource is newer than the first change listed
            f['src']['ts'] = 1000000000 + f['src']['ts'] % 400000000
    stop = st.fixed_dictionaries({
        'at': st.integers(0, 1 << 12), 'lines': st.sampled_from([0, 0, 1, 2, 3, 4, 6]), 'how': st.sampled_from(['kill', 'kill', 'interrupt']),
        # the source between this run and the next: (which, new content or None for removed)
        'then': st.one_of(st.just([]), st.lists(st.tuples(st.integers(0, 9), st.one_of(st.none(), st.text('xyz', min_size=6, max_size=8))).map(list),
                                                max_size=2))})
    return {'w': w, 'mode': draw(st.sampled_from(MODES)), 'state': draw(st.sampled_from([None, 'own', 'own'])),
            'other': draw(st.booleans()), 'stops': draw(st.lists(stop, min_size=1, max_size=3)),
            'final': draw(st.sampled_from(['same', 'same', 'same', 'baseline']))}


def stopped(f, w, at, how, lines):
    """Run f in a process of its own, stopped some lines after the start of operation number at.

    Returns what became of it.
    """
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = b'e'
        try:
            os.close(rd)
            count = [0]
            top = os.path.join(w.top, '')
            code_dir = os.path.join(REPO, 'resync', '')

            left = [lines]

            def stop():
                if how == 'kill':
                    os.write(wr, b'k')
                    os._exit(0)
                raise KeyboardInterrupt()

            def line(frame, event, arg):
                if not frame.f_code.co_filename.startswith(code_dir):
                    return None
                if event == 'line':
                    left[0] -= 1
                    if left[0] == 0:
                        stop()
                return line if left[0] > 0 else None

            def event():
                count[0] += 1
                if count[0] != at + 1:
                    return
                if lines == 0:
                    stop()
                # count lines of resync from here, in calls to come and those under way
                x = sys._getframe()
                while x is not None:
                    if x.f_code.co_filename.startswith(code_dir):
                        x.f_trace = line
                    x = x.f_back
                sys.settrace(line)

            def hook(name, args):
                if name in OPS and args and isinstance(args[0], str) and os.path.abspath(args[0]).startswith(top):
                    event()

            def on_read(uri):
                if uri not in w.docs:
                    event()
            w.web.on_read = on_read
            sys.addaudithook(hook)
            try:
                code = b'e' if f().error is not None else b'd'
            except KeyboardInterrupt:
                code = b'i'
            except BaseException as e:
                code = b'x' + repr(e).encode('utf-8', 'replace')[:500]
        finally:
            os.write(wr, code)
            os._exit(0)
    os.close(wr)
    try:
        out = b''
        while True:
            x = os.read(rd, 4096)
            if not x:
                break
            out += x
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.close(rd)
        os.waitpid(pid, 0)
    return out


def run(case, ctx):
    from resync.client_state import ClientState
    w = World(case['w'], ctx)
    wc = case['w']
    inc = case['mode'] == 'incremental'
    exp = w.expect()
    todo = exp['created'] + exp['updated']
    # what a whole run makes of each file: bytes, None (gone), 'any'
    want = {}
    for f in wc['files']:
        p = os.path.join(wc['dsts'][f['map']], f['path'])
        if f in todo:
            want[p] = gen.content_bytes(f['src']['data'])
        elif f in exp['deleted'] and wc['delete']:
            want[p] = None
        else:
            want[p] = gen.content_bytes(f['dst']['data'])
    changes, t = [], [FROM]
    uri = w.base + '/changelist.xml'

    def change(f, kind):
        t[0] += 1
        e = {'uri': w.uri(f)} if kind == 'deleted' else w.entry(f)
        changes.append(dict(e, change=kind, datetime=gen.w3c(t[0])))

    def publish():
        for u, data in split_document('changelist', changes, uri, wc['limit']).items():
            w.docs.add(u)
            w.put(u, data)
    for k in ('created', 'updated', 'deleted'):
        for f in exp[k]:
            change(f, k)
    publish()

    def sync(mode):
        c = w.client()
        if mode == 'incremental':
            return call(c.incremental, allow_deletion=wc['delete'],
                        from_datetime=None if case['state'] else gen.w3c(FROM - 5))
        return call(c.baseline_or_audit, allow_deletion=wc['delete'])

    site = w.client().sitemap
    other = 'http://another.example/resourcelist.xml'
    if case['state']:
        ClientState().set_state(site, FROM - 5)
    if case['other']:
        ClientState().set_state(other, 123.5)
    state = FROM - 5 if case['state'] else None
    files = lambda: {p: d for p, d in tree(w.top, times=True).items()
                     if not p.endswith('/') and not p.startswith(STATE) and p.split('/')[0] != 'src'}
    before = files()
    first = set(before)
    # what is left of writing the status file by name or not, is next to it
    files = lambda files=files: {p: d for p, d in files().items() if '/' in p or p in first}
    done = False
    active = list(todo)
    for stop in case['stops']:
        start = files()
        n = 5 * len(todo) + len(exp['deleted']) * bool(wc['delete']) + 3
        out = stopped(lambda: sync(case['mode']), w, stop['at'] % n, stop['how'], stop['lines'])
        kind = out[:1]
        ctx.label({b'k': 'killed', b'i': 'interrupted', b'd': 'finished before', b'e': 'ended with an error'}.get(kind, '?'))
        ctx.expect(kind in (b'k', b'i', b'd'), 'a run went wrong', outcome=out.decode('utf-8', 'replace'))
        now = files()
        whole = all(want[p] is Ellipsis or (now[p][0] if p in now else None) == want[p] for p in want)
        ctx.nontrivial(kind != b'd' and not whole and (now != start or len(todo) > 1))
        ctx.label('stopped half-way', kind != b'd' and not whole and now != start)
        got = ClientState().get_state(site)
        if not gen.same_time(got, state):
            ctx.expect(whole, 'time stored by a run that was stopped before it was done', got=got, was=state,
                       differs=sorted(p for p in want if (now[p][0] if p in now else None) != want[p]))
            state = got
        if case['other']:
            ctx.expect(gen.same_time(ClientState().get_state(other), 123.5), 'time of another source', got=ClientState().get_state(other))
        for p in set(before) | set(now):
            f = [f for f in wc['files'] if os.path.join(wc['dsts'][f['map']], f['path']) == p]
            if f and f[0]['src'] is not None and f[0] in active:
                continue        # one being synchronized
            if f and f[0]['src'] is None and (wc['delete'] or want[p] is Ellipsis):
                ctx.expect(p not in now or now[p] == start.get(p) or want[p] is Ellipsis, 'file to be deleted changed', path=p)
                continue
            ctx.equal(now.get(p), start.get(p), 'file not being synchronized: ' + p)
        if kind == b'd':
            done = True
        # the source goes on
        for which, data in stop['then']:
            alive = [f for f in wc['files'] if f['src'] and f['src']['ts'] is not None]
            if not alive:
                continue
            f = alive[which % len(alive)]
            p = os.path.join(wc['dsts'][f['map']], f['path'])
            active.append(f)
            if data is None:
                if sum(1 for g in wc['files'] if g['src']) < 2:
                    continue
                f['src'] = None
                change(f, 'deleted')
                # without deletion what is there stays, which may be half a copy
                want[p] = None if wc['delete'] else Ellipsis
            else:
                f['src'].update(data=data, ts=f['src']['ts'] + 7, length=True)
                change(f, 'updated')
                want[p] = data.encode()
        if stop['then']:
            for name in list(w.web.pages):
                if name not in w.docs:
                    del w.web.pages[name]
            w.publish()
            publish()
    mode = case['mode'] if case['final'] == 'same' else case['final']
    o = sync(mode)
    ctx.expect(o.error is None, 'a run after one that was stopped failed', error=str(o.error))
    now = files()
    for p in want:
        if want[p] is not Ellipsis:
            ctx.equal(now[p][0] if p in now else None, want[p], 'content of %s after a whole run' % p)
    for p in set(now) - set(want):
        ctx.equal(now[p], before.get(p), 'file of nobody: ' + p)
    for f in wc['files']:
        p = os.path.join(wc['dsts'][f['map']], f['path'])
        if f['src'] and f['src']['ts'] is not None and want[p] != (before[p][0] if p in before else None):
            ctx.expect(abs(now[p][1] / 1e9 - f['src']['ts']) < 1, 'time of %s after a whole run' % p)
    got = ClientState().get_state(site)
    if mode == 'incremental' and (not done or case['stops'][-1]['then']) and changes:
        if wc['delete'] or any(c['change'] != 'deleted' for c in last(changes).values()):
            ctx.expect(gen.same_time(got, t[0]) or gen.same_time(got, state), 'time stored by the whole run', got=got, want=t[0])
    # and nothing is left to do
    o = call(w.client().baseline_or_audit, audit_only=True)
    if o.error is None and o.last() and wc['delete'] and all(f['src']['ts'] is not None for f in wc['files'] if f['src']):
        ctx.equal(o.last()[0], 'IN SYNC', 'status of an audit after a whole run', numbers=o.last()[1])


def last(changes):
    return {c['uri']: c for c in changes}


CHECKS = [Check('stops', cases, run, quick=300, thorough=6000, shards=8, thorough_shards=8, case_seconds=30)]

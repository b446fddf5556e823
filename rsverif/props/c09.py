"""C09: download failures during synchronization."""

import os

from hypothesis import strategies as st

from rsverif import gen
from rsverif.core import Check
from rsverif.props.c07 import FROM
from rsverif.sync import World, call, document, split_document, tree, worlds

RULE = ("a source and an earlier destination, with a sequence of faults for each download or a fault in one of the "
        "source documents; non-trivial: a fault takes effect while there are at least two resources to fetch, or a "
        "document fault takes effect")
ASSUMPTIONS = ["every resource is listed with its length or time, so that a partial copy can be told from a whole one",
               "a lost connection shows as an error, as opposed to a response that just ends early"]

TIMEOUTS = ('timeout', 'connect-timeout', 'mid-timeout')
FAULT = st.one_of(
    st.just('timeout'), st.just('connect-timeout'),
    st.tuples(st.just('mid-timeout'), st.integers(0, 6)).map(list),
    st.tuples(st.just('mid-reset'), st.integers(0, 6)).map(list),
    st.sampled_from(['refused', 'reset', 404, 410, 500, 503]))
DOC = st.sampled_from(['timeout', 'connect-timeout', ['mid-timeout', 30], ['mid-reset', 90], 'refused', 404, 500, 'truncated', 'garbage',
                       'nothing', 'wrong type'])


@st.composite
def cases(draw):
    w = draw(worlds(sources=('http',), want_src=True,
                    kinds=['new', 'new', 'new', 'extra', 'same', 'touched', 'edited', 'resized', 'resized']))
    for f in w['files']:
        if f['src'] and f['src']['ts'] is None:
            f['src']['length'] = True
    n = sum(1 for f in w['files'])
    c = {'w': w, 'incremental': draw(st.booleans()), 'ignore': draw(st.booleans()),
         'tries': draw(st.integers(1, 4)), 'state': draw(st.booleans())}
    kind = draw(st.integers(0, 3))
    if kind == 0:
        c['doc'] = [draw(st.integers(0, 5)), draw(DOC)]
        c['faults'] = [[] for _ in range(n)]
    else:
        c['doc'] = None
        c['faults'] = draw(st.lists(st.one_of(st.just([]), st.lists(st.one_of(FAULT, st.sampled_from(['timeout', 'timeout', 'connect-timeout'])), max_size=5),
                                              st.tuples(st.integers(1, 4), st.sampled_from(['timeout', 'connect-timeout'])).map(
                                                  lambda k: [k[1]] * k[0])),
                                    min_size=n, max_size=n))
    return c


def attempts(faults, tries):
    """(number of requests, whether it succeeds, whether content of the file was touched)."""
    touched = False
    for i in range(1, tries + 1):
        f = faults[i - 1] if i <= len(faults) else 'ok'
        if f == 'ok':
            return i, True, True
        name = f[0] if isinstance(f, list) else f
        touched = touched or name.startswith('mid') if isinstance(name, str) else touched
        if name not in TIMEOUTS:
            return i, False, touched
    return tries, False, touched


def run(case, ctx):
    from resync.client_state import ClientState
    w = World(case['w'], ctx)
    wc = case['w']
    exp = w.expect()
    todo = exp['created'] + exp['updated']
    inc = case['incremental']
    if inc:
        entries, t = [], FROM
        for k in ('created', 'updated', 'deleted'):
            for f in exp[k]:
                t += 1
                e = w.entry(f) if f['src'] else {'uri': w.uri(f)}
                entries.append(dict(e, change=k, datetime=gen.w3c(t)))
        uri = w.base + '/changelist.xml'
        pages = split_document('changelist', entries, uri, wc['limit'])
        cdocs = list(pages)
        w.docs.update(pages)
        w.web.pages.update(pages)

    def client():
        c = w.client()
        c.tries = case['tries']
        c.ignore_failures = case['ignore']
        return c

    def sync(c):
        if inc:
            return call(c.incremental, allow_deletion=wc['delete'], from_datetime=gen.w3c(FROM - 5))
        return call(c.baseline_or_audit, allow_deletion=wc['delete'])

    site = client().sitemap
    if case['state']:
        ClientState().set_state(site, 1111.5)
    old_state = 1111.5 if case['state'] else None
    for f, faults in zip(wc['files'], case['faults']):
        if faults:
            w.web.faults[w.uri(f)] = list(faults)
    before = tree(w.top, times=True)
    good = dict(w.web.pages)
    if case['doc'] is not None:
        which, fault = case['doc']
        # the documents that are all needed to find out what to do
        names = sorted(cdocs if inc else w.docs)
        u = names[which % len(names)]
        if fault == 'truncated':
            w.web.pages[u] = w.web.pages[u][:-12]
        elif fault == 'garbage':
            w.web.pages[u] = b'<html><body>Not here</body></html>'
        elif fault == 'nothing':
            w.web.pages[u] = b''
        elif fault == 'wrong type':
            w.web.pages[u] = document('resourcedump', [{'uri': w.base + '/x.zip'}])
            if inc and u != uri or not inc and u.startswith(w.list_uri[:-4]) and u != w.list_uri:
                w.web.pages[u] = b'<rdf/>'      # what a component is used for shows from the index
        else:
            w.web.faults[u] = [fault] * 9
        o = sync(client())
        ctx.label('document fault')
        ctx.nontrivial()
        ctx.expect(o.error is not None, 'carried on although a document could not be read', uri=u, fault=fault)
        ctx.equal(tree(w.top, times=True), before, 'everything on disk after a document could not be read')
        ctx.equal(w.fetched(), [], 'resources fetched')
        w.web.faults.clear()
        w.web.pages.clear()
        w.web.pages.update(good)
        after_faults(ctx, case, w, exp, sync, client)
        return
    o = sync(client())
    if not inc or todo or (exp['deleted'] and wc['delete']):
        ctx.expect(o.status, 'no status reported')
    outcome = {}
    failing = []
    for f, faults in zip(wc['files'], case['faults']):
        if f in todo:
            outcome[w.uri(f)] = attempts(faults, case['tries'])
            if not outcome[w.uri(f)][1]:
                failing.append(f)
    hit = any(f and g in todo for g, f in zip(wc['files'], case['faults']))
    ctx.nontrivial(hit and len(todo) >= 2)
    ctx.label('retry that succeeds', any(n > 1 and ok for n, ok, _ in outcome.values()))
    ctx.label('failure ignored', bool(failing) and case['ignore'])
    ctx.label('failure fatal', bool(failing) and not case['ignore'])
    asked = [u for u in (u for m, u in w.web.log) if u in outcome]
    order = []
    for u in asked:
        if not order or order[-1] != u:
            order.append(u)
    ctx.equal(len(order), len(set(order)), 'one resource after the other', order=order)
    for u in order:
        ctx.equal(w.web.count(u), outcome[u][0], 'number of requests for ' + u,
                  faults=[f for g, f in zip(wc['files'], case['faults']) if w.uri(g) == u])
    abort = bool(failing) and not case['ignore']
    if abort:
        ctx.expect(o.error is not None, 'no error when a resource could not be fetched')
        ctx.expect(order and not outcome[order[-1]][1], 'carried on after a failure')
        ctx.expect(all(outcome[u][1] for u in order[:-1]), 'carried on after a failure')
        ctx.expect(gen.same_time(ClientState().get_state(site), old_state), 'time stored although aborted',
                   got=ClientState().get_state(site))
    else:
        ctx.expect(o.error is None, 'failed', error=str(o.error))
        ctx.equal(sorted(order), sorted(outcome), 'resources tried')
    after = tree(w.top, times=True)
    deleting = wc['delete'] and not abort
    for f in wc['files']:
        p = os.path.relpath(w.path(f), w.top)
        u = w.uri(f)
        if f in todo and u in order:
            n, ok, touched = outcome[u]
            if ok:
                ctx.equal(after[p][0] if p in after else None, gen.content_bytes(f['src']['data']), 'content of ' + p)
                if f['src']['ts'] is not None:
                    ctx.expect(abs(after[p][1] / 1e9 - f['src']['ts']) < 1, 'time of ' + p)
            elif not touched:
                ctx.equal(after.get(p), before.get(p), 'file for which nothing could be fetched: ' + p)
        elif f in exp['deleted'] and not abort:
            ctx.equal(p in after, not deleting, 'presence of file to be deleted: ' + p)
        else:
            ctx.equal(after.get(p), before.get(p), 'file not being synchronized: ' + p)
    ctx.equal(after['other/keep'], before['other/keep'], 'file elsewhere')
    known = set(os.path.relpath(w.path(f), w.top) for f in wc['files'])
    for p in after:
        ctx.expect(p in known or p in before or p.endswith('/') or p == '.resync-client-status.cfg',
                   'unexpected file', path=p)
    if not abort and o.status and len(o.status) > 1 and (inc or o.status[0][0] != 'IN SYNC'):
        nums = o.status[-1][1]
        ctx.equal((nums['created'], nums['updated']),
                  tuple(sum(1 for f in exp[k] if outcome[w.uri(f)][1]) for k in ('created', 'updated')),
                  'numbers of resources fetched')
    w.web.faults.clear()
    after_faults(ctx, case, w, exp, sync, client)


def after_faults(ctx, case, w, exp, sync, client):
    """A later synchronization without faults."""
    wc = case['w']
    want = {}
    todo = exp['created'] + exp['updated']
    for f in wc['files']:
        p = os.path.join(wc['dsts'][f['map']], f['path'])
        if f['src'] and (f in todo):
            want[p] = gen.content_bytes(f['src']['data'])
        elif f['dst'] and not (f in exp['deleted'] and wc['delete']):
            want[p] = gen.content_bytes(f['dst']['data'])
    if case['incremental'] and case['ignore']:
        # what failed was passed over: a baseline puts it right
        o = call(client().baseline_or_audit, allow_deletion=wc['delete'])
    else:
        o = sync(client())
    ctx.expect(o.error is None, 'later synchronization failed', error=str(o.error))
    got = {p: d for p, d in tree(w.top).items() if p.split('/')[0] != 'other' and p != '.resync-client-status.cfg'}
    if case['incremental'] and not case['ignore'] and not todo and not wc['delete']:
        pass
    ctx.equal(sorted(got), sorted(want), 'files after a later synchronization without faults')
    for p in want:
        ctx.equal(got[p], want[p], 'content of %s after a later synchronization without faults' % p)


CHECKS = [Check('faults', cases, run, quick=500, thorough=8000, shards=7, thorough_shards=7)]

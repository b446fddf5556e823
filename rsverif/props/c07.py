"""C07: audits and dry runs change nothing; nothing is deleted unless asked for."""

import os

from hypothesis import strategies as st

from rsverif import gen
from rsverif.core import Check
from rsverif.sync import KINDS, World, call, split_document, tree, worlds

RULE = ("a source and an earlier destination (as for C06) with a mode: audit, dry run or run without deletion, of a "
        "baseline or incremental synchronization; non-trivial: source and destination differ, and for runs without "
        "deletion there is something that would be deleted")
ASSUMPTIONS = ["no path is a file on one side and a directory on the other", "mappings do not overlap"]

MODES = ['audit', 'keep-incremental', 'keep-baseline', 'dry-incremental', 'dry-baseline']


@st.composite
def cases(draw):
    c = {'w': draw(worlds(want_src=True, kinds=KINDS + ['extra'] * 6)), 'mode': MODES[draw(st.integers(0, 1 << 16)) % 5],
         'state': draw(st.sampled_from([None, None, 'other', 'own'])),
         'from': draw(st.booleans()), 'explicit': draw(st.booleans()),
         'spec': draw(st.sampled_from(['1.0', '1.1', '1.1'])),
         'missing_dst': draw(st.integers(0, 4)) == 0, 'failing': []}
    if c['mode'].startswith('keep') and draw(st.booleans()):
        # downloads that fail, of any of the resources to be created or updated
        c['failing'] = draw(st.lists(st.tuples(st.integers(0, 9), st.sampled_from(
            [[500], [404], ['timeout'] * 9, ['connect-timeout'] * 9, [['mid-reset', 0]], [['mid-reset', 3]], [['mid-timeout', 2]] * 9, ['refused'],
             ['timeout']])).map(list), min_size=1, max_size=3))
    c['ignore'] = draw(st.sampled_from([False, True, True]))
    # changes that are listed as well: earlier ones for the same resources, deletions of what is not there
    c['extra'] = draw(st.lists(st.fixed_dictionaries({
        'path': st.sampled_from(['gone', 'a/gone', 'never']), 'change': st.sampled_from(['deleted', 'created+deleted'])}),
        max_size=2, unique_by=lambda x: x['path']))
    c['history'] = draw(st.sampled_from([None, 'updated', 'created']))
    return c


FROM = 1500000000


def change_entries(w, case, exp):
    """Entries of a change list that would bring the destination to the state of the source."""
    out = []
    t = FROM - 10

    def add(uri, change, **atts):
        nonlocal t
        t += 7
        e = dict(atts, uri=uri, change=change)
        if case['spec'] == '1.0':
            e['lastmod'] = gen.w3c(t)
        e['datetime'] = gen.w3c(t)
        out.append(e)
    # the first entry is before the starting time, and must not matter
    add(w.base + '/never-old', 'updated')
    if case['history']:
        for k in ('created', 'updated', 'deleted'):
            for f in exp[k]:
                add(w.uri(f), case['history'])
    for k in ('created', 'updated', 'deleted'):
        for f in exp[k]:
            e = w.entry(f) if f['src'] else {'uri': w.uri(f)}
            if case['spec'] == '1.0':
                e.pop('lastmod', None)
            u = e.pop('uri')
            add(u, k, **e)
    for x in case['extra']:
        for ch in x['change'].split('+'):
            add(w.base + '/' + x['path'], ch)
    return out


def run(case, ctx):
    from resync.client_state import ClientState
    mode = case['mode']
    wc = dict(case['w'], delete=False)
    if case['missing_dst']:
        # the destination directories are not there at all
        wc['files'] = [dict(f, dst=None) for f in wc['files'] if f['src']]
    w = World(wc, ctx)
    exp = w.expect()
    counts = w.counts(exp)
    changed = counts['created'] + counts['updated'] + counts['deleted']
    dry = mode.startswith('dry')
    c = w.client(dryrun=dry)
    c.spec_version = case['spec']
    if case['state']:
        site = c.sitemap if case['state'] == 'own' else 'http://elsewhere.example/x'
        ClientState().set_state(site, FROM - 1.5)
    incremental = mode.endswith('incremental')
    kw = {}
    if incremental:
        uri = w.base + '/changelist.xml'
        if case['explicit']:
            uri = w.base + '/recent.xml'
            kw['change_list_uri'] = uri if case['w']['src'] == 'http' else 'recent.xml'
        pages = split_document('changelist', change_entries(w, case, exp), uri, w.w['limit'])
        for u, data in pages.items():
            w.docs.add(u)
            w.put(u, data)
        if case['from'] or case['state'] != 'own':
            kw['from_datetime'] = gen.w3c(FROM - 1)
    delete = (case['w']['delete'] if mode != 'keep-baseline' and mode != 'keep-incremental' else False)
    c.ignore_failures = case['ignore']
    fetch = exp['created'] + exp['updated']
    if case['failing'] and fetch:
        for i, faults in case['failing']:
            uri = w.uri(fetch[i % len(fetch)])
            if case['w']['src'] == 'http':
                w.web.faults[uri] = faults
            elif not uri.startswith('file:') and os.path.exists(uri):
                os.unlink(uri)
        ctx.label('failing')
        ctx.label('failing update', any(i % len(fetch) >= len(exp['created']) for i, _ in case['failing']))
    before = tree(w.top, times=True)
    if incremental:
        o = call(c.incremental, allow_deletion=delete, **kw)
    else:
        o = call(c.baseline_or_audit, allow_deletion=delete, audit_only=(mode == 'audit'))
    after = tree(w.top, times=True)
    ctx.label(mode)
    if mode.startswith('keep'):
        ctx.nontrivial(counts['deleted'] > 0)
        ctx.label(mode + ' with deletions', counts['deleted'] > 0)
        for p in before:
            ctx.expect(p in after, 'removed without being asked to delete', path=p)
        for f in exp['deleted'] + exp['same']:
            p = os.path.relpath(w.path(f), w.top)
            ctx.equal(after[p], before[p], 'file that is not to be updated: ' + p)
        if o.error is None and counts['deleted'] and not incremental and not case['failing']:
            ctx.equal(o.status[-1][0], 'PART SYNCED', 'status with deletions left undone')
        return
    ctx.nontrivial(changed > 0)
    ctx.label(mode + ' with changes', changed > 0)
    ctx.expect(o.error is None, 'failed', error=str(o.error), mode=mode)
    ctx.equal(after, before, 'everything on disk after ' + mode)
    if case['w']['src'] == 'http':
        ctx.equal(w.fetched(), [], 'resources fetched by ' + mode)
    if not incremental:
        ctx.expect(o.status, 'no status reported')
        ctx.equal(o.status[0], ('NOT IN SYNC' if changed else 'IN SYNC', counts), 'status reported by ' + mode)
        if mode == 'audit':
            ctx.equal(len(o.status), 1, 'number of status reports')


CHECKS = [Check('quiet', cases, run, quick=500, thorough=8000, shards=7, thorough_shards=7)]

"""C23: the log as a record of what was done."""

import ast
import datetime
import io
import logging
import os
import sys
import time

from hypothesis import strategies as st

from rsverif import gen
from rsverif.core import Check
from rsverif.props.c07 import FROM
from rsverif.props.c09 import FAULT, attempts
from rsverif.sync import World, call, digests, split_document, tree, worlds

RULE = ("synchronizations with downloads that fail and local files that are already gone, in every mode; resources with any "
        "combination of values; log messages of all levels under all settings; non-trivial: at least two changes to be made, "
        "two values, or a message on either side of what is to be shown")
ASSUMPTIONS = ["URIs and messages have no line ends", "no logger named is below another one named",
               "what an event says of a deleted resource, other than its URI, is not prescribed"]

HASHES = {'md5': 'md5', 'sha1': 'sha-1', 'sha256': 'sha-256'}


def events(messages):
    out = []
    for m in messages:
        if m.startswith('Event: '):
            out.append(ast.literal_eval(m[len('Event: '):]))
    return out


@st.composite
def syncs(draw):
    w = draw(worlds(want_src=draw(st.integers(0, 9)) > 0, kinds=['new', 'new', 'new', 'extra', 'extra', 'same', 'touched', 'edited', 'resized']))
    for f in w['files']:
        if f['src'] and f['src']['ts'] is None:
            f['src']['length'] = True
    n = len(w['files'])
    return {'w': w, 'mode': draw(st.sampled_from(['baseline', 'baseline', 'incremental', 'incremental', 'audit'])),
            'dry': draw(st.integers(0, 4)) == 0, 'ignore': draw(st.booleans()), 'tries': draw(st.integers(1, 3)),
            'gone': draw(st.integers(0, 2)), 'order': draw(st.permutations(range(n + 2))),
            'faults': draw(st.lists(st.one_of(st.just([]), st.just([]), st.lists(st.one_of(FAULT, st.just('timeout')), max_size=3)),
                                    min_size=n, max_size=n))}


def run_sync(case, ctx):
    wc = case['w']
    w = World(wc, ctx)
    exp = w.expect()
    web = wc['src'] == 'http'
    described = {}
    for k in ('created', 'updated'):
        for f in exp[k]:
            data = gen.content_bytes(f['src']['data'])
            described[w.uri(f)] = dict(digests(data, f['src']['hashes']), uri=w.uri(f), change=k)
            if f['src']['length']:
                described[w.uri(f)]['length'] = len(data)
            if f['src']['ts'] is not None:
                described[w.uri(f)]['timestamp'] = f['src']['ts']
    local = {w.uri(f): w.path(f) for f in wc['files']}
    if case['mode'] == 'incremental':
        items = [(k, f) for k in ('created', 'updated', 'deleted') for f in exp[k]]
        items += [('gone', i) for i in range(case['gone'])]
        order = [i for i in case['order'] if i < len(items)]
        entries, t = [], FROM
        for i in order:
            k, f = items[i]
            t += 1
            if k == 'gone':
                e = {'uri': w.base + '/never there %d' % f}
                local[e['uri']] = os.path.join(w.top, wc['dsts'][0], 'never there %d' % f)
                k = 'deleted'
            else:
                e = w.entry(f) if f['src'] else {'uri': w.uri(f)}
            if e['uri'] in described:
                described[e['uri']]['ts_datetime'] = t
            entries.append(dict(e, change=k, datetime=gen.w3c(t)))
        for u, data in split_document('changelist', entries, w.base + '/changelist.xml', wc['limit']).items():
            w.put(u, data)
            w.docs.add(u)
        plan = [(e['uri'], e['change']) for e in entries]
    else:
        plan = [(u, k) for k in ('created', 'updated', 'deleted') for u in sorted(w.uri(f) for f in exp[k])]
    fate = {}
    for f, faults in zip(wc['files'], case['faults']):
        if web and faults:
            w.web.faults[w.uri(f)] = list(faults)
        fate[w.uri(f)] = attempts(faults if web else [], case['tries'])
    before = tree(w.top)
    c = w.client(dryrun=case['dry'])
    c.tries, c.ignore_failures = case['tries'], case['ignore']
    if case['mode'] == 'incremental':
        o = call(c.incremental, allow_deletion=wc['delete'], from_datetime=gen.w3c(FROM - 5))
    else:
        o = call(c.baseline_or_audit, allow_deletion=wc['delete'], audit_only=case['mode'] == 'audit')
    got = events(o.messages)
    quiet = case['dry'] or case['mode'] == 'audit'
    # what is to be done, up to a failure that ends it all
    want, failed = [], []
    for u, k in plan:
        if k == 'deleted':
            if wc['delete'] and os.path.relpath(local[u], w.top) in before:
                want.append((u, k))
        elif fate[u][1]:
            want.append((u, k))
        else:
            failed.append(u)
            if not case['ignore']:
                break
    if case['mode'] != 'incremental' and not any(f['src'] for f in wc['files']):
        quiet = True    # nothing to sync is an error
        failed = []
    if quiet:
        want = []
    ctx.nontrivial(len(plan) >= 2)
    ctx.label('quiet', quiet)
    ctx.label('failures ignored', bool(failed) and not quiet and case['ignore'])
    ctx.label('failure', bool(failed) and not quiet and not case['ignore'])
    ctx.label('deletion of what is not there', any(k == 'deleted' and os.path.relpath(local[u], w.top) not in before for u, k in plan))
    ctx.equal([(e['uri'], e['change']) for e in got], want, 'events', mode=case['mode'])
    # they are what happened on disk
    after = tree(w.top)
    changed = set(p for p in set(before) | set(after) if before.get(p) != after.get(p) and p != '.resync-client-status.cfg')
    told = set(os.path.relpath(local[e['uri']], w.top) for e in got)
    partly = set(os.path.relpath(local[u], w.top) for u in failed)
    ctx.expect(changed - partly <= told, 'change on disk without event', files=sorted(changed - partly - told))
    for e in got:
        p = os.path.relpath(local[e['uri']], w.top)
        ctx.equal(p in after, e['change'] != 'deleted', 'existence of %s after event' % p, event=e)
        if e['change'] != 'deleted':
            d = dict(described[e['uri']])
            for k in ('timestamp', 'ts_datetime'):
                ctx.expect(gen.same_time(e.pop(k, None), d.pop(k, None)), 'wrong %s in event' % k, event=e)
            ctx.expect(not any(v is not None for v in (e.pop('_extra', None) or {}).values()), 'more in event than was said', event=e)
            ctx.equal(e, d, 'description in event')
    # failures that are passed over are told to the user
    if not quiet:
        warned = call_warnings(o)
        for u in failed:
            if case['ignore']:
                ctx.equal(len([m for m in warned if u in m.split()]), 1, 'warnings of the failure of ' + u, warnings=warned)
            else:
                ctx.expect(o.error is not None and u in str(o.error).split(), 'resource not named in the error', error=str(o.error), uri=u)
        if case['ignore'] or not failed:
            for u, k in plan:
                if u not in failed and (k != 'deleted' or os.path.relpath(local[u], w.top) in before):
                    ctx.expect(not any(u in m.split() for m in warned), 'warned of what went well', uri=u, warnings=warned)


def call_warnings(o):
    return [m for lv, m in o.records if lv >= logging.WARNING]


def run_repr(case, ctx):
    from resync.resource import Resource
    r = gen.make(Resource, case)
    d = ast.literal_eval(repr(r))
    ctx.nontrivial(len(case) >= 3)
    core = {k: v for k, v in case.items() if not k.startswith('ts_') and k != 'capability' or k == 'ts_datetime'}
    ctx.equal({k: v for k, v in d.items() if k != '_extra'}, core, 'representation')
    # ... so that different ones show
    s = str(r)
    for k in ('uri', 'length', 'path', 'change'):
        if k in case:
            ctx.expect(str(case[k]) in s, 'not shown to the user', field=k, text=s)
    for k in ('timestamp', 'ts_datetime'):
        if k in case and (k == 'timestamp' or 'change' in case):
            ctx.expect(gen.w3c(case[k]) in s, 'time not shown', field=k, text=s)
    h = [case[k] for k in HASHES if k in case]
    if h:
        ctx.expect(h[0] in s, 'hash not shown', text=s)


TEXT = st.one_of(st.sampled_from(['hello', 'a | b', '100%', '%s', '%d of %(x)s', 'caf\u00e9', '\u65e5\u672c', '']),
                 st.text(st.characters(min_codepoint=32, max_codepoint=0x2fff, exclude_characters='\u0085\u2028\u2029'), max_size=12))


@st.composite
def logs(draw):
    extra = draw(st.sampled_from([None, [], ['extra'], ['extra', 'other']]))
    default = draw(st.sampled_from([None, None, 'client', 'resync', 'mine']))
    names = ['client', 'resync', 'resync.client', 'resync.sitemap', 'client.x'] + (extra or []) + ([default] if default == 'mine' else [])
    c = {'file': draw(st.sampled_from([None, None, 'default', 'default', 'named', 'both'])), 'human': draw(st.sampled_from([None, True, True, False])),
         'verbose': draw(st.booleans()), 'eval': draw(st.booleans()), 'extra': extra, 'logger': default, 'old': draw(st.booleans()),
         'messages': draw(st.lists(st.tuples(st.sampled_from(names), st.sampled_from([10, 20, 20, 30, 40]), TEXT).map(list), max_size=8))}
    if c['human'] is False and c['file'] is None:
        c['human'] = None
    return c


def run_log(case, ctx):
    from resync.client_utils import init_logging
    os.chdir(ctx.dir)
    kw = {'verbose': case['verbose'], 'eval_mode': case['eval']}
    path = None
    if case['file']:
        kw['to_file'] = True
        path = 'my.log' if case['file'] != 'default' else 'the default.log'
        if case['file'] != 'default':
            kw['logfile'] = path
    if case['file'] != 'named':
        kw['default_logfile'] = 'the default.log'
    if case['human'] is not None:
        kw['human'] = case['human']
    if case['logger'] is not None:
        kw['default_logger'] = case['logger']
    if case['extra'] is not None:
        kw['extra_loggers'] = case['extra']
    named = set(['resync', case['logger'] or 'client'] + (case['extra'] or []))
    old = b''
    if case['old'] and path:
        old = b'from before\n'
        with open(path, 'wb') as fh:
            fh.write(old)
    out, err = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    t0 = time.time()
    try:
        init_logging(**kw)
        for name, level, text in case['messages']:
            logging.getLogger(name).log(level, '%s', text)
        said, printed = sys.stderr.getvalue(), sys.stdout.getvalue()
    finally:
        sys.stdout, sys.stderr = out, err
        t1 = time.time()
        for name in named:
            lg = logging.getLogger(name)
            for h in list(lg.handlers):
                lg.removeHandler(h)
                h.close()
            lg.setLevel(logging.NOTSET)
    reached = [m for m in case['messages'] if m[0] in named or m[0].split('.')[0] in named]
    low = 20 if case['verbose'] else 30
    shown = [m[2] for m in reached if m[1] >= low]
    ctx.nontrivial(len(set(m[1] >= low for m in reached)) == 2)
    ctx.equal(printed, '', 'standard output')
    lines = said.split('\n')[:-1]
    if path and case['verbose'] and case['human'] is not False:
        ctx.expect(lines and path in lines[0], 'not told of the log file', lines=lines)
        lines = lines[1:]
    ctx.equal(lines, shown if case['human'] is not False else [], 'messages on the console')
    ctx.equal(sorted(os.listdir('.')), [path] if path else [], 'files')
    if not path:
        return
    with open(path, 'rb') as fh:
        data = fh.read()
    ctx.expect(data.startswith(old), 'log from before lost')
    got = []
    for line in data[len(old):].decode('utf-8').split('\n')[:-1]:
        when, name, level, text = line.split(' | ', 3)
        t = datetime.datetime.strptime(when, '%Y-%m-%dT%H:%M:%S.%fZ' if '.' in when else '%Y-%m-%dT%H:%M:%SZ')
        t = t.replace(tzinfo=datetime.timezone.utc).timestamp()
        ctx.expect(t0 - 0.01 <= t <= t1 + 0.01, 'time of message', line=line, between=[t0, t1])
        got.append([name, getattr(logging, level), text])
    low = 10 if case['eval'] else 20
    ctx.expect(got and got[0][1] == 20 and path in got[0][2], 'log does not begin with its name', got=got[:1])
    ctx.equal(got[1:], [m for m in reached if m[1] >= low], 'messages in the log')


CHECKS = [Check('events', syncs, run_sync, quick=350, thorough=8000, shards=5, thorough_shards=5),
          Check('repr', gen.resources, run_repr, quick=500, thorough=10000, shards=1, thorough_shards=1),
          Check('log', logs, run_log, quick=300, thorough=4000, shards=2, thorough_shards=2)]

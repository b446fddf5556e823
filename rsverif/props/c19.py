"""C19: what every request carries, and the delays between requests."""

import argparse
import os
import socket

from hypothesis import strategies as st

from rsverif import env, gen
from rsverif.core import Check
from rsverif.sync import World, call, tree, worlds, write_file

RULE = ("sequences of up to 12 settings and opens of web URIs, local paths and file: URIs, and whole synchronizations and "
        "explorations under settings given through the options of the tools; non-trivial: at least two web requests with "
        "a token, a delay or a timeout set")
ASSUMPTIONS = ["the clock and the sleep of the process are stand-ins; sleeping is what time.sleep is asked for",
               "a delay before the first web request is allowed when local files have been opened before it"]

DELAYS = [0.5, 1, 3, 0.001, 2.25]
TOKENS = ['tok', 'a.b-c_d', 'x' * 40, 'with space', '0']


@st.composite
def cases(draw):
    op = st.one_of(
        st.fixed_dictionaries({'op': st.just('web'), 'url': st.sampled_from(['http://h.example/a', 'https://h.example/b',
                                                                             'http://other.example:8080/c?x=1#f']),
                               'method': st.sampled_from([None, None, 'HEAD', 'GET']),
                               'timeout': st.sampled_from([None, None, 5, 0.5])}),
        st.fixed_dictionaries({'op': st.just('web'), 'url': st.just('http://h.example/a'), 'method': st.none(),
                               'timeout': st.none()}),
        st.fixed_dictionaries({'op': st.just('local'), 'name': st.sampled_from(['plain', 'sp ace', 'a%20b', 'q?x', 'h#y', 'é', 'd/f',
                                                                                '+p', '%']),
                               'how': st.sampled_from(['path', 'rel', 'uri', 'uri2']), 'timeout': st.sampled_from([None, 3])}),
        st.fixed_dictionaries({'op': st.just('set'), 'key': st.just('delay'), 'value': st.sampled_from([None] + DELAYS)}),
        st.fixed_dictionaries({'op': st.just('set'), 'key': st.just('bearer_token'), 'value': st.sampled_from([None] + TOKENS)}),
        st.fixed_dictionaries({'op': st.just('fail'), 'how': st.sampled_from([404, 'timeout', 'refused'])}))
    return {'ops': draw(st.lists(op, min_size=1, max_size=12))}


def check_request(r, token, timeout, ctx, what):
    from resync import __version__
    h = {k: v for k, v in r['headers'].items() if k != 'host'}
    want = {'user-agent': 'resync/' + __version__}
    if token is not None:
        want['authorization'] = 'Bearer ' + token
    ctx.equal(h, want, 'headers of %s' % what)
    if timeout is None:
        ctx.expect(r['timeout'] is socket._GLOBAL_DEFAULT_TIMEOUT or r['timeout'] is None, 'timeout of %s' % what,
                   timeout=r['timeout'])
    else:
        ctx.equal(r['timeout'], timeout, 'timeout of %s' % what)


def run(case, ctx):
    import urllib.parse
    from resync.url_or_file_open import set_url_or_file_open_config, url_or_file_open
    urls = ['http://h.example/a', 'https://h.example/b', 'http://other.example:8080/c?x=1#f']
    web = env.FakeWeb({u: ('body of ' + u).encode() for u in urls}).install()
    conf = {'delay': None, 'bearer_token': None}
    opened = sent = settings = 0
    for n, o in enumerate(case['ops']):
        what = 'operation %d' % n
        if o['op'] == 'set':
            set_url_or_file_open_config(o['key'], o['value'])
            conf[o['key']] = o['value']
            settings += o['value'] is not None
            continue
        before = len(env.SLEEPS)
        if o['op'] == 'local':
            p = os.path.join(ctx.dir, o['name'])
            write_file(p, o['name'].encode())
            uri = {'path': p, 'rel': o['name'], 'uri': 'file:' + urllib.parse.quote(p),
                   'uri2': 'file://' + urllib.parse.quote(p)}[o['how']]
            kw = {} if o['timeout'] is None else {'timeout': o['timeout']}
            with url_or_file_open(uri, **kw) as fh:
                ctx.equal(fh.read(), o['name'].encode(), 'content of %r' % uri)
            ctx.equal(env.SLEEPS[before:], [], 'delays before a local file, ' + what)
            opened += 1
            continue
        kw = {k: o[k] for k in ('method', 'timeout') if o.get(k) is not None}
        url = o.get('url', 'http://h.example/gone')
        if o['op'] == 'fail':
            if o['how'] != 404:
                web.faults[url] = [o['how']]
            try:
                url_or_file_open(url)
                ctx.fail('no error', how=o['how'])
            except IOError as e:
                ctx.expect(o['how'] != 'timeout' or isinstance(e, socket.timeout), 'kind of error', error=repr(e))
        else:
            with url_or_file_open(url, **kw) as fh:
                ctx.equal(fh.read(), b'' if o['method'] == 'HEAD' else ('body of ' + url).encode(), 'content')
        sent += 1
        ctx.equal(len(web.log), sent, 'requests made')
        ctx.equal(web.log[-1], (o.get('method') or 'GET', url), 'request made')
        r = web.requests[-1]
        check_request(r, conf['bearer_token'], o.get('timeout'), ctx, what)
        slept = env.SLEEPS[before:]
        want = [] if conf['delay'] is None or sent == 1 else [conf['delay']]
        if sent == 1 and opened:
            ctx.expect(slept in ([], [conf['delay']]), 'delays before the first web request', delays=slept)
        else:
            ctx.equal(slept, want, 'delays before request %d, %s' % (sent, what))
        ctx.equal(r['sleeps'], len(env.SLEEPS), 'delay comes before the request')
        opened += 1
        ctx.label('token', conf['bearer_token'] is not None)
        ctx.label('delay', bool(slept))
    ctx.nontrivial(sent > 1 and settings > 0)


@st.composite
def syncs(draw):
    w = draw(worlds(sources=('http',), want_src=True, kinds=['new', 'new', 'new', 'edited', 'resized', 'same', 'extra']))
    return {'w': w, 'mode': draw(st.sampled_from(['baseline', 'baseline', 'audit', 'incremental', 'parse', 'explore'])),
            'token': draw(st.sampled_from([None] + TOKENS)), 'delay': draw(st.sampled_from([None, None, 0] + DELAYS)),
            'timeout': draw(st.sampled_from([None, 1, 10, 30])), 'tries': draw(st.sampled_from([None, 1, 3])),
            'slow': draw(st.lists(st.integers(0, 5), max_size=2)), 'order': draw(st.booleans()),
            'negative': draw(st.integers(0, 20)) == 0}


def run_sync(case, ctx):
    from resync.client_utils import add_shared_misc_options, process_shared_misc_options
    from rsverif.sync import split_document
    w = World(case['w'], ctx)
    args = []
    if case['token'] is not None:
        args += ['--access-token', case['token']]
    if case['delay'] is not None:
        args += ['--delay', str(case['delay'])]
    if case['order']:
        args += ['-v']
    parser = argparse.ArgumentParser()
    add_shared_misc_options(parser.add_argument_group('x'), default_logfile='log', include_remote=True)
    if case['negative']:
        try:
            process_shared_misc_options(parser.parse_args(['--delay=-1']), include_remote=True)
        except (argparse.ArgumentTypeError, SystemExit, ValueError):
            return
        ctx.fail('negative delay not refused')
    process_shared_misc_options(parser.parse_args(args), include_remote=True)
    delay = case['delay'] or None
    c = w.client()
    c.timeout = case['timeout']
    if case['tries']:
        c.tries = case['tries']
    c.ignore_failures = True
    urls = [w.uri(f) for f in case['w']['files'] if f['src']]
    for i in case['slow']:
        w.web.faults.setdefault(urls[i % len(urls)], []).append('timeout')
    mode = case['mode']
    if mode in ('baseline', 'audit'):
        call(c.baseline_or_audit, allow_deletion=case['w']['delete'], audit_only=mode == 'audit')
    elif mode == 'incremental':
        uri = w.base + '/changelist.xml'
        entries = [dict(w.entry(f), change='updated', datetime='2014-01-01T00:00:00Z') for f in case['w']['files'] if f['src']]
        for u, data in split_document('changelist', entries, uri, case['w']['limit']).items():
            w.docs.add(u)
            w.put(u, data)
        o = call(c.incremental, from_datetime='2001-01-01')
        ctx.expect(o.error is None, 'failed', error=str(o.error))
    elif mode == 'parse':
        c.sitemap_name = w.list_uri
        c.parse_document()
    else:
        from resync.explorer import Explorer
        e = Explorer()
        e.set_mappings([w.base, os.path.join(ctx.dir, 'x')])
        answers = iter(['1', '1', 'b', 'b', 'q', 'q', 'q'])
        import builtins
        old = builtins.input
        builtins.input = lambda *a: next(answers)
        e.sitemap_name = w.list_uri
        try:
            call(e.explore)
        except StopIteration:
            pass
        finally:
            builtins.input = old
    reqs = w.web.requests
    ctx.label(mode)
    ctx.label('%s: %d or more requests' % (mode, min(len(reqs), 3)))
    ctx.expect(reqs, 'no requests made')
    ctx.nontrivial(len(reqs) > 1 and (delay or case['token'] or case['timeout']))
    for n, r in enumerate(reqs):
        what = 'request %d (%s %s)' % (n, r['method'], r['url'])
        resource = r['url'] in urls and mode in ('baseline', 'incremental')
        check_request(r, case['token'], case['timeout'] if resource else None, ctx, what)
        ctx.equal(r['sleeps'], n if delay is not None else 0, 'delays until ' + what)
    ctx.equal(env.SLEEPS, [delay] * (len(reqs) - 1) if delay is not None else [], 'delays')


CHECKS = [
    Check('opens', cases, run, quick=1500, thorough=15000, shards=2, thorough_shards=4),
    Check('synchronizations', syncs, run_sync, quick=500, thorough=8000, shards=4, thorough_shards=6),
]

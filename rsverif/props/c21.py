"""C21: the command-line tools, run as they are, against the library used directly and against what they must write."""

import os
import re
import runpy
import shlex
import sys
import xml.etree.ElementTree as ET
import zipfile

from hypothesis import strategies as st

from rsverif import core, env, gen
from rsverif.core import Check
from rsverif.props.c01 import RS, SM
from rsverif.props.c03 import model_equal
from rsverif.sync import World, call, digests, document, hash_att, parse_status, split_document, tree, worlds, write_file

RULE = ("command lines drawn from all documented options: synchronizations against a twin run of the library, builds of every "
        "kind of document over generated trees, and command lines that must be refused; non-trivial: at least two options "
        "given besides the mode, with something to list or to synchronize")
ASSUMPTIONS = ["change dumps are not implemented by the tool (it says so) and are left out, as is WARC, whose library is not installed",
               "what is refused is refused with a message on stderr; only errors of usage have a non-zero exit for certain",
               "--logfile is only given along with --logger"]


class Ran(object):
    """One run of a tool: exit, output and requests."""

    def __init__(self, tool, args, cwd=None):
        import io
        import logging
        old = sys.argv, sys.stdout, sys.stderr, os.getcwd()
        for name in ('client', 'resync'):
            lg = logging.getLogger(name)
            for h in list(lg.handlers):
                if type(h) in (logging.StreamHandler, logging.FileHandler):
                    lg.removeHandler(h)
        sys.argv = [tool] + args
        out, err = io.StringIO(), io.StringIO()
        sys.stdout, sys.stderr = out, err
        self.exit, self.error = 0, None
        if cwd:
            os.chdir(cwd)
        try:
            runpy.run_path(os.path.join(core.REPO, tool), run_name='__main__')
        except SystemExit as e:
            self.exit = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
            if isinstance(e.code, str):
                err.write(e.code + '\n')
        except Exception as e:
            # what the interpreter would have done
            self.exit, self.error = 1, e
            err.write('Traceback: %r\n' % e)
        finally:
            sys.argv, sys.stdout, sys.stderr = old[:3]
            os.chdir(old[3])
            for name in ('client', 'resync'):
                lg = logging.getLogger(name)
                for h in list(lg.handlers):
                    if type(h) in (logging.StreamHandler, logging.FileHandler):
                        lg.removeHandler(h)
                        h.close()
        self.out, self.err = out.getvalue(), err.getvalue()

    @property
    def refused(self):
        return self.exit != 0 or 'FatalError: ' in self.err


# --- synchronizations: the tool and the library do the same

@st.composite
def syncs(draw):
    w = draw(worlds(want_src=True))
    c = {'w': w, 'mode': draw(st.sampled_from(['baseline', 'baseline', 'audit', 'incremental', 'incremental', 'parse'])),
         'dryrun': draw(st.integers(0, 3)) == 0, 'verbose': draw(st.integers(0, 3)) == 0,
         'multifile': draw(st.integers(0, 4)) == 0, 'noauth': draw(st.booleans()), 'strictauth': draw(st.integers(0, 3)) == 0,
         'ignore': draw(st.booleans()), 'tries': draw(st.sampled_from([None, None, 1, 2, 5])),
         'timeout': draw(st.sampled_from([None, None, 3, 60])), 'token': draw(st.sampled_from([None, None, 'tok', 'x y'])),
         'delay': draw(st.sampled_from([None, None, 0, 0.5, 2])), 'max': draw(st.sampled_from([None, None, 1, 2, 100])),
         'capabilitylist': draw(st.integers(0, 3)) == 0, 'checksum': draw(st.integers(0, 4)) == 0,
         'spec': draw(st.sampled_from([None, None, None, '1.0', '1.1'])), 'style': draw(st.integers(0, 7)),
         'from': draw(st.sampled_from([None, None, '2001-01-01', '2001-01-01', '2014-01-03T00:00:00Z', '2014-01-05', '2013'] + ['bad'] * (draw(st.integers(0, 3)) == 0))),
         'changelist': draw(st.sampled_from([None, None, 'abs', 'abs', 'name', 'name', 'gone'])), 'logger': draw(st.sampled_from([0, 0, 0, 1, 2])),
         'eval': draw(st.integers(0, 6)) == 0, 'foreign': draw(st.integers(0, 5)) == 0,
         'gone': draw(st.lists(st.integers(0, 5), max_size=1)), 'slow': draw(st.lists(st.integers(0, 5), max_size=3)),
         'again': draw(st.booleans()),
         'changes': draw(st.lists(st.tuples(st.integers(0, 7), st.sampled_from(['created', 'updated', 'deleted']),
                                            st.integers(1, 9)), max_size=5))}
    return c


class Twin(object):
    """Where one of the two runs takes place."""

    def __init__(self, d):
        self.dir = d


def prepare(case, d, ctx):
    """A world below d, its change list and capability list, and the addresses of these."""
    os.makedirs(d)
    os.chdir(d)
    env.reset()
    w = World(case['w'], Twin(d))
    src = [f for f in case['w']['files'] if f['src']]
    urls = [w.uri(f) for f in src]
    for i in case['slow']:
        w.web.faults.setdefault(urls[i % len(urls)], []).append('timeout')
    for i in case['gone']:
        u = urls[i % len(urls)]
        if u in w.web.pages:
            w.web.faults.setdefault(u, []).extend([404] * 30)
    if case['foreign'] and case['w']['src'] == 'http':
        # a list elsewhere, without authority over what it lists
        data = w.web.pages[w.list_uri]
        w.web.pages['http://other.example/resourcelist.xml'] = data
    entries = []
    for i, ch, day in case['changes']:
        f = src[i % len(src)]
        e = {'uri': w.uri(f), 'change': ch, 'datetime': '2014-01-%02dT00:00:00Z' % day, 'lastmod': '2014-01-%02dT00:00:00Z' % day}
        if ch != 'deleted' and f['src']['length']:
            e['length'] = len(gen.content_bytes(f['src']['data']))
        entries.append(e)
    entries.sort(key=lambda e: e['datetime'])
    uri = w.base + ('/changelist.xml' if case['changelist'] is None else '/cl/changes.xml')
    for u, data in split_document('changelist', entries, uri, case['w']['limit']).items():
        w.put(u, data)
    capl = (w.base + '/cap.xml')
    w.put(capl, document('capabilitylist', [{'uri': w.list_uri, 'capability': 'resourcelist'}]))
    return w, uri, capl


def settings(case, w, uri, capl):
    """(how the library is told, how the tool is told) what to do."""
    kw, args, more = {}, [], []
    mode = case['mode']
    short = case['style'] & 1
    args.append({'baseline': ['--baseline', '-b'], 'audit': ['--audit', '-a'], 'incremental': ['--incremental', '--inc'],
                 'parse': ['--parse', '-p']}[mode][short])

    def give(name, value=None, alias=None):
        o = alias if alias and short else name
        if value is None:
            more.append([o])
        elif case['style'] & 2:
            more.append([o, str(value)])
        else:
            more.append([o + '=' + str(value)] if o.startswith('--') else [o, str(value)])
    if case['foreign'] and case['w']['src'] == 'http':
        kw['sitemap_name'] = 'http://other.example/resourcelist.xml'
    elif case['w']['where'] == 'explicit':
        kw['sitemap_name'] = w.list_uri
    if 'sitemap_name' in kw:
        give('--sitemap', kw['sitemap_name'])
    if case['capabilitylist']:
        kw['capability_list_uri'] = capl
        give('--capabilitylist', capl, '--capability-list')
    hashes = list(case['w']['hashes'])
    if case['checksum']:
        give('--checksum')
    for h in hashes:
        give('--hash', h)
    if case['checksum']:
        hashes.append('md5')
    for key, attr, opt, alias in (('noauth', 'noauth', '--noauth', None), ('strictauth', 'strictauth', '--strictauth', None),
                                  ('ignore', 'ignore_failures', '--ignore-failures', None)):
        if case[key]:
            kw[attr] = True
            give(opt, alias=alias)
    if case['multifile']:
        kw['allow_multifile'] = False
        give('--multifile', alias='-m')
    if case['max']:
        kw['max_sitemap_entries'] = case['max']
        give('--max-sitemap-entries', case['max'])
    if case['tries']:
        kw['tries'] = case['tries']
        give('--tries', case['tries'], '-t')
    if case['timeout']:
        kw['timeout'] = case['timeout']
        give('--timeout', case['timeout'], '-T')
    if case['token'] is not None:
        give('--access-token', case['token'])
    if case['delay'] is not None:
        give('--delay', case['delay'])
    if case['dryrun']:
        give('--dryrun', alias='-n')
    if case['verbose']:
        give('--verbose', alias='-v')
    if case['spec']:
        give('--spec-version', case['spec'])
    if case['w']['delete']:
        give('--delete')
    if case['from'] and mode == 'incremental':
        give('--from', case['from'])
    change_list_uri = None
    if case['changelist'] is not None and mode == 'incremental':
        change_list_uri = {'abs': uri, 'name': 'cl/changes.xml', 'gone': w.base + '/none.xml'}[case['changelist']]
        give('--changelist-uri', change_list_uri, '--change-list-uri')
    if case['eval']:
        give('--eval', alias='-e')
    if case['logger']:
        give('--logger', alias='-l')
        if case['logger'] == 2:
            give('--logfile', 'my.log')
    maps = ['%s=%s' % m for m in zip(w.prefixes, w.dsts)]
    if len(maps) == 1 and case['style'] & 4:
        maps = [w.prefixes[0], w.dsts[0]]
    k = case['style'] % 3
    more = [x for o in (more if k else reversed(more)) for x in o]
    args = maps + args + more if k == 1 else args + more + ['--'] + maps if k == 2 else more + args + maps
    return kw, hashes, maps, change_list_uri, args


def run_sync(case, ctx):
    from resync.client import Client
    from resync.url_or_file_open import set_url_or_file_open_config
    top = ctx.dir
    results = []
    for who in ('lib', 'tool'):
        d = os.path.join(top, who)
        w, uri, capl = prepare(case, d, ctx)
        kw, hashes, maps, change_list_uri, args = settings(case, w, uri, capl)
        rounds = []
        for n in range(2 if case['again'] else 1):
            before = len(w.web.requests)
            if who == 'lib':
                set_url_or_file_open_config('bearer_token', case['token'] or None)
                set_url_or_file_open_config('delay', case['delay'] or None)
                c = Client(spec_version=case['spec'] or '1.1', hashes=hashes, verbose=case['verbose'], dryrun=case['dryrun'])
                c.set_mappings(maps)
                for k in kw:
                    setattr(c, k, kw[k])
                with env.captured() as out, env.LogCapture('resync') as log:
                    err = None
                    try:
                        if case['mode'] in ('baseline', 'audit'):
                            c.baseline_or_audit(allow_deletion=case['w']['delete'], audit_only=case['mode'] == 'audit')
                        elif case['mode'] == 'incremental':
                            c.incremental(allow_deletion=case['w']['delete'], change_list_uri=change_list_uri,
                                          from_datetime=case['from'])
                        else:
                            c.parse_document()
                    except Exception as e:
                        err = e
                said = log.messages(20 if case['verbose'] else 30)
                r = {'out': out.getvalue(), 'error': err, 'said': '\n'.join(said), 'status': parse_status(log.messages())}
            else:
                logs = set(os.listdir(d))
                t = Ran('resync-sync', args)
                r = {'out': t.out, 'ran': t, 'said': t.err, 'status': parse_status(t.err.split('\n'))}
                name = [None, 'resync-client.log', 'my.log'][case['logger']]
                if name:
                    ctx.expect(os.path.exists(name), 'no log written', name=name)
                    with open(name) as fh:
                        text = fh.read()
                    ctx.equal(parse_status(text.split('\n'))[-len(r['status']) or len(text):] if r['status'] else [],
                              r['status'], 'status in the log')
                    os.unlink(name)
                ctx.expect(not [x for x in set(os.listdir(d)) - logs if x.endswith('.log')], 'log not asked for')
            r['requests'] = [(q['method'], q['url'].replace(d, ''), q['timeout'],
                              sorted((k, v) for k, v in q['headers'].items())) for q in w.web.requests[before:]]
            r['sleeps'] = list(env.SLEEPS)
            files = tree(d, times=True)
            for k in list(files):
                if k.endswith('.resync-client-status.cfg'):
                    folded = re.sub(r'\W', '_', d).lower()
                    files[k] = files[k][0].decode().replace(d, '').replace(folded, '')
                elif isinstance(files[k], tuple) and k.startswith('src/'):
                    del files[k]
                elif isinstance(files[k], tuple) and isinstance(files[k][1], int) and files[k][1] > 1600000000 * 10 ** 9:
                    # without a time of its own
                    files[k] = (files[k][0], 'now')
            r['files'] = files
            rounds.append(r)
        results.append(rounds)
    for n, (lib, tool) in enumerate(zip(*results)):
        t = tool['ran']
        what = ', call %d: resync-sync %s' % (n, ' '.join(shlex.quote(a) for a in args))
        ctx.expect((lib['error'] is not None) == t.refused, 'errors' + what, library=repr(lib['error']), exit=t.exit, stderr=t.err[-600:])
        if lib['error'] is not None:
            ctx.expect(str(lib['error']).replace(os.path.join(top, 'lib'), '') in t.err.replace(os.path.join(top, 'tool'), '') or
                       repr(lib['error']).replace(os.path.join(top, 'lib'), '') in t.err.replace(os.path.join(top, 'tool'), ''),
                       'message of the error' + what, library=repr(lib['error']), stderr=t.err[-600:])
        for k in ('requests', 'sleeps', 'files', 'status'):
            # the second run starts with the delay of a process that has opened something
            ctx.equal(tool[k], lib[k], k + what)
        a = lib['out'].replace(os.path.join(top, 'lib'), '')
        b = tool['out'].replace(os.path.join(top, 'tool'), '')
        ctx.equal(b, a, 'standard output' + what)
        said = lib['said'].replace(os.path.join(top, 'lib'), '')
        ctx.expect(said in tool['said'].replace(os.path.join(top, 'tool'), ''), 'messages' + what, library=said[-800:],
                   tool=tool['said'][-800:])
        if not case['verbose']:
            ctx.expect(len(tool['said'].strip().split('\n')) <= len(said.strip().split('\n')) + 3 + (
                str(lib['error']).count('\n') if lib['error'] else 0), 'more said than asked for' + what, stderr=tool['said'][-800:])
        ctx.label('%s: %s' % (case['mode'], 'error' if lib['error'] is not None else 'status' if lib['status'] else 'done'))
        ctx.nontrivial(lib['error'] is None and len(args) >= len(maps) + 3)
    check_parse(case, results[1][0], w, ctx)


def check_parse(case, tool, w, ctx):
    """What --parse prints, from what was published."""
    if case['mode'] != 'parse':
        return
    t = tool['ran']
    if t.refused:
        return
    n = sum(1 for f in case['w']['files'] if f['src'])
    if case['w']['limit'] is not None and n > case['w']['limit']:
        n = -(-n // case['w']['limit'])
    lines = t.out.strip().split('\n')
    ctx.equal(lines[0], 'Parsed resourcelist document with %d entries' % n, 'what --parse says')
    shown = [x for x in lines if re.match(r'\[\d+\] ', x)]
    ctx.equal(len(shown), min(n, case['max'] or 100) if case['verbose'] else 0, 'entries shown by --parse -v')


# --- building documents

CAPS = ['resourcelist', 'changelist', 'resourcedump', 'changedump', 'x', 'description']
HREFS = ['http://h.example/d', 'http://h.example/a?b&c', 'rel/ative', '/x y', 'urn:x:y<z>', 'http://h.example/d#f', 'http://h.example/d/', '/']


@st.composite
def builds(draw):
    name = st.one_of(st.text('abcd01', min_size=1, max_size=3), st.sampled_from(['a b', 'é', 'x&y', '%41', 'n+m', "q'", 'a.txt', 'b.txt', '-x']))
    n = draw(st.sampled_from([1, 1, 2]))
    c = {'mode': draw(st.sampled_from(['resourcelist'] * 3 + ['changelist'] * 4 + ['capabilitylist', 'sourcedescription', 'resourcedump'])),
         'prefixes': draw(st.permutations(['http://h.example/x', 'http://h.example/xy', 'https://g.example/a.b']))[:n], 'files': [],
         'hashes': draw(st.sampled_from([[], [], ['md5'], ['sha-1'], ['sha-256', 'md5'], ['md5', 'sha-1', 'sha-256']])),
         'checksum': draw(st.integers(0, 4)) == 0, 'dryrun': draw(st.integers(0, 6)) == 0,
         'exclude': draw(st.lists(st.sampled_from(['a', r'.*\.txt', 'b$', '[cd]', 'x&', 'zz']), max_size=2)),
         'max': draw(st.sampled_from([None, None, 1, 2, 3, 10])), 'multifile': draw(st.integers(0, 4)) == 0,
         'outfile': draw(st.sampled_from([None, 'in', 'in', 'out', 'out'])), 'paths': draw(st.sampled_from([None, None, None, 'first', 'files', 'both'])),
         'links': draw(st.lists(st.tuples(st.sampled_from(['describedby', 'contents', 'up', 'http://x/y']), st.sampled_from(HREFS),
                                          st.lists(st.sampled_from(['type=text/html', 'length=12', 'pri=3', 'path=/a', 'hash=md5:xyz', 'type=text/plain;charset=utf-8', 'path=/b==']),
                                                   unique=True, max_size=2)).map(list), max_size=2)),
         'describedby': draw(st.sampled_from([None, None] + HREFS)), 'capabilitylist_link': draw(st.sampled_from([None, None] + HREFS)),
         'sourcedescription_link': draw(st.sampled_from([None, None] + HREFS)),
         'caps': draw(st.lists(st.tuples(st.sampled_from(CAPS), st.sampled_from(['http://h.example/%d' % i for i in range(3)] + ['rel', 'u:1', 'http://h.example/c?list=1', 'http://h.example/=a=b', 'http://h.example/d/', '/', ' x ', 'http://H.example/%41', '"q"', "'q'"])).map(list),
                               min_size=1, max_size=4, unique_by=lambda x: x[1])),
         'empty': draw(st.integers(0, 5)) == 0, 'newref': draw(st.integers(0, 2)) == 0, 'split_ref': draw(st.sampled_from([None, None, 1, 2])),
         'alias': draw(st.booleans()), 'slash': draw(st.booleans()), 'spec': draw(st.sampled_from([None, None, '1.0', '1.1'])),
         'verbose': draw(st.integers(0, 5)) == 0, 'pair': draw(st.booleans()), 'logger': draw(st.integers(0, 5)) == 0}
    for i in range(n):
        for p in draw(gen.file_paths(min_size=1 if i == 0 else 0, max_size=6, names=name)):
            data = draw(st.text('ab\n', max_size=5))
            ts = draw(st.integers(1000000000, 1400000000))
            f = {'map': i, 'path': p, 'data': data, 'ts': ts, 'old': None}
            kind = draw(st.sampled_from(['same', 'same', 'created', 'deleted', 'touched', 'resized', 'rehashed', 'bare']))
            if kind != 'created':
                f['old'] = {'lastmod': ts + (60 if kind == 'touched' else 0), 'length': len(data) + (kind == 'resized'),
                            'hash': draw(st.sampled_from([[], ['md5'], ['md5', 'sha-1', 'sha-256']])), 'data': data + ('x' if kind == 'rehashed' else '')}
                if kind == 'bare':
                    f['old'].pop(draw(st.sampled_from(['lastmod', 'length'])))
            if kind == 'deleted':
                f['data'] = None
            c['files'].append(f)
    return c


def old_entry(c, f):
    o = f['old']
    e = {'uri': c['prefixes'][f['map']] + '/' + f['path']}
    if 'lastmod' in o:
        e['lastmod'] = gen.w3c(o['lastmod'])
    if 'length' in o:
        e['length'] = o['length']
    if o['hash']:
        e['hash'] = hash_att(o['data'].encode(), o['hash'])
    return e


def new_entry(c, f, hashes):
    """Entry a scan gives, as of the documents written here."""
    e = {'uri': c['prefixes'][f['map']] + '/' + f['path'], 'lastmod': gen.w3c(f['ts']), 'length': len(f['data'])}
    if hashes:
        e['hash'] = hash_att(f['data'].encode(), hashes)
    return e


def as_attributes(e):
    """Entry as dict of what is compared."""
    import calendar
    import time
    d = {'uri': e['uri']}
    if 'lastmod' in e:
        d['timestamp'] = calendar.timegm(time.strptime(e['lastmod'], '%Y-%m-%dT%H:%M:%SZ'))
    if 'length' in e:
        d['length'] = int(e['length'])
    for part in e.get('hash', '').split():
        t, v = part.split(':', 1)
        d[t.replace('-', '')] = v
    return d


def read_document(data, ctx):
    root = ET.fromstring(data)
    out = {'root': root.tag, 'ln': [dict(x.attrib) for x in root.findall(RS + 'ln')],
           'md': [dict(x.attrib) for x in root.findall(RS + 'md')], 'entries': []}
    for u in list(root):
        if u.tag not in (SM + 'url', SM + 'sitemap'):
            continue
        e = {'uri': u.find(SM + 'loc').text}
        lm = u.find(SM + 'lastmod')
        if lm is not None:
            e['lastmod'] = lm.text
        for md in u.findall(RS + 'md'):
            e.update(md.attrib)
        if u.findall(RS + 'ln'):
            e['ln'] = [dict(x.attrib) for x in u.findall(RS + 'ln')]
        if 'hash' in e:
            e['hash'] = ' '.join(sorted(e['hash'].split()))
        if 'length' in e:
            e['length'] = int(e['length'])
        out['entries'].append(e)
    ctx.equal(len(out['md']), 1, 'rs:md of the document')
    out['md'] = out['md'][0]
    return out


def norm(entries):
    out = []
    for e in entries:
        e = dict(e)
        if 'hash' in e:
            e['hash'] = ' '.join(sorted(e['hash'].split()))
        out.append(e)
    return sorted(out, key=lambda e: (e['uri'], e.get('change', ''), e.get('capability', '')))


def run_build(case, ctx):
    top = ctx.dir
    dsts = ['dst%d' % i for i in range(len(case['prefixes']))]
    for f in case['files']:
        if f['data'] is not None:
            write_file(os.path.join(top, dsts[f['map']], f['path']), f['data'].encode(), f['ts'])
    for d in dsts:
        os.makedirs(d, exist_ok=True)
    mode = case['mode']
    names = {'resourcelist': ['--write-resourcelist', '--write-resource-list'], 'changelist': ['--write-changelist', '--write-change-list'],
             'capabilitylist': ['--write-capabilitylist', '--write-capability-list'], 'resourcedump': ['--write-resourcedump', '-d'],
             'sourcedescription': ['--write-sourcedescription', '--write-source-description']}
    args = [names[mode][case['alias']]]
    if mode == 'capabilitylist':
        args.append(','.join('%s=%s' % tuple(x) for x in case['caps']))
    elif mode == 'sourcedescription':
        args.append(','.join(x[1] for x in case['caps']))
    hashes = []
    for h in case['hashes']:
        args += ['--hash', h]
        hashes.append(h)
    if case['checksum']:
        args.append('--checksum')
        hashes.append('md5')
    hashes = [h for h in ('md5', 'sha-1', 'sha-256') if h in hashes]
    for x in case['exclude']:
        args.append('--exclude=' + x)
    if case['max']:
        args += ['--max-sitemap-entries', str(case['max'])]
    if case['multifile']:
        args.append('-m' if case['alias'] else '--multifile')
    if case['spec']:
        args += ['--spec-version', case['spec']]
    links = []
    for rel, href, atts in case['links']:
        args += ['--link', ','.join([rel, href] + atts)]
        links.append(dict([a.split('=', 1) for a in atts], rel=rel, href=href))
    if case['capabilitylist_link']:
        args += ['--capability-list-link' if case['alias'] else '--capabilitylist-link', case['capabilitylist_link']]
        if mode not in ('capabilitylist', 'sourcedescription'):
            links.insert(0, {'rel': 'up', 'href': case['capabilitylist_link']})
    if case['sourcedescription_link']:
        args += ['--sourcedescription-link', case['sourcedescription_link']]
        if mode == 'capabilitylist':
            links.insert(0, {'rel': 'up', 'href': case['sourcedescription_link']})
    if case['describedby']:
        args += ['--describedby-link', case['describedby']]
        links.insert(0, {'rel': 'describedby', 'href': case['describedby']})
    if case['dryrun']:
        args.append('-n')
    if case['verbose'] and (mode not in ('changelist',) or case['outfile']):
        args.append('-v')
    if case['logger']:
        args += ['-l', '--logfile', 'the log']
    # what is on disk, as far as it is looked at
    disk = [f for f in case['files'] if f['data'] is not None]
    if case['paths'] and mode in ('resourcelist', 'changelist', 'resourcedump'):
        if case['paths'] == 'first':
            paths = [dsts[0]]
            disk = [f for f in disk if f['map'] == 0]
        elif case['paths'] == 'both':
            paths = list(reversed(dsts))
        else:
            disk = disk[:2]
            paths = [os.path.join(dsts[f['map']], f['path']) for f in disk]
            if not paths or any(',' in p for p in paths):
                return
        args += ['--paths', ','.join(paths)]
        if case['paths'] == 'files':
            disk = [f for f in disk if not any(re.match(x, os.path.join(dsts[f['map']], f['path'])) for x in case['exclude'])]
    if not (case['paths'] == 'files' and mode in ('resourcelist', 'changelist', 'resourcedump')):
        disk = [f for f in disk if not any(re.match(x, seg) for x in case['exclude'] for seg in f['path'].split('/'))]
    scanned = [new_entry(case, f, hashes) for f in disk]
    use_map = True
    ordered = False
    if mode == 'changelist':
        if case['empty']:
            args.append('--empty')
            want = []
            use_map = not case['pair']
        else:
            ref = [old_entry(case, f) for f in case['files'] if f['old']]
            if case['split_ref'] and case['multifile']:
                ref = ref[:case['split_ref']]
            write_refs(ref, 'ref', case, dsts, top)
            args += ['--reference', os.path.join(dsts[0], 'ref.xml') if case['split_ref'] else 'ref.xml']
            new = scanned
            if case['newref']:
                new = [old_entry(case, f) for f in case['files'] if f['old'] and f['data'] is None or f['map'] == 1 and f['old']]
                new += [new_entry(case, f, ['md5'] if f['ts'] % 2 else []) for f in case['files'] if f['data'] is not None and
                        not (f['map'] == 1 and f['old'])]
                if case['split_ref'] and case['multifile']:
                    new = new[:case['split_ref']]
                write_refs(new, 'newref', case, dsts, top)
                args += ['--newreference', os.path.join(dsts[0], 'newref.xml') if case['split_ref'] else 'newref.xml']
            elif case['split_ref']:
                # the reference is written where it is scanned
                extra = [x for x in os.listdir(dsts[0]) if re.match(r'ref\d*\.xml$', x)]
                args.append('--exclude=ref[0-9]*.xml')
            want = []
            a = {e['uri']: e for e in ref}
            b = {e['uri']: e for e in new}
            for u in sorted(set(a) | set(b)):
                if u not in b:
                    want.append(dict(a[u], change='deleted'))
                elif u not in a:
                    want.append(dict(b[u], change='created'))
                elif not model_equal(as_attributes(a[u]), as_attributes(b[u]), 0.0):
                    want.append(dict(b[u], change='updated'))
    elif mode == 'capabilitylist':
        ordered = True
        d = {}
        for k, v in case['caps']:
            d[k] = v
        want = [{'uri': v, 'capability': k} for k, v in d.items()]
    elif mode == 'sourcedescription':
        want = [{'uri': x[1], 'capability': 'capabilitylist'} for x in case['caps']]
    else:
        want = scanned
    if use_map:
        maps = ['%s=%s' % (p + ('/' if case['slash'] else ''), d + ('/' if case['slash'] else '')) for p, d in zip(case['prefixes'], dsts)]
        if len(maps) == 1 and case['pair']:
            maps = [case['prefixes'][0], dsts[0]]
        args += maps
    outfile = None
    if case['outfile']:
        outfile = 'outer/file.xml' if case['outfile'] == 'out' else os.path.join(dsts[0], 'list.xml')
        os.makedirs('outer')
        if mode == 'resourcedump':
            outfile = outfile[:-4]
        args += ['--outfile', outfile]
    before = tree(top, times=True)
    t = Ran('resync-build', args)
    what = ': resync-build ' + ' '.join(shlex.quote(a) for a in args)
    after = tree(top, times=True)
    added = {k: after[k] for k in after if k not in before and k != 'the log'}
    ctx.expect(all(after.get(k) == before[k] for k in before), 'existing files changed' + what,
               changed=[k for k in before if after.get(k) != before[k]])
    ctx.equal('the log' in after, case['logger'], 'log written' + what)
    ctx.label(mode)
    ctx.nontrivial(want and len(args) > 4)
    if mode == 'resourcedump':
        if not want:
            ctx.equal(list(added), [], 'files written without resources' + what)
            return
        ctx.expect(not t.refused, 'failed' + what, stderr=t.err[-500:])
        base = outfile or 'resourcedump.zip'
        ctx.equal(sorted(added), [base + '00000.xml', base + '00000.zip'], 'dump written' + what)
        z = zipfile.ZipFile(base + '00000.zip')
        m = read_document(z.read('manifest.xml'), ctx)
        ctx.equal(read_document(added[base + '00000.xml'][0], ctx), m, 'separate manifest' + what)
        ctx.equal(m['md'].get('capability'), 'resourcedump-manifest', 'capability of the manifest')
        files = {}
        for e in m['entries']:
            files[e['uri']] = z.read(e.pop('path').lstrip('/'))
        ctx.equal(norm(m['entries']), norm(want), 'entries of the manifest' + what)
        ctx.equal(files, {case['prefixes'][f['map']] + '/' + f['path']: f['data'].encode() for f in disk}, 'content' + what)
        return
    multi = case['max'] and len(want) > case['max'] and mode in ('resourcelist', 'changelist')
    if multi and (outfile is None or case['multifile'] or not use_map or case['outfile'] == 'out'):
        ctx.expect(t.refused, 'not refused' + what, out=t.out[:200])
        ctx.expect('<?xml' not in t.out and (case['verbose'] or not t.out), 'output when refused' + what, out=t.out[:300])
        ctx.equal(list(added), [], 'files written when refused' + what)
        ctx.label('refused')
        return
    ctx.expect(not t.refused, 'failed' + what, exit=t.exit, stderr=t.err[-500:])
    if outfile is None:
        ctx.equal(list(added), [], 'files written besides stdout' + what)
        docs = [t.out.encode()]
        main = read_document(docs[0], ctx)
    else:
        ctx.equal(t.out, t.out if case['verbose'] else '', 'output besides the file' + what)
        main = read_document(added[outfile][0], ctx)
    capability = {'sourcedescription': 'description'}.get(mode, mode)
    root = 'urlset'
    if multi:
        ctx.label('several sitemaps')
        root = 'sitemapindex'
        n = -(-len(want) // case['max'])
        parts = [outfile[:-4] + '%05d.xml' % i for i in range(n)]
        ctx.equal(sorted(added), sorted(parts + [outfile]), 'files written' + what)
        ctx.equal([e['uri'] for e in main['entries']], [case['prefixes'][0] + p[len(dsts[0]):] for p in parts], 'sitemaps listed' + what)
        got = []
        for p in parts:
            d = read_document(added[p][0], ctx)
            ctx.equal((d['root'], d['md'].get('capability')), (SM + 'urlset', capability), 'kind of sitemap' + what)
            got += d['entries']
    else:
        ctx.equal(list(added), [outfile] if outfile else [], 'files written' + what)
        got = main['entries']
    ctx.equal(main['root'], SM + root, 'root' + what)
    ctx.equal(main['md'].pop('capability', None), capability, 'capability' + what)
    ctx.equal(sorted(main['md']), ['at', 'completed'] if mode == 'resourcelist' else [], 'other metadata' + what)
    ctx.equal(main['ln'], links, 'links' + what)
    if mode in ('resourcelist', 'sourcedescription', 'changelist'):
        key = (lambda e: (e['uri']))
        ctx.equal(sorted(got, key=key), norm(want), 'entries' + what)
        if mode == 'resourcelist':
            ctx.equal([e['uri'] for e in got], sorted(e['uri'] for e in got), 'order' + what)
    else:
        ctx.equal(norm(got), norm(want), 'entries' + what)


URI_TEXT = st.one_of(st.sampled_from(HREFS + ['u:1', 'http://h.example/c?list=1', 'http://h.example/=a=b', 'http://h.example/d/', '/', ' x ',
                                              'http://H.example/%41', '"q"', "'q'", 'http://h.example/é', '.', '../x', 'http://h.example', '#']),
                     st.text('ab/.:?=&%# ', min_size=1, max_size=6).filter(lambda u: u.strip()))


@st.composite
def described(draw):
    """Capability lists, source descriptions and links."""
    href = st.one_of(st.none(), URI_TEXT.filter(lambda u: ',' not in u))
    value = st.sampled_from(['text/html', '12', '/a', 'a=b', '=', ' ', 'x;y', '/b/', '"', 'é'])
    return {'mode': draw(st.sampled_from(['capabilitylist', 'capabilitylist', 'sourcedescription'])), 'prefixes': ['http://h.example/x'], 'hashes': [],
            'files': [{'map': 0, 'path': 'a', 'data': '', 'ts': 1000000000, 'old': None}], 'checksum': False, 'dryrun': draw(st.booleans()),
            'exclude': [], 'max': draw(st.sampled_from([None, None, 1])), 'multifile': draw(st.booleans()), 'outfile': draw(st.sampled_from([None, 'out', 'in'])),
            'paths': None, 'links': [[draw(st.sampled_from(['describedby', 'up', 'index', 'x', 'http://x/y'])), draw(URI_TEXT),
                                      ['%s=%s' % (k, draw(value)) for k in draw(st.sampled_from([[], [], ['type'], ['path', 'modified'], ['hash']]))]]
                                     for i in range(draw(st.integers(0, 2)))],
            'describedby': draw(href), 'capabilitylist_link': draw(href), 'sourcedescription_link': draw(href), 'empty': draw(st.booleans()),
            'caps': [[draw(st.sampled_from(CAPS + ['changedump-archive', 'a b', 'X'])), u] for u in draw(st.lists(URI_TEXT, min_size=1, max_size=4, unique=True))],
            'newref': False, 'split_ref': None, 'alias': draw(st.booleans()), 'slash': False, 'spec': draw(st.sampled_from([None, '1.0', '1.1'])),
            'verbose': False, 'pair': True, 'logger': False}


def write_refs(entries, name, case, dsts, top):
    """A reference list, in parts when asked for, next to the working directory or where the mapping finds its parts."""
    if not case['split_ref']:
        write_file(os.path.join(top, name + '.xml'), document('resourcelist', entries))
        return
    base = case['prefixes'][0]
    for u, data in split_document('resourcelist', entries, base + '/' + name + '.xml', case['split_ref']).items():
        write_file(os.path.join(top, dsts[0], u[len(base) + 1:]), data)


# --- refusals

SYNC_BAD = [
    ['http://h.example/x=out'], ['-b', '-a', 'http://h.example/x=out'], ['-b', '--inc', 'http://h.example/x=out'],
    ['-p', '-b', 'http://h.example/x=out'], ['-b', '--no-such-option', 'http://h.example/x=out'],
    ['-b', '--spec-version', '0.9', 'http://h.example/x=out'], ['-b', '--tries', 'many', 'http://h.example/x=out'],
    ['-b', '--timeout', 'x', 'http://h.example/x=out'], ['-b', '--max-sitemap-entries', '1.5', 'http://h.example/x=out'],
    ['-b', '--delay', 'slow', 'http://h.example/x=out'], ['-b', '--delay=-1', 'http://h.example/x=out'], ['-b', '--sitemap'],
    ['-b'], ['--inc'], ['-a'], ['-b', 'http://h.example/x=out', 'http://h.example/y'],
    ['-b', 'http://h.example/x=out', 'http://h.example/x=out2'], ['-b', 'http://h.example/x=out', 'http://h.example/y=out'],
    ['-b', 'http://h.example/x=out', 'http://h.example/x/=out2'], ['-b', 'out=out/sub'], ['--inc', '-n', 'out/sub=out'],
    ['--inc', '--from', 'yesterday', 'http://h.example/x=out'], ['--inc', '--from', '2001-13-01', 'http://h.example/x=out'],
    ['-b', 'a', 'b', 'c'], ['--inc', '--changelist-uri=changelist.xml'], ['-b', '--spec-version=1.1', '--eval=yes', 'http://h.example/x=out']]
BUILD_BAD = [
    ['http://h.example/x=out'], ['--write-resourcelist', '--write-changelist', 'http://h.example/x=out'],
    ['--write-resourcelist', '-d', 'http://h.example/x=out'], ['--write-resourcelist'], ['-d'], ['--write-changelist', 'http://h.example/x=out'],
    ['--write-changelist', '--reference', 'no such file.xml', 'http://h.example/x=out'],
    ['--write-changelist', '--reference', 'ref.xml'], ['--write-changelist', '--newreference', 'ref.xml'],
    ['--write-changelist', '--newreference', 'ref.xml', 'http://h.example/x=out'],
    ['--write-changedump', '--newreference', 'ref.xml', 'http://h.example/x=out'],
    ['--write-changelist', '--reference', 'ref.xml', '--newreference', 'none.xml'],
    ['--write-changelist', '--reference', 'out/file', 'http://h.example/x=out'],
    ['--write-changelist', '--reference', 'cl.xml', 'http://h.example/x=out'],
    ['--write-resourcelist', '--exclude', '(', 'http://h.example/x=out'], ['--write-resourcelist', '--exclude', 'a', '--exclude', '*', 'http://h.example/x=out'],
    ['--write-resourcelist', '--link', 'up', 'http://h.example/x=out'], ['--write-resourcelist', '--link', 'up,', 'http://h.example/x=out'],
    ['--write-resourcelist', '--link', 'up,u,a', 'http://h.example/x=out'], ['--write-resourcelist', '--link', 'up,u,a=', 'http://h.example/x=out'],
    ['--write-resourcelist', '--link', 'up,u,=b', 'http://h.example/x=out'],
    ['--write-resourcelist', '--link', 'up,ok', '--link', '', 'http://h.example/x=out'],
    ['--write-capabilitylist'], ['--write-capabilitylist', 'resourcelist'], ['--write-capabilitylist', 'a=b,c'],
    ['--write-capabilitylist', 'a=u,'], ['--write-capabilitylist', 'a=u,b=u'], ['--write-sourcedescription'], ['--write-sourcedescription', 'u,v,u'],
    ['--write-resourcelist', '--hash', 'sha-512', 'http://h.example/x=out'], ['--write-resourcelist', '--hash', 'md5', '--hash', 'MD5', 'http://h.example/x=out'],
    ['--write-resourcelist', '--max-sitemap-entries', 'x', 'http://h.example/x=out'], ['--write-resourcelist', '--spec-version=2', 'http://h.example/x=out'],
    ['--write-resourcelist', 'http://h.example/x=out', 'http://h.example/x=out2'], ['--write-resourcelist', 'a', 'b', 'c'],
    ['--write-resourcelist', '--paths', 'elsewhere', 'http://h.example/x=out'],
    ['--write-resourcelist', '--bogus', 'http://h.example/x=out'], ['--write-resourcelist', '--delete', 'http://h.example/x=out']]
HARMLESS = [[], ['-v'], ['--hash', 'sha-1'], ['--checksum'], ['--verbose', '--spec-version', '1.0'], ['-m'], ['--exclude', 'zz']]


def refusals():
    return st.one_of(
        st.tuples(st.just('resync-sync'), st.sampled_from(SYNC_BAD), st.sampled_from(HARMLESS + [['-n'], ['--noauth'], ['--delete']]), st.booleans()),
        st.tuples(st.just('resync-build'), st.sampled_from(BUILD_BAD), st.sampled_from(HARMLESS + [['--outfile', 'new.xml'], ['-n']]), st.booleans())).map(list)


def run_refusal(case, ctx):
    tool, bad, more, front = case
    top = ctx.dir
    write_file(os.path.join(top, 'out', 'file'), b'content', 1000000000)
    write_file(os.path.join(top, 'elsewhere', 'file'), b'content', 1000000000)
    write_file(os.path.join(top, 'ref.xml'), document('resourcelist', [{'uri': 'http://h.example/x/gone'}]))
    write_file(os.path.join(top, 'cl.xml'), document('changelist', [{'uri': 'http://h.example/x/gone', 'change': 'updated'}]))
    web = env.FakeWeb().install()
    for u in ('resourcelist.xml', 'y/resourcelist.xml'):
        web.pages['http://h.example/x/' + u] = document('resourcelist', [{'uri': 'http://h.example/x/r', 'lastmod': '2001-01-01'}])
    web.pages['http://h.example/x/changelist.xml'] = document('changelist', [
        {'uri': 'http://h.example/x/r', 'change': 'created', 'datetime': '2014-01-01T00:00:00Z'}])
    web.pages['http://h.example/x/r'] = b'r'
    before = tree(top, times=True)
    args = more + bad if front else bad + more if not bad[-1].startswith('--') else more + bad
    t = Ran(tool, args)
    what = ': %s %s' % (tool, ' '.join(shlex.quote(a) for a in args))
    ctx.expect(t.refused, 'not refused' + what, out=t.out[:300], err=t.err[-300:])
    ctx.expect(t.err.strip(), 'nothing said' + what)
    ctx.equal(tree(top, times=True), before, 'files' + what)
    ctx.equal(web.log, [], 'requests' + what)
    ctx.expect('<' + 'urlset' not in t.out, 'document written to standard output' + what)
    ctx.label('usage' if t.exit == 2 else 'fatal' if t.error is None else 'exception')
    ctx.nontrivial(len(more) > 0)


CHECKS = [
    Check('synchronizations', syncs, run_sync, quick=250, thorough=6000, shards=4, thorough_shards=6, case_seconds=40),
    Check('builds', builds, run_build, quick=500, thorough=8000, shards=2, thorough_shards=4),
    Check('described', described, run_build, quick=250, thorough=3000),
    Check('refusals', refusals, run_refusal, quick=200, thorough=2500, shards=1, thorough_shards=1,
          examples=[['resync-sync', a, [], False] for a in SYNC_BAD] + [['resync-build', a, [], False] for a in BUILD_BAD]),
]

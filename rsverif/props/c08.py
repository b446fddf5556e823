"""C08: baseline and incremental synchronizations over histories of a source."""

import os

from hypothesis import strategies as st

from rsverif import env, gen
from rsverif.core import Check
from rsverif.sync import call, document, split_document, tree, write_file

RULE = ("histories of up to 16 operations: changes at the source, limits on how far its change list goes back, local "
        "accidents, baseline and incremental synchronizations; non-trivial: at least two synchronizations succeed, "
        "one of them incremental with changes to apply")
ASSUMPTIONS = ["the source publishes its lists with every change", "every version of a resource differs in length",
               "times of the source lie in the past and do not go backwards; lastmod is at most the time of the change",
               "entries of a change list have the times their spec version needs (except where refusal is tested)"]

PATHS = ['a', 'b', 'd/c', 'd/e f', 'a.b']
START = 1300000000
BASE = 'http://h.example/s'
SECOND = 'http://h.example/t'

STEP = st.sampled_from([0, 1, 1, 0.5, 0.25, 60, 3600, 86400.125, 0.000001])


@st.composite
def histories(draw):
    put = st.fixed_dictionaries({'op': st.just('put'), 'p': st.integers(0, 4), 'dt': STEP,
                                 'early': st.sampled_from([0, 0, 0.5, 30])})
    op = st.one_of(
        put,
        st.fixed_dictionaries({'op': st.just('put'), 'p': st.integers(0, 1), 'dt': STEP,
                               'early': st.sampled_from([0, 0, 0.5, 30])}),
        st.fixed_dictionaries({'op': st.just('del'), 'p': st.integers(0, 4), 'dt': STEP}),
        st.fixed_dictionaries({'op': st.just('del'), 'p': st.integers(0, 1), 'dt': STEP}),
        st.fixed_dictionaries({'op': st.just('incr'), 'delete': st.sampled_from([True, True, False]),
                               'from': st.sampled_from([None, None, None, 0, 1, 2, 3, 'start', 'epoch', 'bad']),
                               'uri': st.sampled_from(['default', 'default', 'default', 'all', 'relative', 'untimed']),
                               'dry': st.sampled_from([False, False, False, True]), 'single': st.integers(0, 5).map(lambda k: k == 0)}),
        st.fixed_dictionaries({'op': st.just('incr'), 'delete': st.just(True), 'from': st.none(),
                               'uri': st.just('default'), 'dry': st.just(False)}),
        st.fixed_dictionaries({'op': st.just('base'), 'delete': st.sampled_from([True, True, False])}),
        st.fixed_dictionaries({'op': st.just('rotate'), 'keep': st.integers(0, 3)}),
        st.fixed_dictionaries({'op': st.just('lose'), 'p': st.integers(0, 4)}),
        st.fixed_dictionaries({'op': st.just('stray'), 'p': st.integers(0, 4)}))
    sync = st.fixed_dictionaries({'op': st.just('incr'), 'delete': st.sampled_from([True, True, False]), 'from': st.none(),
                                  'uri': st.just('default'), 'dry': st.just(False)})
    sync_ = {'op': 'incr', 'delete': True, 'from': None, 'uri': 'default', 'dry': False}
    pre = draw(st.lists(put, min_size=draw(st.sampled_from([0, 1, 1, 2])), max_size=4))
    ops = draw(st.lists(op, min_size=1, max_size=12))
    if draw(st.integers(0, 3)):
        ops = [{'op': 'base', 'delete': True}] + ops
    if draw(st.integers(0, 3)):
        at = draw(st.integers(1, len(ops)))
        ops = ops[:at] + [draw(put), draw(sync)] + ops[at:]
    if draw(st.integers(0, 5)) == 0:
        # two resources created at one time, seen, and deleted
        p, q = draw(st.permutations(range(5)))[:2]
        ops += [{'op': 'del', 'p': p, 'dt': 1}, {'op': 'del', 'p': q, 'dt': 1}, {'op': 'base', 'delete': True},
                {'op': 'put', 'p': p, 'dt': 60, 'early': 0}, {'op': 'put', 'p': q, 'dt': 0, 'early': 0}, sync_, {'op': 'del', 'p': q, 'dt': 1},
                {'op': 'del', 'p': p, 'dt': 1}, sync_]
    return {'ops': pre + ops, 'passing': draw(st.integers(0, 5)) == 0, 'spec': draw(st.sampled_from(['1.0', '1.1', '1.1'])),
            'lastmod': draw(st.booleans()), 'mods': draw(st.booleans()),
            'limit': draw(st.sampled_from([None, None, 1, 2, 3])),
            'hashes': draw(st.sampled_from([[], [], ['md5'], ['sha-256', 'md5']])),
            'maps': draw(st.sampled_from([1, 1, 2])), 'name': draw(st.booleans()),
            'group': draw(st.sampled_from([False, False, 'path', 'last']))}


class Source(object):
    """The source, the lists it publishes, and what they say."""

    def __init__(self, case):
        self.case = case
        self.now = START
        self.files = {}       # path -> (data, ts)
        self.log = []         # all changes: {path, change, dt, ts}
        self.window = 0       # the default change list starts here
        self.version = 0
        self.web = env.FakeWeb().install()

    def uri(self, p):
        return (SECOND if self.case['maps'] == 2 and p.startswith('d/') else BASE) + '/' + p.replace(' ', '%20')

    def put(self, p, dt, early):
        self.now = round(self.now + dt, 6)
        self.version += 1
        data = b'v' * self.version
        ch = 'updated' if p in self.files else 'created'
        ts = round(self.now - early, 6)
        self.files[p] = (data, ts)
        self.log.append({'p': p, 'change': ch, 'dt': self.now, 'ts': ts})

    def delete(self, p, dt):
        if p not in self.files:
            return False
        self.now = round(self.now + dt, 6)
        del self.files[p]
        self.log.append({'p': p, 'change': 'deleted', 'dt': self.now, 'ts': None})
        return True

    def rotate(self, keep):
        self.window = max(0, len(self.log) - keep)

    def change_times(self, c):
        """(datetime, lastmod) of an entry of a change list, as numbers or None."""
        if self.case['spec'] == '1.0':
            return None, c['dt']
        if self.case['lastmod'] and c['ts'] is not None:
            return c['dt'], c['ts']
        return c['dt'], None

    def publish(self):
        w = self.web
        w.pages.clear()
        kinds = self.case['hashes']
        entries = []
        from rsverif.sync import hash_att
        for p, (data, ts) in self.files.items():
            w.pages[self.uri(p)] = data
            e = {'uri': self.uri(p), 'lastmod': gen.w3c(ts), 'length': len(data)}
            if kinds:
                e['hash'] = hash_att(data, kinds)
            entries.append(e)
        docs = split_document('resourcelist', entries, self.list_uri, self.case['limit'])
        for uri, changes in ((BASE + '/changelist.xml', self.log[self.window:]), (BASE + '/all.xml', self.log)):
            entries = []
            # Not all sources order entries by time: those of each resource may come together
            if self.case['group'] == 'path':
                changes = sorted(changes, key=lambda c: c['p'])
            elif self.case['group'] == 'last' and changes:
                first = changes[0]['p']
                changes = sorted(changes, key=lambda c: c['p'] == first)
            for c in changes:
                dt, ts = self.change_times(c)
                e = {'uri': self.uri(c['p']), 'change': c['change']}
                if dt is not None:
                    e['datetime'] = gen.w3c(dt)
                if ts is not None:
                    e['lastmod'] = gen.w3c(ts)
                entries.append(e)
            if self.case['passing'] and changes:
                # a resource that came and went, and could not be mapped
                at = {'datetime' if self.case['spec'] != '1.0' else 'lastmod': gen.w3c(max(c['dt'] for c in changes))}
                entries = [dict(at, uri='http://sub.h.example/no', change=c) for c in ('created', 'deleted')] + entries
            docs.update(split_document('changelist', entries, uri, self.case['limit']))
        docs[BASE + '/untimed.xml'] = document('changelist', [
            {'uri': BASE + '/a', 'change': 'updated', 'datetime': gen.w3c(self.now)},
            {'uri': BASE + '/untimed', 'change': 'deleted'}])
        w.pages.update(docs)
        self.docs = set(docs)

    @property
    def list_uri(self):
        return BASE + ('/named.xml' if self.case['name'] else '/resourcelist.xml')

    def fetched(self):
        out = sorted(u for m, u in self.web.log if u in self.web.pages and u not in self.docs)
        return out


def run(case, ctx):
    from resync.client import Client
    from resync.client_state import ClientState
    top = ctx.dir
    src = Source(case)
    local = {}            # path -> (data, mtime or None when not known)
    state = None
    clean = False         # nothing has happened that lets a source change escape
    synced = incremental = 0

    def path(p):
        return os.path.join(top, 'out2' if src.uri(p).startswith(SECOND) else 'out', src.uri(p).split('/', 4)[4])

    def real():
        out = {}
        for d, prefix in (('out', BASE), ('out2', SECOND)):
            for q, data in tree(os.path.join(top, d)).items():
                out[prefix + '/' + q] = data
        return out

    def client(dry=False):
        c = Client(hashes=case['hashes'], dryrun=dry, spec_version=case['spec'])
        maps = ['%s=%s' % (BASE, os.path.join(top, 'out'))]
        if case['maps'] == 2:
            maps.append('%s=%s' % (SECOND, os.path.join(top, 'out2')))
        c.set_mappings(maps)
        if case['name']:
            c.sitemap_name = src.list_uri
        return c

    os.makedirs(os.path.join(top, 'out'))
    for n, op in enumerate(case['ops'] + [{'op': 'base', 'delete': True, 'end': True}]):
        k = op['op']
        where = 'operation %d %s' % (n, k)
        if k == 'put':
            src.put(PATHS[op['p']], op['dt'], op['early'])
            continue
        if k == 'del':
            src.delete(PATHS[op['p']], op['dt'])
            continue
        if k == 'rotate':
            src.rotate(op['keep'])
            clean = False
            continue
        if k == 'lose':
            if local.pop(PATHS[op['p']], None) is not None:
                os.unlink(path(PATHS[op['p']]))
            clean = False
            continue
        if k == 'stray':
            p = 'stray%d' % op['p']
            local[p] = (b'stray', 1000)
            write_file(path(p), b'stray', 1000)
            clean = False
            continue
        src.publish()
        del src.web.log[:]
        c = client(dry=op.get('dry', False))
        before = tree(top, times=True)
        old_local = dict(local)
        want_fetch = []
        if k == 'base':
            o = call(c.baseline_or_audit, allow_deletion=op['delete'])
            if not src.files:
                ctx.expect(o.error is not None, where + ': empty list accepted')
                ctx.equal(tree(top, times=True), before, where + ': after refusing an empty list')
                continue
            ctx.expect(o.error is None, where + ' failed', error=str(o.error))
            last = 0
            for p, (data, ts) in src.files.items():
                have = local.get(p)
                if have is None or len(have[0]) != len(data) or have[1] is None or abs(have[1] - ts) >= 1:
                    want_fetch.append(src.uri(p))
                    local[p] = (data, int(ts))
                    last = max(last, ts)
            if op['delete']:
                for p in [p for p in local if p not in src.files]:
                    del local[p]
            if last > 0:
                state = last
            clean = op['delete']
            synced += 1
            if op['delete']:
                ctx.equal(real(), {src.uri(p): data for p, (data, ts) in src.files.items()},
                          where + ': destination, which must equal the source')
        else:
            kw = {}
            start = state
            if op['from'] == 'bad':
                kw['from_datetime'] = '2013-01-01T00:00:00'
            elif op['from'] == 'start':
                kw['from_datetime'] = '2011-01-01'
                start = 1293840000
            elif op['from'] == 'epoch':
                kw['from_datetime'] = '1970-01-01T00:00:00Z'
                start = 0
            elif op['from'] is not None:
                start = src.log[-1 - op['from'] % len(src.log)]['dt'] if src.log else START
                kw['from_datetime'] = gen.w3c(start)
            changes = src.log[src.window:]
            if op['uri'] == 'all':
                kw['change_list_uri'] = BASE + '/all.xml'
                changes = src.log
            elif op['uri'] == 'relative':
                kw['change_list_uri'] = 'all.xml'
                changes = src.log
            elif op['uri'] == 'untimed':
                kw['change_list_uri'] = BASE + '/untimed.xml'
            listed = src.web.pages[BASE + {'default': '/changelist.xml', 'untimed': '/untimed.xml'}.get(op['uri'], '/all.xml')]
            too_many = op.get('single') and b'<sitemapindex' in listed
            c.allow_multifile = not op.get('single')
            refuse = op['from'] == 'bad' or start is None or op['uri'] == 'untimed' or too_many
            ctx.label('index not allowed', bool(too_many))
            try:
                o = call(c.incremental, allow_deletion=op['delete'], **kw)
                failed = o.error
            except Exception as e:
                if not refuse:
                    raise
                failed = e
            if refuse:
                ctx.label('refused')
                ctx.expect(failed is not None, where + ': accepted without a usable time', op=op)
                ctx.equal(tree(top, times=True), before, where + ': after refusing')
                ctx.equal(src.fetched(), [], where + ': fetched when refusing')
                continue
            ctx.expect(failed is None, where + ' failed', error=str(failed))
            times = [src.change_times(x) for x in changes]
            seen = {}
            for x, (dt, ts) in zip(changes, times):
                t = ts if case['spec'] == '1.0' else dt
                if t >= start:
                    seen.setdefault(x['p'], []).append((x, ts))
            plan = []
            for p, xs in seen.items():
                if xs[-1][0]['change'] == 'deleted' and xs[0][0]['change'] == 'created' and p not in local:
                    continue
                plan.append(xs[-1])
            kinds = [x['change'] for x, ts in plan]
            nums = {y: kinds.count(y) for y in ('created', 'updated', 'deleted')}
            act = bool(nums['created'] + nums['updated'] or (nums['deleted'] and op['delete']))
            ctx.expect(o.status, where + ': no status')
            ctx.equal(o.status[0][1], nums, where + ': changes reported')
            if not plan:
                ctx.equal(o.status[0][0], 'NO CHANGES', where + ': status')
            ctx.label('incremental with changes', act)
            incremental += act and not op['dry']
            if act and not op['dry']:
                last = max(dt if dt is not None else ts for dt, ts in times)
                gone = 0
                for x, ts in plan:
                    if ts is not None:
                        last = max(last, ts)
                    p = x['p']
                    if x['change'] == 'deleted':
                        if op['delete']:
                            gone += local.pop(p, None) is not None
                    else:
                        want_fetch.append(src.uri(p))
                        local[p] = (src.files[p][0], int(ts) if ts is not None else None)
                new = last
                done = o.status[-1]
                ctx.equal(len(o.status), 2, where + ': number of status reports')
                ctx.equal(done[0], 'PART APPLIED' if gone < nums['deleted'] else 'CHANGES APPLIED',
                          where + ': status at the end')
                ctx.equal((done[1]['created'], done[1]['updated']), (nums['created'], nums['updated']),
                          where + ': numbers applied')
                # only what came after the previous state and was seen this time is sure to be in step
                if not op['delete'] and nums['deleted']:
                    clean = False
                if state is not None and start > state:
                    clean = False
                state = new
                synced += 1
            if act and op['dry']:
                ctx.equal((o.status[-1][1]['created'], o.status[-1][1]['updated']), (0, 0), where + ': numbers applied in a dry run')
            if act or plan:
                ctx.expect(o.status[0][0] not in ('CHANGES APPLIED', 'NO CHANGES'), where + ': status before applying', status=o.status)
            if clean and not op['dry'] and op['delete'] and (op['from'] is None or start <= state):
                ctx.label('in step')
                ctx.equal(real(), {src.uri(p): data for p, (data, ts) in src.files.items()},
                          where + ': destination, which must equal the source')
        if op.get('dry'):
            ctx.equal(tree(top, times=True), before, where + ': after a dry run')
        ctx.equal(real(), {src.uri(p): data for p, (data, ts) in local.items()}, where + ': destination')
        for p, (data, mt) in local.items():
            got = os.stat(path(p)).st_mtime
            if mt is not None:
                ctx.expect(abs(got - mt) < 1, where + ': time of file', path=p, got=got, want=mt)
            if old_local.get(p) == local[p] and src.uri(p) not in want_fetch:
                q = os.path.relpath(path(p), top)
                ctx.equal(os.stat(path(p)).st_mtime_ns, before[q][1], where + ': file not to be changed ' + p)
        ctx.equal(src.fetched(), sorted(want_fetch), where + ': resources fetched')
        got = ClientState().get_state(client().sitemap)
        ctx.expect(gen.same_time(got, state), where + ': stored time', got=got, want=state)
    ctx.nontrivial(synced >= 2 and incremental >= 1)


# --- resources that give way to others below them

@st.composite
def turns(draw):
    n = draw(st.integers(1, 3))
    ops = []
    for i in range(n):
        steps = draw(st.lists(st.sampled_from(['put', 'del']), max_size=3)) + ['put']
        ops += [(x, i) for x in steps]
        ops += draw(st.sampled_from([[], [('base', 0)], [('base', 0)], [('incr', 0)]]))
        ops += [('del', i)] + draw(st.sampled_from([[], [], [('incr', 0)], [('incr', 0)]]))
        ops += [(x, 10 + i) for x in ['put'] + draw(st.lists(st.sampled_from(['put', 'del']), max_size=2))]
        ops += draw(st.sampled_from([[], [], [('incr', 0)]]))
    return {'ops': [('put', 5), ('base', 0)] + ops + [('put', 5), ('incr', 0), ('incr', 1)], 'spec': draw(st.sampled_from(['1.0', '1.1'])),
            'from': draw(st.sampled_from([None, '2011-01-01'])), 'dt': draw(st.sampled_from([0, 1, 60]))}


def run_turns(case, ctx):
    """A file that is deleted, after which there are files below its name: changes must be applied in order."""
    from resync.client import Client
    src = Source({'spec': case['spec'], 'lastmod': True, 'hashes': [], 'limit': None, 'passing': False, 'maps': 1, 'name': False,
                  'group': False})
    names = {0: 'a', 1: 'b', 2: 'b.d', 5: 'other', 10: 'a/x', 11: 'b/y/z', 12: 'b.d/a'}
    out = os.path.join(ctx.dir, 'out')
    os.makedirs(out)
    ways = set()
    for n, (k, i) in enumerate(case['ops']):
        if k == 'put':
            src.put(names[i], case['dt'], 0)
        elif k == 'del':
            src.delete(names[i], case['dt'])
        else:
            src.publish()
            c = Client(spec_version=case['spec'])
            c.set_mappings([BASE, out])
            had = tree(out)
            if k == 'base':
                # files in the way of directories are left to the incrementals
                if any(p.startswith(q + '/') for p in src.files for q in had):
                    continue
                o = call(c.baseline_or_audit, allow_deletion=True)
            else:
                start = case['from'] if i == 0 else None
                o = call(c.incremental, allow_deletion=True, **({'from_datetime': start} if start else {}))
                ways.update(p for p in src.files for q in had if p.startswith(q + '/'))
            ctx.expect(o.error is None, 'operation %d %s failed' % (n, k), error=str(o.error))
            ctx.equal(tree(out), {src.uri(p)[len(BASE) + 1:]: data for p, (data, ts) in src.files.items()},
                      'destination after operation %d %s, which must equal the source' % (n, k))
    ctx.nontrivial(len(ways) > 0)


@st.composite
def shared(draw):
    op = st.one_of(
        st.tuples(st.just('put'), st.integers(0, 1), st.integers(0, 2)),
        st.tuples(st.just('put'), st.integers(0, 1), st.integers(0, 2)),
        st.tuples(st.just('del'), st.integers(0, 1), st.integers(0, 2)),
        st.tuples(st.just('base'), st.integers(0, 1), st.booleans()),
        st.tuples(st.just('incr'), st.integers(0, 1), st.booleans()),
        st.tuples(st.just('incr'), st.integers(0, 1), st.just(False)))
    pre = [['put', 0, 0], ['put', 1, 1], ['base', 0, False], ['base', 1, False]]
    return {'ops': pre[:draw(st.sampled_from([2, 3, 4, 4]))] + [list(x) for x in draw(st.lists(op, min_size=2, max_size=10))],
            'from': draw(st.sampled_from([0, 0, 0, 1])), 'old': draw(st.integers(0, 1)), 'gap': draw(st.sampled_from([0, 86400, 86400 * 1000])),
            'named': draw(st.booleans())}


def run_shared(case, ctx):
    """One client object used for several sources, one run after another."""
    from resync.client import Client
    from resync.client_state import ClientState
    web = env.FakeWeb().install()
    bases = ['http://a.example/x', 'http://b.example/y']
    outs = [os.path.join(ctx.dir, 'a'), os.path.join(ctx.dir, 'b')]
    for p in outs:
        os.makedirs(p)
    files, logs, have, state = [{}, {}], [[], []], [{}, {}], [None, None]
    now = [START, START]
    now[case['old']] -= case['gap']
    c = Client()
    used, version = [], 0
    for n, (k, i, x) in enumerate(case['ops']):
        where = 'operation %d %s' % (n, [k, i, x])
        if k == 'put':
            version += 1
            now[i] += 10
            name = 'f%d' % x
            logs[i].append((name, 'updated' if name in files[i] else 'created', now[i]))
            files[i][name] = (b'v' * version, now[i])
            continue
        if k == 'del':
            name = 'f%d' % x
            if name in files[i]:
                now[i] += 10
                del files[i][name]
                logs[i].append((name, 'deleted', now[i]))
            continue
        web.pages.clear()
        for b, fs, lg in zip(bases, files, logs):
            for name, (data, ts) in fs.items():
                web.pages[b + '/' + name] = data
            web.pages[b + '/resourcelist.xml'] = document('resourcelist', [
                {'uri': b + '/' + name, 'lastmod': gen.w3c(ts), 'length': len(data)} for name, (data, ts) in sorted(fs.items())])
            web.pages[b + '/changelist.xml'] = document('changelist', [
                dict({'uri': b + '/' + name, 'change': ch, 'datetime': gen.w3c(t)}, **({} if ch == 'deleted' else {'lastmod': gen.w3c(t)}))
                for name, ch, t in lg])
        c.set_mappings([bases[i], outs[i]])
        c.sitemap_name = bases[i] + '/resourcelist.xml' if case['named'] else None
        c.dryrun = x
        other = tree(outs[1 - i], times=True)
        if k == 'base':
            o = call(c.baseline_or_audit, allow_deletion=True)
            if not files[i]:
                ctx.expect(o.error is not None, where + ': accepted an empty list')
                continue
            get = [ts for name, (data, ts) in files[i].items() if have[i].get(name) != (data, ts)]
            stored = max(get) if get and not x else state[i]
            done = dict(files[i])
        else:
            start = state[i]
            kw = {}
            if case['from']:
                start = logs[i][0][2] if logs[i] else START
                kw['from_datetime'] = gen.w3c(start)
            o = call(c.incremental, allow_deletion=True, **kw)
            if start is None:
                ctx.expect(o.error is not None, where + ': accepted without a time')
                continue
            last = {}
            for name, ch, t in logs[i]:
                if t >= start:
                    last[name] = last.get(name, ()) + (ch,)
            done = dict(have[i])
            todo = 0
            for name, chs in last.items():
                if chs[-1] == 'deleted':
                    if chs[0] == 'created' and name not in have[i]:
                        continue
                    done.pop(name, None)
                else:
                    done[name] = files[i][name]
                todo += 1
            stored = logs[i][-1][2] if todo and not x else state[i]
        ctx.expect(o.error is None, where + ' failed', error=str(o.error))
        if not x:
            have[i] = done
            state[i] = stored
            used.append((k, i))
        ctx.equal(tree(outs[i]), {name: data for name, (data, ts) in have[i].items()}, where + ': destination')
        ctx.equal(tree(outs[1 - i], times=True), other, where + ': destination of the other source')
        for j in (0, 1):
            got = ClientState().get_state(bases[j] + '/resourcelist.xml')
            ctx.expect(got == state[j] or (got is not None and state[j] is not None and gen.same_time(got, state[j])),
                       where + ': stored time of source %d' % j, got=got, want=state[j])
    ctx.nontrivial(len(set(i for k, i in used)) == 2 and any(k == 'incr' for k, i in used))


CHECKS = [Check('histories', histories, run, quick=500, thorough=10000, shards=7, thorough_shards=7),
          Check('turns', turns, run_turns, quick=150, thorough=2000),
          Check('shared', shared, run_shared, quick=250, thorough=4000)]

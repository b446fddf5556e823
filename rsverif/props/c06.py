"""C06: baseline synchronization."""

import os
import shutil

from hypothesis import strategies as st

from rsverif import env, gen
from rsverif.core import Check
from rsverif.sync import World, call, document, hash_att, tree, worlds, write_file

RULE = ("a generated source and an earlier destination with files that are the same, changed in every detectable way, "
        "missing and extra, one to three mappings, http and local sources, lists split or not; non-trivial: at least "
        "two of created, updated, deleted and unchanged are non-empty; histories of up to 5 synchronizations in one "
        "process with changes of the source and of the destination (files and directories removed, edited, added) between, "
        "non-trivial: at least two that had something to do")
ASSUMPTIONS = ["where a path is a file on one side and a directory on the other, an error is enough", "mappings do not overlap",
               "differences between source and destination show in length, time or a hash that is compared",
               "names are valid in URLs as they stand"]


def run(case, ctx):
    w = World(case, ctx)
    exp = w.expect()
    counts = w.counts(exp)
    ctx.nontrivial(sum(1 for v in counts.values() if v) >= 2)
    for k in counts:
        ctx.label(k, counts[k] > 0)
    ctx.label(case['src'])
    ctx.label('delete', case['delete'])
    before = {d: tree(os.path.join(w.top, d), times=True) for d in case['dsts']}
    o = call(w.client().baseline_or_audit, allow_deletion=case['delete'])
    if not any(f['src'] for f in case['files']):
        ctx.label('empty source')
        ctx.expect(o.error is not None, 'empty source list accepted')
        ctx.equal({d: tree(os.path.join(w.top, d), times=True) for d in case['dsts']}, before,
                  'destination after refusing an empty list')
        return
    ctx.expect(o.error is None, 'synchronization failed', error=str(o.error))
    # What is on disk
    want = {d: {} for d in case['dsts']}
    fetched = [f['path'] for f in exp['created'] + exp['updated']]
    for f in case['files']:
        d = case['dsts'][f['map']]
        if f in exp['created'] or f in exp['updated']:
            want[d][f['path']] = gen.content_bytes(f['src']['data'])
        elif f in exp['same'] or (f['src'] is None and f['dst'] is not None and not case['delete']):
            want[d][f['path']] = gen.content_bytes(f['dst']['data'])
    for d in case['dsts']:
        got = tree(os.path.join(w.top, d))
        ctx.equal(sorted(got), sorted(want[d]), 'files in ' + d)
        for p in got:
            ctx.equal(got[p], want[d][p], 'content of %s in %s' % (p, d))
    for f in case['files']:
        p = w.path(f)
        if f in exp['created'] or f in exp['updated']:
            if f['src']['ts'] is not None:
                ctx.expect(abs(os.stat(p).st_mtime - f['src']['ts']) < 1, 'time of updated file', path=f['path'],
                           got=os.stat(p).st_mtime, want=f['src']['ts'])
        elif os.path.exists(p):
            ctx.expect(gen.same_time(os.stat(p).st_mtime, f['dst']['ts']), 'time of file left alone', path=f['path'])
    ctx.equal(tree(os.path.join(w.top, 'other')), {'keep': b'keep'}, 'files elsewhere')
    # What was fetched
    if case['src'] == 'http':
        ctx.equal(sorted(w.fetched()), sorted(w.uri(f) for f in exp['created'] + exp['updated']), 'resources fetched')
    # What was reported
    ctx.expect(o.status, 'no status reported')
    words, nums = o.status[0]
    ctx.equal(nums, counts, 'numbers before synchronization')
    changed = counts['created'] + counts['updated'] + counts['deleted']
    ctx.equal(words, 'NOT IN SYNC' if changed else 'IN SYNC', 'status before synchronization')
    ctx.equal(len(o.status), 2 if changed else 1, 'number of status reports')
    if changed:
        words, nums = o.status[-1]
        ctx.equal(nums, counts, 'numbers after synchronization')
        part = counts['deleted'] and not case['delete']
        ctx.equal(words, 'PART SYNCED' if part else 'SYNCED', 'status after synchronization')
    # Again, and an audit
    if any(f['src'] and f['src']['ts'] is None for f in case['files']):
        return
    before = {d: tree(os.path.join(w.top, d), times=True) for d in case['dsts']}
    left = 0 if case['delete'] else counts['deleted']
    total = counts['created'] + counts['updated'] + counts['same']
    for audit in (True, False):
        del w.web.log[:]
        o = call(w.client().baseline_or_audit, allow_deletion=case['delete'], audit_only=audit)
        ctx.expect(o.error is None, 'second synchronization failed', error=str(o.error))
        ctx.equal(o.status[0], ('NOT IN SYNC' if left else 'IN SYNC',
                                {'same': total, 'created': 0, 'updated': 0, 'deleted': left}),
                  'status of second %s' % ('audit' if audit else 'synchronization'))
        ctx.equal(w.fetched(), [], 'resources fetched again')
        ctx.equal({d: tree(os.path.join(w.top, d), times=True) for d in case['dsts']}, before,
                  'destination after second synchronization')


# --- several synchronizations in one process

@st.composite
def histories(draw):
    paths = draw(gen.file_paths(min_size=2, max_size=6, names=st.text('ab', min_size=1, max_size=1)))
    if not any('/' in p for p in paths):
        paths = ['d/' + p for p in paths]
    n = len(paths)
    local = st.one_of(st.tuples(st.sampled_from(['remove', 'edit', 'touch', 'grow', 'empty']), st.integers(0, n - 1)),
                      st.tuples(st.sampled_from(['rmdir', 'rmdir', 'extra', 'mkdir', 'all']), st.integers(0, n - 1)))
    rounds = draw(st.lists(st.fixed_dictionaries({
        'source': st.lists(st.tuples(st.integers(0, n - 1), st.sampled_from(['set', 'set', 'edit', 'drop', 'new time'])), max_size=5),
        'local': st.lists(local, max_size=3), 'delete': st.booleans(), 'dryrun': st.sampled_from([False] * 5 + [True])}),
        min_size=2, max_size=5))
    return {'paths': paths, 'rounds': rounds, 'hashes': draw(st.sampled_from([[], ['md5'], ['md5', 'sha-256']])),
            'rel': draw(st.booleans()), 'how': draw(st.sampled_from(['http', 'http', 'file'])),
            'given': draw(st.sampled_from([[], ['md5'], ['sha-1', 'sha-256']]))}


def run_history(case, ctx):
    from resync.client import Client
    top = ctx.dir
    src = 'http://h.example/x' if case['how'] == 'http' else os.path.join(top, 'src')
    out = os.path.join(top, 'out')
    dst = 'out' if case['rel'] else out
    web = env.FakeWeb().install()
    source = {}     # path: (content, time)
    disk = {}       # path: (content, time) of the destination
    clock = 1200000000
    busy = 0
    for number, r in enumerate(case['rounds']):
        what = ' in round %d' % number
        for i, how in r['source'] + ([[0, 'set']] if number == 0 else []):
            p = case['paths'][i]
            clock += 10
            if how == 'drop':
                source.pop(p, None)
            elif how == 'new time' and p in source:
                source[p] = (source[p][0], clock)
            elif how == 'set' and p in source:
                pass
            else:
                source[p] = (('%d %s' % (clock, 'x' * (clock // 10 % 7))).encode(), clock)
        if not source:
            source[case['paths'][0]] = (b'last', clock)
        pages = {src + '/' + p: d for p, (d, t) in source.items()}
        entries = []
        for p, (d, t) in sorted(source.items()):
            e = {'uri': src + '/' + p, 'lastmod': gen.w3c(t), 'length': len(d)}
            if case['given']:
                e['hash'] = hash_att(d, case['given'])
            entries.append(e)
        if case['how'] == 'http':
            web.pages.clear()
            web.pages.update(pages)
            web.pages[src + '/resourcelist.xml'] = document('resourcelist', entries)
        else:
            shutil.rmtree(src, ignore_errors=True)
            for u, d in pages.items():
                write_file(u, d)
            write_file(src + '/resourcelist.xml', document('resourcelist', entries))
        for how, i in r['local']:
            p = case['paths'][i]
            f = os.path.join(out, p)
            clock += 10
            if how == 'extra' and os.path.isdir(os.path.dirname(f)):
                p += '.own'
                write_file(f + '.own', b'own', clock)
                disk[p] = (b'own', clock)
            elif how == 'mkdir' and not os.path.lexists(os.path.dirname(f)):
                os.makedirs(os.path.dirname(f))
            elif how == 'all':
                shutil.rmtree(out, ignore_errors=True)
                disk.clear()
                ctx.label('destination removed', number > 0)
            elif how == 'rmdir':
                d = os.path.dirname(f)
                if os.path.isdir(d):
                    shutil.rmtree(d)
                    for q in list(disk):
                        if q.startswith(os.path.relpath(d, out) + '/') or d == out:
                            del disk[q]
                    ctx.label('directory removed', number > 0)
            elif p in disk:
                data, t = disk[p]
                if how == 'remove':
                    os.unlink(f)
                    del disk[p]
                    continue
                if how == 'edit':
                    data, t = data[:-1] + b'!', clock
                elif how == 'grow':
                    data += b'\n'
                elif how == 'empty':
                    data = b''
                else:
                    t += 3
                write_file(f, data, t)
                disk[p] = (data, t)
        # what is to happen
        created = [p for p in source if p not in disk]
        updated = [p for p in source if p in disk and (abs(disk[p][1] - source[p][1]) >= 1 or len(disk[p][0]) != len(source[p][0]) or
                                                       (set(case['hashes']) & set(case['given']) and disk[p][0] != source[p][0]))]
        deleted = [p for p in disk if p not in source]
        counts = {'same': len(source) - len(created) - len(updated), 'created': len(created), 'updated': len(updated),
                  'deleted': len(deleted)}
        c = Client(hashes=case['hashes'], dryrun=r['dryrun'])
        c.set_mappings([src, dst])
        del web.log[:]
        o = call(c.baseline_or_audit, allow_deletion=r['delete'])
        ctx.expect(o.error is None, 'synchronization failed' + what, error=str(o.error))
        ctx.equal(o.status[0][1], counts, 'numbers before' + what)
        if not r['dryrun']:
            for p in created + updated:
                disk[p] = source[p]
            if r['delete']:
                for p in deleted:
                    del disk[p]
        if case['how'] == 'http':
            ctx.equal(sorted(u for m, u in web.log if u in pages), sorted(src + '/' + p for p in created + updated)
                      if not r['dryrun'] else [], 'resources fetched' + what)
        got = tree(out)
        ctx.equal(sorted(got), sorted(disk), 'files' + what)
        for p in got:
            ctx.equal(got[p], disk[p][0], 'content of %s' % p + what)
            ctx.expect(abs(os.stat(os.path.join(out, p)).st_mtime - disk[p][1]) < 1, 'time of %s' % p + what)
        busy += 1 if created or updated or (deleted and r['delete']) else 0
    ctx.nontrivial(busy > 1)


# --- a file on one side where there is a directory on the other

@st.composite
def conflicts(draw):
    files = []
    for name in draw(st.lists(st.sampled_from(['a', 'b', 'c', 'd', 'e', 'f']), min_size=2, max_size=6, unique=True)):
        kind = draw(st.sampled_from(['source dir', 'source dir', 'local dir', 'local dir', 'new', 'extra', 'same', 'edited']))
        files.append({'name': name, 'kind': kind, 'below': draw(st.sampled_from(['x', 'x/y', 'x/y/z'])),
                      'also': draw(st.booleans())})
    return {'files': files, 'delete': draw(st.booleans()), 'ignore': draw(st.booleans()),
            'how': draw(st.sampled_from(['http', 'file'])), 'inc': draw(st.booleans()), 'reverse': draw(st.booleans())}


def run_conflicts(case, ctx):
    from resync.client import Client
    top = ctx.dir
    src = 'http://h.example/x' if case['how'] == 'http' else os.path.join(top, 'src')
    out = os.path.join(top, 'out')
    web = env.FakeWeb().install()
    source, disk, conflict = {}, {}, set()
    for f in case['files']:
        n, deep = f['name'], f['name'] + '/' + f['below']
        if f['kind'] == 'source dir':
            source[deep] = b'new ' + n.encode()
            disk[n] = b'file'
            conflict.update([n, deep])
            if f['also']:
                source[n + '/w'] = b'also'
                conflict.add(n + '/w')
        elif f['kind'] == 'local dir':
            source[n] = b'now a file'
            disk[deep] = b'below'
            conflict.update([n, deep])
        if f['kind'] in ('new', 'same', 'edited'):
            source[deep] = b'content ' + n.encode()
        if f['kind'] in ('extra', 'same'):
            disk[deep] = b'content ' + n.encode()
        elif f['kind'] == 'edited':
            disk[deep] = b'old'
    t = 1300000000
    for p, data in disk.items():
        write_file(os.path.join(out, p), data, t)
    write_file(os.path.join(top, 'other', 'keep'), b'keep', 1000)
    entries, pages = [], {}
    for i, p in enumerate(sorted(source, reverse=case['reverse'])):
        pages[src + '/' + p] = source[p]
        e = {'uri': src + '/' + p, 'lastmod': gen.w3c(t), 'length': len(source[p])}
        if case['inc']:
            e.update(change='updated' if p in disk else 'created', datetime=gen.w3c(t + i))
        entries.append(e)
    if case['inc']:
        for p in sorted(disk):
            if p not in source:
                t += 1
                entries.append({'uri': src + '/' + p, 'change': 'deleted', 'datetime': gen.w3c(t + 100)})
        pages[src + '/changelist.xml'] = document('changelist', entries)
    elif not entries:
        return
    else:
        pages[src + '/resourcelist.xml'] = document('resourcelist', entries)
    for u, data in pages.items():
        if case['how'] == 'http':
            web.pages[u] = data
        else:
            write_file(u, data)
    c = Client()
    c.set_mappings([src, out])
    c.ignore_failures = case['ignore']
    ctx.nontrivial(bool(conflict) and len(case['files']) > 1)
    ctx.label('conflict', bool(conflict))
    ctx.label('source dir', any(f['kind'] == 'source dir' for f in case['files']))
    ctx.label('local dir', any(f['kind'] == 'local dir' for f in case['files']))
    if case['inc']:
        o = call(c.incremental, allow_deletion=case['delete'], from_datetime='2001-01-01')
    else:
        o = call(c.baseline_or_audit, allow_deletion=case['delete'])
    got = tree(out)
    want = dict(source)
    if not case['delete']:
        want.update((p, d) for p, d in disk.items() if p not in source)
    if not conflict or not case['ignore']:
        # as the source has it, or else an error
        ctx.expect(conflict or o.error is None, 'failed without a conflict', error=str(o.error))
        if o.error is None:
            ctx.equal(got, want, 'destination after a synchronization without error')
            ctx.label('without error')
        else:
            ctx.label('error')
    else:
        ctx.expect(o.error is None, 'failed although failures are to be ignored', error=str(o.error))
        for p in list(source) + list(disk):
            if p not in conflict:
                ctx.equal(got.get(p), want.get(p), 'file without conflict: ' + p)
        done = [p for p in source if got.get(p) == source[p] and disk.get(p) != source[p]]
        if o.status and (len(o.status) > 1):
            ctx.equal(o.status[-1][1]['created'] + o.status[-1][1]['updated'],
                      len(done) + (sum(1 for p in source if disk.get(p) == source[p]) if case['inc'] else 0),
                      'number of resources fetched')
    for p in got:
        ctx.expect(got[p] in (source.get(p), disk.get(p)), 'content of a file from neither side', path=p, got=got[p])
    if not case['delete']:
        for p in disk:
            ctx.expect(p in got, 'removed without being asked to delete', path=p)
    for p in disk:
        if p not in conflict and source.get(p) == disk[p]:
            ctx.equal(got.get(p), disk[p], 'file that is the same: ' + p)
    ctx.equal(tree(os.path.join(top, 'other')), {'keep': b'keep'}, 'files elsewhere')


CHECKS = [Check('conflicts', conflicts, run_conflicts, quick=300, thorough=5000),
          Check('baseline', worlds, run, quick=500, thorough=8000, shards=5, thorough_shards=5),
          Check('histories', histories, run_history, quick=400, thorough=8000, shards=2, thorough_shards=2)]

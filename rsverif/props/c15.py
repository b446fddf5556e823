"""C15: hashes of content, and change detection by hash."""

import hashlib
import os

from hypothesis import strategies as st

from rsverif import env, gen
from rsverif.core import Check
from rsverif.sync import call, digests, document, hash_att, tree, write_file

RULE = ("contents of sizes around multiples of several block sizes hashed in every combination; lists of resources with "
        "any subset of hashes, right or wrong, whose copies differ in content but not in length and time, audited and "
        "synchronized with any subset of hashes; non-trivial: content of more than one block or several hash types, or a "
        "copy that differs in content alone")
ASSUMPTIONS = ["hashlib is right"]

TYPES = ['md5', 'sha-1', 'sha-256']
SUBSETS = [[], ['md5'], ['sha-1'], ['sha-256'], ['md5', 'sha-1'], ['md5', 'sha-256'], ['sha-1', 'sha-256'], TYPES]


@st.composite
def contents(draw):
    block = draw(st.sampled_from([None, None, 128, 256, 1024, 2 ** 14]))
    b = block or 2 ** 14
    n = draw(st.one_of(st.integers(0, 4).map(lambda k: k * b), st.tuples(st.integers(0, 3), st.integers(-3, 3)).map(
        lambda t: max(0, t[0] * b + t[1])), st.integers(0, 3 * b)))
    files = [[n, draw(st.integers(0, 255))]]
    if draw(st.booleans()):
        files.append([draw(st.integers(0, 300)), draw(st.integers(0, 255))])
    return {'files': files, 'block': block, 'types': draw(st.one_of(st.sampled_from(SUBSETS), st.permutations(TYPES))),
            'bad': draw(st.sampled_from([None] * 9 + ['sha1', 'SHA-1', 'sha-512', 'md-5', '', 'md5 ', 'sha256'])),
            'as': draw(st.sampled_from(['list', 'set', 'tuple'])), 'direct': draw(st.booleans()),
            'fill': draw(st.sampled_from([None, None, [0, 0, 3], [1, 0, 1], [1, 0, 3], [0, 0, 1], [1, 32, 1], [0, 10, 3],
                                          [1, 255, 1], [1, 10, 3]]))}


def data_of(n, seed):
    # no two blocks alike, whatever the size
    out = bytearray()
    h = hashlib.sha512(bytes([seed])).digest()
    while len(out) < n:
        out += h
        h = hashlib.sha512(h).digest()
    return bytes(out[:n])


def run_compute(case, ctx):
    from resync.hashes import Hashes
    from resync.resource import Resource
    types = {'list': list, 'set': set, 'tuple': tuple}[case['as']](case['types'])
    if case['bad'] is not None:
        ctx.label('unknown type')
        try:
            Hashes(list(case['types']) + [case['bad']])
        except Exception:
            return
        ctx.fail('unknown hash type accepted', type=case['bad'])
    h = None
    for n, seed in case['files']:
        data = data_of(n, seed)
        if case.get('fill') is not None:
            # whole blocks of one byte
            a, c, k = case['fill']
            b = case['block'] or 2 ** 14
            data = (data[:a * b] + bytes([c]) * (k * b) + data[(a + k) * b:])[:n]
        p = os.path.join(ctx.dir, 'file')
        write_file(p, data)
        if case['direct']:
            h = Hashes(types, p)
        else:
            h = h or Hashes(types)
            if case['block']:
                h.compute_for_file(p, case['block'])
            else:
                h.compute_for_file(p)
        want = digests(data, case['types'])
        ctx.nontrivial(n > (case['block'] or 2 ** 14) or len(want) > 1)
        got = {k: v for k, v in (('md5', h.md5), ('sha1', h.sha1), ('sha256', h.sha256)) if v is not None}
        ctx.equal(got, want, 'hashes of %d bytes' % n)
        r = Resource('http://h.example/a')
        h.set(r)
        ctx.equal({k: getattr(r, k) for k in ('md5', 'sha1', 'sha256') if getattr(r, k) is not None}, want, 'hashes set')
        ctx.equal(set((r.hash or '').split()), set(hash_att(data, case['types']).split()), 'hash of resource')


@st.composite
def lists(draw):
    kind = draw(st.sampled_from(['resource', 'change', 'base']))
    return {'kind': kind, 'given': draw(st.lists(st.sampled_from(SUBSETS), max_size=5)),
            'want': draw(st.sampled_from(SUBSETS)), 'pad': draw(st.sampled_from([0, 0, 0, 0, 120, 1100]))}


def run_lists(case, ctx):
    """hashes() of a list, and which hashes the client goes on with."""
    from resync.change_list import ChangeList
    from resync.client import Client
    from resync.list_base import ListBase
    from resync.resource import Resource
    from resync.resource_list import ResourceList
    lst = {'resource': ResourceList, 'change': ChangeList, 'base': ListBase}[case['kind']]()
    for i in range(case['pad']):
        lst.add(Resource('http://h.example/%06d' % i, change='updated'))
    for i, g in enumerate(case['given']):
        lst.add(Resource('http://h.example/a%d' % i, change='updated', **digests(b'x', g)))
    known = set(t for g in case['given'] for t in g)
    ctx.nontrivial(len(known) > 0)
    ctx.equal(set(lst.hashes()), known, 'types of hash in the list')
    c = Client(hashes=case['want'])
    c.prune_hashes(lst.hashes(), 'resource')
    ctx.equal(set(c.hashes), set(case['want']) & known, 'types of hash to be used')


@st.composite
def syncs(draw):
    files = []
    for i in range(draw(st.integers(1, 5))):
        given = draw(st.sampled_from(SUBSETS))
        files.append({'name': 'abcde'[i], 'given': given, 'size': draw(st.sampled_from([0, 1, 5, 16384, 16385, 40000])),
                      'length': draw(st.sampled_from([True, True, False])),
                      'copy': draw(st.sampled_from(['same', 'differs', 'differs', 'differs at end', 'emptied', 'longer', 'missing'])),
                      'wrong': draw(st.lists(st.sampled_from(given), max_size=2, unique=True)) if given and
                      draw(st.integers(0, 3)) == 0 else []})
    return {'files': files, 'use': draw(st.sampled_from(SUBSETS)), 'locked': draw(st.booleans()),
            'pad': draw(st.sampled_from([0] * 9 + [150])), 'inc': draw(st.integers(0, 3)) == 0, 'wrong_length': draw(st.integers(0, 5)) == 0}


def run_sync(case, ctx):
    from resync.client import Client
    top = ctx.dir
    web = env.FakeWeb().install()
    entries, content = [], {}
    provided = set(t for f in case['files'] for t in f['given'])
    use = set(case['use']) & provided
    want = {'same': 0, 'created': 0, 'updated': 0, 'deleted': 0}
    todo = set()
    t = 1234567890
    os.makedirs(os.path.join(top, 'out'))
    pad = 0 if case['inc'] or case['locked'] else case['pad']
    ctx.label('long list', pad > 0)
    for i in range(pad):
        entries.append({'uri': 'http://h.example/x/0/%03d' % i, 'lastmod': gen.w3c(t), 'length': 1})
        write_file(os.path.join(top, 'out', '0', '%03d' % i), b'p', t)
    want['same'] += pad
    for i, f in enumerate(case['files']):
        u = 'http://h.example/x/' + f['name']
        data = data_of(f['size'], i)
        content[f['name']] = data
        web.pages[u] = data
        d = digests(data, f['given'])
        for k in f['wrong']:
            d[k.replace('-', '')] = '0' * len(d[k.replace('-', '')])
        e = {'uri': u, 'lastmod': gen.w3c(t)}
        if f['length'] or (case['wrong_length'] and i == 0):
            e['length'] = len(data) + (3 if case['wrong_length'] and i == 0 and case['inc'] else 0)
        h = ' '.join('%s:%s' % (n, d[k]) for k, n in (('md5', 'md5'), ('sha1', 'sha-1'), ('sha256', 'sha-256')) if k in d)
        if h:
            e['hash'] = h
        if case['inc']:
            e.update(change='updated', datetime=gen.w3c(t))
            todo.add(u)
        entries.append(e)
        if f['copy'] == 'missing':
            want['created'] += 1
            todo.add(u)
            continue
        copy = data
        if f['copy'] == 'emptied':
            copy = b''
        elif f['copy'] == 'longer':
            copy = data + b'\n'
        elif not data:
            pass
        elif f['copy'] == 'differs':
            copy = bytes([data[0] ^ 1]) + data[1:]
        elif f['copy'] == 'differs at end':
            copy = data[:-1] + bytes([data[-1] ^ 1])
        write_file(os.path.join(top, 'out', f['name']), copy, t)
        compared = use & set(f['given'])
        seen = len(copy) != e.get('length', len(copy))
        if seen or compared & set(f['wrong']) or (compared and copy != data):
            want['updated'] += 1
            todo.add(u)
            ctx.nontrivial()
            ctx.label('differs by hash', not seen)
            ctx.label('differs by hash, empty', not seen and (copy == b'' or data == b''))
        else:
            want['same'] += 1
            ctx.label('differs, but not in a hash compared', copy != data)
    docs = {'http://h.example/x/resourcelist.xml': document('resourcelist', entries)}
    if case['inc']:
        docs = {'http://h.example/x/changelist.xml': document('changelist', entries)}
    web.pages.update(docs)

    def client():
        c = Client(hashes=case['use'])
        c.set_mappings(['http://h.example/x', os.path.join(top, 'out')])
        c.sitemap_name = 'http://h.example/x/resourcelist.xml'
        return c

    if not case['inc']:
        # Content is read only if there is something to compare with
        locked = case['locked'] and not use
        if locked and os.getuid() != 0:
            ctx.label('locked')
            for n in os.listdir(os.path.join(top, 'out')):
                os.chmod(os.path.join(top, 'out', n), 0)
        before = None if locked else tree(top, times=True)
        o = call(client().baseline_or_audit, audit_only=True)
        ctx.expect(o.error is None, 'audit failed', error=str(o.error))
        ctx.equal(o.status[0][1], want, 'numbers of the audit', use=sorted(use))
        if locked:
            for n in os.listdir(os.path.join(top, 'out')):
                os.chmod(os.path.join(top, 'out', n), 0o600)
        else:
            ctx.equal(tree(top, times=True), before, 'everything on disk after the audit')
    del web.log[:]
    if case['inc']:
        o = call(client().incremental, from_datetime='2001-01-01T00:00:00Z')
    else:
        o = call(client().baseline_or_audit)
    ctx.expect(o.error is None, 'synchronization failed', error=str(o.error))
    ctx.equal(sorted(u for m, u in web.log if u in web.pages and u not in docs), sorted(todo), 'resources fetched')
    for f in case['files']:
        if 'http://h.example/x/' + f['name'] in todo:
            with open(os.path.join(top, 'out', f['name']), 'rb') as fh:
                ctx.expect(fh.read() == content[f['name']], 'difference not repaired', name=f['name'])
    # What was fetched is checked against the hashes
    for f in case['files']:
        u = 'http://h.example/x/' + f['name']
        told = [m for m in o.messages if 'mismatch' in m and (u + ',') in m]
        bad = use & set(f['wrong']) if u in todo else set()
        ctx.equal(len(told), len(bad), 'number of mismatches reported for ' + f['name'], messages=told)
        for k in bad:
            ctx.expect(any(k.lower() in m.lower() and '0' * 32 in m for m in told), 'mismatch not reported', type=k, messages=told)
    if case['inc'] and case['wrong_length']:
        ctx.expect(any('does not match expected' in m for m in o.messages), 'wrong length not reported')
    elif not case['wrong_length']:
        ctx.expect(not any('does not match expected' in m for m in o.messages), 'wrong length reported')
    # and now all is in step, but for what was listed wrongly
    if not case['inc']:
        o = call(client().baseline_or_audit, audit_only=True)
        again = sum(1 for f in case['files'] if use & set(f['wrong']))
        ctx.equal(o.status[0][1], {'same': pad + len(case['files']) - again, 'created': 0, 'updated': again, 'deleted': 0},
                  'numbers of the audit after synchronization')


CHECKS = [Check('compute', contents, run_compute, quick=800, thorough=10000, shards=2, thorough_shards=2),
          Check('lists', lists, run_lists, quick=500, thorough=3000),
          Check('syncs', syncs, run_sync, quick=500, thorough=8000, shards=4, thorough_shards=4)]

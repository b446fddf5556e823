"""C25: what resync-build publishes, resync-sync synchronizes, over whole histories of a source and through mirrors."""

import os
import shlex

from hypothesis import strategies as st

from rsverif import env, gen
from rsverif.core import Check
from rsverif.props.c21 import Ran, norm, read_document
from rsverif.sync import DST_NAMES, NAME_CHARS, document, parse_status, tree, write_file

RULE = ("histories of a directory whose documents are written by the build tool and read by the synchronization tool; "
        "non-trivial: a synchronization after at least one edit of a source that has files")
ASSUMPTIONS = ["names of files can stand in a URI as they are, and never is a file where a directory was or the reverse",
               "change lists of the build tool have times of modification and not of changes, and for deletions that of the file, so "
               "they are read with --spec-version 1.0 and an explicit --from",
               "an edit changes the size or the time, unless both tools are told to compare hashes"]

DOCS = ['--exclude', r'(resourcelist|changelist|cap|sd).*\.xml$']
HOST = 'http://h.example'
OTHER = 'http://m.example/copy'


@st.composite
def histories(draw):
    name = st.one_of(st.text('abcd01', min_size=1, max_size=3), st.text(NAME_CHARS, min_size=1, max_size=6).filter(
        lambda s: s not in ('.', '..')))
    n = draw(st.sampled_from([1, 1, 1, 2, 2]))
    c = {'prefixes': draw(st.permutations(['/x', '/xy', '/d/e', '/%7Ea.b+c', '/x/y']))[:n],
         'dsts': draw(st.permutations(DST_NAMES))[:n], 'hashes': draw(st.sampled_from([[], [], ['md5'], ['sha-1', 'sha-256'], ['md5', 'sha-256']])),
         'max': draw(st.sampled_from([None, None, 1, 2, 3])), 'abs': draw(st.booleans()), 'slash': draw(st.booleans()),
         'local': draw(st.sampled_from([False, False, False, True])),
         'found': draw(st.sampled_from(['default', 'default', 'explicit', 'wellknown', 'capabilitylist'])),
         'mirror': draw(st.sampled_from([False, False, True])), 'files': [], 'rounds': []}
    if c['local']:
        c['found'] = draw(st.sampled_from(['default', 'explicit']))
    for i in range(n):
        for p in draw(gen.file_paths(min_size=1 if i == 0 else 0, max_size=6 if n == 1 else 3, names=name)):
            c['files'].append({'map': i, 'path': p})
    if len(set(c['prefixes'])) == 2 and '/x' in c['prefixes'] and '/x/y' in c['prefixes']:
        # which of the mappings a URI is for must not depend on the order
        c['prefixes'] = ['/x', '/xy']
    k = len(c['files'])
    step = st.integers(0, k - 1)
    for r in range(draw(st.sampled_from([2, 2, 3, 3, 1]))):
        x = {'edits': [], 'mode': draw(st.sampled_from(['baseline', 'changes', 'changes', 'newref'])) if r else 'baseline',
             'delete': draw(st.integers(0, 3)) > 0, 'dry': draw(st.sampled_from([False] * 4 + [True]))}
        for i in sorted(set(draw(st.lists(step, min_size=1, max_size=6 if r == 0 else 4)))):
            kind = draw(st.sampled_from(['put', 'put', 'put', 'touch', 'back', 'swap', 'del', 'move', 'copy']))
            data = draw(st.text('ab\n', max_size=5))
            if draw(st.integers(0, 29)) == 0:
                data = gen.big(draw(st.sampled_from([8192, 65536, 140000])))
            x['edits'].append([i, kind, data, draw(st.sampled_from([0, 0, 0, 0.5, 0.25, 0.75, 0.999999, 0.000001])), draw(step)])
        c['rounds'].append(x)
    return c


class Site(object):
    """A directory tree served by HTTP, kept up with the tools."""

    def __init__(self, case, ctx, web, base, dirs, name):
        self.case, self.ctx, self.web, self.base, self.dirs, self.name = case, ctx, web, base, dirs, name
        # a local source is known by its paths
        self.prefixes = [base + p for p in case['prefixes']] if base else list(dirs)
        self.served = set()

    def maps(self, dirs=None):
        dirs = dirs or self.dirs
        s = '/' if self.case['slash'] else ''
        if len(dirs) == 1 and not self.case['abs']:
            return [self.prefixes[0] + s, dirs[0] + s]
        return ['%s=%s' % (p + s, d + s) for p, d in zip(self.prefixes, dirs)]

    def serve(self):
        """What is on disk is on the web, and nothing else."""
        for u in self.served:
            self.web.pages.pop(u, None)
        self.served = set()
        if not self.base:
            return
        for p, d in zip(self.prefixes, self.dirs):
            for f, data in tree(d).items():
                u = p + '/' + f
                self.web.pages[u] = data
                self.served.add(u)
        wk = os.path.join('top', self.name, 'sd.xml')
        if os.path.exists(wk):
            u = '/'.join(self.base.split('/')[:3]) + '/.well-known/resourcesync'
            with open(wk, 'rb') as fh:
                self.web.pages[u] = fh.read()
            self.served.add(u)

    def build(self, args, maps=True, dirs=None):
        args = args + (self.maps(dirs) if maps else [])
        r = Ran('resync-build', args)
        what = ': resync-build ' + ' '.join(shlex.quote(a) for a in args)
        self.ctx.expect(not r.refused, 'failed' + what, stderr=r.err[-500:])
        return r, what

    @property
    def list_name(self):
        return 'list.d/resourcelist.xml' if self.case['found'] in ('explicit', 'wellknown', 'capabilitylist') else 'resourcelist.xml'

    def publish(self):
        """Resource list, and whatever leads to it, written by the tool."""
        c = self.case
        out = os.path.join(self.dirs[0], self.list_name)
        os.makedirs(os.path.dirname(out), exist_ok=True)
        for f in os.listdir(os.path.dirname(out)):
            if f.startswith('resourcelist'):
                os.unlink(os.path.join(os.path.dirname(out), f))
        args = ['--write-resourcelist', '--outfile', out] + DOCS
        for h in c['hashes']:
            args += ['--hash', h]
        if c['max']:
            args += ['--max-sitemap-entries', str(c['max'])]
        self.build(args)
        self.list_uri = self.prefixes[0] + '/' + self.list_name
        self.cap_uri = self.prefixes[0] + '/list.d/cap.xml'
        if c['found'] in ('wellknown', 'capabilitylist'):
            self.build(['--write-capabilitylist', 'resourcelist=%s' % self.list_uri,
                        '--outfile', os.path.join(self.dirs[0], 'list.d', 'cap.xml')], maps=False)
        if c['found'] == 'wellknown':
            os.makedirs(os.path.join('top', self.name), exist_ok=True)
            self.build(['--write-sourcedescription', self.cap_uri, '--outfile', os.path.join('top', self.name, 'sd.xml')], maps=False)
        self.serve()

    def sync(self, mode, dirs, more=()):
        c = self.case
        args = [mode] + list(more)
        if mode != '--incremental':
            if c['found'] == 'explicit':
                args += ['--sitemap', self.list_uri]
            elif c['found'] == 'capabilitylist':
                args += ['--capabilitylist', self.cap_uri]
        for h in c['hashes']:
            args += ['--hash', h]
        args += ['--noauth'] + self.maps(dirs)
        r = Ran('resync-sync', args)
        what = ': resync-sync ' + ' '.join(shlex.quote(a) for a in args)
        self.ctx.expect(not r.refused, 'failed' + what, stderr=r.err[-600:])
        r.status = parse_status(r.err.split('\n'))
        return r, what

    def listed(self, dirs):
        """Entries of a resource list built over directories, under the URIs of this site."""
        args = ['--write-resourcelist'] + DOCS
        for h in self.case['hashes']:
            args += ['--hash', h]
        r, what = self.build(args, dirs=dirs)
        out = norm(read_document(r.out.encode(), self.ctx)['entries'])
        for e in out:
            # copies have times in whole seconds
            e['lastmod'] = e['lastmod'][:19] + 'Z'
        return out


def is_doc(p):
    b = os.path.basename(p)
    return b.endswith('.xml') and b.startswith(('resourcelist', 'changelist', 'cap', 'sd'))


def state(dirs):
    """{(number of mapping, path): (content, time in whole seconds)}."""
    out = {}
    for i, d in enumerate(dirs):
        for p, x in tree(d, times=True).items():
            if x != 'dir' and not is_doc(p):
                out[(i, p)] = (x[0], x[1] // 10 ** 9)
    return out


def run(case, ctx):
    web = env.FakeWeb().install()
    top = ctx.dir
    n = len(case['prefixes'])
    srcs = [os.path.join('src', str(i)) for i in range(n)]
    dsts = [os.path.join('dst', d) for d in case['dsts']]
    if case['abs']:
        dsts = [os.path.join(top, d) for d in dsts]
    if case['local']:
        srcs = [os.path.join(top, d) for d in srcs]
    site = Site(case, ctx, web, None if case['local'] else HOST, srcs, 'src')
    for d in srcs:
        os.makedirs(d)
    files = [(f['map'], f['path']) for f in case['files'] if not is_doc(f['path'])]
    if not files:
        return
    clock = 1200000000
    listed = {}    # what the last resource list was made of
    for r, x in enumerate(case['rounds']):
        for i, kind, data, part, j in x['edits']:
            f = case['files'][i]
            key = (f['map'], f['path'])
            if key not in files:
                continue
            p = os.path.join(srcs[key[0]], key[1])
            clock += 1000
            old = state(srcs).get(key)
            data = gen.content_bytes(data)
            if kind == 'del':
                if old is None:
                    continue
                os.unlink(p)
            elif kind in ('move', 'copy') and old:
                # elsewhere with the same content and time
                g = case['files'][j]
                if (g['map'], g['path']) not in files or j == i:
                    continue
                q = os.path.join(srcs[g['map']], g['path'])
                write_file(q, old[0])
                os.utime(q, ns=(os.stat(p).st_mtime_ns,) * 2)
                if kind == 'move':
                    os.unlink(p)
            elif kind == 'touch' and old:
                os.utime(p, (clock, clock + part))
            elif kind == 'back' and old:
                # replaced by something older
                write_file(p, data, old[1] - 100000 + part)
            elif kind == 'swap' and old and old[0] and case['hashes']:
                # only the content tells
                t = os.stat(p).st_mtime_ns
                write_file(p, bytes([old[0][0] ^ 1]) + old[0][1:])
                os.utime(p, ns=(t, t))
            else:
                write_file(p, data, clock + part)
        want = state(srcs)
        if not want:
            # an empty list is not synchronized
            continue
        changed = [k for k in set(want) | set(listed) if want.get(k) != listed.get(k)]
        mode = x['mode'] if listed else 'baseline'
        if mode == 'baseline':
            site.publish()
        else:
            # against the list from before, which stays
            ref = os.path.join(srcs[0], site.list_name)
            args = ['--write-changelist', '--reference', ref, '--outfile', os.path.join(srcs[0], 'changelist.xml')] + DOCS
            if mode == 'newref':
                site2 = os.path.join(srcs[0], 'list.d', 'resourcelist-new.xml')
                os.makedirs(os.path.dirname(site2), exist_ok=True)
                a = ['--write-resourcelist', '--outfile', site2] + DOCS
                for h in case['hashes']:
                    a += ['--hash', h]
                if case['max']:
                    a += ['--max-sitemap-entries', str(case['max'])]
                site.build(a)
                args += ['--newreference', site2]
            for h in case['hashes']:
                args += ['--hash', h]
            if case['max']:
                args += ['--max-sitemap-entries', str(case['max'])]
            for f in os.listdir(srcs[0]):
                if f.startswith('changelist') and f.endswith('.xml'):
                    os.unlink(os.path.join(srcs[0], f))
            site.build(args)
            site.serve()
        have = state(dsts)
        delete = x['delete']
        more = ['--delete'] if delete else []
        if mode != 'baseline':
            more += ['--from', '1999-12-31', '--spec-version', '1.0']
        if x['dry']:
            before_files = tree(top, times=True)
            site.sync('--baseline' if mode == 'baseline' else '--incremental', dsts, more + ['--dryrun'])
            ctx.equal(tree(top, times=True), before_files, 'files after a dry run')
        s, what = site.sync('--baseline' if mode == 'baseline' else '--incremental', dsts, more)
        # a change list tells of the deletions since the last resource list only
        kept = {k: v for k, v in have.items() if k not in want and (not delete or mode != 'baseline' and k not in listed)}
        ctx.equal(state(dsts), {**want, **kept}, 'destination, round %d' % r + what)
        ctx.equal([p for d in dsts for p in tree(d) if is_doc(p)], [], 'documents copied' + what)
        if mode != 'baseline' and changed:
            nums = s.status[-1][1] if s.status else {}
            ctx.equal(sum(nums.get(k, 0) for k in ('created', 'updated', 'deleted')), len(changed), 'changes counted' + what)
        if mode != 'baseline':
            # the list is of the state from before: bring it up to date
            site.publish()
        a, what = site.sync('--audit', dsts)
        ctx.expect(a.status, 'no status' + what)
        words, nums = a.status[-1]
        ctx.equal((words, nums.get('same'), nums.get('deleted', 0)), ('NOT IN SYNC' if kept else 'IN SYNC', len(want), len(kept)),
                  'audit' + what, nums=nums)
        if not kept:
            ctx.equal(site.listed(dsts), site.listed(srcs), 'resource list of the destination')
        if case['mirror'] and want:
            # what was fetched is published in turn
            m = Site(case, ctx, web, OTHER, dsts, 'dst')
            m.publish()
            third = [os.path.join('third', d) for d in case['dsts']]
            s, what = m.sync('--baseline', third, ['--delete'])
            ctx.equal(state(third), state(dsts), 'mirror of the mirror' + what)
            for i, d in enumerate(dsts):
                for p in tree(d):
                    if is_doc(p):
                        os.unlink(os.path.join(d, p))
            if os.path.isdir(os.path.join(dsts[0], 'list.d')) and not os.listdir(os.path.join(dsts[0], 'list.d')):
                os.rmdir(os.path.join(dsts[0], 'list.d'))
            ctx.label('mirror')
        ctx.label(mode)
        if set(listed) - set(want):
            ctx.label('deletions')
        if case['max'] and len(want) > case['max']:
            ctx.label('several sitemaps')
        ctx.nontrivial(changed and listed)
        listed = want


CHECKS = [Check('pipeline', histories, run, quick=150, thorough=3000, shards=8, thorough_shards=8, case_seconds=40)]

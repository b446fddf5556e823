"""C16: the lists as collections, against a plain model over histories of operations."""

import itertools
import time

from hypothesis import strategies as st

from rsverif import gen
from rsverif.core import Check
from rsverif.props.c01 import new

RULE = ("histories of up to 14 operations on two lists of the same of 16 kinds, with all observations compared to a plain "
        "model after every operation; non-trivial: at least three operations, one of which meets a URI already there, "
        "prunes something or sets a link already set")
ASSUMPTIONS = ["lists are not changed while being iterated over",
               "an addition of several resources that is refused part-way may have added those before the refused one"]

# kind: (family, capability)
KINDS = {'ResourceList': ('dict', 'resourcelist'), 'ResourceListOrdered': ('ordered', 'resourcelist'),
         'ResourceDump': ('dict', 'resourcedump'), 'ResourceDumpManifest': ('dict', 'resourcedump-manifest'),
         'ChangeDump': ('dict', 'changedump'), 'SourceDescription': ('set', 'description'),
         'CapabilityList': ('caps', 'capabilitylist'), 'ChangeList': ('changes', 'changelist'),
         'ChangeDumpManifest': ('changes', 'changedump-manifest'), 'ResourceListArchive': ('list', 'resourcelist-archive'),
         'ChangeListArchive': ('list', 'changelist-archive'), 'ResourceDumpArchive': ('list', 'resourcedump-archive'),
         'ChangeDumpArchive': ('list', 'changedump-archive'), 'ListBase': ('list', 'unknown'),
         'ListBaseWithIndex': ('list', 'unknown'), 'ResourceContainer': ('list', None)}
ORDER = ['resourcelist', 'resourcedump', 'changelist', 'changedump', 'resourcelist-archive', 'resourcedump-archive',
         'changelist-archive', 'changedump-archive']
URIS = ['http://e/%s' % x for x in ('a', 'b', 'B', 'a/b', 'é', 'c?x', '', 'a%20b')]
MD = ['at', 'completed', 'from', 'until']
RELS = ['describedby', 'up', 'index', 'contents', 'duplicate']


@st.composite
def entries(draw, fam):
    r = {'uri': draw(st.sampled_from(URIS[:5] if draw(st.booleans()) else URIS))}
    if fam == 'changes' or (fam == 'list' and draw(st.booleans())):
        r['change'] = draw(st.sampled_from(['created', 'updated', 'deleted', 'created', 'deleted', None]
                                           if draw(st.integers(0, 3)) == 0 else ['created', 'updated', 'deleted']))
        if draw(st.integers(0, 9)):
            r['ts_datetime'] = draw(st.one_of(st.integers(0, 6), st.sampled_from([2.5, 3.000001, 2.999999])))
        if draw(st.booleans()):
            r['timestamp'] = draw(st.integers(0, 6))
    if fam == 'caps':
        r['capability'] = draw(st.sampled_from(ORDER + ORDER + ['x-new', 'a-new', 'resourcedump-manifest', None]))
    for k, s in (('md5', gen.MD5), ('sha1', gen.SHA1), ('sha256', gen.SHA256), ('length', st.integers(0, 9))):
        if draw(st.integers(0, 9)) == 0:
            r[k] = draw(s)
    return r


@st.composite
def ops(draw, kind):
    fam = KINDS[kind][0]
    names = ['add', 'add', 'add', 'add', 'add_many', 'md', 'ln', 'ln_prop', 'default']
    if fam in ('dict', 'ordered', 'set', 'caps'):
        names += ['replace', 'replace', 'replace_many']
    if fam in ('changes', 'list'):
        names += ['prune_dupes', 'add', 'add']
    if fam == 'changes':
        names += ['prune_before', 'prune_before', 'add_changed']
    if fam == 'caps':
        names += ['add_cap', 'add_cap', 'add_cap_object']
    if fam == 'set':
        names += ['add_clist', 'add_clist_object']
    op = draw(st.sampled_from(names))
    o = {'op': op, 'on': draw(st.sampled_from([0, 0, 0, 1]))}
    if op in ('add', 'replace'):
        o['r'] = draw(entries(fam))
        # to the container of the resources itself, where that does the same
        o['inner'] = fam in ('dict', 'ordered', 'set', 'caps') and draw(st.integers(0, 3)) == 0
    elif op in ('add_many', 'replace_many'):
        o['rs'] = draw(st.lists(entries(fam), max_size=4))
        o['as'] = draw(st.sampled_from(['list', 'tuple', 'iter', 'generator']))
    elif op == 'add_changed':
        o['rs'] = draw(st.lists(entries('changes'), max_size=3))
        o['change'] = draw(st.sampled_from(['created', 'updated', 'deleted', 'deleted', None]))
        o['as'] = draw(st.sampled_from(['list', 'ResourceList']))
    elif op == 'md':
        o['name'] = draw(st.sampled_from(MD + ['capability']))
        o['value'] = draw(st.one_of(gen.timestamps(), st.just('now'), gen.timestamps().map(gen.w3c)))
    elif op == 'ln':
        o['rel'] = draw(st.sampled_from(RELS))
        o['href'] = draw(st.sampled_from(URIS))
        o['atts'] = draw(st.dictionaries(st.sampled_from(['type', 'pri', 'length']), st.sampled_from([0, 1, 2, 3, '', 'x']), max_size=2))
    elif op == 'ln_prop':
        o['rel'] = draw(st.sampled_from(RELS[:3]))
        o['href'] = draw(st.sampled_from(URIS))
    elif op == 'prune_before':
        o['t'] = draw(st.one_of(st.integers(0, 7), st.sampled_from([2.5, 3.000001, 3.5])))
        o['spec'] = draw(st.sampled_from(['1.1', '1.1', '1.0', None]))
    elif op in ('add_cap', 'add_cap_object'):
        o['name'] = draw(st.sampled_from([k for k in sorted(KINDS) if KINDS[k][1]]))
        o['uri'] = draw(st.one_of(st.none(), st.sampled_from(URIS))) if op == 'add_cap_object' else draw(st.sampled_from(URIS))
        o['own'] = draw(st.one_of(st.none(), st.sampled_from(URIS)))
        if op == 'add_cap_object' and o['uri'] is None and o['own'] is None:
            o['own'] = URIS[0]
    elif op in ('add_clist', 'add_clist_object'):
        o['uri'] = draw(st.sampled_from(URIS))
        o['by'] = draw(st.one_of(st.none(), st.sampled_from(URIS)))
        o['up'] = draw(st.one_of(st.none(), st.sampled_from(URIS)))
    return o


@st.composite
def histories(draw):
    kind = draw(st.sampled_from(sorted(KINDS) + ['ResourceList', 'ResourceListOrdered', 'ChangeList', 'ChangeList',
                                                 'CapabilityList', 'SourceDescription']))
    # two independent batches: short histories and longer ones
    n = draw(st.sampled_from([3, 6, 10, 14]))
    given = None
    if draw(st.integers(0, 2)) == 0:
        given = {'rs': draw(st.lists(entries(KINDS[kind][0]).filter(
                     lambda d: KINDS[kind][0] != 'changes' or d.get('change') is not None), max_size=3,
                     unique_by=None if KINDS[kind][0] in ('changes', 'list') else lambda d: d['uri'])),
                 'md': draw(st.dictionaries(st.sampled_from(MD), gen.timestamps().map(gen.w3c), max_size=2)),
                 'ln': draw(st.lists(st.fixed_dictionaries({'rel': st.sampled_from(RELS), 'href': st.sampled_from(URIS)}),
                                     max_size=2, unique_by=lambda x: x['rel'])),
                 'uri': draw(st.sampled_from(URIS[:3])), 'cap': draw(st.integers(0, 3)) == 0}
    return {'kind': kind, 'given': given, 'ops': draw(st.lists(ops(kind), min_size=min(n, 4), max_size=n))}


class Model(object):
    """A list as a plain Python list of entries (id, dict)."""

    def __init__(self, kind):
        self.fam, self.cap = KINDS[kind]
        self.entries = []       # in order of addition; unique by URI unless a list
        self.md = {}
        self.ln = []

    def unique(self):
        return self.fam not in ('changes', 'list')

    def index(self, uri):
        for i, (o, d) in enumerate(self.entries):
            if d['uri'] == uri:
                return i
        return None

    def add(self, obj, d, replace=False):
        """True if accepted."""
        if self.fam == 'changes' and d.get('change') is None:
            return False
        if self.unique():
            i = self.index(d['uri'])
            if i is not None:
                if not replace:
                    return False
                self.entries[i] = (obj, d)
                return True
        self.entries.append((obj, d))
        return True

    def orders(self):
        """The admissible order, as a list of groups each of which may be permuted as a block."""
        e = self.entries
        if self.fam in ('dict', 'set'):
            return sorted(e, key=lambda x: x[1]['uri'])
        if self.fam == 'caps':
            def key(x):
                c = x[1].get('capability')
                return (ORDER.index(c) if c in ORDER else 99, '' if c in ORDER else repr(c), x[1]['uri'])
            return sorted(e, key=key)
        return list(e)


def ident(seq):
    return [id(x) for x in seq]


def observe(lst, m, ctx, what):
    """All observations of lst agree with the model."""
    want = [o for o, d in m.orders()]
    got = list(lst)
    if m.fam == 'caps':
        # capabilities outside the documented order: at the end, those of one kind together in order of URI
        known = [r for r in got if r.capability in ORDER]
        rest = got[len(known):]
        ctx.equal(got[:len(known)], known, 'documented capabilities first, ' + what)
        groups = [list(g) for k, g in itertools.groupby(rest, key=lambda r: r.capability)]
        ctx.expect(len(set(g[0].capability for g in groups)) == len(groups), 'capabilities not together, ' + what,
                   got=[r.capability for r in rest])
        got_n = known + [r for g in sorted(groups, key=lambda g: repr(g[0].capability)) for r in g]
    else:
        got_n = got
    ctx.equal(['%s %s' % (r.uri, r.change) for r in got_n], ['%s %s' % (r.uri, r.change) for r in want], 'entries, ' + what)
    ctx.equal(ident(got_n), ident(want), 'entries are those added, ' + what, uris=[r.uri for r in want])
    # the same again: simultaneous iterations are independent of each other
    ctx.equal([(id(a), id(b)) for a, b in zip(lst, lst)], [(i, i) for i in ident(got)], 'two iterations in step, ' + what)
    if len(want) < 6:
        ctx.equal([(id(a), id(b)) for a in lst for b in lst], [(a, b) for a in ident(got) for b in ident(got)],
                  'nested iterations, ' + what)
    it1 = iter(lst)
    first = next(it1, None)
    it2 = iter(lst)
    ctx.equal(ident(it2), ident(got), 'iteration begun during another, ' + what)
    ctx.equal(([] if first is None else [id(first)]) + ident(it1), ident(got), 'iteration interrupted by another, ' + what)
    if hasattr(lst, '__len__'):
        ctx.equal(len(lst), len(want), 'length, ' + what)
    ctx.equal(list(lst.uris()), [r.uri for r in got], 'uris, ' + what)
    if hasattr(lst, 'hashes'):
        ctx.equal(set(lst.hashes()), set(n for o, d in m.entries for k, n in (('md5', 'md5'), ('sha1', 'sha-1'),
                  ('sha256', 'sha-256')) if d.get(k) is not None), 'hashes, ' + what)
    if m.unique():
        for o, d in m.entries:
            ctx.expect(lst[d['uri']] is o, 'lookup by URI, ' + what, uri=d['uri'])
        for u in URIS:
            ctx.equal(u in lst.resources, m.index(u) is not None, 'URI there, ' + what, uri=u)
        ctx.equal(list(lst.resources.uris()) if hasattr(lst.resources, 'uris') else [r.uri for r in got],
                  [r.uri for r in got], 'uris of storage, ' + what)
        if hasattr(lst.resources, 'sorted_iter'):
            ctx.equal([r.uri for r in lst.resources.sorted_iter()], sorted(d['uri'] for o, d in m.entries),
                      'sorted iteration, ' + what)
        if hasattr(lst.resources, 'first') and got:
            ctx.expect(lst.resources.first() is got[0], 'first, ' + what)
    else:
        for i, o in enumerate(want):
            ctx.expect(lst[i] is o, 'lookup by index, ' + what, index=i)
    if m.fam == 'caps':
        for c in ORDER + ['x-new', 'a-new', 'resourcelis', 'nothing']:
            have = [r for r in got if r.capability == c]
            ctx.equal(lst.has_capability(c), bool(have), 'has_capability, ' + what, capability=c)
            info = lst.capability_info(c)
            ctx.expect(info is (have[0] if have else None), 'capability_info, ' + what, capability=c)
    for a in MD:
        v, w = getattr(lst, 'md_' + a), m.md.get('md_' + a)
        if isinstance(w, tuple):
            from resync.w3c_datetime import str_to_datetime
            t = str_to_datetime(v)
            ctx.expect(w[0] - 0.01 <= t <= w[1] + 0.01, 'now, ' + what, value=v)
        else:
            ctx.equal(v, w, 'md_%s, %s' % (a, what))
        if w is not None:
            ctx.equal(lst.md.get('md_' + a), v, 'md, ' + what)
    ctx.equal(lst.capability, m.md.get('capability'), 'capability, ' + what)
    ctx.equal(lst.ln, m.ln, 'links, ' + what)
    for rel in RELS + ['none']:
        ls = [x for x in m.ln if x['rel'] == rel]
        ctx.equal(lst.link(rel), ls[0] if ls else None, 'link, ' + what)
        ctx.equal(lst.link_href(rel), ls[0]['href'] if ls else None, 'link_href, ' + what)
        if rel in RELS[:3]:
            ctx.equal(getattr(lst, rel), ls[0]['href'] if ls else None, rel + ', ' + what)


def as_iterable(how, objs):
    return {'list': list, 'tuple': tuple, 'iter': iter, 'generator': lambda x: (y for y in x)}[how](objs)


def run(case, ctx):
    from resync.capability_list import CapabilityList
    from resync.change_list import ChangeList
    from resync.resource import ChangeTypeError, Resource
    from resync.resource_list import ResourceList, ResourceListDupeError
    from resync.resource_set import ResourceSetDupeError
    kind = case['kind']
    fam = KINDS[kind][0]
    REFUSED = {'dict': ResourceListDupeError, 'ordered': ResourceListDupeError, 'set': ResourceSetDupeError,
               'caps': ResourceSetDupeError, 'changes': ChangeTypeError, 'list': ()}[fam]
    lists = [new(kind), new(kind)]
    models = [Model(kind), Model(kind)]
    g = case.get('given')
    if g is not None:
        # one of the lists with contents given at the start
        store = type(lists[0].resources)()
        for d in g['rs']:
            r = Resource(**d)
            store.add(r) if hasattr(store, 'add') else store.append(r)
            models[0].entries.append((r, d))
        kw = {'resources': store, 'md': {'md_' + k: v for k, v in g['md'].items()}, 'ln': [dict(x) for x in g['ln']]}
        if g['cap']:
            kw['md']['capability'] = 'x-given'
        if kind != 'SourceDescription':
            kw['uri'] = g['uri']
        models[0].md = dict(kw['md'])
        models[0].ln = [dict(x) for x in g['ln']]
        lists[0] = new(kind, **kw)
        if 'uri' in kw:
            ctx.equal(lists[0].uri, g['uri'], 'URI given')
        ctx.label('given at the start', bool(g['rs']))
    ctx.label(fam)
    ctx.equal(lists[0].capability_name, KINDS[kind][1], 'capability name')
    for i in (0, 1):
        observe(lists[i], models[i], ctx, 'new ' + kind)
    interesting = 0
    for k, o in enumerate(case['ops']):
        lst, m = lists[o['on']], models[o['on']]
        op = o['op']
        if op in ('add', 'replace'):
            r = Resource(**o['r'])
            rep = op == 'replace'
            met = m.index(o['r']['uri']) is not None
            ok = m.add(r, o['r'], rep)
            interesting += met
            ctx.label('refused', not ok)
            ctx.label('replaced', rep and met)
            try:
                to = lst.resources if o.get('inner') else lst
                to.add(r, replace=True) if rep else to.add(r)
                ctx.expect(ok, 'addition not refused', n=k, uri=o['r']['uri'], change=o['r'].get('change'))
            except REFUSED as e:
                ctx.expect(not ok, 'addition refused: %r' % e, n=k, uri=o['r']['uri'])
        elif op in ('add_many', 'replace_many'):
            rs = [Resource(**d) for d in o['rs']]
            before = list(m.entries)
            ok = True
            for r, d in zip(rs, o['rs']):
                interesting += m.index(d['uri']) is not None
                ok = ok and m.add(r, d, op == 'replace_many')
            arg = as_iterable(o['as'], rs)
            try:
                lst.add(arg, replace=True) if op == 'replace_many' else lst.add(arg)
                ctx.expect(ok, 'addition not refused', n=k)
            except REFUSED as e:
                ctx.expect(not ok, 'addition refused: %r' % e, n=k)
                if len(lst.resources) == len(before):
                    m.entries = before
        elif op == 'add_changed':
            rs = [Resource(**d) for d in o['rs']]
            src = rs
            if o['as'] == 'ResourceList':
                src = ResourceList()
                src.add(rs, replace=True)
                rs = sorted({r.uri: r for r in rs}.values(), key=lambda r: r.uri)
            ok = all((o['change'] or r.change) is not None for r in rs)
            n = len(lst)
            # in the words of the comparison, these are descriptions elsewhere used
            try:
                lst.add_changed_resources(src, change=o['change'])
                ctx.expect(ok, 'addition of entries without change not refused', n=k)
            except ChangeTypeError:
                ctx.expect(not ok, 'addition refused', n=k)
            added = list(lst)[n:]
            if ok:
                ctx.equal([r.uri for r in added], [r.uri for r in rs], 'added in order')
            for r, a in zip(rs, added):
                d = {f: getattr(r, f) for f in ('uri', 'ts_datetime', 'timestamp', 'md5', 'sha1', 'sha256', 'length')}
                d['change'] = o['change'] or r.change
                ctx.expect(a is not r, 'added entry is the one given')
                for f in d:
                    ctx.equal(getattr(a, f), d[f], f + ' of added entry')
                m.entries.append((a, d))
            for r in list(src):
                orig = [d for d in o['rs'] if d['uri'] == r.uri]
                ctx.expect(any(d.get('change') == r.change for d in orig), 'given entry changed', uri=r.uri, change=r.change)
        elif op == 'prune_dupes':
            keep, uris = [], {}
            for i, (r, d) in enumerate(m.entries):
                uris.setdefault(d['uri'], []).append(i)
            for i, (r, d) in enumerate(m.entries):
                ii = uris[d['uri']]
                first, last = m.entries[ii[0]][1].get('change'), m.entries[ii[-1]][1].get('change')
                if i == ii[-1] and not (len(ii) > 1 and first == 'created' and last == 'deleted'):
                    keep.append((r, d))
            removed = lst.prune_dupes()
            ctx.equal(removed, len(m.entries) - len(keep), 'number of duplicates removed', n=k)
            interesting += removed > 0
            ctx.label('pruned duplicates', removed > 0)
            m.entries = keep
        elif op == 'prune_before':
            f = 'timestamp' if o['spec'] == '1.0' else 'ts_datetime'
            kw = {} if o['spec'] is None else {'spec_version': o['spec']}
            if any(d.get(f) is None for r, d in m.entries):
                try:
                    lst.prune_updates_before(o['t'], **kw)
                except Exception:
                    ctx.label('prune refused')
                else:
                    ctx.fail('pruned entries without a time', n=k)
            else:
                keep = [(r, d) for r, d in m.entries if d[f] >= o['t']]
                removed = lst.prune_updates_before(o['t'], **kw)
                ctx.equal(removed, len(m.entries) - len(keep), 'number of old entries removed', n=k)
                interesting += removed > 0
                ctx.label('pruned old', removed > 0)
                m.entries = keep
        elif op in ('add_cap', 'add_cap_object'):
            name = KINDS[o['name']][1]
            before = set(map(id, lst))
            uri = o['uri']
            if op == 'add_cap_object':
                obj = new(o['name'])
                obj.uri = o['own']
                uri = o['own'] or o['uri']
            d = {'uri': uri, 'capability': name}
            ok = m.index(uri) is None
            interesting += not ok
            try:
                if op == 'add_cap':
                    lst.add_capability(uri=uri, name=name)
                else:
                    lst.add_capability(obj, o['uri']) if o['uri'] else lst.add_capability(obj)
                ctx.expect(ok, 'capability with a URI already there not refused', n=k)
                r = [x for x in lst if id(x) not in before]
                ctx.equal([(x.uri, x.capability) for x in r], [(uri, name)], 'entry for the capability', n=k)
                m.add(r[0], d)
            except REFUSED:
                ctx.expect(not ok, 'capability refused', n=k)
        elif op in ('add_clist', 'add_clist_object'):
            before = set(map(id, lst))
            ok = m.index(o['uri']) is None
            interesting += not ok
            arg = o['uri']
            by = None
            if op == 'add_clist_object':
                arg = CapabilityList(uri=o['uri'])
                if o['by']:
                    arg.describedby = by = o['by']
                if o['up']:
                    # where the capability list itself belongs, which is nothing about its entry
                    arg.up = o['up']
            try:
                lst.add_capability_list(arg)
                ctx.expect(ok, 'capability list with a URI already there not refused', n=k)
                r = [x for x in lst if id(x) not in before]
                ctx.equal([(x.uri, x.capability, x.link_href('describedby')) for x in r],
                          [(o['uri'], 'capabilitylist', by)], 'entry for the capability list', n=k)
                ctx.equal([(x['rel'], x['href']) for x in r[0].ln or []], [('describedby', by)] if by else [],
                          'links of the entry for the capability list', n=k)
                m.add(r[0], {'uri': o['uri']})
            except REFUSED:
                ctx.expect(not ok, 'capability list refused', n=k)
        elif op == 'md':
            if o['name'] == 'capability':
                lst.capability = m.md['capability'] = 'x-cap'
            else:
                t0 = time.time()
                setattr(lst, 'md_' + o['name'], o['value'])
                v = o['value']
                if v == 'now':
                    v = (t0, time.time())
                elif not isinstance(v, str):
                    v = gen.w3c(v)
                m.md['md_' + o['name']] = v
        elif op == 'default':
            lst.default_capability()
            if 'capability' not in m.md and m.cap is not None:
                m.md['capability'] = m.cap
        elif op in ('ln', 'ln_prop'):
            there = [x for x in m.ln if x['rel'] == o['rel']]
            interesting += bool(there)
            atts = o.get('atts', {})
            if there:
                there[0].update(atts, href=o['href'])
            else:
                m.ln.append(dict(atts, rel=o['rel'], href=o['href']))
            if op == 'ln_prop':
                setattr(lst, o['rel'], o['href'])
            else:
                lst.link_set(o['rel'], o['href'], **atts)
        for i in (0, 1):
            observe(lists[i], models[i], ctx, 'list %d after operation %d (%s on list %d)' % (i, k, op, o['on']))
    ctx.nontrivial(len(case['ops']) >= 3 and interesting > 0)


CHECKS = [
    Check('collections', histories, run, quick=1500, thorough=20000, shards=4, thorough_shards=8),
]

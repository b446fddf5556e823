"""C03: resource equality, copies, hashes, links and change types."""

import copy

from hypothesis import strategies as st

from rsverif.core import Check
from rsverif import gen

RULE = ("pairs of resources derived from one another by a few edits, copies with overrides, sequences of hash, link and "
        "change operations; non-trivial: pairs with the same URI and a field in common, copies with an override, "
        "sequences of two or more operations")
ASSUMPTIONS = ["differences of timestamps within a microsecond of the tolerance (but not equal to it) are not generated"]

PLAIN = ['uri', 'timestamp', 'length', 'mime_type', 'md5', 'sha1', 'sha256', 'change', 'ts_datetime', 'path',
         'capability', 'ts_at', 'ts_completed', 'ts_from', 'ts_until']
TEXT = {'lastmod': 'timestamp', 'datetime': 'ts_datetime', 'md_at': 'ts_at', 'md_completed': 'ts_completed',
        'md_from': 'ts_from', 'md_until': 'ts_until'}
URI = st.sampled_from(['http://example.org/a', 'http://example.org/b', 'http://example.org/a/', 'http://example.org/A',
                       'https://example.org/a', 'a', 'http://example.org/a?x'])

RELS = ['describedby', 'up', 'index', 'contents', 'x']
ATTS = st.dictionaries(st.sampled_from(['type', 'pri', 'hash', 'modified', 'length']), st.sampled_from(['1', 'x', 'text/html', '', 0, 1]),
                       max_size=2)


@st.composite
def pairs(draw):
    a = draw(gen.resources(uri=URI))
    b = draw(st.sampled_from([dict(a), dict(a), draw(gen.resources(uri=URI))]))
    for i in range(draw(st.integers(0, 3))):
        k = draw(st.sampled_from(['uri', 'timestamp', 'length', 'md5', 'sha1', 'sha256', 'mime_type', 'change', 'path',
                                  'ts_datetime', 'capability', 'ln', 'shift', 'drop', 'drop_both']))
        if k == 'uri':
            b['uri'] = draw(URI)
        elif k == 'shift':
            t = draw(st.integers(0, 4000000000))
            a['timestamp'] = t
            b['timestamp'] = max(0, t + draw(st.sampled_from(
                [0, 0.25, 0.5, 0.75, 0.999, 1, 1.001, 2, 5, 3600, -0.5, -0.999, -1, -1.001, -2])))
        elif k == 'drop':
            b.pop(draw(st.sampled_from(PLAIN[1:])), None)
        elif k == 'drop_both':
            k = draw(st.sampled_from(PLAIN[1:]))
            a.pop(k, None)
            b.pop(k, None)
        else:
            b[k] = draw({'timestamp': gen.timestamps(), 'length': gen.LENGTHS, 'md5': gen.MD5, 'sha1': gen.SHA1,
                         'sha256': gen.SHA256, 'mime_type': gen.MIME, 'path': gen.ATT_TEXT,
                         'change': st.sampled_from(['created', 'updated', 'deleted']),
                         'ts_datetime': gen.timestamps(), 'capability': st.sampled_from(gen.CAPABILITIES),
                         'ln': st.lists(gen.links(), min_size=1, max_size=2)}[k])
    return {'a': a, 'b': b, 'delta': draw(st.sampled_from([0, 0.25, 0.5, 1, 1.5, 2, 10, 3601]))}


def near(a, b, delta):
    """The difference is too close to the tolerance to be told by floats."""
    d = abs(a - b)
    return d != delta and abs(d - delta) < 2e-6


def model_equal(a, b, delta):
    if a['uri'] != b['uri']:
        return False
    ta, tb = a.get('timestamp'), b.get('timestamp')
    if (ta is None) != (tb is None):
        return False
    if ta is not None and ta != tb and abs(ta - tb) >= delta:
        return False
    for k in ('length', 'md5', 'sha1', 'sha256'):
        if a.get(k) is not None and b.get(k) is not None and a[k] != b[k]:
            return False
    return True


def run_pairs(case, ctx):
    from resync.resource import Resource
    a, b, delta = case['a'], case['b'], case['delta']
    ra, rb = gen.make(Resource, a), gen.make(Resource, b)
    ta, tb = a.get('timestamp'), b.get('timestamp')
    ctx.nontrivial(a['uri'] == b['uri'] and len(set(a) & set(b)) > 1)
    ctx.expect(ra == ra and ra.equal(ra) and ra.equal(ra, delta=delta), 'not equal to itself')
    ctx.expect(ra == gen.make(Resource, a), 'not equal to an identical one')
    for d, f, g in ((1, ra == rb, rb == ra), (0, ra.equal(rb), rb.equal(ra)),
                    (delta, ra.equal(rb, delta), rb.equal(ra, delta=delta))):
        if ta is not None and tb is not None and near(ta, tb, d):
            continue
        want = model_equal(a, b, d)
        ctx.label('equal' if want else 'different')
        ctx.equal(bool(f), want, 'equality with tolerance %s' % d)
        ctx.equal(bool(g), want, 'equality the other way round with tolerance %s' % d)
    ctx.equal((ra != rb), not (ra == rb), '!=')
    ctx.equal(ra.equal(None), False, 'equality with None')
    for r, m in ((ra, a), (rb, b)):
        for k in PLAIN:
            ctx.equal(getattr(r, k), m.get(k), 'value of %s after comparisons' % k)
        ctx.expect(m['uri'] in str(r), 'URI missing from str')


@st.composite
def copies(draw):
    a = draw(gen.resources(uri=URI))
    over = draw(gen.resources(uri=URI))
    names = draw(st.lists(st.sampled_from(sorted(over)), unique=True, max_size=4))
    over = {k: over[k] for k in names}
    text = draw(st.dictionaries(st.sampled_from(sorted(TEXT)), gen.timestamps(), max_size=2))
    later = draw(gen.resources(uri=URI))
    return {'a': a, 'over': over, 'text': text, 'later': later, 'on_copy': draw(st.booleans()),
            'links': draw(st.lists(st.fixed_dictionaries({
                'op': st.sampled_from(['set', 'set', 'add']), 'rel': st.sampled_from(RELS + ['same']),
                'href': gen.uris(), 'atts': ATTS}), max_size=3))}


def check_values(r, m, ctx, what):
    for k in PLAIN:
        ctx.equal(getattr(r, k), m.get(k), '%s of %s' % (k, what))
    ctx.equal(r.ln, m.get('ln'), 'links of ' + what)
    for p, k in TEXT.items():
        ctx.equal(getattr(r, p), None if m.get(k) is None else gen.w3c(m[k]), '%s of %s' % (p, what))


def run_copies(case, ctx):
    from resync.resource import Resource
    a = copy.deepcopy(case['a'])
    ra = gen.make(Resource, case['a'])
    check_values(ra, a, ctx, 'the original')
    m = dict(a)
    m.update(case['over'])
    for p, t in case['text'].items():
        m[TEXT[p]] = t
    kw = dict(case['over'])
    kw.update({p: gen.w3c(t) for p, t in case['text'].items()})
    c = Resource(resource=ra, **kw)
    ctx.nontrivial(len(m) > 2 and bool(kw))
    for k in m:
        if k.startswith('ts_') or k == 'timestamp':
            if m[k] is not None and getattr(c, k) is not None and gen.same_time(getattr(c, k), m[k]):
                m[k] = getattr(c, k)     # text times come back to the microsecond
    check_values(c, m, ctx, 'the copy')
    check_values(ra, a, ctx, 'the original after copying')
    # Changing one leaves the other
    target, tm, other, om = (c, dict(m), ra, a) if case['on_copy'] else (ra, dict(a), c, copy.deepcopy(m))
    if case['links'] and 'ln' not in case['over']:
        # links of one, made where there were links in common
        ln = copy.deepcopy(tm.get('ln')) or []
        for op in case['links']:
            rel = ln[0]['rel'] if op['rel'] == 'same' and ln else op['rel']
            if op['op'] == 'add':
                target.link_add(rel, op['href'], **op['atts'])
                ln.append(dict(op['atts'], rel=rel, href=op['href']))
            else:
                target.link_set(rel, op['href'], **op['atts'])
                found = [x for x in ln if x['rel'] == rel]
                if not found:
                    found = [{'rel': rel}]
                    ln.append(found[0])
                found[0].update(op['atts'], href=op['href'])
        tm['ln'] = ln
        ctx.label('links changed')
        ctx.label('common links changed', len(ln) > 0 and bool(om.get('ln')))
        check_values(target, tm, ctx, 'the one with links changed')
        check_values(other, om, ctx, 'the one without links changed')
    for k, v in case['later'].items():
        setattr(target, k, v)
        tm[k] = v
    check_values(target, tm, ctx, 'the changed one')
    check_values(other, om, ctx, 'the other one')
    for k in PLAIN[1:]:
        setattr(target, k, None)
    check_values(target, {'uri': tm['uri'], 'ln': tm.get('ln')}, ctx, 'the emptied one')
    check_values(other, om, ctx, 'the other one')
    try:
        Resource(**{k: v for k, v in a.items() if k != 'uri'})
    except ValueError:
        pass
    else:
        ctx.fail('resource without URI accepted')


HASH_ENTRY = st.one_of(
    st.tuples(st.just('md5'), gen.MD5), st.tuples(st.just('sha-1'), gen.SHA1), st.tuples(st.just('sha-256'), gen.SHA256),
    st.tuples(st.sampled_from(['md5', 'sha-1', 'sha-256', 'sha-512', 'sha1', 'MD5', 'crc']),
              st.text('0123456789abcdefXYZ:=/+', min_size=1, max_size=8))).map(list)


def run_hash(case, ctx):
    from resync.resource import Resource
    r = Resource(uri='http://example.org/a', timestamp=5, length=9)
    m = {}
    ctx.nontrivial(len(case['steps']) > 1)
    att = {'md5': 'md5', 'sha-1': 'sha1', 'sha-256': 'sha256'}
    for step in case['steps']:
        if step['op'] == 'set':
            sep = step['sep']
            text = sep.join('%s:%s' % tuple(e) for e in step['entries'])
            m, bad = {}, False
            for t, v in step['entries']:
                if t not in att or t in m:
                    bad = True
                m.setdefault(t, v)
            try:
                r.hash = text
                ctx.expect(not bad, 'duplicate or unknown hash type not reported', text=text)
            except ValueError:
                ctx.expect(bad, 'good hash refused', text=text)
        else:
            setattr(r, att[step['type']], step['value'])
            m[step['type']] = step['value']
            if step['value'] is None:
                del m[step['type']]
        for t, k in att.items():
            ctx.equal(getattr(r, k), m.get(t), k)
        want = ['%s:%s' % (t, m[t]) for t in ('md5', 'sha-1', 'sha-256') if t in m]
        ctx.equal(sorted(r.hash.split(' ')) if r.hash is not None else None, sorted(want) or None, 'hash')
    ctx.equal((r.timestamp, r.length, r.uri), (5, 9, 'http://example.org/a'), 'other values')


def run_links(case, ctx):
    from resync.resource import Resource
    m = [dict(x) for x in case['start']]
    r = Resource(uri='http://example.org/a', ln=[dict(x) for x in m] or None)
    ctx.nontrivial(len(case['ops']) > 1)
    for op in case['ops']:
        rel, href, atts = op['rel'], op['href'], op['atts']
        found = [x for x in m if x.get('rel') == rel]
        if op['op'] == 'add':
            r.link_add(rel, href, **atts)
            m.append(dict(atts, rel=rel, href=href))
        elif op['op'] == 'prop' and rel != 'x':
            setattr(r, rel, href)
            if not found:
                found = [{'rel': rel}]
                m.append(found[0])
            found[0]['href'] = href
            if rel == 'contents':
                found[0]['type'] = 'application/xml'
        else:
            r.link_set(rel, href, **atts)
            if not found:
                found = [{'rel': rel}]
                m.append(found[0])
            found[0].update(atts, href=href)
        ctx.equal(r.ln, m, 'links')
        for x in RELS:
            f = [y for y in m if y.get('rel') == x]
            ctx.equal(r.link(x), f[0] if f else None, 'link ' + x)
            ctx.equal(r.link_href(x), f[0]['href'] if f else None, 'href of ' + x)
            if x != 'x':
                ctx.equal(getattr(r, x), f[0]['href'] if f else None, x)


def run_change(case, ctx):
    from resync.resource import Resource, ChangeTypeError
    v, ok = case['v'], case['v'] in (None, 'created', 'updated', 'deleted')
    ctx.nontrivial(not ok)
    try:
        c = Resource(uri='http://example.org/a', change=v)
    except ChangeTypeError:
        ctx.expect(not ok, 'good change refused by constructor', v=v)
    else:
        ctx.expect(ok, 'bad change accepted by constructor', v=v)
        ctx.equal(c.change, v, 'change')
    r = Resource(uri='http://example.org/a', change='updated')
    try:
        r.change = v
    except ChangeTypeError:
        ctx.expect(not ok, 'good change refused', v=v)
        ctx.equal(r.change, 'updated', 'change after refusal')
    else:
        ctx.expect(ok, 'bad change accepted', v=v)
        ctx.equal(r.change, v, 'change')
    try:
        Resource(resource=r, change=v)
        ctx.expect(ok, 'bad change accepted for a copy', v=v)
    except ChangeTypeError:
        ctx.expect(not ok, 'good change refused for a copy', v=v)


CHECKS = [
    Check('pairs', pairs, run_pairs, quick=1500, thorough=30000, shards=2),
    Check('copies', copies, run_copies, quick=1200, thorough=20000, shards=2),
    Check('hash', lambda: st.fixed_dictionaries({'steps': st.lists(st.one_of(
        st.fixed_dictionaries({'op': st.just('set'), 'entries': st.lists(HASH_ENTRY, max_size=4),
                               'sep': st.sampled_from([' ', '  ', '\n', '\t '])}),
        st.fixed_dictionaries({'op': st.just('one'), 'type': st.sampled_from(['md5', 'sha-1', 'sha-256']),
                               'value': st.one_of(st.none(), gen.MD5)})), min_size=1, max_size=4)}),
        run_hash, quick=1500, thorough=20000),
    Check('links', lambda: st.fixed_dictionaries({
        'start': st.lists(st.fixed_dictionaries({'rel': st.sampled_from(RELS), 'href': gen.uris()}), max_size=3),
        'ops': st.lists(st.fixed_dictionaries({'op': st.sampled_from(['add', 'set', 'prop']),
                                               'rel': st.sampled_from(RELS), 'href': gen.uris(), 'atts': ATTS}),
                        min_size=1, max_size=6)}), run_links, quick=1000, thorough=15000),
    Check('change', lambda: st.fixed_dictionaries({'v': st.one_of(
        st.none(), st.sampled_from(['created', 'updated', 'deleted', 'CREATED', 'create', 'updated ', '', 'moved', 'bad', 1, 0]),
        st.text(max_size=8))}), run_change, quick=600, thorough=5000),
]

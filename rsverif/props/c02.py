"""C02: W3C datetimes."""

import calendar
import datetime
import re

from hypothesis import strategies as st

from rsverif.core import Check
from rsverif import gen

RULE = ("instants (microsecond grid, 1970-2100), W3C strings built from fields in all six forms with fractions and "
        "offsets, and strings made invalid by one to three edits or out-of-range fields; non-trivial: an instant with "
        "a fraction, a string with fraction, offset or short form, or a string the strict grammar rejects")
ASSUMPTIONS = [
    "years 1970-2100 for formatting, 0001-9998 for parsing",
]

EPOCH = datetime.datetime(1970, 1, 1)
STRICT = re.compile(r'([0-9]{4})(?:-([0-9]{2})(?:-([0-9]{2})(?:T([0-9]{2}):([0-9]{2})(?::([0-9]{2})(\.[0-9]+)?)?'
                    r'(?:(Z)|([+-])([0-9]{2}):([0-9]{2})))?)?)?\Z')


def reference(s):
    """(local instant in microseconds, offset in seconds) or None when s is not a valid W3C datetime."""
    m = STRICT.match(s)
    if not m:
        return None
    y, mo, d, h, mi, sec, frac, z, sign, oh, om = m.groups()
    y, mo, d = int(y), int(mo or 1), int(d or 1)
    h, mi, sec = int(h or 0), int(mi or 0), int(sec or 0)
    try:
        dt = datetime.datetime(y, mo, d, h, mi, sec)
    except ValueError:
        return None
    off = 0
    if sign:
        if int(oh) > 23 or int(om) > 59:
            return None
        off = int(oh) * 3600 + int(om) * 60
        if sign == '-':
            off = -off
    us = (dt - EPOCH) // datetime.timedelta(microseconds=1)
    return us, off, float(frac or 0)


def check_parse(s, ctx):
    from resync.w3c_datetime import str_to_datetime
    ref = reference(s)
    try:
        got = str_to_datetime(s)
    except ValueError:
        if ref is not None:
            ctx.fail('valid W3C datetime rejected', s=s)
        return 'rejected'
    if ref is None:
        ctx.fail('invalid datetime accepted', s=s, as_=got)
    us, off, frac = ref
    want = us / 1e6 - off + frac
    tol = 1e-6 if abs(want) < 2 ** 33 else 1e-4
    if abs(got - want) > tol:
        if off and abs(got - (us / 1e6 + off + frac)) <= tol:
            ctx.known('C02-offset-sign', 'zone offset applied with the wrong sign: %s parsed as %r, denotes %r'
                      % (s, got, want))
        else:
            ctx.fail('wrong instant', s=s, got=got, want=want)
    return 'accepted'


def run_format(case, ctx):
    from resync.w3c_datetime import str_to_datetime, datetime_to_str
    t = case['t']
    ctx.nontrivial(t != int(t))
    s = datetime_to_str(t)
    ctx.equal(s, gen.w3c(t), 'formatted instant %r' % t)
    back = str_to_datetime(s)
    ctx.expect(gen.same_time(t, back), 'instant changed by format and parse', t=t, s=s, back=back)
    ctx.equal(datetime_to_str(back), s, 'second formatting')
    whole = datetime_to_str(t, no_fractions=True)
    ctx.equal(whole, gen.w3c(int(t)), 'no_fractions formatting of %r' % t)
    ctx.equal(datetime_to_str(None), None, 'None')
    ctx.equal(str_to_datetime(None), None, 'None')


def run_now(case, ctx):
    import time
    from resync.w3c_datetime import str_to_datetime, datetime_to_str
    a = time.time()
    s = datetime_to_str()
    s2 = datetime_to_str('now', no_fractions=True)
    b = time.time()
    ctx.nontrivial()
    ctx.expect(reference(s) is not None and s.endswith('Z'), 'now is not in Z form', s=s)
    ctx.expect(a - 1 <= str_to_datetime(s) <= b + 1, 'now is not now', s=s)
    ctx.expect(a - 2 <= str_to_datetime(s2) <= b + 1 and '.' not in s2, 'whole-second now is not now', s=s2)


@st.composite
def strings(draw):
    form = draw(st.integers(0, 6))
    y = draw(st.one_of(st.integers(1970, 2037), st.integers(1, 9998)))
    s = '%04d' % y
    if form == 0:
        return s
    mo = draw(st.integers(1, 12))
    s += '-%02d' % mo
    if form == 1:
        return s
    last = calendar.monthrange(y, mo)[1]
    s += '-%02d' % draw(st.one_of(st.integers(1, last), st.sampled_from([1, last, 28])))
    if form == 2:
        return s
    s += 'T%02d:%02d' % (draw(st.integers(0, 23)), draw(st.integers(0, 59)))
    if form >= 4:
        s += ':%02d' % draw(st.integers(0, 59))
    if form >= 5:
        s += '.' + draw(st.text('0123456789', min_size=1, max_size=9))
    if draw(st.booleans()):
        return s + 'Z'
    return s + draw(st.sampled_from('+-')) + '%02d:%02d' % (draw(st.integers(0, 23)), draw(st.integers(0, 59)))


def run_valid(case, ctx):
    s = case['s']
    ctx.nontrivial('.' in s or not s.endswith('Z'))
    ctx.equal(check_parse(s, ctx), 'accepted', 'valid string %r' % s)
    ctx.label('offset', bool(re.search(r'T.*[+-]', s)))
    ctx.label('fraction', '.' in s)


@st.composite
def edited(draw):
    s = list(draw(strings()))
    for i in range(draw(st.integers(1, 3))):
        op = draw(st.integers(0, 3))
        pos = draw(st.integers(0, len(s)))
        c = draw(st.sampled_from('0123456789-:TZ+. tz9\n\u0663\uff15\u00b2\r\u2212\xa0,/;_'))
        if op == 0:
            s.insert(pos, c)
        elif pos < len(s):
            if op == 1:
                del s[pos]
            elif op == 2:
                s[pos] = c
            else:
                del s[pos:]
    return ''.join(s)


@st.composite
def out_of_range(draw):
    f = [draw(st.integers(0, 9999)), draw(st.integers(0, 15)), draw(st.integers(0, 35)),
         draw(st.integers(0, 27)), draw(st.integers(0, 65)), draw(st.integers(0, 65))]
    s = '%04d-%02d-%02dT%02d:%02d:%02d' % tuple(f)
    return s + draw(st.sampled_from(['Z', '+00:00', '', '-12:60', '+24:00', '+23:59', 'z', '+0100', '.5', '.Z', '.5Z',
                                     ' Z', '+1:00', '+01', '-01:00Z', 'ZZ', 'Z\n', '\nZ', '.5Z\n', '.\u0665Z', 'Z ', '+00:00\n', 'Z\x00',
                                     'Z\u2028', '.5', '.5+00:00Z', '.5.5Z', ',5Z', '+0\u0661:00', '-00:00', '+00:60']))


def run_invalid(case, ctx):
    s = case['s']
    r = check_parse(s, ctx)
    ctx.nontrivial(r == 'rejected')
    ctx.label(r)
    if r == 'rejected':
        # the same refusal through the accessors of a resource
        from resync.resource import Resource
        for prop in ('lastmod', 'datetime', 'md_at', 'md_completed', 'md_from', 'md_until'):
            x = Resource(uri='http://example.org/x')
            try:
                setattr(x, prop, s)
            except ValueError:
                continue
            ctx.fail('bad datetime accepted for ' + prop, s=s)


def run_accessors(case, ctx):
    """Each datetime accessor of a resource sets and shows its own time and no other."""
    from resync.resource import Resource
    pairs = {'lastmod': 'timestamp', 'datetime': 'ts_datetime', 'md_at': 'ts_at', 'md_completed': 'ts_completed',
             'md_from': 'ts_from', 'md_until': 'ts_until'}
    r = Resource(uri='http://example.org/x')
    model = {}
    for name, t, as_text in case['sets']:
        s = gen.w3c(t)
        if as_text:
            setattr(r, name, s)
        else:
            setattr(r, pairs[name], t)
        model[name] = t
        for n in pairs:
            ctx.expect(gen.same_time(getattr(r, pairs[n]), model.get(n)), 'wrong timestamp for ' + n,
                       got=getattr(r, pairs[n]), want=model.get(n))
            ctx.equal(getattr(r, n), None if n not in model else gen.w3c(model[n]), n)
    c = Resource(uri='http://example.org/x', **{n: gen.w3c(t) for n, t in model.items()})
    for n in pairs:
        ctx.equal(getattr(c, n), getattr(r, n), n + ' given to the constructor')
    ctx.nontrivial(len(model) > 1)


CHECKS = [
    Check('format', lambda: st.fixed_dictionaries({'t': gen.timestamps()}), run_format, quick=3000, thorough=60000),
    Check('now', lambda: st.just({}), run_now, quick=1, thorough=1),
    Check('valid', lambda: st.fixed_dictionaries({'s': strings()}), run_valid, quick=4000, thorough=60000,
          examples=[{'s': '1997-07-16T19:20:30.45+01:00'}, {'s': '2012-11-14T17:50:00-05:00'}]),
    Check('invalid', lambda: st.fixed_dictionaries({'s': st.one_of(edited(), out_of_range(), st.text(max_size=12).filter(
        lambda s: s.isascii() and not s.endswith('\n') and s != ''))}),
        run_invalid, quick=4000, thorough=80000,
        examples=[{'s': '2020-02-30'}, {'s': '2020-01-01T00:00:00'}, {'s': '2020-01-01T00:00:00+24:00'}]),
    Check('accessors', lambda: st.fixed_dictionaries({'sets': st.lists(st.tuples(
        st.sampled_from(['lastmod', 'datetime', 'md_at', 'md_completed', 'md_from', 'md_until']),
        gen.timestamps(), st.booleans()).map(list), min_size=1, max_size=6)}), run_accessors, quick=1500, thorough=20000),
]

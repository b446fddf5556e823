"""Independent reading of a ResourceSync document: what it says, or that it must be refused.

Works on a standard library element tree and knows nothing of resync. Three
outcomes are told apart: definitely right, definitely wrong, and the grey zone
the specification and the documentation leave open (LOOSE).
"""

import calendar
import re

SM = '{http://www.sitemaps.org/schemas/sitemap/0.9}'
RS = '{http://www.openarchives.org/rs/terms/}'


class Loose(object):
    def __repr__(self):
        return 'LOOSE'


LOOSE = Loose()
TIMES = {'datetime': 'ts_datetime', 'at': 'ts_at', 'completed': 'ts_completed', 'from': 'ts_from', 'until': 'ts_until'}


class Refuse(Exception):
    pass


DATE = re.compile(r'([0-9]{4})(?:-([0-9]{2})(?:-([0-9]{2})(?:T([0-9]{2}):([0-9]{2})(?::([0-9]{2})(\.[0-9]+)?)?'
                  r'(Z|[+-][0-9]{2}:[0-9]{2}))?)?)?\Z')


def instants(s):
    """Set of instants (both readings of an offset's sign) of a W3C datetime, or LOOSE; Refuse if it is none."""
    m = DATE.match(s)
    if m is None:
        if DATE.match(s.strip()) or re.search(r'[^\x00-\x7f]', s):
            return LOOSE
        raise Refuse('datetime %r' % s)
    y, mo, d, h, mi, sec, frac, tz = m.groups()
    y, mo, d, h, mi, sec = int(y), int(mo or 1), int(d or 1), int(h or 0), int(mi or 0), int(sec or 0)
    off = 0
    if tz and tz != 'Z':
        oh, om = int(tz[1:3]), int(tz[4:6])
        if oh > 23 or om > 59:
            raise Refuse('offset %r' % s)
        off = oh * 3600 + om * 60
    if h == 24 or sec == 60:
        return LOOSE
    if not (1 <= y and 1 <= mo <= 12 and 1 <= d <= calendar.monthrange(y, mo)[1] and h < 24 and mi < 60 and sec < 60):
        raise Refuse('range of %r' % s)
    t = calendar.timegm((y, mo, d, h, mi, sec)) + float('0' + (frac or '.0'))
    return {t + off, t - off}


def number(s):
    if re.match(r'[0-9]{1,1000}\Z', s):
        return int(s)
    try:
        int(s)
    except ValueError:
        raise Refuse('number %r' % s)
    return LOOSE


def read_md(el, spec='1.1'):
    """Attributes of rs:md that are understood, by XML name."""
    md = {}
    for a in ('capability', 'change', 'hash', 'length', 'path', 'type', 'at', 'completed', 'from', 'until', 'datetime'):
        if a in el.attrib and not (a == 'datetime' and spec == '1.0'):
            md[a] = el.attrib[a]
    if 'change' in md and md['change'] not in ('created', 'updated', 'deleted'):
        raise Refuse('change')
    if 'length' in md:
        md['length'] = number(md['length'])
    return md


def read_ln(el):
    ln = {}
    for a in ('hash', 'href', 'length', 'modified', 'path', 'rel', 'pri', 'type'):
        if a in el.attrib:
            ln['mime_type' if a == 'type' else a] = el.attrib[a]
    for a in ('rel', 'href'):
        if a not in ln:
            raise Refuse('link without ' + a)
    for a in ('length', 'pri'):
        if a in ln:
            ln[a] = number(ln[a])
    if 'pri' in ln and ln['pri'] is not LOOSE and not 1 <= ln['pri'] <= 999999:
        raise Refuse('pri')
    return ln


def read_entry(el, spec='1.1'):
    """Entry as dict of Resource attributes; times as sets of instants."""
    r = {}
    locs = el.findall(SM + 'loc')
    if len(locs) != 1 or not locs[0].text:
        raise Refuse('loc')
    r['uri'] = locs[0].text
    if r['uri'] != r['uri'].strip() or len(locs[0]):
        r['uri'] = LOOSE
    lms = el.findall(SM + 'lastmod')
    if len(lms) > 1:
        raise Refuse('lastmod')
    if lms:
        r['timestamp'] = instants(lms[0].text) if lms[0].text else LOOSE
    mds = el.findall(RS + 'md')
    if len(mds) > 1:
        raise Refuse('several md')
    if mds:
        md = read_md(mds[0], spec)
        for a in ('capability', 'change', 'length', 'path'):
            if a in md:
                r[a] = md[a]
        if 'type' in md:
            r['mime_type'] = md['type']
        for a in TIMES:
            if a in md:
                r[TIMES[a]] = instants(md[a])
        if 'hash' in md:
            parts = md['hash'].split()
            if any(':' not in p for p in parts):
                r['md5'] = r['sha1'] = r['sha256'] = LOOSE
            else:
                for p in reversed(parts):
                    t, v = p.split(':', 1)
                    if t in ('md5', 'sha-1', 'sha-256'):
                        r[t.replace('-', '')] = v
    lns = el.findall(RS + 'ln')
    if lns:
        r['ln'] = [read_ln(x) for x in lns]
    return r


class Doc(object):
    """A document as read.

    refused  - reason why it must be refused, or None
    loose    - it may be refused
    index    - whether it is a sitemapindex
    md, ln   - of the document
    entries  - up to the first that must be refused
    complete - whether entries are all there are
    """

    def __init__(self, root, spec='1.1', capability=None, want_index=None, needs_change=False, unique=False):
        self.refused = None
        self.loose = False
        self.index = None
        self.md, self.ln, self.entries = {}, [], []
        try:
            self.read(root, spec, capability, want_index, needs_change, unique)
        except Refuse as e:
            self.refused = str(e) or 'refused'

    def is_loose(self, d):
        return any(v is LOOSE for v in d.values()) or any(self.is_loose(x) for x in d.get('ln', []))

    def read(self, root, spec, capability, want_index, needs_change, unique):
        if root.tag not in (SM + 'urlset', SM + 'sitemapindex'):
            raise Refuse('root')
        self.index = root.tag == SM + 'sitemapindex'
        if want_index is not None and want_index != self.index:
            raise Refuse('kind of root')
        entry = SM + ('sitemap' if self.index else 'url')
        seen_md = False
        uris = set()
        for el in root:
            if el.tag == entry:
                e = read_entry(el, spec)
                if needs_change and 'change' not in e:
                    raise Refuse('no change')
                if unique and e['uri'] in uris:
                    raise Refuse('duplicate')
                if e['uri'] is LOOSE:
                    unique = False
                uris.add(e['uri'])
                self.loose = self.loose or self.is_loose(e)
                self.entries.append(e)
            elif el.tag == RS + 'md':
                if self.entries or seen_md:
                    raise Refuse('md out of place')
                seen_md = True
                self.md = read_md(el, spec)
                self.loose = self.loose or self.is_loose(self.md)
            elif el.tag == RS + 'ln':
                if self.entries:
                    raise Refuse('ln out of place')
                self.ln.append(read_ln(el))
                self.loose = self.loose or self.is_loose(self.ln[-1])
        if capability is not None:
            if 'capability' not in self.md and capability == 'resourcelist':
                self.md['capability'] = capability
            if self.md.get('capability') != capability:
                raise Refuse('capability')


def match_entry(r, e):
    """First difference between a Resource and an entry as read here, or None."""
    for k in ('uri', 'length', 'mime_type', 'md5', 'sha1', 'sha256', 'change', 'path', 'capability'):
        w = e.get(k)
        if w is not LOOSE and (getattr(r, k) != w or type(getattr(r, k)) is not type(w)):
            return '%s: got %r, want %r' % (k, getattr(r, k), w)
    for k in ('timestamp', 'ts_datetime', 'ts_at', 'ts_completed', 'ts_from', 'ts_until'):
        w, g = e.get(k), getattr(r, k)
        if w is LOOSE:
            continue
        if (g is None) != (w is None) or (w is not None and not any(abs(g - x) < 6e-7 for x in w)):
            return '%s: got %r, want %r' % (k, g, w)
    return match_links(list(r.ln or []), e.get('ln', []))


def match_links(got, want):
    if len(got) != len(want):
        return 'links: got %r, want %r' % (got, want)
    for g, w in zip(got, want):
        if set(g) != set(w) or any(w[k] is not LOOSE and (g[k] != w[k] or type(g[k]) is not type(w[k])) for k in w):
            return 'link: got %r, want %r' % (g, w)
    return None

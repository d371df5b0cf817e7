"""CIM RDF/XML documents: an abstract form, a renderer with many layouts, and what reading must give.

doc = {'ns': CIM namespace without '#',
       'items': [{'cls', 'id', 'about', 'st': [statement, ...]} | {'node': node}, ...]}
statement = ['lit', name, qualifier, lexical, value] | ['enum', name, qualifier, uri, literal]
          | ['ref', name, qualifier, id] | ['node', node]
node = [ns, local, [[ns, local, value], ...], [str | node, ...]]     ns: 'cim' 'rdf' 'ext' 'cim2' ''
style = {'enc', 'bom', 'decl', 'cim', 'rdf', 'nl', 'bits', 'pad'}

Nothing here uses the code under test."""
import functools
import gzip
import io
import json
import mmap
import os
import pathlib
import random
import re
import tempfile
import zipfile
import xml.etree.ElementTree as ET

from . import schema
from .gen import FLOATS, INTS, dec, enc, stretch, text
from .runner import fail
from .world import RefModel, compare

EXT = 'http://example.com/ext#'
OTHER = 'http://example.com/other-cim#'


# ---- generation ------------------------------------------------------------------------------------
def lexical(src, a):
    """(lexical form, value) of an attribute"""
    if a.t == 'str':
        v = text(src)
        return v, v
    pad = lambda s: s if src.byte() % 4 else (' ', '\n\t', '  ', '\t')[src.n(4)] + s + ('', ' ', '\n    ')[src.n(3)]
    if a.t == 'bool':
        k = src.n(8)
        return pad(('true', 'false', '1', '0', 'True', 'False', 'TRUE', 'FALSE')[k]), k % 2 == 0
    if a.t == 'int':
        k = src.byte()
        v = INTS[k] if k < len(INTS) else k - 128
        return pad(('%d', '%+d', '%04d', '%d', '%d')[src.n(5)] % v), v
    k = src.byte()
    v = FLOATS[k] if k < len(FLOATS) else (k - 128) / 8
    f = src.n(6)
    s = repr(v) if f < 3 or v != v or v in (float('inf'), float('-inf')) else '%.17E' % v if f == 3 else '%+.17g' % v if f == 4 else repr(v).replace('e', 'E')
    if v == int(v) if abs(v) < 1e15 else False:
        if f == 5:
            s = str(int(v))
    return pad({'inf': 'INF', '-inf': '-INF', 'nan': 'NaN'}.get(s, s) if f == 1 else s), v


IDS = ['_%d', 'id%d', '_a1b2c3d4-0000-4000-8000-%012d', 'N.%d', 'Terminal_%d', '\u00e9\u4e2d_%d', 'ID%d.x-y', '_%d_']
ABOUTS = ['%d', 'a:b/%d', 'urn:uuid:%d', 'x%%20y%d', 'a b %d', '_%d&<">\'', '$sub/_%d', "#%d", ' lead %d', 'trail_%d  ', '%d.5']

# Identifiers that are alike: different, however similar
ALIKE = [('p%d', 'P%d'), ('_q%d', 'q%d'), ('\u00e9%d', 'e\u0301%d'), ('_00%d', '_0%d'), ('t-%d', 't_%d'), ('_s%d', '__s%d'), ('y%d-AB', 'y%d-Ab'), ('l%d.x', 'l%dx')]
ALIKE_ABOUT = [('v%d', 'v%d '), ('urn:uuid:w%d', 'w%d'), ('#y%d', 'y%d'), ('x%%20z%d', 'x z%d'), ('a/b%d', 'b%d'), ('k%d\n', 'k%d'), ('_j%d', '_j%d?'), ('i%d', '\tI%d')]


def alike(n):
    x = ALIKE + ALIKE_ABOUT
    k = n // 2 % len(x)
    return x[k][n % 2] % (n // 2), k >= len(ALIKE)


def long_id(k, n):
    """An identifier of up to 1600 characters"""
    return ('_' if k % 2 else 'x-1.' * 4) + 'long'[k % 4:] * (8, 15, 20, 60, 400)[k % 5] + '.%d' % n


def ident(src, n):
    k = src.byte()
    if 185 < k <= 190:
        return long_id(k, n), k == 188
    if k > 190:
        i, a = alike(n)
        return i, a or k % 3 == 1
    if k % 5 == 4:
        return ABOUTS[k // 5 % len(ABOUTS)] % n, True
    return IDS[k // 5 % len(IDS)] % n, k % 5 == 3


def qualifier(src, m, cls, f):
    k = src.byte()
    if k % 4 == 3:
        return cls
    return f.owner


def attribute_statement(src, m, cls, a):
    if a.e:
        lits = [x for x in a.l or () if x]
        if not lits:
            return None
        lit = src.pick(lits)
        k = src.byte()
        ns = schema.CIM_NS[schema.version(m.name)] + '#' if k % 4 else ('http://example.com/v1.0/x#', 'http://example.com/v1.0/x/', 'urn:x:', 'http://a.b/c.d?e=f#')[k // 4 % 4]
        return ['enum', a.n, qualifier(src, m, cls, a), '%s%s.%s' % (ns, a.e, lit), lit]
    lex, v = lexical(src, a)
    return ['lit', a.n, qualifier(src, m, cls, a), lex, enc(v)]


def gen_doc(src, m, classes, count, attrs=4, links=4, only_ref=None, one_part=True, oneway=True):
    """A consistent document about `count` objects of the given classes and the partners they need.

    Links come from a reference model, so a single-valued end is never stated with two partners."""
    rm = RefModel(m)
    ids, about, objs = [], [], []

    def new(cls):
        rm.new(cls)
        i, a = ident(src, len(ids))
        ids.append(i)
        about.append(a)
        return len(ids) - 1
    for k in range(count):
        new(classes[k % len(classes)] if count <= len(classes) and k == 0 else src.pick(classes))
    for _ in range(links if ids else 0):
        i = src.n(len(ids))
        if only_ref is not None:
            have = [j for j, c in enumerate(rm.cls) if m.refs(c).get(only_ref.n) is only_ref]
            if not have:
                break
            i, rs = have[i % len(have)], [only_ref]
        else:
            rs = [r for r in m.refs(rm.cls[i]).values() if r.to is not None and (r.opposite or oneway)]
        if not rs:
            continue
        r = src.pick(rs)
        ts = m.targets(r)
        # the far end must not be hidden in this object's class either
        if r.opposite and rm.cls[i] not in m.targets(r.opposite):
            continue
        old = [j for j, c in enumerate(rm.cls) if c in ts]
        k = src.byte()
        if old and k % 3:
            j = old[(k // 3) % len(old)]
        elif len(ids) < count + 6:
            j = new(ts[0] if k % 2 else src.pick(ts))
        else:
            continue
        rm.link(i, r.n, j)
    st = [[] for _ in ids]
    for i, cls in enumerate(rm.cls):
        al = list(m.attrs(cls).values())
        for a in (src.subset(al, attrs) if al else ()):
            s = attribute_statement(src, m, cls, a)
            if s:
                st[i].append(s)
    done = set()
    for i, cls in enumerate(rm.cls):
        for n, r in m.refs(cls).items():
            for j in rm.partners(i, n):
                key = (i, n, j)
                if key in done:
                    continue
                done.add(key)
                name = n
                if m.is_trio(r) and src.flag():
                    name = 'PerLengthImpedance'
                here = ['ref', name, qualifier(src, m, cls, r), ids[j]]
                if r.opposite:
                    done.add((j, r.opp, i))
                    k = src.n(4)
                    o = r.opposite
                    there = ['ref', 'PerLengthImpedance' if m.is_trio(o) and src.flag() else o.n, qualifier(src, m, rm.cls[j], o), ids[i]]
                    if k != 1:
                        st[i].append(here)
                    if k in (1, 2):
                        st[j].append(there)
                else:
                    st[i].append(here)
    if src.byte() % 5 == 2:     # statements made twice
        for s in st:
            rs = [x for x in s if x[0] == 'ref']
            s += [src.pick(rs) for _ in range(src.n(3))] if rs else []
    items = []
    for i, cls in enumerate(rm.cls):
        s = src.shuffle(st[i]) if len(st[i]) < 12 else st[i]
        if not one_part and len(s) > 1 and src.byte() % 4 == 1:
            k = 1 + src.n(len(s) - 1)
            items.append({'cls': cls, 'id': ids[i], 'about': about[i], 'st': s[:k]})
            items.append({'cls': cls, 'id': ids[i], 'about': about[i] or bool(src.n(2)), 'st': s[k:]})
        else:
            items.append({'cls': cls, 'id': ids[i], 'about': about[i], 'st': s})
    if src.byte() % 4:
        items = src.shuffle(items)
    return {'ns': schema.CIM_NS[schema.version(m.name)], 'items': items}


def large_doc(src, m, **kw):
    """A document about tens to hundreds of objects"""
    n = (30, 80, 200, 500)[src.n(4)] + src.n(20)
    src = stretch(src, 80 * n + 300)
    return gen_doc(src, m, [src.pick(m.names) for _ in range(1 + src.n(12))], n, attrs=3, links=n, **kw)


@functools.lru_cache(None)
def corpus_items():
    """The objects of a distribution network's model (tools/gen_corpus.py) and the neighbours of each"""
    with open(os.path.join(schema.HERE, 'corpus.json.gz'), 'rb') as f:
        items = json.loads(gzip.decompress(f.read()))
    at = {it['id']: k for k, it in enumerate(items)}
    near = [[] for _ in items]
    for k, it in enumerate(items):
        for s in it['st']:
            if s[0] == 'ref':
                near[k].append(at[s[3]])
                near[at[s[3]]].append(k)
    return items, near


def corpus(spec):
    """A CIM15 document of `n` objects of that model: consecutive ones, or those near one of them; in another order,
    if given; without references to objects left out; with some links stated at the other end, or both"""
    start, n, near, order, flip = spec
    items, links = corpus_items()
    start %= len(items)
    n = min(n, len(items))
    if near:
        ks, seen = [start], {start}
        for k in ks:
            for j in links[k]:
                if j not in seen and len(ks) < n:
                    seen.add(j)
                    ks.append(j)
    else:
        ks = [(start + k) % len(items) for k in range(n)]
    if order == 1:
        ks.reverse()
    elif order:
        random.Random(order).shuffle(ks)
    ids = {items[k]['id'] for k in ks}
    out = [dict(items[k], st=[s for s in items[k]['st'] if s[0] != 'ref' or s[3] in ids]) for k in ks]
    if flip:
        rng, m = random.Random(flip), schema.model('CIM15')
        of = {it['id']: it for it in out}
        for it, s in [(it, s) for it in out for s in it['st'] if s[0] == 'ref']:
            r, far, k = m.refs(it['cls'])[s[1]], of[s[3]], rng.randrange(3)
            if r.opposite and k:
                far['st'].insert(rng.randrange(len(far['st']) + 1), ['ref', r.opp, r.opposite.owner, it['id']])
                if k == 2:
                    it['st'].remove(s)
    return {'ns': schema.CIM_NS['CIM15'], 'items': out}


def gen_corpus(src, sizes=(20, 60, 150, 300)):
    return [src.n(6000), src.pick(sizes) + src.n(20), src.byte() % 3 > 0, src.byte() % 16, src.byte() % 8]


PLAIN = {'enc': 'utf-8', 'bom': False, 'decl': True, 'cim': 'cim', 'rdf': 'rdf', 'nl': 1, 'bits': [0], 'pad': None}
ENCODINGS = ['utf-8', 'utf-16', 'iso-8859-1', 'us-ascii', 'windows-1252', 'utf-8', 'utf-16-be', 'utf-16-le', 'iso-8859-15', 'koi8-r', 'windows-1251', 'iso-8859-7', 'cp437']


def gen_style(src):
    e = src.pick(ENCODINGS)
    return {'enc': e, 'bom': e == 'utf-8' and src.byte() % 3 == 1 or e.startswith('utf-16-'),
            'decl': e not in ('utf-8', 'utf-16') or src.flag(),
            'cim': src.pick(['cim', 'cim', '', 'c', 'cim15', 'ns0', 'iec']), 'rdf': src.pick(['rdf', 'rdf', 'r', 'RDF']),
            'ents': src.byte() % 8 == 3, 'nl': src.n(4), 'pad': src.n(4000) if src.byte() % 8 == 1 else None,
            'late': src.byte() % 6 == 2, 'xmlns': src.n(60) if src.byte() % 8 == 6 else 0, 'name': src.byte() % 8, 'dtd': src.n(64), 'swap': src.n(12), 'bits': [src.byte() for _ in range(4 + src.n(24))]}


# ---- rendering -------------------------------------------------------------------------------------
def item_node(item):
    if 'node' in item:
        return item['node']
    attrs = [['rdf', 'about', '#' + item['id']] if item['about'] else ['rdf', 'ID', item['id']]]
    return ['cim', item.get('tag') or item['cls'], attrs + item.get('xattrs', []), [statement_node(s) for s in item['st']]]


def other_tag(src, m, cls):
    """A further description of a known object may name an ancestor of its class"""
    tags = [c for c in m.ancestors(cls) if m.base[c]]       # without the root of all classes
    return src.pick(tags) if src.byte() % 3 == 1 and tags else None


def tags_again(items, known=()):
    """The items, of which only further descriptions have another tag"""
    out, known = [], set(known)
    for it in items:
        if it.get('tag') and it['id'] not in known:
            it = dict(it, tag=None)
        known.add(it.get('id'))
        out.append(it)
    return out


def is_extra(x):
    return isinstance(x, dict) and 'x' in x


def statement_node(s):
    if s[0] == 'node':
        return s[1]
    if is_extra(s[-1]):     # further attributes
        n = statement_node(s[:-1])
        return [n[0], n[1], n[2] + s[-1]['x'], n[3]]
    tag = '%s.%s' % (s[2], s[1])
    if s[0] == 'lit':
        return ['cim', tag, [], [s[3]]]
    if s[0] == 'enum':
        return ['cim', tag, [['rdf', 'resource', s[3]]], []]
    return ['cim', tag, [['rdf', 'resource', '#' + s[3]]], []]


def elsewhere(doc, style):
    out = []
    if style.get('swap') in (1, 3) and style['rdf'] != 'rdf':
        out.append('rdf')
    if style.get('swap') in (2, 3) and style['cim'] != 'cim' and not style.get('late') and \
            doc['ns'] in (schema.CIM_NS['CIM14'], schema.CIM_NS['CIM15'], schema.CIM16_NS):
        out.append('cim')
    return [p for p in out if all(p != x for x, _ in doc.get('xmlns', ()))]


class Renderer:
    def __init__(self, doc, style):
        self.s, self.doc = style, doc
        self.bits, self.k = style['bits'] or [0], 0
        self.out = []
        self.codec = {'utf-8': None, 'utf-16': None, 'utf-16-be': None, 'utf-16-le': None}.get(style['enc'], style['enc'])
        self.prefix = {'cim': style['cim'], 'rdf': style['rdf'], 'ext': 'ext', 'cim2': 'o'}
        self.plain = style['bits'] == [0]
        self.fixed, self.texts = False, {}
        if style.get('dtd') in (16, 17, 13) and self.s['decl']:
            # texts that are entities of the document
            some = [c for it in doc['items'] for x in item_node(it)[3] if isinstance(x, list) for c in x[3]
                    if isinstance(c, str) and re.fullmatch(r'[A-Za-z0-9 .+-]{1,40}', c)]
            self.texts = {t: 'text%d' % i for i, t in enumerate(some[:5])}
        self.uris = {}      # namespaces that are written as entities
        if style.get('dtd') in (11, 12, 13) and self.s['decl']:
            self.uris = {self.uri(ns): 'ns-' + ns for ns in ('rdf', 'cim', 'ext', 'cim2')[:style['dtd'] - 9]}
        self.ents = {}      # entities of the document type declaration
        if style.get('ents') and self.s['decl']:
            self.ents = {'a': 'letter-a', '_': 'u', '\u00e9': 'eacute', ' ': 'sp'}

    def bit(self, k):
        # the cycle is walked with a slip so that short cycles still mix
        self.k += 1
        return (self.bits[self.k % len(self.bits)] + self.k // len(self.bits)) % k

    def space(self, level):
        nl = ('', '\n', '\r\n', '\n\n\t')[self.s['nl']]
        self.out.append(nl and nl + '  ' * level)
        if not self.plain and self.bit(9) == 5:
            self.out.append(('<!-- a comment & <cim:Terminal rdf:ID="_c"/> -->', '<?pi some data?>', '<!---->', ' \t ')[self.bit(4)])
            self.out.append(nl)

    def char(self, c, quote=None):
        o = ord(c)
        if c == '\n' and not quote and self.s['nl'] == 2 and not self.plain:
            return '\r\n'       # a parser reads a line end
        if c in '<&\r' or c == quote or quote and c in '\n\t' or o in (0x85, 0x2028):
            return '&#%d;' % o
        if c == '>':
            return '&gt;'
        if c in self.ents:
            return '&%s;' % self.ents[c]
        if self.codec:
            try:
                c.encode(self.codec)
            except UnicodeError:
                return '&#x%X;' % o
        if not self.plain and self.bit(11) == 7:
            return '&#%d;' % o if self.bit(2) else '&#x%x;' % o
        return c

    def text(self, t):
        """Character data: runs of characters, references, CDATA sections, comments in between."""
        i = 0
        if not self.plain and t in self.texts:
            self.out.append('&%s;' % self.texts[t])
            return
        if self.plain:
            self.out.append(''.join([c if c.isalnum() and ord(c) < 128 else self.char(c) for c in t]))
            return
        while i < len(t):
            k = 0 if self.plain else self.bit(13)
            run = t[i:i + 1 + self.bit(6)]
            ok = '\r' not in run and ']]>' not in run and not (run.endswith(']') or ']>' in run) and '\u0085' not in run and '\u2028' not in run
            if ok and self.codec:
                try:
                    run.encode(self.codec)
                except UnicodeError:
                    ok = False
            if k == 3 and ok:
                self.out.append('<![CDATA[' + run + ']]>')
                i += len(run)
                continue
            if k == 4 and len(t) < 200:
                self.out.append('<!-- in text -->')
            elif k == 5 and len(t) < 200:
                self.out.append('<?in text?>')
            self.out.append(self.char(t[i]))
            i += 1

    def name(self, ns, local, local_decl):
        if ns == '':
            return local
        p = local_decl or self.prefix[ns]
        return p + ':' + local if p else local

    def attr(self, ns, local, value, decl, at='cim'):
        q = '"' if self.plain or self.bit(3) else "'"
        sp = ' ' if self.plain or self.bit(5) else '\n   '
        eq = '=' if self.plain or self.bit(5) else ' = '
        p = decl if decl and ns == at else self.prefix.get(ns)
        n = local if ns == '' else p + ':' + local
        for u, e in self.uris.items():
            if value.startswith(u):
                self.out.append(sp + n + eq + q + '&%s;' % e + ''.join(self.char(c, q) for c in value[len(u):]) + q)
                return
        self.out.append(sp + n + eq + q + ''.join(self.char(c, q) for c in value) + q)

    def node(self, node, level, cim=False):
        ns, local, attrs, content = node
        decl = None
        if ns == 'cim' and not self.plain and self.bit(10) == 4:
            decl = 'loc'
        swap = None
        if level and ns in ('ext', 'cim2') and self.s.get('swap') in (4, 5, 6) and not self.s.get('late') and self.doc['ns'] is not None:
            # a prefix of the root has another meaning inside of this element
            swap = decl = self.prefix[('cim', 'rdf', 'cim')[self.s['swap'] - 4]] or None
            used = 'rdf' if self.s['swap'] == 5 else 'cim'
            if decl and self.uses(node, used):
                swap = decl = None
        attrs = list(attrs)
        if not self.plain and self.bit(3) == 1:
            attrs.reverse()
        n = self.name(ns, local, decl)
        self.out.append('<' + n)
        pre = self.bit(2) if decl else 0
        d = " xmlns:%s='%s'" % (decl, self.ref(self.uri(ns))) if decl else ''
        if cim:     # the root does not declare the namespace
            d += self.xmlns('cim')
        if ns == '' and self.s['cim'] == '':
            d += ' xmlns=""'
        if not pre:
            self.out.append(d)
        for a in attrs:
            self.attr(*a, decl, ns)
        if pre:
            self.out.append(d)
        kids = [c for c in content if not isinstance(c, str)]
        if not content or content == ['']:
            self.out.append('/>' if self.plain or self.bit(2) else ' />' if self.bit(2) else '></' + n + '>')
            return
        self.out.append('>')
        for c in content:
            if isinstance(c, str):
                self.text(c)
            else:
                if len(kids) == len(content):
                    self.space(level + 1)
                self.node(c, level + 1)
        if kids and len(kids) == len(content):
            self.space(level)
        self.out.append('</' + n + ('>' if self.plain or self.bit(6) else ' >'))

    def uri(self, ns):
        return {'cim': (self.doc['ns'] or '') + '#', 'rdf': schema.RDF_NS, 'ext': EXT, 'cim2': self.doc.get('ns2') or OTHER}[ns]

    def xmlns(self, ns):
        p = self.prefix[ns]
        return ' xmlns%s="%s"' % (':' + p if p else '', self.ref(self.uri(ns)))

    def ref(self, uri):
        return '&%s;' % self.uris[uri] if uri in self.uris else uri

    def uses(self, node, ns):
        return node[0] == ns or any(a[0] == ns for a in node[2]) or any(self.uses(c, ns) for c in node[3] if not isinstance(c, str))

    def elsewhere(self):
        """The usual prefixes, as far as they are bound to another namespace at the root"""
        return elsewhere(self.doc, self.s)

    def doctype(self, root):
        k = self.s.get('dtd', 0)
        inner = ''.join('<!ENTITY %s "&#%d;">' % (v, ord(k)) for k, v in self.ents.items()) if self.ents else ''
        inner += ''.join('<!ENTITY %s "%s">' % (v, u) for u, v in [*self.uris.items(), *self.texts.items()])
        if k in (14, 15) and not self.s.get('late') and self.doc['ns'] is not None:
            # the namespace is declared for the root element by the document type
            inner += '<!ATTLIST %s %s CDATA %s"%s">' % (root, self.xmlns('cim').split('=')[0].strip(), '#FIXED ' * (k == 14), self.uri('cim'))
            self.fixed = True
        inner += '\n<!-- <x> ]> -->' * (k == 1) + '<?pi ]> ?>' * (k == 2) + '<!ELEMENT x ANY>\n<!ATTLIST x y CDATA "z">' * (k in (3, 5))
        where = ' SYSTEM "cim.dtd"' if k in (4, 5) else " PUBLIC '-//X//CIM//EN' 'http://example.com/cim.dtd'" if k == 6 else ''
        if inner or where or k == 7:
            self.out.append('<!DOCTYPE %s%s%s>\n' % (root, where, ' [%s]' % inner if inner or k == 7 else ''))

    def render(self):
        doc = self.doc
        if self.s['decl']:
            e = self.s['enc'].replace('utf-16-be', 'utf-16').replace('utf-16-le', 'utf-16')
            k = self.s.get('name', 0)       # how the encoding's name is written
            e = ' encoding="%s"' % e if k < 4 else " encoding='%s'" % e if k < 6 else '\n encoding = "%s"' % e.upper()
            more = ('', '', ' standalone="yes"', " standalone='no'")[k % 4]
            self.out.append('<?xml version="1.0"%s%s?>' % ('' if self.s['enc'] == 'utf-8' and self.bit(2) else e, more))
            self.out.append('\n')
        if not self.plain and self.bit(3) == 1:
            self.out.append('<!-- prolog -->\n')
        self.doctype(self.name('rdf', 'RDF', None))
        self.out.append('<%s' % self.name('rdf', 'RDF', None))
        decls = []
        nodes = [item_node(it) for it in doc['items']]
        late = self.s.get('late') and [self.uses(n, 'cim') for n in nodes]
        late = late if late and any(late) else None
        for ns in ('rdf', 'cim', 'ext', 'cim2'):
            if ns == 'cim' and (doc['ns'] is None or late or self.fixed):
                continue
            decls.append(self.xmlns(ns))
        for p, u in doc.get('xmlns', ()):
            decls.append(' xmlns:%s="%s"' % (p, u))
        for p in self.elsewhere():
            decls.append(' xmlns:%s="http://example.com/elsewhere#"' % p)
        if not self.plain and self.bit(2):
            decls.reverse()
        k = self.s.get('xmlns') or 0
        more = [' xmlns:n%d="urn:n%d"' % (i, i) for i in range(k)]
        self.out += more[k // 2:] + decls + more[:k // 2]
        if not doc['items'] and not self.plain and self.bit(2):
            self.out.append('/>')
        else:
            self.out.append('>')
            at = len(self.out)
            mega = self.s.get('dtd') in (9, 10) and self.bit(2)
            parts = 12 // max(1, len(nodes) - 1) + 1
            for i, n in enumerate(nodes):
                self.space(1)
                if self.s.get('dtd') in (9, 10) and (mega and i < 12 or i == 0):     # a megabyte of comments, at the start or between the objects
                    self.out += ['<!--%s-->' % ('x' * 90000)] * (parts if mega else 12)
                self.node(n, 1, late and late[i])
            self.space(0)
            self.out.append('</%s>' % self.name('rdf', 'RDF', None))
            if self.s['pad'] is not None:
                # put the parser's 16 KB read boundary inside the document
                head = len(''.join(self.out[:at]))
                fill = 16384 - head - 9 - self.s['pad'] % max(1, len(''.join(self.out[at:])))
                if fill > 0:
                    self.out.insert(at, '<!-- ' + 'x' * fill + ' -->')
        if not self.plain and self.bit(3) == 1:
            self.out.append('\n<!-- epilog -->\n<?done?>')
        return ''.join(self.out)


def render(doc, style=PLAIN):
    return check_document(encode(Renderer(doc, style).render(), style))


def check_document(data):
    try:
        ET.fromstring(data)
    except ET.ParseError as e:
        raise schema.BadCase('not well-formed: ' + '%s: %r' % (e, data)) from None
    return data


def encode(s, style):
    e = style['enc']
    if e == 'utf-8':
        return (b'\xef\xbb\xbf' if style['bom'] else b'') + s.encode('utf-8')
    if e == 'utf-16-be':
        return b'\xfe\xff' + s.encode(e)
    if e == 'utf-16-le':
        return b'\xff\xfe' + s.encode(e)
    return s.encode(e)


# ---- what reading must give ------------------------------------------------------------------------
class Expected:
    def __init__(self, m):
        self.m, self.rm, self.ids = m, RefModel(m), {}
        self.own = {}       # classes of the caller's class map that stand for those of the model

    def read(self, doc):
        for it in doc['items']:
            if 'node' not in it and it['id'] not in self.ids:
                self.ids[it['id']] = self.rm.new(it['cls'])
        for it in doc['items']:
            if 'node' in it:
                continue
            i = self.ids[it['id']]
            for s in it['st']:
                if s[0] == 'lit':
                    self.rm.attrs[i][s[1]] = dec(s[4])
                elif s[0] == 'enum':
                    self.rm.attrs[i][s[1]] = s[4]
                elif s[0] == 'ref' and s[3] in self.ids:
                    n, j = s[1], self.ids[s[3]]
                    if n == 'PerLengthImpedance' and self.m.is_trio(self.rm.ref(i, n)):
                        n = 'SequenceImpedance' if 'Sequence' in self.rm.cls[j] else 'PhaseImpedance'
                    self.rm.link(i, n, j)
        return self

    def check(self, d, when, attrs_only=False):
        if not isinstance(d, dict):
            fail('%s: the result is %r', when, d)
        if set(d) != set(self.ids):
            fail('%s: the identifiers read are %s, expected %s', when, sorted(d, key=repr)[:20], sorted(self.ids)[:20])
        objs = [None] * len(self.ids)
        for i, k in self.ids.items():
            o = d[i]
            if type(o) is not (self.own.get(self.rm.cls[k]) or self.m.py(self.rm.cls[k])):
                fail('%s: %r is a %s.%s, expected %s', when, i, type(o).__module__, type(o).__name__, self.rm.cls[k])
            if o.UUID != i:
                fail('%s: the UUID of %r is %r', when, i, o.UUID)
            objs[k] = o
        if len({id(o) for o in objs}) != len(objs):
            fail('%s: two identifiers share an object', when)
        compare(self.rm, objs, when, order=False)
        return objs


def cimread(*a, **k):
    schema.use_repo()
    from PyCIM import cimread
    return cimread(*a, **k)


def read_args(m, ns):
    """Arguments for reading a model's document: none for the full versions, class map for profiles."""
    return () if m.name in ('CIM14', 'CIM15') else (m.package_map(), ns)


def decode(data):
    """The characters of a rendered document"""
    if data[:3] == b'\xef\xbb\xbf':
        return data[3:].decode('utf-8')
    if data[:2] in (b'\xff\xfe', b'\xfe\xff'):
        return data.decode('utf-16')
    e = re.match(rb'<\?xml[^>]*encoding *= *["\']([^"\']*)', data)
    return data.decode(e[1].decode() if e else 'utf-8')


ODD = "~mo del%20#1?a=b&c;$HOME {0} 'x'.gz"


class Pieces:
    """The least that a source must offer; it hands out few bytes at a time"""

    def __init__(self, data):
        self.f, self.n = io.BytesIO(data), 1 + len(data) // (10 if len(data) > 2000 else 100)

    def read(self, n=-1):
        return self.f.read(n if n is None or n < 0 else min(n, self.n))

    def seek(self, *a):
        return self.f.seek(*a)


class Source:
    """The bytes of a document as one of the kinds of source."""
    FILES = ('bytes', 'path', 'file', 'unbuffered', 'relative', 'gzip', 'pathlib', 'zip', 'spooled', 'pieces', 'mmap', 'odd path')
    KINDS = FILES + ('text', 'text file')

    def __init__(self, data, kind):
        self.data, self.kind, self.dir, self.f = data, kind, None, None

    def __enter__(self):
        if self.kind == 'bytes' or not self.data and self.kind == 'mmap':
            return io.BytesIO(self.data)
        if self.kind == 'text':
            return io.StringIO(decode(self.data), newline='')
        if self.kind == 'pieces':
            return Pieces(self.data)
        if self.kind == 'mmap' and self.data:
            self.f = mmap.mmap(-1, len(self.data))
            self.f[:] = self.data
            return self.f
        if self.kind == 'spooled':
            self.f = tempfile.SpooledTemporaryFile(max_size=4096)
            self.f.write(self.data)
            self.f.seek(0)
            return self.f
        self.dir = tempfile.TemporaryDirectory(dir='/dev/shm' if os.path.isdir('/dev/shm') else None)
        p = os.path.join(self.dir.name, ODD if self.kind == 'odd path' else 'model.xml')
        if self.kind == 'zip':
            with zipfile.ZipFile(p, 'w') as z:
                z.writestr('model.xml', self.data)
            self.f = zipfile.ZipFile(p)
            return self.f.open('model.xml')
        with gzip.open(p, 'wb', 1) if self.kind == 'gzip' else open(p, 'wb') as f:
            f.write(decode(self.data).encode('utf-8') if self.kind == 'text file' else self.data)
        if self.kind == 'gzip':
            self.f = gzip.open(p, 'rb')
            return self.f
        if self.kind == 'text file':
            self.f = open(p, encoding='utf-8')
            return self.f
        if self.kind in ('path', 'odd path'):
            return p
        if self.kind == 'pathlib':
            return pathlib.Path(p)
        if self.kind == 'relative':
            return os.path.relpath(p)
        self.f = open(p, 'rb', buffering=0) if self.kind == 'unbuffered' else open(p, 'rb')
        return self.f

    def __exit__(self, *a):
        if self.f:
            self.f.close()
        if self.dir:
            self.dir.cleanup()


def read_bytes(data, args=(), kind='bytes', **kw):
    with Source(data, kind) as s:
        return cimread(s, *args, **kw)


# ---- content that reading must pass over -----------------------------------------------------------
def unknown_class(src, m):
    xs = [x for x in ('NoSuchClass', 'FullModel', 'Terminals', 'terminal', 'EquipmentVersion_', 'Substation2', 'RDF', 'Description',
                      'Model', 'X-ray', '_T', 'T.e') if x not in m.base]
    other = [c for mm in ('CIM14', 'CIM15') for c in schema.model(mm).names[::37] if c not in m.base]
    return src.pick(other) if other and src.byte() % 3 == 0 else src.pick(xs) if src.flag() else 'UnknownClass%d' % src.n(250)


STATEMENTS = 16


def other_id(src, ids):
    """An identifier that the document does not have, possibly one like those it has"""
    if ids and src.flag():
        i = src.pick(ids)
        like = [x for x in ('_' + i, i[1:], i.swapcase(), i + ' ', '#' + i, i[:-1], i + '0', i.strip(), 'urn:uuid:' + i, i.replace('%20', ' '), i.split('#')[-1], i.split('/')[-1]) if x not in ids]
        if like:
            return src.pick(like)
    return 'un%d' % src.n(8) if 'un0' not in ids and src.byte() % 4 == 2 else 'nobody%d' % src.n(200)


def noise_statement(src, m, cls, ids, k=None):
    """A statement about an instance of cls that reading must pass over."""
    refs = [r for r in m.refs(cls).values() if r.to is not None]
    nums = [a for a in m.attrs(cls).values() if a.t in ('float', 'int', 'bool')]
    plain = [a for a in m.attrs(cls).values() if not a.e]
    taken = set(m.attrs(cls)) | set(m.refs(cls))
    unknown = [x for x in ('noSuchAttribute', 'Terminal2', 'nAme', 'x' * 60, 'value-x', 'Nonexistent') if x not in taken]
    if src.flag():
        unknown = ['unknownAttribute%d' % src.n(250)]
    elif taken and src.flag():      # names that are like those of the class
        n = src.pick(sorted(taken))
        unknown = [x for x in (n[0].swapcase() + n[1:], n + 's', n[:-1], n.lower(), n + '_', '_' + n, n.upper(), n.replace('Ref', '')) if x and x not in taken] or unknown
    owner = src.pick(m.ancestors(cls))
    k = src.n(STATEMENTS) if k is None else k
    some_id = src.pick(ids) if ids else 'nobody'
    if k == 0:
        return ['cim', '%s.%s' % (owner, src.pick(unknown)), [], [text(src)]]
    if k == 1:
        return ['cim', '%s.%s' % (owner, src.pick(unknown)), [['rdf', 'resource', src.pick(['#' + some_id, '#nobody', 'http://x/y#PhaseCode.A'])]], []]
    if k == 2 and refs:
        r = src.pick(refs)
        return ['cim', '%s.%s' % (r.owner, r.n), [['rdf', 'resource', '#' + other_id(src, ids)]], []]
    if k == 3 and refs:
        r = src.pick(refs)
        return ['cim', '%s.%s' % (r.owner, r.n), [['rdf', 'resource', src.pick(
            ['http://example.com/m2#' + some_id, 'urn:uuid:1234', some_id if not some_id.startswith('#') else 'x', 'other.xml#' + some_id, 'http://x/a.b', '', '#'])]], []]
    if k == 4:
        return ['ext', src.pick(['note', 'IdentifiedObject.name', '%s.name' % cls, 'Terminal']), [], [text(src)]]
    if k == 5:
        return ['ext', 'data', [['ext', 'a', text(src)], ['rdf', 'resource', '#' + some_id]], [['ext', 'inner', [], [text(src)]], ['ext', 'empty', [], []]]]
    if k == 6 and refs:     # an association of the class, in another namespace
        r = src.pick(refs)
        return ['cim2', '%s.%s' % (r.owner, r.n), [['rdf', 'resource', '#' + some_id]], []]
    if k == 7 and plain:
        a = src.pick(nums if nums and src.flag() else plain)
        return ['cim', '%s.%s' % (a.owner, a.n), [['rdf', 'resource', src.pick(['http://example.com/m2#_1', 'http://x.y/z#PhaseCode.A', 'urn:x', 'other.xml', ''])]], []]
    if k == 8 and m.attrs(cls):
        a = src.pick(list(m.attrs(cls).values()))
        return ['ext', '%s.%s' % (a.owner, a.n), [], ['1']]
    if k == 9:      # the name of another Python attribute
        n = src.pick(['UUID', '__dict__', '__class__', '__doc__', '__weakref__', '__init__', '_attrs', '_refs', '_many_refs', '_enums', '_defaults', '_attr_types', '__module__']
                     + ['_' + r.n for r in refs] + ['get' + r.n for r in refs] + ['add' + r.n for r in refs])
        if n in taken:
            n = '_'
        c = src.n(4)
        return ['cim', '%s.%s' % (owner, n), [['rdf', 'resource', ('#' + some_id, 'http://x/y#PhaseCode.A', 'urn:x')[c - 1]]] if c else [], [] if c else [text(src)]]
    if k == 10 and nums:    # a number or truth value without text
        a = src.pick(nums)
        return ['cim', '%s.%s' % (a.owner, a.n), [], []]
    if k == 11 and refs:     # text for an association
        r = src.pick(refs)
        return ['cim', '%s.%s' % (r.owner, r.n), [], [src.pick(['x', ' ', '\n  ', '#' + some_id, some_id, text(src)])]]
    if k == 12 and m.attrs(cls):        # an object for an attribute
        a = src.pick(list(m.attrs(cls).values()))
        return ['cim', '%s.%s' % (a.owner, a.n), [['rdf', 'resource', '#' + some_id]], []]
    if k == 13:     # an element whose name has no dot, or several
        n = src.pick(unknown)
        if n not in m.base:
            n = (n, '%s.%s.%s' % (owner, src.pick(list(taken) or ['x']), n), '%s.' % owner, '_.' + n, '%s..%s' % (owner, n))[src.n(5)]
            return ['cim', n, [['rdf', 'resource', '#' + some_id]] if src.byte() % 3 == 1 else [], [] if src.byte() % 3 == 1 else [text(src)]]
    if k == 14:     # statements inside of a statement, in an object without identifier or not: not about this object
        known = [statement_node(s) for s in [attribute_statement(src, m, cls, a) for a in src.subset(list(m.attrs(cls).values()), 3)] if s]
        known += [['cim', '%s.%s' % (r.owner, r.n), [['rdf', 'resource', '#' + some_id]], []] for r in src.subset(refs, 2)]
        if src.flag():
            known = [['cim', src.pick(['StreetAddress', cls, owner] + m.names[:3]), [], known]]
        elif src.flag():
            known = [['ext', 'Part', [], known], 'x']
        c = src.n(4)
        if c == 0 and refs:
            r = src.pick(refs)
            return ['cim', '%s.%s' % (r.owner, r.n), [], known]
        if c == 1:
            return ['ext', src.pick(['data', 'Terminal']), [], known]
        return ['cim', '%s.%s' % (owner, src.pick(unknown)), [['rdf', 'parseType', 'Resource']] if src.flag() else [], known]
    if k == 15:     # many levels
        node = src.pick([text(src), 'x'])
        for i in range(2 + src.n(60)):
            node = [('ext', 'cim2', 'ext', 'cim')[(i + k) % (3 if i < 2 else 4)], src.pick(['y', 'data', 'A.b'] if i % 3 else unknown), [], [node]]
        return ['cim', '%s.%s' % (owner, src.pick(unknown)), [], [node]] if src.flag() else ['ext', 'tree', [], [node]]
    return ['ext', 'nothing', [], []]


def noise_item(src, m, ids, n, k=None):
    k = src.n(6) if k is None else k
    cls = src.pick(m.names)
    st = [noise_statement(src, m, cls, ids, src.pick([0, 1, 4, 5, 8, 9, 14])) for _ in range(src.n(3))]
    known = [s for s in [attribute_statement(src, m, cls, a) for a in src.subset(list(m.attrs(cls).values()), 2)] if s] if m.attrs(cls) else []
    body = [statement_node(s) for s in known] + st
    some = src.pick(ids) if ids else 'nobody'
    if k == 0:      # a class the map does not have
        body.append(['cim', '%s.x' % cls, [['rdf', 'resource', '#' + some]], []])
        if src.flag():
            body.insert(0, ['cim', 'IdentifiedObject.name', [], ['of an unknown class']])
        how = src.pick(['ID', 'ID', 'about'])
        one = some if ids and src.byte() % 3 == 1 else 'un%d' % n       # it may have the identifier of an object
        return ['cim', unknown_class(src, m), [['rdf', how, one if how == 'ID' and one == some else '#' + one]], body]
    if k == 1:      # unidentified
        return ['cim', cls, src.pick([[], [['', 'ID', 'x']], [['ext', 'ID', 'x']], [['', 'id', 'y']], [['rdf', 'nodeID', 'z']]]), body]
    if k == 2:      # other namespaces
        return ['ext', src.pick(['FullModel', cls, 'Description']), [['rdf', src.pick(['ID', 'about']), '#' + some]],
                [['ext', 'Model.created', [], [text(src)]], ['ext', 'Model.scenarioTime', [], []]]]
    if k == 3:
        return ['cim2', cls, [['rdf', 'ID', 'o%d' % n]], [['cim2', '%s.%s' % (s[2], s[1]), [], ['x']] for s in known]]
    if k == 4:
        return ['rdf', 'Description', [['rdf', 'about', '#' + some]], [['ext', 'p', [], [text(src)]]]]
    return ['cim2', 'Empty', [], []]


def add_noise(src, m, doc, most=6, kind=None):
    """Insert passed-over content (of one kind, if given) at random places; returns the number of insertions."""
    ids = [it['id'] for it in doc['items'] if 'node' not in it]
    items = [dict(it, st=list(it['st'])) for it in doc['items']]
    count = 0
    for n in range(1 + src.n(most)):
        k = src.byte()
        mine = [it for it in items if 'node' not in it]
        if kind is not None and kind < STATEMENTS and mine:
            it = src.pick(mine)
            it['st'].insert(src.n(len(it['st']) + 1), ['node', noise_statement(src, m, it['cls'], ids, kind)])
        elif kind is not None or k % 3 == 0 or not mine:
            items.insert(src.n(len(items) + 1), {'node': noise_item(src, m, ids, n, None if kind is None or kind < STATEMENTS else kind - STATEMENTS)})
        elif k % 12 == 2 and any(s[0] != 'node' for it in mine for s in it['st']):
            it = src.pick([it for it in mine if any(s[0] != 'node' for s in it['st'])])
            i = src.pick([i for i, s in enumerate(it['st']) if s[0] != 'node' and not is_extra(s[-1])] or [-1])
            if i >= 0:
                x = [['rdf', 'datatype', 'http://www.w3.org/2001/XMLSchema#float']] if it['st'][i][0] == 'lit' and src.flag() else \
                    [src.pick([['', 'xml:lang', src.pick(['en', 'de', '', 'zh-Hans', 'en-GB'])], ['', 'xml:space', src.pick(['default', 'preserve'])], ['', 'xml:base', 'http://example.com/'], ['rdf', 'parseType', 'Literal'], ['rdf', 'x', 'y'], ['ext', 'resource', '#x'], ['ext', 'ID', 'y'], ['rdf', 'ID', 'statement%d' % n], ['', 'resource', '#z'], ['cim2', 'about', '#z'], ['', 'id', 'w']])]
                it['st'][i] = it['st'][i] + [{'x': x}]
        elif k % 3 == 1:
            it = src.pick(mine)
            it['st'].insert(src.n(len(it['st']) + 1), ['node', noise_statement(src, m, it['cls'], ids)])
        else:
            it = src.pick(mine)
            x = src.pick([['ext', 'note%d' % n, 'a & b'], ['', 'note%d' % n, 'x'], ['cim2', 'mRID%d' % n, 'y'], ['rdf', 'x%d' % n, '#y'], ['', 'xml:lang', src.pick(['de', ''])], ['', 'xml:base', 'http://example.com/m#'], ['', 'about', '#z'], ['ext', 'about', '#z'], ['cim2', 'ID', 'w']])
            if all(x[:2] != y[:2] for y in it.get('xattrs', [])):
                it['xattrs'] = it.get('xattrs', []) + [x]
        count += 1
    return {'ns': doc['ns'], 'items': items}, count

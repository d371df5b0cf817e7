"""Object graphs to be written: cases and their construction, and independent parsing of the output.

case = {'objs': [{'cls', 'uuid', 'attrs': {name: value}}], 'links': [[i, ref, j], ...], 'inside': [i, ...]}
`inside` is the dictionary given to the writer, in order; other objects are only reachable from it.
With `keys`, its keys are not the UUIDs of the objects."""
import collections
import xml.parsers.expat

from . import schema
from .docs import ABOUTS, IDS, alike, corpus, gen_corpus, long_id
from .gen import as_read, by_hand, dec, enc, stretch
from .runner import fail
from .world import RefModel, do_add, do_set


def writable(r):
    """Links the writer states: single-valued references (see the known findings of C14)."""
    return not r.many or r.opposite is not None and not r.opposite.many


def uuid(src, n):
    k = src.byte()
    if k > 200:
        return alike(n)[0]
    if k > 196:
        return long_id(k, n)
    if k % 4 == 3:
        return ABOUTS[k // 4 % len(ABOUTS)] % n
    if k % 16 == 2:
        return (' lead%d', 'a\tb\n%d', '%d trail ', '<%d>', "it's \"%d\"", '\U0001f50c%d')[k // 16 % 6] % n
    return IDS[k // 4 % len(IDS)] % n


def gen_graph(src, m, classes, count, attrs=5, links=5, all_links=False, outside=True, any_keys=False):
    rm = RefModel(m)
    objs, out = [], []

    def new(cls):
        rm.new(cls)
        objs.append({'cls': cls, 'uuid': uuid(src, len(objs)), 'attrs': {}})
        return len(objs) - 1
    for k in range(count):
        new(classes[0] if k == 0 and len(classes) == 1 else src.pick(classes))
    for _ in range(links if count else 0):
        i = src.n(len(objs))
        rs = [r for r in m.refs(rm.cls[i]).values() if r.to is not None and (all_links or writable(r))
              and (not r.opposite or rm.cls[i] in m.targets(r.opposite))]
        if not rs:
            continue
        r = src.pick(rs)
        ts = m.targets(r)
        old = [j for j, c in enumerate(rm.cls) if c in ts]
        k = src.byte()
        if old and k % 3:
            j = old[(k // 3) % len(old)]
        elif len(objs) < count + 6:
            j = new(ts[0] if k % 2 else src.pick(ts))
        else:
            continue
        if r.many and r.opposite is None and rm.linked(i, r.n, j):
            continue
        rm.link(i, r.n, j)
        out.append([i, r.n, j])
    for o in objs:
        al = list(m.attrs(o['cls']).values())
        k = src.byte()
        for a in ([a for a in al if src.byte() & 1] if k % 5 == 1 else src.subset(al, attrs) if al else ()):
            if a.t == 'float' and src.byte() % 12 == 5:
                continue
            o['attrs'][a.n] = enc(by_hand(src, a))
    keys = any_keys and src.byte() % 4 == 1
    if keys:        # the dictionary's keys are not the UUIDs, and an object may have none
        k = src.n(4)
        for o in objs[:1 + src.n(2)]:
            o['uuid'] = objs[-1]['uuid'] if k == 3 else ''
    inside = list(range(len(objs)))
    if outside and src.byte() % 4 == 1:
        inside = [i for i in inside if src.byte() % 4]
    if src.byte() % 3:
        inside = src.shuffle(inside)
    if keys and inside and src.flag():      # an object under several keys
        for _ in range(1 + src.n(3)):
            inside.insert(src.n(len(inside) + 1), src.pick(inside))
    g = {'objs': objs, 'links': out, 'inside': inside}
    if keys:
        g['keys'] = 1
    k = src.n(8)
    if k > 4:
        g['dict'] = k
    return g


def large_graph(src, m, **kw):
    """A graph of tens to hundreds of objects"""
    n = (30, 80, 200, 500)[src.n(4)] + src.n(20)
    long = src.pick([0, 0, 5000, 17000, 40000, 70000, 140000])
    src = stretch(src, 60 * n + 300)
    g = gen_graph(src, m, [src.pick(m.names) for _ in range(1 + src.n(12))], n, attrs=3, links=n, **kw)
    if long:
        g['long'] = long
    return g


def corpus_graph(src, m, sizes=(20, 60, 150, 300, 20, 60, 150, 1200)):
    """Objects of docs.corpus"""
    items = corpus(gen_corpus(src, sizes))['items']
    at = {it['id']: k for k, it in enumerate(items)}
    objs, links = [], []
    for k, it in enumerate(items):
        objs.append({'cls': it['cls'], 'uuid': it['id'], 'attrs': {s[1]: s[4] for s in it['st'] if s[0] != 'ref'}})
        links += [[k, s[1], at[s[3]]] for s in it['st'] if s[0] == 'ref']
    return {'objs': objs, 'links': links, 'inside': list(range(len(objs)))}


class Registry(dict):
    pass


def container(kind, d):
    """The entries of d, in their order, in a dictionary of some kind"""
    if kind == 5:       # one whose order is not that in which its entries were made
        e = collections.OrderedDict(reversed(list(d.items())))
        for k in d:
            e.move_to_end(k)
        return e
    if kind == 6:
        return Registry(d)
    if kind == 7:       # one from which entries were taken
        e = {}
        for k, (x, y) in enumerate(d.items()):
            e['gone%d' % k], e[x] = y, y
        for k in range(len(d)):
            del e['gone%d' % k]
        return e
    return d


class Graph:
    def __init__(self, m, case):
        self.m, self.case, self.rm, self.objs = m, case, RefModel(m), []
        for o in case['objs']:
            attrs = {n: dec(v) for n, v in o['attrs'].items()}
            if len(self.objs) in (5, 9) and case.get('long'):       # one long text
                for n, a in m.attrs(o['cls']).items():
                    if a.t == 'str' and not a.e:
                        attrs[n] = ('x', '\u00e9<y>\n')[len(self.objs) == 9] * (case['long'] // 3)
                        break
            self.rm.new(o['cls'], attrs)
            x = m.py(o['cls'])(UUID=o['uuid'])
            for n, v in attrs.items():
                setattr(x, n, v)
            self.objs.append(x)
        for i, n, j in case['links']:
            r = self.rm.ref(i, n)
            if r.many:
                do_add(self.objs[i], r, [self.objs[j]])
            else:
                do_set(self.objs[i], r, self.objs[j], False)
            self.rm.link(i, n, j)
        self.inside = case['inside']
        self.d = container(case.get('dict'), {'key %d' % k if case.get('keys') else case['objs'][i]['uuid']: self.objs[i] for k, i in enumerate(self.inside)})

    def snapshot(self):
        """Every feature of every object, by identity and order; and the dictionary."""
        out = []
        for i, o in enumerate(self.objs):
            row = [o.UUID]
            for n in self.m.attrs(self.rm.cls[i]):
                row.append((n, type(getattr(o, n)), repr(getattr(o, n))))
            for n in self.m.refs(self.rm.cls[i]):
                v = getattr(o, n)
                row.append((n, [id(x) for x in v] if isinstance(v, list) else id(v)))
            row.append(sorted(k for k in vars(o) if k[0] != '_'))
            out.append(row)
        return out, [(k, id(v)) for k, v in self.d.items()]

    def closed(self):
        ins = set(self.inside)
        return not any(self.rm.expect(i, n) is not None and self.rm.expect(i, n) not in ins
                       for i in ins for n, r in self.m.refs(self.rm.cls[i]).items() if not r.many)

    def tree(self):
        """What the written document must state: [(class, uuid, sorted statements)]"""
        return tree(self.rm, [o['uuid'] for o in self.case['objs']], self.inside)


def tree(rm, uuids, inside):
    out = []
    for i in inside:
        cls, st = rm.cls[i], []
        for n, a in rm.m.attrs(cls).items():
            v = rm.attrs[i][n]
            if a.e:
                st.append(('enum', '%s.%s' % (a.owner, n), '%s.%s' % (a.e, v)))
            elif v != a.d:
                st.append(('attr', '%s.%s' % (a.owner, n), as_read(a, v)))
        for n, r in rm.m.refs(cls).items():
            if not r.many and rm.expect(i, n) is not None:
                st.append(('ref', '%s.%s' % (r.owner, n), '#' + uuids[rm.expect(i, n)]))
        out.append((cls, uuids[i], st))
    return out


# ---- an independent parser: a plain tree, namespaces optional --------------------------------------
class Node:
    __slots__ = ('tag', 'attrs', 'content')

    def __init__(self, tag, attrs):
        self.tag, self.attrs, self.content = tag, attrs, []

    def text(self):
        return ''.join(c for c in self.content if isinstance(c, str))

    def kids(self):
        return [c for c in self.content if not isinstance(c, str)]

    def same(self, o):
        return self.tag == o.tag and self.attrs == o.attrs and len(self.content) == len(o.content) and all(
            a == b if isinstance(a, str) or isinstance(b, str) else a.same(b) for a, b in zip(self.content, o.content))


def parse(data, namespaces=True):
    """Root Node of a well-formed document; xml.parsers.expat.ExpatError otherwise."""
    p = xml.parsers.expat.ParserCreate(namespace_separator='}' if namespaces else None)
    p.buffer_text = True
    stack, root = [], []

    def start(tag, attrs):
        n = Node(tag, attrs)
        if stack:
            stack[-1].content.append(n)
        else:
            root.append(n)
        stack.append(n)

    def end(tag):
        stack.pop()

    def chars(t):
        c = stack[-1].content
        if c and isinstance(c[-1], str):
            c[-1] += t
        else:
            c.append(t)
    p.StartElementHandler, p.EndElementHandler, p.CharacterDataHandler = start, end, chars
    p.Parse(data, True)
    return root[0]


# ---- what a written document states ------------------------------------------------------------------
def same(v, t):
    try:
        if isinstance(v, bool):
            return {'true': True, 'false': False, '1': True, '0': False}[t.strip().lower()] is v
        if isinstance(v, int):
            return int(t) == v
        if isinstance(v, float):
            return float(t) == v or v != v and float(t) != float(t)
    except (ValueError, KeyError):
        return False
    return v == t


def check_written(m, data, want, labels):
    """The document states `want` (see Graph.tree) and nothing else; returns the number of attributes and references"""
    try:
        root = parse(data)
    except xml.parsers.expat.ExpatError as e:
        fail('the output is not well-formed: %s: %r', e, data[:600])
    cim, rdf = schema.CIM_NS[schema.version(m.name)] + '#}', schema.RDF_NS + '}'
    if root.tag != rdf + 'RDF':
        fail('the root element is %s', root.tag)
    if root.text().strip():
        fail('there is text between the objects: %r', root.text()[:80])
    kids = root.kids()
    if len(kids) != len(want):
        fail('%d elements for %d objects', len(kids), len(want))
    n = 0
    for e, (cls, uuid, st) in zip(kids, want):
        if e.tag != cim + cls:
            fail('element %s, expected %s', e.tag, cim + cls)
        if e.attrs != {rdf + 'ID': uuid}:
            fail('%s has the attributes %s, expected the identifier %r', cls, e.attrs, uuid)
        if e.text().strip():
            fail('%s contains text %r', cls, e.text()[:80])
        todo = {}
        for kind, tag, v in st:
            todo[tag] = (kind, v)
            labels.add(kind + (' ' + type(v).__name__ if kind == 'attr' else ''))
            n += kind != 'enum'
        for c in e.kids():
            tag = c.tag[len(cim):] if c.tag.startswith(cim) else c.tag
            if tag not in todo:
                fail('%s %r has an unexpected or repeated statement %s (%s %r)', cls, uuid, tag, c.attrs, c.text()[:80])
            kind, v = todo.pop(tag)
            if c.kids():
                fail('%s has elements in it', tag)
            if kind == 'attr':
                if c.attrs or not same(v, c.text()):
                    fail('%s of %r is written as %r %s, expected %r', tag, uuid, c.text()[:200], c.attrs or '', v)
            else:
                uri = v if kind == 'ref' else cim[:-1] + v
                if c.text() or c.attrs != {rdf + 'resource': uri}:
                    fail('%s of %r is written as %s %r, expected the resource %r', tag, uuid, c.attrs, c.text()[:80], uri)
        if todo:
            fail('%s %r lacks %s', cls, uuid, sorted(todo.items())[0])
    return n

"""C21  Objects, dictionary and documents stay in step over an editing session."""
import os
import tempfile

from .. import docs, schema
from ..gen import as_read, by_hand, cases, dec, enc
from ..graphs import check_written, tree, uuid, writable
from ..runner import fail
from ..world import RefModel, compare, do_add, do_remove, do_set
from .c14 import write

RULE = ('one slice per group of 12 classes of each model: sessions of up to 30 steps on one dictionary: make objects (with attributes '
        'and partners given or not), set attributes, set, assign, add to, remove from and clear associations, take objects out of the dictionary, '
        'read a document about known and new objects into it, write it (compared with the session as C15 does), read the written '
        'document back into the same dictionary (nothing may change) and go on with what was read back into a new one. After '
        'every step the dictionary and all features of all objects are compared with the session\'s reference model; the objects '
        'left behind by reading back must stay as they were. Non-trivial: a document was written, or read, after at least 4 changes and followed by another.')
ASSUMPTIONS = ['values are of the types the schema gives and XML-representable', 'keys are the UUIDs of the objects, each used once in a session',
               'many-to-many and one-way many-valued links are not generated (known findings of C14)',
               'a document states a single-valued end with the partner it has, or one for an end that has none',
               'the ends hidden by an inherited association of the same name (known findings of C01) are not generated']
MOST = 26       # objects of a session


def jobs(tier):
    k = 200 if tier == 'quick' else 1200
    return [([name, i], k) for name, m in schema.models().items() for i in range(0, len(m.names), 12)]


def usable_refs(m, cls):
    return [r for r in m.refs(cls).values() if r.to is not None and writable(r) and not (m.is_trio(r) and r.n == 'PerLengthImpedance')
            and (not r.opposite or cls in m.targets(r.opposite))]


class State:
    """What a session must have made: used by the generator and by the executor"""

    def __init__(self, m):
        self.m, self.rm, self.uuids = m, RefModel(m), []
        self.inside = {}        # the dictionary: UUID -> object
        self.live = []          # objects that may still be worked with
        self.old = 0            # objects before this one have been left behind

    def new(self, cls, ident, attrs=None):
        i = self.rm.new(cls, attrs)
        self.uuids.append(ident)
        self.live.append(i)
        self.inside[ident] = i
        return i

    def apply(self, step):
        op, rm = step[0], self.rm
        if op == 'new':
            i = self.new(step[1], step[2], {n: dec(v) for n, v in step[3].items()})
            for n, js in step[4]:
                rm.assign(i, n, js)
        elif op == 'attr':
            rm.attrs[step[1]][step[2]] = dec(step[3])
        elif op in ('set', 'assign'):
            rm.assign(step[1], step[2], step[3])
        elif op == 'add':
            for j in step[3]:
                rm.link(step[1], step[2], j)
        elif op == 'remove':
            for j in step[3]:
                rm.unlink(step[1], step[2], j)
        elif op == 'drop':
            del self.inside[step[1]]
        elif op == 'put':
            self.inside[self.uuids[step[1]]] = step[1]
        elif op == 'read':
            exp = docs.Expected(self.m)
            exp.rm, exp.ids = rm, self.inside
            n = len(rm.cls)
            exp.read({'items': step[1]})
            names = {i: u for u, i in self.inside.items()}
            for i in range(n, len(rm.cls)):
                self.uuids.append(names[i])
                self.live.append(i)
        elif op == 'reload':
            was = dict(self.inside)
            self.inside, self.live, self.old = {}, [], len(rm.cls)
            to = {i: self.new(rm.cls[i], u, {a.n: as_read(a, rm.attrs[i][a.n]) for a in self.m.attrs(rm.cls[i]).values()}) for u, i in was.items()}
            for i, k in to.items():
                for n, r in self.m.refs(rm.cls[i]).items():
                    if not r.many and not (self.m.is_trio(r) and n == 'PerLengthImpedance') and rm.val[i][n] in to:
                        rm.link(k, n, to[rm.val[i][n]])
        return self


def gen_step(src, st, classes):
    m, rm = st.m, st.rm
    k = src.n(28)
    if k < 5 and len(rm.cls) - st.old < MOST or not st.live:      # a new object, perhaps a partner of one there is
        cls, links = src.pick(classes), []
        if k >= 2 and st.live:
            i = src.pick(st.live)
            rs = usable_refs(m, rm.cls[i])
            if rs:
                cls = src.pick(m.targets(src.pick(rs)))
        al = list(m.attrs(cls).values())
        attrs = {a.n: enc(by_hand(src, a)) for a in (src.subset(al, 3) if al else ())}
        if src.flag():
            rs = [r for r in usable_refs(m, cls) if any(rm.cls[j] in m.targets(r) for j in st.live)]
            if rs:
                r = src.pick(rs)
                js = [j for j in st.live if rm.cls[j] in m.targets(r)]
                links = [[r.n, src.subset(js, 3) if r.many else [src.pick(js)]]]
        return ['new', cls, uuid(src, len(rm.cls)), attrs, links]
    i = src.pick(st.live)
    if k < 9:
        al = list(m.attrs(rm.cls[i]).values())
        if al:
            a = src.pick(al)
            return ['attr', i, a.n, enc(by_hand(src, a) if src.byte() % 5 else a.d)]
    elif k < 19:
        rs = usable_refs(m, rm.cls[i])
        have = [r for r in rs if rm.partners(i, r.n)]
        rs = have if have and k % 3 == 0 else [r for r in rs if any(rm.cls[j] in m.targets(r) for j in st.live)]
        if not rs:
            return None
        r = src.pick(rs)
        js, mine = [j for j in st.live if rm.cls[j] in m.targets(r)], rm.partners(i, r.n)
        c = src.byte()
        if mine and c % 8 == 1:
            return ['assign' if r.many else 'set', i, r.n, [], c // 8 % 2]
        if not js:
            return None
        if not r.many:
            return ['set', i, r.n, [src.pick(js)], c // 8 % 2]
        if mine and c % 8 in (2, 3):
            return ['remove', i, r.n, src.subset(mine, 2) or mine[:1]]
        some = src.subset(js, 4) or js[:1]
        return ['assign', i, r.n, some, c // 8 % 2] if c % 8 > 5 else ['add', i, r.n, some]
    elif k == 19:
        out = [j for j in st.live if st.uuids[j] not in st.inside]
        if out and src.flag():
            return ['put', src.pick(out)]
        if len(st.inside) > 1:
            return ['drop', src.pick(list(st.inside))]
    elif k < 23:
        return gen_read(src, st, classes)
    elif k == 23:
        return ['reload', gen_write(src), src.n(2)]
    elif k < 26:
        return ['reread', gen_write(src), src.n(2)]
    else:
        return ['write', gen_write(src)]


def gen_write(src):
    return {'target': src.pick(['text', 'path']), 'encoding': src.pick(['utf-8', 'us-ascii'])}


def gen_read(src, st, classes):
    """A document about new objects and objects of the dictionary"""
    m = st.m
    t = RefModel(m)     # what the document's objects are linked to, so far
    ids, cls, items, known, stated = [], [], [], {}, set()

    def item(ident, c, about):
        ids.append(ident)
        cls.append(c)
        items.append({'cls': c, 'id': ident, 'about': about, 'st': []})
        return len(ids) - 1
    for u in src.subset(list(st.inside), 3):
        known[st.inside[u]] = item(u, st.rm.cls[st.inside[u]], src.byte() % 3 > 0)
    for k in range(src.n(4)):
        c = src.pick(classes)
        if known and src.flag():
            rs = usable_refs(m, src.pick(cls))
            if rs:
                c = src.pick(m.targets(src.pick(rs)))
        if len(st.rm.cls) - st.old + k < MOST:
            item(uuid(src, len(st.rm.cls) + k), c, src.byte() % 4 == 3)
    if not ids:
        return None
    at = [next((i for i, k in known.items() if k == x), None) for x in range(len(ids))]
    for x in range(len(ids)):
        t.new(cls[x])

    def partner(x, n):
        """The single-valued end's partner: index in the document, UUID of another object, or None"""
        if t.val[x][n] is not None:
            return ids[t.val[x][n]]
        if at[x] is not None and st.rm.val[at[x]][n] is not None:
            return st.uuids[st.rm.val[at[x]][n]]
        return None

    def trio_free(x):
        return all(partner(x, n) is None for n in ('SequenceImpedance', 'PhaseImpedance'))
    for _ in range(src.n(6)):
        x = src.n(len(ids))
        rs = usable_refs(m, cls[x])
        if not rs:
            continue
        r = src.pick(rs)
        ys = [y for y in range(len(ids)) if cls[y] in m.targets(r)]
        if not ys:
            continue
        y = src.pick(ys)
        if (x, r.n, y) in stated:
            continue
        o = r.opposite
        if not r.many and partner(x, r.n) not in (None, ids[y]) or o and not o.many and partner(y, o.n) not in (None, ids[x]):
            continue
        if m.is_trio(r) and not (partner(x, r.n) == ids[y] or trio_free(x)) or o and m.is_trio(o) and not (partner(y, o.n) == ids[x] or trio_free(y)):
            continue
        t.link(x, r.n, y)
        stated |= {(x, r.n, y)} | ({(y, o.n, x)} if o else set())
        k = src.n(4)
        if k != 1 or not o:
            items[x]['st'].append(['ref', r.n, docs.qualifier(src, m, cls[x], r), ids[y]])
        if k in (1, 2) and o:
            items[y]['st'].append(['ref', o.n, docs.qualifier(src, m, cls[y], o), ids[x]])
    for x in range(len(ids)):
        al = list(m.attrs(cls[x]).values())
        for a in (src.subset(al, 3) if al else ()):
            s = docs.attribute_statement(src, m, cls[x], a)
            if s:
                items[x]['st'].insert(src.n(len(items[x]['st']) + 1), s)
    # references may be to objects of the dictionary that the document does not describe
    for x in range(len(ids)):
        rs = [r for r in usable_refs(m, cls[x]) if not r.many and not m.is_trio(r) and partner(x, r.n) is None]
        if rs and src.flag():
            r = src.pick(rs)
            us = [u for u, i in st.inside.items() if st.rm.cls[i] in m.targets(r) and u not in ids
                  and (not r.opposite or r.opposite.many or st.rm.val[i][r.opp] is None)]
            if us and not any(s[0] == 'ref' and s[3] == us[0] for it in items for s in it['st']):
                items[x]['st'].append(['ref', r.n, r.owner, us[0]])
    # an object taken out of the dictionary is not referred to
    out = [i for i in st.live if st.uuids[i] not in st.inside]
    if out and src.flag():
        i, x = src.pick(out), src.n(len(ids))
        rs = [r for r in m.refs(cls[x]).values() if st.rm.cls[i] in m.targets(r)] or list(m.refs(cls[x]).values())
        if rs:
            r = src.pick(rs)
            items[x]['st'].insert(0, ['ref', r.n, r.owner, st.uuids[i]])
    for it in items:
        it['tag'] = docs.other_tag(src, m, it['cls'])
    return ['read', src.shuffle(items) if src.flag() else items, docs.gen_style(src) if src.byte() % 4 == 1 else docs.PLAIN,
            src.pick(docs.Source.KINDS), src.n(2)]


def strategy(job):
    m = schema.model(job[0])
    classes = m.names[job[1]:job[1] + 12]

    def decode(src):
        st, steps, count = State(m), [], 6 + src.n(25)
        for _ in range(count):
            if not src.more():
                break
            step = gen_step(src, st, classes)
            if step:
                steps.append(step)
                st.apply(step)
        return {'steps': steps}
    return cases(decode, 700)


def execute(job, case):
    m = schema.model(job[0])
    st, objs, index, d, labels = State(m), [], {}, {}, set()
    changes, documents = 0, 0
    ns = schema.CIM_NS[schema.version(m.name)]

    def args(mapped):
        return (m.package_map(), ns) if mapped else docs.read_args(m, ns)

    def keep(o):
        index[id(o)] = len(objs)
        objs.append(o)

    def check(when, order=True):
        if set(d) != set(st.inside):
            fail('%s: the identifiers are %s, expected %s', when, sorted(d)[:20], sorted(st.inside)[:20])
        for u, i in st.inside.items():
            if i == len(objs) or i > len(objs):
                for k in d:     # objects a read has made, in their order
                    if st.inside[k] == len(objs):
                        keep(d[k])
        for u, i in st.inside.items():
            if i >= len(objs) or d[u] is not objs[i]:
                fail('%s: %r is another object', when, u)
        for u, i in st.inside.items():
            if type(d[u]) is not m.py(st.rm.cls[i]) or d[u].UUID != u:
                fail('%s: %r is the %s %r, expected a %s', when, u, type(d[u]).__name__, d[u].UUID, st.rm.cls[i])
        if len(index) != len(objs):
            fail('%s: two objects are the same', when)
        compare(st.rm, objs, when, only=set(range(st.old, len(objs))), index=index)
    for n, step in enumerate(case['steps']):
        op, when = step[0], 'step %d, %s' % (n + 1, ' '.join(str(x) for x in step[:3] if not isinstance(x, (list, dict))))
        labels.add(op)
        if op in ('write', 'reread', 'reload'):
            data = write(d, step[1])
            check_written(m, data, tree(st.rm, st.uuids, [st.inside[u] for u in d]), labels)
            check(when + ', after writing')
            if op == 'reread':
                before = lists(m, st, objs)
                r = docs.read_bytes(data, args(step[2]), start_dict=d)
                if r is not d:
                    fail('%s: the dictionary returned is not the one passed in', when)
                for i in st.inside.values():
                    for a in m.attrs(st.rm.cls[i]).values():
                        if st.rm.attrs[i][a.n] != a.d:
                            st.rm.attrs[i][a.n] = as_read(a, st.rm.attrs[i][a.n])
                if lists(m, st, objs) != before:
                    fail('%s: reading the written document back into its dictionary changed the order of a list', when)
            elif op == 'reload':
                with tempfile.TemporaryDirectory(dir='/dev/shm' if os.path.isdir('/dev/shm') else None) as tmp:
                    p = os.path.join(tmp, 'model.xml')
                    with open(p, 'wb') as f:
                        f.write(data)
                    d = docs.cimread(p, *(args(step[2]) if d else args(1)))
                st.apply(step)
                order = {u: k for k, u in enumerate(d)}
                if list(st.inside) != list(d) and set(st.inside) == set(d):
                    fail('%s: the objects come in the order %s, expected %s', when, list(order)[:20], list(st.inside)[:20])
            documents += bool(changes >= 4)
        elif op == 'read':
            known = set(st.inside)
            st.apply(step)
            r = docs.read_bytes(docs.render({'ns': ns, 'items': docs.tags_again(step[1], known)}, step[2]), args(step[4]), step[3], start_dict=d)
            if r is not d:
                fail('%s: the dictionary returned is not the one passed in', when)
            labels |= {'reference to an object outside' for it in step[1] for x in it['st'] if x[0] == 'ref' and x[3] not in st.inside}
            labels |= {'read about known objects' for it in step[1] if it['id'] in known and it['st']}
            documents += changes >= 4
        else:
            changes += 1
            if op == 'new':
                _, cls, u, attrs, links = step
                kw = {a: dec(v) for a, v in attrs.items()}
                for r, js in links:
                    kw[r] = [objs[j] for j in js] if m.refs(cls)[r].many else objs[js[0]]
                keep(m.py(cls)(UUID=u, **kw))
                d[u] = objs[-1]
            elif op == 'attr':
                setattr(objs[step[1]], step[2], dec(step[3]))
            elif op == 'drop':
                del d[step[1]]
            elif op == 'put':
                d[st.uuids[step[1]]] = objs[step[1]]
            else:
                o, r, js = objs[step[1]], m.refs(st.rm.cls[step[1]])[step[2]], [objs[j] for j in step[3]]
                if op == 'add':
                    do_add(o, r, js)
                elif op == 'remove':
                    do_remove(o, r, js)
                else:
                    do_set(o, r, js if r.many else js[0] if js else None, step[4])
            st.apply(step)
        check(when)
        if op == 'reload':
            compare(st.rm, objs, when + ', the objects left behind', only=set(range(st.old)), index=index)
    compare(st.rm, objs, 'at the end', index=index)
    return documents >= 2, sorted(labels)


def lists(m, st, objs):
    return [[[id(x) for x in getattr(objs[i], n)] for n, r in m.refs(st.rm.cls[i]).items() if r.many] for i in range(st.old, len(objs))]

"""C10  Reads are repeatable and isolated from each other."""
import functools
import io
import os
import resource
import tempfile
import threading

from .. import docs, schema
from ..gen import cases, dec, enc, value
from ..runner import fail
from ..world import do_add, do_set

RULE = ('slices of some hundred reads, writes and prints of one document, with a limit of 300 open files; slices per pair of models: 2-3 documents of the same or different models, and up to 12 steps in one process: read '
        'one of them again (from its path, its open file, or its bytes, with or without a class map), change an earlier '
        'result (attributes, associations, the dictionary), write an earlier result, read or write in the middle of another read or write (from a call of the source or target), or run two or three reads, '
        'writes and pretty-prints in threads that take turns at the calls of their sources and targets, as a schedule says. After every step every living result '
        'must be what its own reads and changes make it, also when a file was replaced by another one under its path; no object is shared between results; files, class maps and fresh '
        'instances stay the same. Non-trivial: a document was read twice with a change or a write in between.')
ASSUMPTIONS = ['the caller rewinds a file object before reading it again', 'operations overlap at the calls of their sources and targets only']


def jobs(tier):
    k = 320 if tier == 'quick' else 3000
    names = sorted(schema.models())
    out = []
    for i, a in enumerate(names):
        out += [([a, a], k), ([a, names[(i + 1) % len(names)]], k), ([a, names[(i + 5) % len(names)]], k)]
    return [([n, n, 'many'], k // 80) for n in ('CIM14', 'CIM15', names[2])] + out + [(['CIM14', 'CIM15'], 4 * k), (['CIM15', 'CIM14'], 4 * k)]


@functools.lru_cache(None)
def only_here(a, b):
    """The classes of model a that model b does not have"""
    return [c for c in schema.model(a).names if c not in schema.model(b).base]


def foreign(src, m, doc, models, others, k):
    """The document with objects and statements of the other documents that its own model does not have, to be passed over"""
    items, n = [dict(it, st=list(it['st'])) if 'node' not in it else it for it in doc['items']], 0
    for j, (o, other) in enumerate(zip(models, others)):
        for it in other['items'] if j != k else ():
            if 'node' in it:
                continue
            names = [s[1] for s in it['st'] if s[0] != 'node']
            if it['cls'] not in m.base:
                node = ['cim', it['cls'], [['rdf', 'ID', 'foreign%d.%d' % (j, n)]], [['cim', '%s.%s' % (it['cls'], x), [], ['1']] for x in names[:2]]]
                items.insert(src.n(len(items) + 1), {'node': node})
                n += 1
            for x in items:
                if 'node' in x or x['cls'] not in o.base:
                    continue
                lacks = [y for y in (names if x['cls'] == it['cls'] else []) + src.subset(sorted(o.attrs(x['cls'])), 2)
                         if y not in m.attrs(x['cls']) and y not in m.refs(x['cls']) and 'Impedance' not in y]
                for y in lacks[:2]:
                    x['st'].insert(src.n(len(x['st']) + 1), ['node', ['cim', '%s.%s' % (x['cls'], y), [], ['1']]])
                    n += 1
    return {'ns': doc['ns'], 'items': items}


def strategy(job):
    ms = [schema.model(n) for n in job[:2]]

    def many(src):
        m = ms[0]
        doc = docs.gen_doc(src, m, [src.pick(m.names) for _ in range(3)], 1 + src.n(3), attrs=2, links=3)
        return {'doc': doc, 'times': 400 + src.n(200), 'source': src.pick(['path', 'path', 'bytes', 'file']), 'steps': [src.pick(['read', 'read', 'write', 'print']) for _ in range(1 + src.n(5))]}
    if job[2:]:
        return cases(many, 200)

    def decode(src):
        nd = 2 + src.n(2)
        steps, count = [['read', src.n(nd), src.n(2)]], 3 + src.n(9)
        while len(steps) < count:
            k = src.byte()
            if k % 20 == 5:
                steps.append(['weave', [[src.pick(['read', 'read', 'write', 'print']), src.n(nd), src.n(2)] for _ in range(2 + src.n(2))],
                              [src.n(3) for _ in range(src.n(40))]])
            elif k % 10 == 6:
                steps.append(['nest', src.n(nd), src.n(2), src.n(nd), src.n(2), src.n(24), src.n(4)])
            elif k % 5 < 2:
                steps.append(['read', src.n(nd), src.n(2)])
            elif k % 5 == 2:
                steps.append(['write', src.n(8)])
            elif k % 25 == 3:
                steps.append(['clear', src.n(8)])
            elif k % 25 in (4, 8):
                steps.append(['replace', src.n(nd), src.n(nd)])
            else:
                steps.append(['change', src.n(8), src.n(8), src.byte(), [src.byte() for _ in range(4)]])
        dd = []
        for k in range(nd):
            m = ms[k % 2]
            # few classes, so that the documents share some
            classes = [m.names[1 + src.n(len(m.names) - 1)] for _ in range(2)]
            own = only_here(job[k % 2], job[1 - k % 2])
            if own and src.flag():      # and some that the other model does not have
                classes[src.n(2)] = src.pick(own)
            doc = docs.gen_doc(src, m, classes, 1 + src.n(3), attrs=2, links=3)
            if k and src.byte() % 3 == 0 and dd[0]['model'] == m.name:
                doc = dict(dd[0]['doc'])
            dd.append({'model': m.name, 'doc': doc, 'source': src.pick(['bytes', 'path', 'file'])})
        plain = [dict(d['doc']) for d in dd]
        for k, d in enumerate(dd):
            if src.byte() % 8 == 3:
                d['doc'] = docs.add_noise(src, schema.model(d['model']), d['doc'], 3)[0]
            if src.byte() % 2:
                d['doc'] = foreign(src, schema.model(d['model']), d['doc'], [schema.model(x['model']) for x in dd], plain, k)
        return {'docs': dd, 'steps': steps, 'alike': src.flag()}
    return cases(decode, 500)


def change(m, exp, objs, who, k, data):
    from ..gen import Src
    src = Src(bytes(data))
    if not objs:
        return False
    i = who % len(objs)
    attrs, refs = list(m.attrs(exp.rm.cls[i]).values()), [r for r in m.refs(exp.rm.cls[i]).values() if r.to is not None and not m.is_trio(r)]
    if k % 3 == 0 and attrs:
        a = src.pick(attrs)
        v = value(src, a)
        setattr(objs[i], a.n, v)
        exp.rm.attrs[i][a.n] = v
    elif refs:
        rs = [r for r in refs if exp.rm.partners(i, r.n)] if k % 3 == 1 else refs
        if not rs:
            return False
        r = src.pick(rs)
        js = [j for j, c in enumerate(exp.rm.cls) if c in m.targets(r) and not exp.rm.linked(i, r.n, j)]
        if k % 3 == 2 and js and (not r.opposite or exp.rm.cls[i] in m.targets(r.opposite)) and not (r.opposite and m.is_trio(r.opposite)):
            j = src.pick(js)
            if r.many:
                do_add(objs[i], r, [objs[j]])
            else:
                do_set(objs[i], r, objs[j], False)
            exp.rm.link(i, r.n, j)
        else:
            do_set(objs[i], r, [] if r.many else None, False)
            exp.rm.assign(i, r.n, [])
    else:
        return False
    return True


class Pieces(io.RawIOBase):
    """A file object that hands out short pieces, and at one of its reads does something else first"""

    def __init__(self, data, at, other):
        self.f, self.at, self.other, self.size = io.BytesIO(data), at, other, max(1, len(data) // 7)

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, *a):
        return self.f.seek(*a)

    def tell(self):
        return self.f.tell()

    def read(self, n=-1):
        self.at -= 1
        if self.at == 0:
            self.other()
        return self.f.read(self.size if n is not None and n >= self.size else n)

    def readinto(self, b):
        data = self.read(len(b))
        b[:len(data)] = data
        return len(data)


class Weave:
    """Runs functions in threads of their own, one at a time: each goes on until it calls turn(), and the schedule says who is next"""

    def __init__(self, schedule):
        self.schedule, self.k, self.events, self.alive, self.me = schedule, 0, [], [], threading.local()
        self.turns = 0

    def turn(self):
        i = self.me.i
        j = self.next()
        if j != i:
            self.turns += 1
            self.events[j].set()
            self.events[i].wait()
        self.events[i].clear()

    def next(self):
        j = self.alive[(self.schedule[self.k % len(self.schedule)] if self.schedule else self.k) % len(self.alive)]
        self.k += 1
        return j

    def run(self, functions):
        out = [None] * len(functions)

        def body(i, f):
            self.me.i = i
            self.events[i].wait()
            self.events[i].clear()
            try:
                out[i] = (f(), None)
            except BaseException as e:
                out[i] = (None, e)
            self.alive.remove(i)
            if self.alive:
                self.events[self.next()].set()
        self.events = [threading.Event() for _ in functions]
        self.alive = list(range(len(functions)))
        ts = [threading.Thread(target=body, args=x, daemon=True) for x in enumerate(functions)]
        for t in ts:
            t.start()
        self.events[self.next()].set()
        for t in ts:
            t.join()
        for _, e in out:
            if e is not None:
                raise e
        return [x for x, _ in out]


class WovenSource(Pieces):
    def __init__(self, data, weave):
        super().__init__(data, 0, None)
        self.weave = weave

    def read(self, n=-1):
        self.weave.turn()
        return super().read(n)


class WovenText(io.StringIO):
    def __init__(self, weave):
        super().__init__()
        self.weave, self.count = weave, 0

    def write(self, s):
        self.count += 1
        if self.count % 5 == 0:
            self.weave.turn()
        return super().write(s)


class Interrupted(io.StringIO):
    """A text target that at one of its writes does something else first"""

    def __init__(self, at, other):
        super().__init__()
        self.at, self.other = at, other

    def write(self, s):
        self.at -= 1
        if self.at == 0:
            self.other()
        return super().write(s)


def signature(m, exp, objs):
    """The lists of a model, by identifier"""
    return [[[x.UUID for x in getattr(o, n)] for n, r in m.refs(exp.rm.cls[i]).items() if r.many] for i, o in enumerate(objs)]


LIMIT = 300


def execute_many(job, case):
    """Some thousand reads, writes and prints in one process that may have a few hundred files open at a time"""
    from PyCIM import cimwrite
    from PyCIM.PrettyPrintXML import xmlpp
    m = schema.model(job[0])
    doc, args = case['doc'], docs.read_args(m, case['doc']['ns'])
    data, exp = docs.render(doc), docs.Expected(m).read(doc)
    before = resource.getrlimit(resource.RLIMIT_NOFILE)
    kept, texts, n = [], {}, 0
    with tempfile.TemporaryDirectory() as tmp:
        p, q = os.path.join(tmp, 'in.xml'), os.path.join(tmp, 'out.xml')
        with open(p, 'wb') as f:
            f.write(data)
        model = docs.cimread(p, *args)
        resource.setrlimit(resource.RLIMIT_NOFILE, (LIMIT, before[1]))
        try:
            with open(p, 'rb') as f:
                while n < case['times']:
                    for step in case['steps']:
                        n += 1
                        f.seek(0)
                        source = p if case['source'] == 'path' else f if case['source'] == 'file' else io.BytesIO(data)
                        if step == 'read':
                            res = docs.cimread(source, *args)
                            if n % 16 < 2 or n > case['times'] - 10:
                                exp.check(res, 'operation %d' % n)
                            if sorted(res) != sorted(model):
                                fail('operation %d: the read gives %s, the first one gave %s', n, sorted(res), sorted(model))
                            if n % 50 == 0:
                                kept.append(res)
                            continue
                        if step == 'print':
                            text = xmlpp(source)
                        elif case['source'] == 'path':
                            cimwrite(model, q)
                            with open(q, 'rb') as g:
                                text = g.read()
                        else:
                            g = io.StringIO()
                            cimwrite(model, g)
                            text = g.getvalue()
                        if texts.setdefault(step, text) != text:
                            fail('operation %d: the %s gives %r, before %r', n, step, text[:600], texts[step][:600])
        finally:
            resource.setrlimit(resource.RLIMIT_NOFILE, before)
    for k, res in enumerate(kept):
        exp.check(res, 'at the end, result %d' % k)
    exp.check(model, 'at the end, the first result')
    return True, ['many operations, from ' + case['source']]


def execute(job, case):
    if job[2:]:
        schema.use_repo()
        return execute_many(job, case)
    schema.use_repo()
    from PyCIM import cimwrite
    labels, results, busy, twice, sigs = set(), [], set(), False, {}
    maps = {d['model']: (schema.model(d['model']).package_map(), dict(schema.model(d['model']).package_map())) for d in case['docs']}
    with tempfile.TemporaryDirectory() as tmp:
        files, content = [], list(range(len(case['docs'])))
        size = max(len(docs.render(d['doc'])) for d in case['docs'])

        def put(k):
            """File k, with the content of document content[k]"""
            p = os.path.join(tmp, '%d.xml' % k)
            data = docs.render(case['docs'][content[k]]['doc'])
            if case.get('alike'):       # files that cannot be told apart by their size and time
                data = data.ljust(size, b'\n')
            with open(p, 'wb') as f:
                f.write(data)
            if case.get('alike'):
                os.utime(p, (1e9, 1e9))
            return p, data, open(p, 'rb') if case['docs'][k]['source'] == 'file' else io.BytesIO(data)
        for k in content:
            files.append(put(k))

        def nest(step, n):
            def how(k, mapped):
                d = case['docs'][content[k]]
                m = schema.model(d['model'])
                return d['doc'], m, docs.read_args(m, d['doc']['ns']) if mapped else (m.package_map(), d['doc']['ns'])
            (doc1, m1, args1), (doc2, m2, args2) = how(*step[1:3]), how(*step[3:5])
            data1, data2, inner = docs.render(doc1), docs.render(doc2), []

            def keep(m, doc, res, k, when):
                exp = docs.Expected(m).read(doc)
                results.append([m, exp, res, exp.check(res, 'step %d, reading document %d %s' % (n + 1, k, when)), k])
            if step[6] & 1:     # the inner one is a write
                victim = docs.cimread(io.BytesIO(data2), *args2)
                f = io.StringIO()
                cimwrite(victim, f)

                def other():
                    g = io.StringIO()
                    cimwrite(victim, g)
                    inner.append(g.getvalue() == f.getvalue())
            else:
                def other():
                    inner.append(docs.cimread(io.BytesIO(data2), *args2))
            if step[6] & 2:     # the outer one is a write
                outer = docs.cimread(io.BytesIO(data1), *args1)
                f2 = io.StringIO()
                cimwrite(outer, f2)
                g2 = Interrupted(1 + step[5], other)
                cimwrite(outer, g2)
                if g2.getvalue() != f2.getvalue():
                    fail('step %d: a write with another operation in its middle gives %r, without %r', n + 1, g2.getvalue()[:600], f2.getvalue()[:600])
            else:
                outer = docs.cimread(Pieces(data1, 1 + step[5], other), *args1)
            keep(m1, doc1, outer, content[step[1]], 'with another operation in its middle')
            if inner and step[6] & 1:
                if not inner[0]:
                    fail('step %d: a write in the middle of another operation gives another document', n + 1)
            elif inner:
                keep(m2, doc2, inner[0], content[step[3]], 'in the middle of another operation')

        def weave(step, n):
            from PyCIM.PrettyPrintXML import xmlpp
            w, functions, wants = Weave(step[2]), [], []
            for what, k, mapped in step[1]:
                d = case['docs'][content[k]]
                m = schema.model(d['model'])
                args = docs.read_args(m, d['doc']['ns']) if mapped else (m.package_map(), d['doc']['ns'])
                data = docs.render(d['doc'])
                if what == 'write':
                    model, f = docs.cimread(io.BytesIO(data), *args), io.StringIO()
                    cimwrite(model, f)
                    g = WovenText(w)
                    functions.append(lambda model=model, g=g: (cimwrite(model, g), g.getvalue())[1])
                    wants.append(f.getvalue())
                elif what == 'print':
                    wants.append(xmlpp(io.BytesIO(data)))
                    functions.append(lambda f=WovenSource(data, w): xmlpp(f))
                else:
                    wants.append((m, d['doc'], content[k]))
                    functions.append(lambda f=WovenSource(data, w), args=args: docs.cimread(f, *args))
            for (what, k, mapped), want, got in zip(step[1], wants, w.run(functions)):
                when = 'step %d, %s of document %d, interleaved with others' % (n + 1, what, content[k])
                if what == 'read':
                    m, doc, k = want
                    exp = docs.Expected(m).read(doc)
                    results.append([m, exp, got, exp.check(got, when), k])
                elif got != want:
                    fail('%s: gives %r, alone %r', when, got[:600], want[:600])
            return w.turns
        try:
            for n, step in enumerate(case['steps']):
                if step[0] == 'nest':      # a read or write in the middle of another one
                    nest(step, n)
                    labels.add('nested')
                elif step[0] == 'weave':
                    labels.add('interleaved' if weave(step, n) > 1 else 'one after the other, in threads')
                elif step[0] == 'read':
                    k = step[1]
                    d = dict(case['docs'][content[k]], source=case['docs'][k]['source'])
                    m = schema.model(d['model'])
                    args = docs.read_args(m, d['doc']['ns']) if step[2] else (m.package_map(), d['doc']['ns'])
                    p, data, f = files[k]
                    if d['source'] != 'path':
                        if f.closed:
                            fail('the read closed the file object')
                        f.seek(0)
                    res = docs.cimread(p if d['source'] == 'path' else f, *args)
                    exp = docs.Expected(m).read(d['doc'])
                    results.append([m, exp, res, exp.check(res, 'step %d, reading document %d' % (n + 1, k)), k])
                    sig = signature(m, exp, results[-1][3])
                    if sigs.setdefault((content[k], bool(args)), sig) != sig:
                        fail('step %d: reading document %d again gives lists in another order', n + 1, content[k])
                    if k in busy:
                        twice = True
                        labels.add('read again after a change or write')
                elif step[0] == 'replace':
                    if content[step[1]] == step[2]:
                        continue
                    files[step[1]][2].close()
                    content[step[1]] = step[2]
                    files[step[1]] = put(step[1])
                    labels.add('file replaced' + ' by one of the same size and time' * bool(case.get('alike')))
                elif results:
                    r = results[step[1] % len(results)]
                    m, exp, res, objs, k = r
                    if res is None:
                        continue
                    if step[0] == 'write':
                        cimwrite(res, io.StringIO())
                        labels.add('write')
                    elif step[0] == 'clear':
                        res.clear()
                        r[2] = None
                        labels.add('dictionary cleared')
                    elif not change(m, exp, objs, step[2], step[3], step[4]):
                        continue
                    else:
                        labels.add('change')
                    busy.add(k)
                seen = {}
                for i, (m, exp, res, objs, k) in enumerate(results):
                    if res is not None:
                        exp.check(res, 'after step %d, result %d (document %d)' % (n + 1, i, k))
                        for o in res.values():
                            if id(o) in seen:
                                fail('results %d and %d share an object', seen[id(o)], i)
                            seen[id(o)] = i
            for k, (p, data, f) in enumerate(files):
                with open(p, 'rb') as g:
                    if g.read() != data:
                        fail('the file of document %d was changed', k)
        finally:
            for p, data, f in files:
                f.close()
    for name, (now, before) in maps.items():
        if now != before:
            fail('the class map of %s was changed', name)
    for d in case['docs']:
        m = schema.model(d['model'])
        for cls in {it['cls'] for it in d['doc']['items'] if 'node' not in it}:
            e = docs.Expected(m)
            e.ids['x'] = e.rm.new(cls)
            e.check({'x': m.py(cls)(UUID='x')}, 'a fresh %s afterwards' % cls)
    if any('node' in it and any(str(x[2]).startswith('foreign') for x in it['node'][2]) for d in case['docs'] for it in d['doc']['items']):
        labels.add('classes of the other model, passed over')
    if any('node' in it or any(s[0] == 'node' for s in it['st']) for d in case['docs'] for it in d['doc']['items']):
        labels.add('content to pass over')
    return twice, sorted(labels)

"""Histories of association operations on a pool of objects, used by C01, C02 and C19.

case = {'pool': [class, ...],
        'frame': [['attr', obj, name, value] | ['link', obj, ref, class], ...],
        'ops': [[op, end, owner, picks, mode], ...]}
`end` is [class that declares it, name].  `owner` and `picks` are small numbers: the executor takes
the owner-th of the pool objects that have the end, and the picks-th of its possible partners (add,
assign), or of its present members (remove), so that every sequence is meaningful after shrinking."""
from . import schema
from .gen import dec, enc, stretch, value
from .runner import fail
from .world import reach, RefModel, compare, do_add, do_remove, do_set, invariant

OPS = ('nop', 'assign', 'assign', 'clear', 'add', 'remove', 'new', 'alias', 'shared', 'self', 'mutate', 'add', 'assign', 'add',
       'remove', 'add')


ALIKE = {'str': 'x', 'int': 3, 'float': 2.5, 'bool': True}


def twins(src):
    return (0, 0, 1, 2)[src.n(4)]


def decode_ops(src, ends, most, width=0):
    """Up to `most` operations; with `width`, ones of up to that many objects"""
    ops = []
    while src.more() and len(ops) < most:
        op = src.pick(OPS)
        if op == 'nop':
            continue
        e = ends[src.n(len(ends))]
        ops.append([op, [e.owner, e.n], src.pick((0, 0, 0, 0, 1, 1, 2, 3)),
                    [src.n(max(8, width)) for _ in range(src.n(width + 1) if width else (1, 2, 2, 3, 3, 4, 1, 0)[src.n(8)])], src.n(4)])
    return ops


def decode_frame(src, m, pool, skip, per_object):
    """Bystanders: attribute values, and links over other associations to extra objects."""
    out = []
    for i, c in enumerate(pool):
        refs = [r for r in m.refs(c).values() if r not in skip and not m.is_trio(r)]
        attrs = list(m.attrs(c).values())
        for _ in range(per_object):
            k = src.byte()
            if k % 3 == 1 and attrs:
                a = src.pick(attrs)
                out.append(['attr', i, a.n, enc(value(src, a))])
            elif k % 3 == 2 and refs:
                r = src.pick(refs)
                ts = [t for t in m.targets(r) if not any(m.refs(t)[x.n] in skip for x in (r.opposite,) if x)]
                if ts:
                    out.append(['link', i, r.n, src.pick(ts)])
    return out


class History:
    """Runs a case on real objects and on the reference model side by side."""

    def __init__(self, m, case, exact=True, hidden=False):
        self.m, self.case, self.exact, self.hidden = m, case, exact, hidden
        self.rm, self.objs, self.index = RefModel(m), [], {}
        self.labels = {'objects that differ in identity only'} if case.get('twins') else set()
        self.changes = 0
        self.caller = {}            # lists the caller keeps: key -> (list, expected contents)
        for c in case['pool']:
            self.create(c)
        self.pool = len(self.objs)

    def create(self, cls, kwargs=None, links=()):
        i = self.rm.new(cls)
        kwargs = dict(kwargs or {})
        twins = self.case.get('twins')
        if twins:       # objects that differ in identity only
            kwargs['UUID'] = 'u'
        if twins == 2:
            for n, a in self.m.attrs(cls).items():
                kwargs[n] = self.rm.attrs[i][n] = ALIKE[a.t] if not a.e else a.d
        o = self.m.py(cls)(**kwargs)
        self.objs.append(o)
        self.index[id(o)] = i
        for n, js in links:
            self.rm.assign(i, n, js)
        return i

    def frame(self):
        for kind, i, n, x in self.case.get('frame', ()):
            r = self.m.refs(self.rm.cls[i]).get(n)
            if kind == 'attr':
                v = dec(x)
                setattr(self.objs[i], n, v)
                self.rm.attrs[i][n] = v
            else:
                j = self.create(x)
                if r.many:
                    do_add(self.objs[i], r, [self.objs[j]])
                else:
                    do_set(self.objs[i], r, self.objs[j], False)
                self.rm.link(i, n, j)
            self.labels.add('bystander ' + kind)

    def owners(self, ref):
        """Pool objects having the end.  Objects made by 'new' belong to the pool, frame extras do not."""
        return [i for i in self.pool_ids() if self.m.refs(self.rm.cls[i]).get(ref.n) is ref]

    def pool_ids(self):
        return list(range(self.pool)) + self.made

    def partners(self, ref):
        # hidden: also the classes whose end has been replaced by another one of the same name (known findings)
        ok = set(self.m.descendants(ref.to) if self.hidden else self.m.targets(ref))
        return [i for i in self.pool_ids() if self.rm.cls[i] in ok]

    def run(self, after=None):
        self.made = []
        self.frame()
        for k, op in enumerate(self.case['ops']):
            if self.step(op):
                self.changes += 1
                self.check('after operation %d %s' % (k + 1, op[:2] + op[4:]))
                if after:
                    after(self, k)
        self.finish()
        if self.exact and self.objs:
            linked = [i for i in range(len(self.objs)) if any(self.rm.partners(i, n) for n in self.rm.val[i])]
            if linked:
                k = linked[len(self.case['ops']) % len(linked)]
                for i, o in enumerate(self.objs):
                    o.UUID = 'object %d' % i
                kept, o = self.objs[k], None
                self.objs.clear()
                self.caller.clear()
                reach(self.rm, kept, k)
        return self

    def check(self, when):
        if self.exact:
            only = set(self.pool_ids())
            compare_ends(self.rm, self.objs, when, only, self.ends(), self.index)
        else:
            ids = self.pool_ids()
            invariant(self.m, self.rm.cls, self.objs, when)

    def ends(self):
        if not hasattr(self, '_ends'):
            self._ends = {tuple(op[1]) for op in self.case['ops']}
            for o, n in list(self._ends):
                r = self.m.find(o, n)
                if r.opposite:
                    self._ends.add((r.opposite.owner, r.opposite.n))
        return self._ends

    def finish(self):
        if self.exact:
            compare(self.rm, self.objs, 'at the end', index=self.index)
            for i in self.pool_ids():
                for o, n in self.ends():
                    r = self.m.refs(self.rm.cls[i]).get(n)
                    if r is not None and r.owner == o and hasattr(type(self.objs[i]), 'get' + n):
                        a, b = getattr(self.objs[i], 'get' + n)(), getattr(self.objs[i], n)
                        if (a if a is None or b is None else [id(x) for x in a] if r.many else id(a)) != \
                                (b if a is None or b is None else [id(x) for x in b] if r.many else id(b)):
                            fail('at the end: get%s() of %s#%d is not its %s', n, self.rm.cls[i], i, n)
        else:
            invariant(self.m, self.rm.cls, self.objs, 'at the end')
        if self.exact:
            for key, (lst, want) in self.caller.items():
                if len(lst) != len(want) or any(x is not y for x, y in zip(lst, want)):
                    fail('at the end: the list the caller assigned to %s was changed', key)

    def step(self, op):
        name, (owner, n), who, picks, mode = op
        ref = self.m.find(owner, n)
        if name == 'new':
            classes = self.m.usable(ref)
            cls = classes[(who * 7 + mode) % len(classes)]
            if self.m.is_trio(ref) and n == 'PerLengthImpedance':
                return False
            js = self.choose(ref, picks if ref.many else picks[:1])
            if ref.many and ref.opposite and mode == 3:
                js += js[:1]
            i = self.create(cls, {n: [self.objs[j] for j in js] if ref.many else self.objs[js[0]] if js else None},
                            [(n, js)])
            self.made.append(i)
            self.labels.add('constructed with partners' if js else 'constructed bare')
            return True
        own = self.owners(ref)
        if not own:
            return False
        i = own[who % len(own)]
        o, method, before = self.objs[i], bool(mode & 1), self.rm.partners(i, n)
        if name in ('mutate',):
            # changing a list that was assigned earlier must not matter
            for key, (lst, want) in list(self.caller.items())[-1:]:
                if mode & 2:
                    del lst[:], want[:]
                else:
                    more = self.choose(ref, picks[:1])
                    lst += [self.objs[j] for j in more]
                    want += [self.objs[j] for j in more]
                self.labels.add('assigned list changed later')
                return True
            return False
        if name == 'clear' or not ref.many and name in ('remove', 'shared', 'self', 'alias') and not picks:
            if self.m.is_trio(ref) and not before and any(self.rm.val[i][x] is not None for x in ('SequenceImpedance', 'PhaseImpedance')):
                return False        # see C19
            do_set(o, ref, [] if ref.many else None, method)
            self.rm.assign(i, n, [])
            self.labels.add('clear ' + ('linked' if before else 'empty'))
            return True
        if not ref.many:
            js = before[:1] if name == 'self' else self.choose(ref, picks[:1])
            if not js:
                return False
            if self.m.is_trio(ref) and n != 'PerLengthImpedance' and n[:-9] not in self.rm.cls[js[0]]:
                return False
            old = ref.opposite and self.rm.partners(js[0], ref.opp)
            do_set(o, ref, self.objs[js[0]], method)
            if n == 'PerLengthImpedance' and self.m.is_trio(ref):
                self.rm.assign(i, 'SequenceImpedance' if 'Sequence' in self.rm.cls[js[0]] else 'PhaseImpedance', js)
            else:
                self.rm.assign(i, n, js)
            self.labels.add('set again' if before == js else 'set over another' if before else 'set')
            if old and not ref.opposite.many and old != [i]:
                self.labels.add('taken from another owner')
            return True
        # ---- many-valued end
        oneway = ref.opposite is None
        if name == 'add':
            js = self.choose(ref, picks)
            if oneway:
                js = [j for j in js if j not in before]
            elif mode & 2 and js:
                js = js + js[:1]
                self.labels.add('the same object twice in one add')
            if not js:
                return False
            do_add(o, ref, [self.objs[j] for j in js])
            self.label_taken(ref, i, js)
            for j in js:
                self.rm.link(i, n, j)
            self.labels.add('add to members' if before else 'add')
            if set(js) & set(before):
                self.labels.add('add a present member')
            return True
        if name == 'remove':
            js = sorted({before[p % len(before)] for p in picks}) if before else []
            if mode and js and len(before) > 1:     # all but one, one, or all
                one = before[picks[0] % len(before)]
                js = [j for j in before if j != one] if mode == 1 else [one] if mode == 2 else list(before)
            if not js:
                return False
            if who & 1:
                js.reverse()
            do_remove(o, ref, [self.objs[j] for j in js])
            for j in js:
                self.rm.unlink(i, n, j)
            self.labels.add('remove all' if len(js) == len(before) else 'remove some')
            return True
        key = None
        if name == 'alias' and not oneway:      # the live list of another owner, or of the object itself
            k = own[(picks[0] if picks else 1 + who) % len(own)]
            js = self.rm.partners(k, n)
            lst = getattr(self.objs[k], n)
            js = [self.index[id(x)] for x in lst]
            self.labels.add('assign own live list' if k == i else 'assign the live list of another owner')
        elif name == 'self':
            js = list(reversed(before))
            lst = [self.objs[j] for j in js]
            key = 'own members reversed'
        elif name == 'shared' and self.caller and not oneway:      # a list assigned before, to any end that takes it
            _, (lst, want) = list(self.caller.items())[-1]
            ok = set(self.partners(ref))
            js = [self.index[id(x)] for x in want]
            if not set(js) <= ok or \
                    len(lst) != len(want) or any(x is not y for x, y in zip(lst, want)):
                return False
            self.labels.add('assign the same list object again')
        else:
            js = self.choose(ref, picks)
            if mode & 2 and len(js) > 1 and not oneway and who & 1:
                js = js + js[:1]
                self.labels.add('the same object twice in a list')
            lst = [self.objs[j] for j in js]
            key = '%s#%d.%s' % (self.rm.cls[i], i, n)
        self.label_taken(ref, i, js)
        do_set(o, ref, lst, method)
        self.rm.assign(i, n, js)
        if key and not oneway:
            self.caller[key + ' ' + str(len(self.caller))] = (lst, [self.objs[j] for j in js])
        self.labels.add('assign list over members' if before else 'assign list')
        return True

    def label_taken(self, ref, i, js):
        if ref.opposite and not ref.opposite.many:
            if any(self.rm.partners(j, ref.opp) not in ([], [i]) for j in js):
                self.labels.add('taken from another owner')

    def choose(self, ref, picks):
        ps = self.partners(ref)
        out = []
        for p in picks if ps else ():
            j = ps[p % len(ps)]
            if j not in out:
                out.append(j)
        return out


def compare_ends(rm, objs, when, only, ends, index):
    for i in sorted(only):
        for owner, n in ends:
            r = rm.m.refs(rm.cls[i]).get(n)
            if r is None or r.owner != owner:
                continue
            one_end(rm, objs, when, i, n, r, index)


def one_end(rm, objs, when, i, n, r, index):
    want, got = rm.expect(i, n), getattr(objs[i], n)
    if r.many:
        if not isinstance(got, list):
            fail('%s: %s#%d.%s is %r, expected a list', when, rm.cls[i], i, n, got)
        ids = [index.get(id(x)) for x in got]
        ok = ids == want if rm.ordered[i][n] else None not in ids and len(ids) == len(want) and sorted(ids) == sorted(want)
    else:
        ids = None if got is None else index.get(id(got), '?')
        ok = ids == want
    if not ok:
        fail('%s: %s#%d.%s is %s, expected %s', when, rm.cls[i], i, n, ids, want)


def linked_ends(m, cls):
    return [r for r in m.refs(cls).values() if r.to is not None]


def multi_decode(m):
    """Pools over several associations of a model: a start class, then partners of its ends, and so on."""
    starts = [n for n in m.names if any(r.opposite for r in m.refs(n).values())]

    def decode(src):
        pool, ends = [src.pick(starts)], []
        for _ in range(2 + src.n(3)):
            c = pool[src.n(len(pool))]
            rs = [r for r in m.refs(c).values() if r.opposite and not m.is_trio(r) and not m.is_trio(r.opposite)]
            if not rs:
                continue
            r = src.pick(rs)
            ends += [e for e in (r, r.opposite) if e not in ends]
            pool.append(src.pick(m.targets(r)))
            if src.flag():
                pool.append(src.pick(m.usable(r)))
        if not ends:
            return {'pool': pool, 'frame': [], 'ops': []}
        return {'pool': pool, 'frame': [], 'twins': twins(src), 'ops': decode_ops(src, ends, 14)}
    return decode


def class_decode(m, cls, frame):
    """One of the associations of the class, own or inherited, of objects of this very class"""
    refs = [r for r in m.refs(cls).values() if r.to is not None and cls in m.usable(r)]
    return lambda src: pair_decode(m, src.pick(refs), frame, [cls])(src) if refs else {'pool': [cls], 'frame': [], 'ops': []}


def pair_decode(m, ref, frame, left=None):
    left, right = left or m.usable(ref), m.targets(ref)
    ends = [ref] + ([ref.opposite] if ref.opposite and ref.opposite is not ref else [])
    skip = set(ends)

    def some(src, xs):
        # half of the objects are of the first class (the end's own), the rest of any subclass
        k = src.byte()
        return xs[0] if k & 1 == 0 else xs[(k >> 1) % len(xs)]

    def decode(src):
        k = src.byte()
        if k % 24 == 19 and any(e.many for e in ends):
            return big_case(src, m, ref, frame, (40, 110))
        if k % 64 == 33:        # a long history of few objects
            src = stretch(src, 3000)
            pool = [some(src, left) for _ in range(2 + src.n(2))] + [some(src, right) for _ in range(2 + src.n(3))]
            return {'pool': pool, 'frame': decode_frame(src, m, pool, skip, 2) if frame else [], 'twins': twins(src), 'ops': decode_ops(src, ends, 100 + src.n(100), 0)}
        wide = 6 + src.n(4) if src.byte() % 7 == 5 else 0      # longer lists
        a, b = 2 + src.n(2), 2 + src.n(3)
        if wide:
            right_wide = ref.many and not (len(ends) == 2 and ends[1].many and src.flag())
            a, b = max(a, wide * (not right_wide)), max(b, wide * right_wide)
        alike = twins(src)
        pool = [some(src, left) for _ in range(a)] + [some(src, right) for _ in range(b)]
        k, ops = src.byte(), []
        many = [e for e in ends if e.many]
        if many and (k & 1 or wide):    # start with several members
            e = many[-1 if wide and not right_wide else 0] if wide else many[(k >> 1) % len(many)]
            ops.append([src.pick(['assign', 'add']), [e.owner, e.n], 0, list(range(wide)) if wide else [src.n(8), src.n(8), 0, 1, 2][:2 + (k >> 2) % 4], k >> 6])
            if wide and k & 24:      # of which most go at once
                ops.append(['remove', [e.owner, e.n], 0, [src.n(wide)], src.pick((1, 1, 3))])
        ops += decode_ops(src, ends, 6 + src.n(3) * 4, wide)
        return {'pool': pool, 'frame': decode_frame(src, m, pool, skip, 2) if frame else [], 'twins': alike, 'ops': ops}
    return decode


def big_decode(m, frame):
    """One association, tens of objects at its many-valued ends"""
    refs = [r for r in m.pairs() if r.many or r.opposite and r.opposite.many]

    def decode(src):
        return big_case(src, m, refs[src.n(len(refs))], frame, (12, 20, 40, 70, 12, 20, 40, 150))
    return decode


def big_case(src, m, ref, frame, sizes):
    size = src.pick(sizes)
    src = stretch(src, 60 + 14 * size)
    left, right = m.usable(ref), m.targets(ref)
    ends = [ref] + ([ref.opposite] if ref.opposite and ref.opposite is not ref else [])
    pool = [src.pick(left[:4]) for _ in range(3 if ref.many else size)] + [src.pick(right[:4]) for _ in range(size if ref.many else 3)]
    ops = []
    for e in ends:
        if e.many:
            both = [[op, [e.owner, e.n], i, list(range(size - src.n(size // 2))), src.n(4)] for i, op in enumerate(('assign', 'add'))]
            ops += both if src.flag() else both[::-1]
    ops += decode_ops(src, ends, 10, size)
    return {'pool': pool, 'frame': decode_frame(src, m, pool[:3], set(ends), 2) if frame else [], 'twins': twins(src), 'ops': ops}

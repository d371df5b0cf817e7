"""Object graphs: a reference model of association semantics, and the same operations on real objects."""
from .runner import fail


class RefModel:
    """What the associations and attributes of a set of objects must be.

    Objects are indices.  For each object and each of its association ends the state is the partner's
    index or None (single-valued end) or a list of indices (many-valued end).  `ordered` says which
    lists have an order the properties promise: the order given in the last whole-list assignment,
    continued by added objects."""

    def __init__(self, model):
        self.m = model
        self.cls, self.attrs, self.val, self.ordered = [], [], [], []

    def new(self, cls, attrs=None):
        i = len(self.cls)
        self.cls.append(cls)
        a = {n: x.d for n, x in self.m.attrs(cls).items()}
        a.update(attrs or {})
        self.attrs.append(a)
        self.val.append({n: [] if r.many else None for n, r in self.m.refs(cls).items()})
        self.ordered.append({n: True for n, r in self.m.refs(cls).items() if r.many})
        return i

    def ref(self, i, name):
        return self.m.refs(self.cls[i])[name]

    def partners(self, i, name):
        v = self.val[i][name]
        return list(v) if isinstance(v, list) else [] if v is None else [v]

    def linked(self, i, name, j):
        return j in self.partners(i, name)

    def unlink(self, i, name, j):
        r = self.ref(i, name)
        for a, n, b in ((i, r.n, j),) + (((j, r.opp, i),) if r.opposite else ()):
            v = self.val[a][n]
            if isinstance(v, list):
                if b in v:
                    v.remove(b)
            elif v == b:
                self.val[a][n] = None

    def link(self, i, name, j):
        r = self.ref(i, name)
        if self.m.is_trio(r):       # one choice, see C19
            for n in ('SequenceImpedance', 'PhaseImpedance'):
                if n != name and self.val[i][n] is not None:
                    self.unlink(i, n, self.val[i][n])
        if r.opposite and self.m.is_trio(r.opposite):
            for n in ('SequenceImpedance', 'PhaseImpedance'):
                if n != r.opp and self.val[j][n] is not None:
                    self.unlink(j, n, self.val[j][n])
        again = self.linked(i, name, j)
        if not again:
            if not r.many and self.val[i][name] is not None:
                self.unlink(i, name, self.val[i][name])
            if r.opposite and not r.opposite.many and self.val[j][r.opp] is not None:
                self.unlink(j, r.opp, self.val[j][r.opp])
        self._put(i, name, j, again)
        if r.opposite:
            self._put(j, r.opp, i, True)

    def _put(self, i, name, j, unordered):
        v = self.val[i][name]
        if isinstance(v, list):
            if unordered:
                self.ordered[i][name] = False
            if j not in v:
                v.append(j)
        else:
            self.val[i][name] = j

    def assign(self, i, name, js):
        for j in self.partners(i, name):
            self.unlink(i, name, j)
        for j in js:
            self.link(i, name, j)
        if self.ref(i, name).many:
            self.val[i][name] = [j for k, j in enumerate(js) if j not in js[:k]] if self.ref(i, name).opposite else list(js)
            self.ordered[i][name] = len(set(js)) == len(js)

    def give(self, i, name, js):
        """assign(), with the CIM15 PerLengthImpedance put where it belongs"""
        if name == 'PerLengthImpedance' and self.m.is_trio(self.ref(i, name)):
            name = 'PhaseImpedance'
            if js and 'Sequence' in self.cls[js[0]]:
                name = 'SequenceImpedance'
        self.assign(i, name, js)

    def expect(self, i, name):
        """partner(s) with the derived CIM15 PerLengthImpedance filled in"""
        if self.m.is_trio(self.ref(i, name)) and name == 'PerLengthImpedance':
            v = self.val[i]
            return v['SequenceImpedance'] if v['SequenceImpedance'] is not None else v['PhaseImpedance']
        return self.val[i][name]


def same_value(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        return a == b or (a != a and b != b)
    return a == b


def name_of(model, i):
    return '%s#%d' % (model.cls[i], i)


def show(rm, index, x):
    if x is None:
        return 'None'
    if isinstance(x, list):
        return '[' + ', '.join(show(rm, index, y) for y in x) + ']'
    i = index.get(id(x))
    return name_of(rm, i) if i is not None else repr(x)[:80]


def compare(rm, objs, when, only=None, order=True, index=None):
    """Every feature of every object equals the reference model."""
    if index is None:
        index = {id(o): i for i, o in enumerate(objs)}
    for i, o in enumerate(objs):
        if only is not None and i not in only:
            continue
        for n, want in rm.attrs[i].items():
            got = getattr(o, n)
            if not (got is want or same_value(got, want)):
                fail('%s: %s.%s is %r, expected %r', when, name_of(rm, i), n, got, want)
        for n, r in rm.m.refs(rm.cls[i]).items():
            want = rm.expect(i, n)
            got = getattr(o, n)
            if r.many:
                if not want and got == []:
                    continue
                if not isinstance(got, list):
                    fail('%s: %s.%s is %r, expected a list', when, name_of(rm, i), n, got)
                ids = [index.get(id(x)) for x in got]
                ok = ids == want if order and rm.ordered[i][n] else \
                    None not in ids and len(ids) == len(want) and sorted(ids) == sorted(want)
                if not ok:
                    fail('%s: %s.%s is %s, expected %s', when, name_of(rm, i), n, show(rm, index, got),
                         [name_of(rm, j) for j in want])
            else:
                if got is None and want is None:
                    continue
                if got is None or want is None or index.get(id(got)) != want:
                    fail('%s: %s.%s is %s, expected %s', when, name_of(rm, i), n, show(rm, index, got),
                         None if want is None else name_of(rm, want))


def reach(rm, o, i):
    """Objects that are reached over associations only are still there, and the same"""
    todo, seen = [(o, i)], {i}
    while todo:
        o, i = todo.pop()
        for n, r in rm.m.refs(rm.cls[i]).items():
            want, got = rm.expect(i, n), getattr(o, n)
            want = want if r.many else [] if want is None else [want]
            got = {x.UUID: x for x in (got if r.many else () if got is None else (got,))}
            if len(got) != len(set(want)) or not all('object %d' % j in got for j in want):
                fail('when nothing else refers to the other objects, %s.%s is %s, expected %s', name_of(rm, i), n, sorted(got), want)
            for j in want:
                if j not in seen:
                    seen.add(j)
                    todo.append((got['object %d' % j], j))


def invariant(m, cls, objs, when):
    """Both ends of every association agree, no repetitions (no reference model involved)."""
    for i, o in enumerate(objs):
        for n, r in m.refs(cls[i]).items():
            got = getattr(o, n)
            if r.many:
                ps = got
                if len(ps) > 1 and len({id(x) for x in ps}) != len(ps):
                    fail('%s: %s#%d.%s contains an object twice', when, cls[i], i, n)
            else:
                ps = () if got is None else (got,)
            opp = r.opp
            if r.to is None:
                continue
            if not r.opposite:
                continue
            for p in ps:
                back = getattr(p, opp)
                if r.opposite.many:
                    if not any(x is o for x in back):
                        fail('%s: %s#%d.%s refers to %s, whose %s does not list it', when, cls[i], i, n,
                             type(p).__name__, opp)
                elif back is not o:
                    fail('%s: %s#%d.%s refers to %s, whose %s refers to %s', when, cls[i], i, n,
                         type(p).__name__, opp, 'nothing' if back is None else 'another object')


# ---- operations on real objects --------------------------------------------------------------------
def do_set(o, ref, value, by_method):
    if by_method and (ref.opposite or hasattr(type(o), 'set' + ref.n)):
        method(o, 'set', ref)(value)
    else:
        setattr(o, ref.n, value)


def method(o, verb, ref):
    f = getattr(o, verb + ref.n, None) or getattr(o, verb + '_' + ref.n, None)
    if f is None:
        fail('%s has no method %s%s', type(o).__name__, verb, ref.n)
    return f


def do_add(o, ref, values):
    method(o, 'add', ref)(*values)


def do_remove(o, ref, values):
    method(o, 'remove', ref)(*values)

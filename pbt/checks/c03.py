"""C03  Construction honours every argument and otherwise gives defaults."""
from .. import schema
from ..gen import cases, dec, enc, text, value
from ..runner import fail
from ..world import RefModel, compare, do_add

RULE = ('one slice per class of the 16 models: 1-3 instances constructed with random subsets of their own and inherited '
        'attributes and associations as keywords, or a prefix of their own features positionally, with partner objects '
        'of random subclasses that may already belong to another instance; every feature of every object is compared '
        'with the reference model after each construction, then argument lists and one instance are changed and a bare '
        'instance is made. Non-trivial: at least two features were given.')
ASSUMPTIONS = ['arguments are of the types the schema gives', 'at most one impedance model for a line segment (see C19)',
               'a list given to an association without an opposite end is not used by the caller afterwards']


def jobs(tier):
    k = 90 if tier == 'quick' else 400
    return [([name, n], k) for name, m in schema.models().items() for n in m.names]


def strategy(job):
    m = schema.model(job[0])
    cls = job[1]
    attrs, refs = m.attrs(cls), m.refs(cls)
    own = [f for f in m.positional[cls]]

    def decode(src):
        pool, insts = [], []
        for _ in range(1 + src.n(3)):
            positional = src.byte() % 4 == 3
            names = list(attrs) + list(refs)
            if positional:
                k = len(own) - src.n(len(own) + 1)
                chosen = set(own[:k])
            elif src.byte() % 4 == 1:
                chosen = {f for f in names if src.byte() & 1}
            else:
                chosen = set(src.subset(names, 8)) if names else set()
            given, trio = {}, False
            for f in names:
                if f not in chosen:
                    continue
                if f in attrs:
                    given[f] = {'v': enc(value(src, attrs[f]))}
                    continue
                r = refs[f]
                if m.is_trio(r):
                    if trio:
                        continue
                    trio = True
                ts, js = m.targets(r), []
                if m.is_trio(r) and r.to is None:
                    ts = ts
                long = r.many and src.byte() % 24 == 7
                for _ in range(src.n(50) if long else src.n(4) if r.many else 1):
                    k = src.byte()
                    old = [j for j, c in enumerate(pool) if c in ts and j not in js] if k % 4 == 1 else []
                    if old:
                        js.append(old[(k >> 2) % len(old)])
                    elif len(pool) < (90 if long else 24):
                        pool.append(ts[0] if k % 4 == 2 else src.pick(ts))
                        js.append(len(pool) - 1)
                if r.many and r.opposite and js and src.byte() % 5 == 1:
                    js.append(js[0])
                if r.many or js:
                    given[f] = {'r': js}
            insts.append({'given': given, 'uuid': text(src) if src.byte() % 3 == 1 else None,
                          'pos': len(own[:k]) if positional else 0})
        return {'pool': pool, 'insts': insts, 'twins': src.n(2)}
    return cases(decode, 160)


def execute(job, case):
    m = schema.model(job[0])
    cls, klass = job[1], schema.model(job[0]).py(job[1])
    attrs, refs, own = m.attrs(cls), m.refs(cls), m.positional[cls]
    rm = RefModel(m)
    objs = []
    for c in case['pool']:
        rm.new(c)
        objs.append(m.py(c)(UUID='u') if case.get('twins') else m.py(c)())
    labels, most, arglists, mine = set(), 0, [], []
    for inst in case['insts']:
        given, args, kwargs = inst['given'], [], {}

        def arg(f):
            g = given.get(f)
            if g is None:
                return attrs[f].d if f in attrs else None
            if f in attrs:
                return dec(g['v'])
            if not refs[f].many:
                return objs[g['r'][0]]
            lst = [objs[j] for j in g['r']]
            if refs[f].opposite:
                arglists.append((f, lst, list(lst)))
            return lst
        pos = own[:inst['pos']]
        uuid = '' if inst['uuid'] is None else inst['uuid']
        for f in pos:
            args.append(uuid if f == 'UUID' else arg(f))
        for f in given:
            if f not in pos:
                kwargs[f] = arg(f)
        if inst['uuid'] is not None and 'UUID' not in pos:
            kwargs['UUID'] = uuid
        i = rm.new(cls, {f: dec(g['v']) for f, g in given.items() if f in attrs})
        o = klass(*args, **kwargs)
        objs.append(o)
        mine.append(i)
        for f, g in given.items():
            if f in refs:
                taken = [j for j in g['r'] if refs[f].opposite and not refs[f].opposite.many and rm.partners(j, refs[f].opp)]
                rm.give(i, f, g['r'])
                labels.add('association given')
                if taken:
                    labels.add('partner taken over from another instance')
            else:
                labels.add('attribute given')
            if (attrs.get(f) or refs.get(f)).owner != cls:
                labels.add('inherited feature given')
        if pos:
            labels.add('positional')
        most = max(most, len(given))
        compare(rm, objs, 'after constructing instance %d of %s' % (len(mine), cls))
        if o.UUID != uuid:
            fail('UUID of the new %s is %r, expected %r', cls, o.UUID, uuid)
    # nothing is shared between instances: a partner added to the first one is not in the others ...
    if mine:
        for f in ([f for f, r in refs.items() if r.many and r.opposite][:1] + [f for f, _, _ in arglists])[:4]:
            t = m.py(m.targets(refs[f])[0])()
            objs.append(t)
            j = rm.new(m.targets(refs[f])[0])
            for i in mine[:2]:
                do_add(objs[i], refs[f], [t])
                rm.link(i, f, j)
    # ... nor with the argument lists
    for f, lst, copy in arglists:
        if len(lst) != len(copy) or any(x is not y for x, y in zip(lst, copy)):
            fail('the list given as %s was changed', f)
        lst[:] = [m.py(m.targets(refs[f])[0])()]
    rm.new(cls)
    objs.append(klass())
    compare(rm, objs, 'after changing argument lists and the first instance, and constructing a bare %s' % cls)
    return most >= 2, sorted(labels)

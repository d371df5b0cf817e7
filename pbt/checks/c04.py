"""C04  Every class offers the features the CIM schema defines."""
from .. import schema
from ..gen import cases, dec, enc, value
from ..runner import fail
from ..world import RefModel, compare, do_add, do_set

RULE = ('one slice per class of the 16 models: the class is looked up in its schema package, its superclass and the type '
        'and default of every feature of a bare instance are compared with the schema, then random sequences of up to 16 '
        'assignments of type-correct values and partners to the features of two instances are made, and after each the '
        'feature reads back as assigned; at the end all features of all objects are compared with the reference model. '
        'Non-trivial: at least two different features were assigned.')
ASSUMPTIONS = ['the schema is the metamodel published with the code (Model/*.ecore), snapshot in schema.json.gz with the '
               'deviations documented in tools/gen_schema.py; the snapshot is not regenerated by a run']


def jobs(tier):
    k = 70 if tier == 'quick' else 400
    return [([name, n], k) for name, m in schema.models().items() for n in m.names]


def strategy(job):
    m = schema.model(job[0])
    attrs, refs = list(m.attrs(job[1]).values()), list(m.refs(job[1]).values())

    def decode(src):
        ops = []
        while src.more() and len(ops) < 16:
            k = src.byte()
            who = k >> 4 & 1
            if attrs and (k & 1 or not refs):
                a = src.pick(attrs)
                ops.append(['attr', who, a.n, enc(value(src, a))])
            elif refs:
                r = src.pick(refs)
                ops.append(['clear', who, r.n, None] if k & 14 == 14 else ['link', who, r.n, src.pick(m.targets(r))])
            else:
                break
        return ops
    return cases(decode, 90)


def structure(m, n):
    k = m.py(n)
    if not isinstance(k, type) or k.__name__ != n:
        fail('%s.%s is not a class of that name', m.pkg[n], n)
    b = m.base[n]
    if b and (not issubclass(k, m.py(b)) or k is m.py(b)):
        fail('%s does not derive from %s', n, b)
    o = k()
    if not isinstance(getattr(o, 'UUID', None), str):
        fail('%s has no UUID', n)
    for f, a in m.attrs(n).items():
        if not hasattr(o, f):
            fail('%s has no attribute %s (declared by %s)', n, f, a.owner)
        v = getattr(o, f)
        if type(v) is not type(a.d) or v != a.d:
            fail('%s.%s is %r in a new object, the schema default is %r', n, f, v, a.d)
    for f, r in m.refs(n).items():
        if not hasattr(o, f):
            fail('%s has no association %s (declared by %s)', n, f, r.owner)
        v = getattr(o, f)
        if not (isinstance(v, list) and not v if r.many else v is None):
            fail('%s.%s is %r in a new object, the schema says %s', n, f, v, 'many-valued' if r.many else 'single-valued')


def execute(job, case):
    m, cls = schema.model(job[0]), job[1]
    k = m.py(cls)
    structure(m, cls)
    rm, objs = RefModel(m), [k(), k()]
    rm.new(cls), rm.new(cls)
    labels = set()
    for op, who, f, x in case:
        o = objs[who]
        if op == 'attr':
            v = dec(x)
            setattr(o, f, v)
            rm.attrs[who][f] = v
            labels.add('attribute ' + m.attrs(cls)[f].t)
        elif op == 'link':
            r = m.refs(cls)[f]
            j = rm.new(x)
            objs.append(m.py(x)())
            if r.many:
                do_add(o, r, [objs[j]])
                rm.link(who, f, j)
            else:
                do_set(o, r, objs[j], False)
                rm.give(who, f, [j])
            labels.add('association')
        else:
            r = m.refs(cls)[f]
            if m.is_trio(r):
                continue
            do_set(o, r, [] if r.many else None, False)
            rm.assign(who, f, [])
            labels.add('cleared')
        compare(rm, objs, 'after assigning %s' % f, only=(0, 1))
    compare(rm, objs, 'at the end')
    return len({c[2] for c in case}) >= 2, sorted(labels)

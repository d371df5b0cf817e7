"""C08  References are resolved whatever their order and stating end."""
from .. import docs, schema
from ..gen import cases

RULE = ('one slice per association of the 16 models, with or without an opposite end: 2-4 objects of the classes of the '
        'ends and their subclasses, up to 7 links (consistent with the multiplicities), each stated at either end or both, '
        'elements and statements in random order, some statements made twice, forward and backward references, plus per model documents over several '
        'associations and large ones of 30-500 objects, and parts of the model of a real network; every end of every object is compared with the links. The same document is also read with its '
        'elements reversed. Non-trivial: at least 2 links.')
ASSUMPTIONS = ['a single-valued end is stated with one partner only', 'partners are of the types the schema gives']


def jobs(tier):
    k = 60 if tier == 'quick' else 600
    out = []
    for name, m in schema.models().items():
        out += [([name, '*', i], 10 * k) for i in range(max(1, len(m.names) // 40))] + [([name, 'large'], k // 5)]
    for name, m in schema.models().items():
        out += [([name, r.owner, r.n], k) for r in m.pairs()]
    return [(['CIM15', 'corpus'], k)] + out


def strategy(job):
    m = schema.model(job[0])
    if job[1] == 'corpus':
        return cases(lambda src: {'doc': docs.corpus(docs.gen_corpus(src)), 'style': docs.PLAIN}, 10)
    if job[1] == 'large':
        return cases(lambda src: {'doc': docs.large_doc(src, m), 'style': docs.PLAIN}, 6)
    if job[1] == '*':
        starts = [n for n in m.names if m.refs(n)]

        def decode(src):
            doc = docs.gen_doc(src, m, starts, 1 + src.n(3), attrs=1, links=4 + src.n(8))
            return {'doc': doc, 'style': docs.gen_style(src) if src.byte() % 4 == 1 else docs.PLAIN}
        return cases(decode, 200)
    ref = m.find(job[1], job[2])
    left, right = m.usable(ref), m.targets(ref)

    def decode(src):
        k = src.byte()
        classes = [left[0] if k & 1 == 0 else left[(k >> 1) % len(left)], left[0]]
        doc = docs.gen_doc(src, m, classes, 2 + src.n(2), attrs=1, links=2 + src.n(6), only_ref=ref)
        return {'doc': doc, 'style': docs.gen_style(src) if src.byte() % 5 == 1 else docs.PLAIN}
    return cases(decode, 150)


def execute(job, case):
    m = schema.model(job[0])
    doc = case['doc']
    exp = docs.Expected(m).read(doc)
    args = docs.read_args(m, doc['ns'])
    exp.check(docs.read_bytes(docs.render(doc, case['style']), args), 'after reading')
    back = dict(doc, items=[dict(it, st=it['st'][::-1]) for it in doc['items'][::-1]])
    exp.check(docs.read_bytes(docs.render(back), args), 'after reading it in reverse order')
    labels, n, seen = set(), 0, set()
    for it in doc['items']:
        seen.add(it['id'])
        for s in it['st']:
            if s[0] == 'ref':
                n += 1
                r = m.refs(it['cls'])[s[1]]
                labels.add('stated at the %s end' % ('many' if r.many else 'single') + ('' if r.opposite or r.to is None else ' (one-way)'))
                labels.add('backward reference' if s[3] in seen else 'forward reference')
    return n >= 2, sorted(labels)

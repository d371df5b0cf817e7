"""C09  Unusable content never disturbs the rest of a read."""
from .. import docs, schema
from ..gen import cases, stretch

RULE = ('one slice per group of 6 classes of each model: a document with objects, attributes and links, and the same '
        'document with 1-8 insertions (in large documents, some of them parts of the model of a real network, up to 250) of content to pass over (unknown classes, unknown attributes, names of other Python members, numbers without text, text for associations, objects for attributes, absent and external '
        'reference targets, unidentified elements, elements and attributes of other namespaces) at random places and in a '
        'random layout; both must give the expected model. Non-trivial: something was inserted next to at least one object.')
ASSUMPTIONS = ['elements of other namespaces outside of objects do not contain CIM objects', 'unknown classes do not reuse the identifier of an object',
               'a resource of another document is not given for an enumeration attribute']


def jobs(tier):
    k = 180 if tier == 'quick' else 1500
    out = []
    for name, m in schema.models().items():
        out += [([name, i], k) for i in range(0, len(m.names), 6)]
        out.insert(0, ([name, 'large'], k // 12))
    return [(['CIM15', 'corpus'], k // 4)] + out


def strategy(job):
    m = schema.model(job[0])
    if job[1] in ('large', 'corpus'):
        def large(src):
            doc = docs.corpus(docs.gen_corpus(src)) if job[1] == 'corpus' else docs.large_doc(src, m, one_part=False)
            kind = src.pick([None, 0, 1] + list(range(docs.STATEMENTS + 6)))
            return {'doc': docs.add_noise(stretch(src, 20000), m, doc, 10 + src.n(240), kind)[0], 'style': docs.PLAIN}
        return cases(large, 12)
    classes = m.names[job[1]:job[1] + 6]

    def decode(src):
        doc = docs.gen_doc(src, m, classes, 1 + src.n(4), attrs=3, links=3, one_part=False)
        noisy, n = docs.add_noise(src, m, doc, 8)
        return {'doc': noisy, 'style': docs.gen_style(src) if src.byte() % 3 == 1 else docs.PLAIN}
    return cases(decode, 260)


def kind(node):
    return '%s %s' % (node[0], 'resource' if any(a[1] == 'resource' for a in node[2]) else 'element')


def execute(job, case):
    m = schema.model(job[0])
    doc = case['doc']
    exp = docs.Expected(m).read(doc)
    args = docs.read_args(m, doc['ns'])
    clean = {'ns': doc['ns'], 'items': [dict(it, st=[s[:-1] if docs.is_extra(s[-1]) else s for s in it['st'] if s[0] != 'node'], xattrs=[])
                                        for it in doc['items'] if 'node' not in it]}
    exp.check(docs.read_bytes(docs.render(clean), args), 'without the insertions')
    exp.check(docs.read_bytes(docs.render(doc, case['style']), args), 'with the insertions')
    labels = set()
    for it in doc['items']:
        if 'node' in it:
            labels.add('top level ' + kind(it['node']))
        else:
            labels |= {'inside ' + kind(s[1]) for s in it['st'] if s[0] == 'node'}
            if any(docs.is_extra(s[-1]) for s in it['st']):
                labels.add('extra attributes of a statement')
            if it.get('xattrs'):
                labels.add('extra attributes')
    return bool(labels) and bool(exp.ids), sorted(labels)

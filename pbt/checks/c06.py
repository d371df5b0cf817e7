"""C06  Reading creates exactly the identified objects of the document."""
from .. import docs, schema
from ..gen import cases
from ..runner import fail

RULE = ('one slice per group of 8 classes of each model: documents with 0-10 objects (plus partners) with identifiers of '
        'many forms, given by rdf:ID or rdf:about, some described several times, also by the name of an ancestor of their class, in any order, with content to pass over, '
        'and per model documents of 30-500 objects, and parts of the model of a real network, in a random layout, from a path or a file object (binary, buffered or not, compressed, text); the dictionary is compared with the identified elements, and '
        'reading the elements in another order and from another source gives the same. Non-trivial: at least 2 objects.')
ASSUMPTIONS = ['rdf:ID values are XML names, rdf:about values start with #', 'further descriptions of an identifier use the class of the first, or an ancestor of it',
               'the CIM namespace is declared on the root element']


def jobs(tier):
    k = 170 if tier == 'quick' else 1200
    out = []
    for name, m in schema.models().items():
        out += [([name, i], k) for i in range(0, len(m.names), 8)]
        out.insert(0, ([name, 'large'], k // 8))
    return [(['CIM15', 'corpus'], k // 4)] + out


def strategy(job):
    m = schema.model(job[0])
    large = job[1] in ('large', 'corpus')
    classes = m.names if large else m.names[job[1]:job[1] + 8]

    def decode(src):
        doc = docs.corpus(docs.gen_corpus(src)) if job[1] == 'corpus' else docs.large_doc(src, m, one_part=False) if large else docs.gen_doc(src, m, classes, src.n(11), attrs=2, links=3, one_part=False)
        noise = 0
        if src.byte() % 3 == 1:
            doc, noise = docs.add_noise(src, m, doc, 3)
        if src.flag():      # further descriptions may name an ancestor of the class
            for it in doc['items']:
                if 'node' not in it:
                    it['tag'] = docs.other_tag(src, m, it['cls'])
        return {'doc': doc, 'style': docs.gen_style(src) if src.flag() else docs.PLAIN, 'source': src.pick(docs.Source.KINDS),
                'order': [src.byte() * (i + 1) * 7919 % 1009 for i in range(len(doc['items']))], 'source2': src.pick(docs.Source.KINDS), 'noise': noise}
    return cases(decode, 60 if large else 260)


def execute(job, case):
    m = schema.model(job[0])
    doc = case['doc']
    exp = docs.Expected(m).read(doc)
    args = docs.read_args(m, doc['ns'])
    style = case['style']
    d = docs.read_bytes(docs.render(dict(doc, items=docs.tags_again(doc['items'])), style), args, case['source'])
    if not isinstance(d, dict):
        fail('the result is a %s', type(d).__name__)
    exp.check(d, 'read from %s' % case['source'])
    items = [it for _, it in sorted(zip(case['order'], doc['items']), key=lambda p: p[0])]
    d2 = docs.read_bytes(docs.render(dict(doc, items=docs.tags_again(items))), args, case['source2'])
    exp.check(d2, 'read in another order from %s' % case['source2'])
    labels = ['source ' + case['source'], 'encoding ' + style['enc']]
    if any(it.get('tag') not in (None, it.get('cls')) for it in docs.tags_again(items)):
        labels.append('described by an ancestor of its class')
    mine = [it for it in doc['items'] if 'node' not in it]
    if len(mine) > len(exp.ids):
        labels.append('several descriptions of one object')
    if any(it['about'] for it in mine):
        labels.append('rdf:about')
    if case['noise']:
        labels.append('content to pass over')
    if not mine:
        labels.append('no objects')
    return len(exp.ids) >= 2, labels

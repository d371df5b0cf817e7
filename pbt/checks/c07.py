"""C07  Attribute text is decoded by the attribute's type, for every class."""
from .. import docs, schema
from ..gen import cases

RULE = ('one slice per class of the 16 models: a document with 1-3 instances stating a random subset of their own and '
        'inherited attributes in random order, qualified by the declaring or the own class, with many lexical forms of '
        'each type (empty and Unicode text, signs, exponents, INF, 1/0, surrounding white space) and enumeration '
        'resources; every feature of every object is compared with the value generated with the lexical form. '
        'Non-trivial: at least 2 attributes stated.')
ASSUMPTIONS = ['numbers and booleans are lexically valid', 'an attribute is stated at most once per object (see C12)']


def jobs(tier):
    k = 70 if tier == 'quick' else 500
    return [([name, n], k) for name, m in schema.models().items() for n in m.names]


def strategy(job):
    m = schema.model(job[0])
    cls = job[1]
    attrs = list(m.attrs(cls).values())

    def decode(src):
        items = []
        for n in range(1 + src.n(3)):
            st = []
            k = src.byte()
            chosen = [a for a in attrs if src.byte() & 1] if k % 4 == 1 else src.subset(attrs, 6) if attrs else []
            for a in chosen:
                s = docs.attribute_statement(src, m, cls, a)
                if s:
                    st.append(s)
            items.append({'cls': cls, 'id': '_%d' % n, 'about': False, 'st': src.shuffle(st)})
        return {'doc': {'ns': schema.CIM_NS[schema.version(m.name)], 'items': items},
                'style': docs.gen_style(src) if src.byte() % 4 == 1 else docs.PLAIN}
    return cases(decode, 160)


def execute(job, case):
    m = schema.model(job[0])
    doc = case['doc']
    exp = docs.Expected(m).read(doc)
    exp.check(docs.read_bytes(docs.render(doc, case['style']), docs.read_args(m, doc['ns'])), 'after reading')
    labels, n = set(), 0
    for it in doc['items']:
        for s in it['st']:
            n += 1
            if s[0] == 'enum':
                labels.add('enumeration')
            else:
                a = m.attrs(it['cls'])[s[1]]
                labels.add(a.t + (' empty' if s[3] == '' else ' padded' if a.t != 'str' and s[3] != s[3].strip() else ''))
                if s[2] != a.owner:
                    labels.add('qualified by the own class')
    return n >= 2, sorted(labels)

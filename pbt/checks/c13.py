"""C13  The result of a read depends only on the XML content."""
from .. import docs, schema
from ..gen import cases

RULE = ('slices per model: a document (with text of every kind, some with content to pass over) is written down in 2-3 random '
        'layouts (encoding, byte-order mark, declaration, prefixes and default namespace, local declarations, the CIM namespace declared on the root or on every top-level element, character '
        'references, entities declared in the document, CDATA, comments and processing instructions also inside text, quoting, attribute order, white space, '
        'empty-element tags, padding that puts the 16 KB read boundary at a random place in the document) and each is read '
        'from a random kind of source; further slices use documents of up to some hundred KB, with texts of up to 140 KB, and parts of, or all of, the model of a real network. Every result is compared with '
        'the expected model. Non-trivial: at least one object and two different byte strings.')
ASSUMPTIONS = ['the RDF namespace is declared on the root element', 'the prefix cim means nothing else when the CIM namespace is declared below the root', 'the encodings are ones the XML parser supports']


def jobs(tier):
    k = 200 if tier == 'quick' else 2000
    out = []
    for name, m in schema.models().items():
        out += [([name, i], k) for i in range(4 + len(m.names) // 60)]
    h = 24 if tier == 'quick' else 150
    return [(['CIM15', 'corpus'], h), (['CIM15', 'huge'], h), (['CIM14', 'huge'], h), (['CIM14.CPSM.Equipment', 'huge'], h)] + out


HUGE = ('Terminal', 'ConnectivityNode', 'Breaker', 'Substation')


def strategy(job):
    m = schema.model(job[0])

    def huge(src):
        return {'n': (60, 160, 400, 800)[src.n(4)] + src.n(50), 'text': [src.byte() * (1, 1, 1, 20)[src.n(4)] if src.byte() % 3 == 1 else src.n(9) for _ in range(5)],
                'long': src.pick([0, 0, 5000, 17000, 40000, 70000, 140000]), 'styles': [docs.PLAIN, docs.gen_style(src)], 'source': src.pick(docs.Source.KINDS)}

    def corpus(src):
        return {'corpus': docs.gen_corpus(src, (100, 300, 1000, 2000)) if src.byte() % 12 != 5 else [0, 10000, 0, src.byte(), src.byte() % 2],
                'styles': [docs.PLAIN, docs.gen_style(src)], 'source': src.pick(docs.Source.KINDS)}

    def decode(src):
        classes = [src.pick(m.names) for _ in range(4)]
        doc = docs.gen_doc(src, m, classes, 1 + src.n(5), attrs=5, links=4, one_part=False)
        if src.byte() % 4 == 1:
            doc, _ = docs.add_noise(src, m, doc, 3)
        styles = [docs.gen_style(src) for _ in range(2 + src.n(2))]
        return {'doc': doc, 'styles': styles, 'source': src.pick(docs.Source.KINDS)}
    return cases(huge, 60) if job[1] == 'huge' else cases(corpus, 50) if job[1] == 'corpus' else cases(decode, 300)


def build_huge(m, case):
    items = []
    for i in range(case['n']):
        cls = HUGE[i % 4]
        t = 'x\u00e9 ' * (case['text'][i % 5] // (1 if i < 40 else 9))
        st = [['lit', 'name', 'IdentifiedObject', '%d %s' % (i, t), '%d %s' % (i, t)]]
        if cls == 'Terminal':
            st.append(['ref', 'ConductingEquipment', 'Terminal', '_%d' % (i // 4 * 4 + 2)])
            st.append(['ref', 'ConnectivityNode', 'Terminal', '_%d' % (i // 8 * 8 + 1)])
        if i in (5, 9) and case['long']:    # one long text
            t = ('x', '\u00e9<y>\n')[i == 9] * (case['long'] // (1, 3)[i == 9])
            st = [['lit', 'name', 'IdentifiedObject', t, t]]
        items.append({'cls': cls, 'id': '_%d' % i, 'about': i % 7 == 3, 'st': st})
    n = case['n'] // 4 * 4
    return {'ns': schema.CIM_NS[schema.version(m.name)], 'items': items[:n]}


def execute(job, case):
    m = schema.model(job[0])
    doc = build_huge(m, case) if job[1] == 'huge' else docs.corpus(case['corpus']) if job[1] == 'corpus' else case['doc']
    exp = docs.Expected(m).read(doc)
    args = docs.read_args(m, doc['ns'])
    labels, seen = set(), set()
    for k, style in enumerate(case['styles']):
        data = docs.render(doc, style)
        seen.add(data)
        exp.check(docs.read_bytes(data, args, case['source']), 'layout %d' % (k + 1))
        labels.add('encoding ' + style['enc'])
        labels.add('over 16 KB' if len(data) > 16384 else 'small')
        if len(data) > 100000:
            labels.add('over 100 KB')
        if b'<![CDATA[' in data:
            labels.add('CDATA')
        if style.get('ents'):
            labels.add('entities')
        if style['bom']:
            labels.add('byte-order mark')
        if style['cim'] == '':
            labels.add('default namespace')
        if style['pad'] is not None:
            labels.add('read boundary inside')
    return bool(exp.ids) and len(seen) > 1, sorted(labels)

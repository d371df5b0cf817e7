"""C12  Incremental reading merges documents."""
from .. import docs, schema
from ..gen import cases, dec, stretch
from ..graphs import container
from ..runner import fail
from ..world import compare

RULE = ('one slice per group of 8 classes of each model: a document (and per model ones of 30-500 objects, and parts of the model of a real network) is split at random, between objects or between the '
        'statements of an object, into 1-4 parts, large ones into up to 20 (every reference target is present by the time it is stated); the parts are '
        'read in sequence into one dictionary that starts empty, or with objects made by hand, and a last part may restate '
        'attributes with other values, and links. After each part the dictionary is compared with the expected merge, objects keep '
        'their identity (also when described by the name of an ancestor of their class), the passed dictionary is returned, and the split document gives the same as the whole. '
        'Non-trivial: a part extends an object or refers to an object of an earlier part.')
ASSUMPTIONS = ['a single-valued end is stated with one partner only',
               'the keys of the starting dictionary are the UUIDs of its objects, apart from objects that the documents do not mention']


def jobs(tier):
    k = 180 if tier == 'quick' else 1200
    out = []
    for name, m in schema.models().items():
        out += [([name, i], k) for i in range(0, len(m.names), 8)]
        out.insert(0, ([name, 'large'], k // 12))
    return [(['CIM15', 'corpus'], k // 5)] + out


def strategy(job):
    m = schema.model(job[0])
    large = job[1] in ('large', 'corpus')
    classes = [] if large else m.names[job[1]:job[1] + 8]

    def decode(src):
        n = (2, 2, 3, 3, 4, 4, 1)[src.n(7)]
        built = src.byte() % 4 == 1
        if large:
            whole = docs.corpus(docs.gen_corpus(src)) if job[1] == 'corpus' else docs.large_doc(src, m)
            n = (n, n, n, 9, 20)[src.n(5)]
            src = stretch(src, 40 * len(whole['items']))
        else:
            whole = docs.gen_doc(src, m, classes, 1 + src.n(4), attrs=3, links=4)
        first = {it['id']: min(src.n(n), src.n(n)) for it in whole['items']}
        parts = [[] for _ in range(n)]
        for it in whole['items']:
            p = first[it['id']]
            split = src.byte() % 3
            buckets = {p: []}
            for s in it['st']:
                low = max(p, first[s[3]]) if s[0] == 'ref' else p
                q = low if split == 0 else low + src.n(n - low)
                buckets.setdefault(q, []).append(s)
            for q, st in buckets.items():
                about = it['about'] if q == p or src.flag() else True
                parts[q].append({'cls': it['cls'], 'id': it['id'], 'about': about, 'st': st, 'tag': docs.other_tag(src, m, it['cls']) if q > p else None})
        for p in parts:
            if src.flag():
                p.reverse()
        over = []
        if src.byte() % 3 == 1:
            for it in whole['items']:
                attrs = m.attrs(it['cls'])
                st = [x for x in (docs.attribute_statement(src, m, it['cls'], attrs[s[1]]) for s in it['st']
                                  if s[1] in attrs and src.flag()) if x] + [s for s in it['st'] if s[0] == 'ref' and src.flag()]
                if st:
                    over.append({'cls': it['cls'], 'id': it['id'], 'about': True, 'st': st, 'tag': docs.other_tag(src, m, it['cls'])})
        by = []
        if whole['items'] and src.byte() % 4 == 2:      # objects under other keys, that the documents say nothing about
            by = [['by%d' % k, src.pick(whole['items'])['cls'], src.pick([src.pick(whole['items'])['id'], ''])] for k in range(1 + src.n(2))]
        return {'whole': whole, 'by': by, 'parts': parts, 'over': over, 'built': built, 'dict': src.n(7),
                'style': docs.gen_style(src) if src.byte() % 5 == 1 else docs.PLAIN}
    return cases(decode, 12 if large else 400)


def execute(job, case):
    m = schema.model(job[0])
    whole = case['whole']
    args = docs.read_args(m, whole['ns'])
    exp = docs.Expected(m)
    d, labels, interesting = container(case.get('dict'), {}), set(), False
    parts = [dict(whole, items=p) for p in case['parts']]
    if case['built']:
        # the objects of the first part, with their attributes, are made by hand
        items = parts[0]['items']
        for it in items:
            d[it['id']] = m.py(it['cls'])(UUID=it['id'], **{s[1]: dec(s[4]) for s in it['st'] if s[0] != 'ref'})
        exp.read(dict(whole, items=[dict(it, st=[s for s in it['st'] if s[0] != 'ref']) for it in items]))
        exp.check(d, 'objects made by hand')
        parts[0] = dict(whole, items=[dict(it, st=[s for s in it['st'] if s[0] == 'ref']) for it in items])
        labels.add('starts with objects made by hand')
    others, them = docs.Expected(m), {}
    for key, cls, uuid in case.get('by', ()):
        them[key] = d[key] = m.py(cls)(UUID=uuid)
        others.rm.new(cls)
        labels.add('objects under other keys than their UUIDs')

    def check(when):
        exp.check({k: o for k, o in d.items() if k not in them}, when)
        compare(others.rm, list(them.values()), when + ', objects under other keys')
        for key, cls, uuid in case.get('by', ()):
            if d.get(key) is not them[key] or d[key].UUID != uuid:
                fail('%s: the object under %r is another one', when, key)
    for k, part in enumerate(parts):
        known = dict(d)
        if len(part['items']) % 2:
            r = docs.read_bytes(docs.render(part, case['style']), args or (None, None), start_dict=d)
        else:
            r = docs.read_bytes(docs.render(part, case['style']), (args or (None, None)) + (d,))
        if r is not d:
            fail('part %d: the dictionary returned is not the one passed in', k + 1)
        exp.read(part)
        check('after part %d of %d' % (k + 1, len(parts)))
        for i, o in known.items():
            if d[i] is not o:
                fail('part %d: %r was replaced by another object', k + 1, i)
        for it in part['items']:
            if it.get('tag') and it['tag'] != it['cls']:
                labels.add('describes a known object by an ancestor of its class')
            if it['id'] in known and it['st']:
                interesting = True
                labels.add('extends a known object')
            if any(s[0] == 'ref' and s[3] in known for s in it['st']):
                interesting = True
                labels.add('refers to an object of an earlier part')
    w = docs.read_bytes(docs.render(whole), args)
    e = docs.Expected(m).read(whole)
    e.check(w, 'the whole document')
    # the same model: the expectation of the whole holds for the merge as well
    e.check({k: o for k, o in d.items() if k not in them}, 'the merged parts against the whole')
    if case['over']:
        part = dict(whole, items=case['over'])
        docs.read_bytes(docs.render(part, case['style']), args, start_dict=d)
        exp.read(part)
        check('after restating attributes and links')
        labels.add('restates attributes')
    labels.add('%d parts' % len(parts))
    return interesting, sorted(labels)

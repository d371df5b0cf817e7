"""C02  An association operation has its stated effect and no other."""
from .. import schema
from ..gen import cases
from ..hist import History, big_decode, class_decode, pair_decode

RULE = ('one slice per association of the 16 models, with or without an opposite end: a pool of objects with random '
        'attribute values and links over other associations (the frame), up to 10 operations through the properties '
        'or the get/set/add/remove methods, further slices per class (its own and inherited associations), and per model slices with tens of objects; after every operation the ends are compared with a reference model of '
        'association semantics, and at the end every attribute and association of every object, and every list the '
        'caller passed in. Non-trivial: at least two operations were applied, one of them to an end that already had '
        'a partner.')
ASSUMPTIONS = ['arguments are of the types the schema gives', 'lists assigned to associations without an opposite end have no repetitions',
               'only present members are removed', 'the order of a list is checked only where the property states it: '
               'after a whole-list assignment, and for objects added to it later',
               'a list assigned to an association without an opposite end is not used by the caller afterwards',
               'the ends hidden by an inherited association of the same name (known findings) are not generated']
AGAIN = ('set over another', 'set again', 'assign list over members', 'add to members', 'add a present member', 'remove some',
         'remove all', 'taken from another owner', 'clear linked')


def jobs(tier):
    k = 130 if tier == 'quick' else 2000
    out = []
    for name, m in schema.models().items():
        if any(r.many or r.opposite and r.opposite.many for r in m.pairs()):
            out += [([name, 'big', i], k // 3) for i in range(max(1, len(m.names) // 60))]
        out += [([name, r.owner, r.n], k) for r in m.pairs()]
        out += [([name, 'class', c], k // 5) for c in m.names]
    return out


def strategy(job):
    m = schema.model(job[0])
    if job[1] == 'big':
        return cases(big_decode(m, True), 8)
    if job[1] == 'class':
        return cases(class_decode(m, job[2], True), 260)
    return cases(pair_decode(m, m.find(job[1], job[2]), True), 260)


def execute(job, case):
    h = History(schema.model(job[0]), case, exact=True).run()
    return h.changes >= 2 and bool(h.labels & set(AGAIN)), sorted(h.labels)

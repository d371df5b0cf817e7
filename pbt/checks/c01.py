"""C01  Both ends of every association agree after any history."""
from .. import schema
from ..gen import cases
from ..hist import History, big_decode, multi_decode, pair_decode

RULE = ('one slice per bidirectional association of the 16 models (pools of 2-3, sometimes up to 9 objects on either side, of the '
        "association's classes and their subclasses; up to 10 operations: assign, clear, whole list, live list of "
        'another owner, shared list, add, remove, constructor argument), and per model slices of histories over several '
        'associations at once, and over one with tens of objects; after every operation both ends of every association of every object are compared. '
        'Non-trivial: at least two operations were applied, one of them to an end that already had a partner.')
ASSUMPTIONS = ['arguments are of the types the schema gives',
               'only present members are removed',
               'the ends hidden by an inherited association of the same name (known findings) are not generated']
AGAIN = ('set over another', 'set again', 'assign list over members', 'add to members', 'add a present member', 'remove some',
         'remove all', 'taken from another owner', 'clear linked')


def jobs(tier):
    k = 110 if tier == 'quick' else 2000
    out = []
    for name, m in schema.models().items():
        out += [([name, r.owner, r.n], k) for r in m.pairs() if r.opposite]
        out += [([name, '*', i], 20 * k) for i in range(max(1, len(m.names) // 40))]
        if any(r.many or r.opposite and r.opposite.many for r in m.pairs()):
            out += [([name, 'big', i], k // 3) for i in range(max(1, len(m.names) // 60))]
    # large slices first: better balance
    return sorted(out, key=lambda j: -j[1])


def strategy(job):
    m = schema.model(job[0])
    if job[1] == '*':
        return cases(multi_decode(m), 90)
    if job[1] == 'big':
        return cases(big_decode(m, False), 8)
    return cases(pair_decode(m, m.find(job[1], job[2]), False), 150)


def execute(job, case):
    h = History(schema.model(job[0]), case, exact=False, hidden=job[1] == 'hidden').run()
    return h.changes >= 2 and bool(h.labels & set(AGAIN)), sorted(h.labels)

"""C19  A line segment has at most one per-length impedance model."""
from .. import schema
from ..gen import cases
from ..runner import fail

RULE = ('random sequences of up to 16 operations on 2-3 line segments, 2 sequence and 2 phase impedances of CIM15: assigning '
        'any of the three references of a segment (an impedance of the kind, or None) through the property or the method, '
        'whole-list assignment, add and remove on the segment lists, constructing segments with none to three impedances; '
        'after each operation all references and lists are compared with a reference model holding one choice per segment. '
        'Non-trivial: a segment that had an impedance got another one or lost it.')
ASSUMPTIONS = ['an impedance is assigned only to the reference of its kind or to the common one',
               'assigning None to any of the three references leaves the segment without an impedance']
KINDS = ('SequenceImpedance', 'PhaseImpedance', 'PerLengthImpedance')


def jobs(tier):
    k = 800 if tier == 'quick' else 6000
    return [([i], k) for i in range(32)]


def strategy(job):
    def decode(src):
        ops = []
        n = 2 + src.n(14)
        while src.more() and len(ops) < n:
            k = src.n(8)
            ops.append([('set', 'set', 'set', 'list', 'add', 'remove', 'new', 'clear')[k], src.n(3), src.n(5), [src.n(5) for _ in range(src.n(4))], src.n(4)])
        return {'segments': 2 + src.n(2), 'uuid': src.pick(['', 'u']), 'ops': ops}
    return cases(decode, 120)


def execute(job, case):
    m = schema.model('CIM15')
    Segment = m.py('ACLineSegment')
    imps = [m.py('PerLengthSequenceImpedance')(), m.py('PerLengthSequenceImpedance')(),
            m.py('PerLengthPhaseImpedance')(), m.py('PerLengthPhaseImpedance')()]
    kind = lambda j: KINDS[j // 2]
    segs = [Segment(UUID=case.get('uuid', '')) for _ in range(case['segments'])]
    choice = [None] * len(segs)
    labels, changed = set(), False

    def check(when):
        for i, s in enumerate(segs):
            c = choice[i]
            want = {'PerLengthImpedance': c, 'SequenceImpedance': c if c is not None and c < 2 else None,
                    'PhaseImpedance': c if c is not None and c >= 2 else None}
            for n, w in want.items():
                for got in (getattr(s, n), getattr(s, 'get' + n)()):
                    if got is not (None if w is None else imps[w]):
                        fail('%s: %s of segment %d is %s, expected %s', when, n, i,
                             None if got is None else next((j for j, x in enumerate(imps) if x is got), got), w)
        for j, x in enumerate(imps):
            got = [next((i for i, s in enumerate(segs) if s is y), '?') for y in x.LineSegments]
            if sorted(map(str, got)) != sorted(str(i) for i, c in enumerate(choice) if c == j):
                fail('%s: impedance %d lists the segments %s, expected %s', when, j, got, [i for i, c in enumerate(choice) if c == j])
    for n, (op, which, who, picks, mode) in enumerate(case['ops']):
        i = who % len(segs)
        j = which if who < 2 else (who + which) % 4
        j %= 4
        before = list(choice)
        if op in ('set', 'clear'):
            name = 'PerLengthImpedance' if mode & 1 else kind(j)
            if op == 'clear':
                name, v = KINDS[which % 3], None
            else:
                v = j
            x = None if v is None else imps[v]
            getattr(segs[i], 'set' + name)(x) if mode & 2 else setattr(segs[i], name, x)
            choice[i] = v
        elif op in ('list', 'add', 'remove'):
            ks = []
            for p in picks:
                k = p % len(segs)
                if k not in ks and (op != 'remove' or choice[k] == j):
                    ks.append(k)
            if op == 'list':
                lst = [segs[k] for k in ks]
                imps[j].setLineSegments(lst) if mode & 1 else setattr(imps[j], 'LineSegments', lst)
                if len(lst) != len(ks):
                    fail('the list assigned was changed')
                choice = [j if k in ks else None if c == j else c for k, c in enumerate(choice)]
            elif op == 'add':
                imps[j].addLineSegments(*[segs[k] for k in ks])
                for k in ks:
                    choice[k] = j
            else:
                imps[j].removeLineSegments(*[segs[k] for k in ks])
                for k in ks:
                    choice[k] = None
        else:
            kw = {}
            for p in picks[:3]:
                name = KINDS[p % 3]
                kw[name] = (p + which) % 2 + (2 if name == 'PhaseImpedance' or name == 'PerLengthImpedance' and mode & 1 else 0)
            args = {k: imps[v] for k, v in kw.items()}
            if mode & 2:
                args.setdefault('PhaseImpedance', None)
            try:
                s = Segment(**args)
            except ValueError:
                if len(kw) < 2:
                    raise
                labels.add('constructor refuses %d impedances' % len(kw))
            else:
                if len(kw) > 1:
                    fail('a segment constructed with %s raises no ValueError', sorted(kw))
                segs.append(s)
                choice.append(next(iter(kw.values()), None))
                before.append(None)
                labels.add('constructed with %d' % len(kw))
        if any(b is not None and b != c for b, c in zip(before, choice)):
            changed = True
            labels.add('replaced' if any(b is not None and c is not None and b != c for b, c in zip(before, choice)) else 'removed')
        labels.add(op)
        check('after operation %d %s' % (n + 1, [op, which, who, picks, mode]))
    return changed, sorted(labels)

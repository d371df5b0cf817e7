"""C14  Writing a model and reading it back reproduces it."""
import io
import os
import tempfile

from .. import docs, schema
from ..gen import as_read, cases
from ..graphs import Graph, corpus_graph, gen_graph, large_graph
from ..runner import fail

RULE = ('one slice per class of the 16 models: graphs of 1-3 instances and their partners with random attribute values (all '
        'XML-representable text, extreme numbers, every enumeration literal) and up to 6 links, and per model graphs of 30-500 objects and parts of the model of a real network, any subset in any order '
        'as the dictionary; written as utf-8 or us-ascii to a path or a text file object, read back with the class map (or '
        'without, for the full versions) and compared feature by feature; closed graphs are written again and must give '
        'the same document. Non-trivial: at least 2 attributes or links are set.')
ASSUMPTIONS = ['values are of the types the schema gives and XML-representable', 'keys are the UUIDs of the objects',
               'many-to-many and one-way many-valued links are not generated (known findings)',
               'the ends hidden by an inherited association of the same name (known findings of C01) are not generated']


def jobs(tier):
    k = 55 if tier == 'quick' else 500
    return [(['CIM15', '*corpus'], k // 2)] + [([name], k // 4) for name in schema.models()] + [([name, n], k) for name, m in schema.models().items() for n in m.names]


def strategy(job):
    m = schema.model(job[0])

    def decode(src):
        opts = {'target': src.pick(['text', 'path']), 'encoding': src.pick(['utf-8', 'us-ascii']), 'map': src.n(2)}
        g = large_graph(src, m) if len(job) == 1 else corpus_graph(src, m) if job[1] == '*corpus' else gen_graph(src, m, [job[1]], 1 + src.n(3), links=6)
        g.update(opts)
        return g
    return cases(decode, 170 if len(job) > 1 and job[1] != '*corpus' else 12)


def write(d, case):
    """The document as bytes"""
    schema.use_repo()
    from PyCIM import cimwrite
    if case['target'] == 'text':
        f = io.StringIO()
        cimwrite(d, f, case['encoding'])
        return f.getvalue().encode('utf-8')
    with tempfile.TemporaryDirectory(dir='/dev/shm' if os.path.isdir('/dev/shm') else None) as t:
        p = os.path.join(t, 'out.xml')
        cimwrite(d, p, case['encoding'])
        with open(p, 'rb') as f:
            return f.read()


def execute(job, case):
    m = schema.model(job[0])
    g = Graph(m, case)
    data = write(g.d, case)
    args = () if not case['map'] and m.name in ('CIM14', 'CIM15') and g.d else (m.package_map(), schema.CIM_NS[schema.version(m.name)])
    back = docs.read_bytes(data, args)
    exp = docs.Expected(m)
    new = {}
    for i in g.inside:
        new[i] = exp.rm.new(g.rm.cls[i], {a.n: as_read(a, g.rm.attrs[i][a.n]) for a in m.attrs(g.rm.cls[i]).values()})
        exp.ids[case['objs'][i]['uuid']] = new[i]
    n = 0
    for i in g.inside:
        for name in m.refs(g.rm.cls[i]):
            ps = [new[j] for j in g.rm.partners(i, name) if j in new]
            n += len(ps)
            exp.rm.val[new[i]][name] = ps if m.refs(g.rm.cls[i])[name].many else ps[0] if ps else None
    exp.check(back, 'after writing and reading back')
    labels = {case['target'], case['encoding'], 'links' if n else 'no links', 'without a class map' if not args else 'with a class map'}
    whole = any(type(g.rm.attrs[i][a.n]) is int for i in g.inside for a in m.attrs(g.rm.cls[i]).values() if a.t == 'float')
    if whole:
        labels.add('whole numbers for floats')
    elif g.closed():
        again = write(back, case)
        if again != data:
            fail('writing the result again gives another document: %r and %r', data[:600], again[:600])
        labels.add('written again')
    else:
        labels.add('references leave the dictionary')
    if not g.d:
        labels.add('empty dictionary')
    return n + sum(len(o['attrs']) for o in case['objs']) >= 2, sorted(labels)

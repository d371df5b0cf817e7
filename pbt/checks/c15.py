"""C15  The written document states exactly the model."""
from .. import schema
from ..gen import cases
from ..graphs import Graph, check_written, corpus_graph, gen_graph, large_graph
from .c14 import write

RULE = ('one slice per class of the 16 models: graphs, small, large and real, as for C14 but with links over every kind of association, written as '
        'utf-8 or us-ascii to a path or a text file object; the output is parsed by an independent parser and every element, '
        'identifier, attribute statement (value, qualifier), enumeration and reference is compared with the model; nothing '
        'else may appear. Non-trivial: at least 2 attributes or links are set.')
ASSUMPTIONS = ['values are of the types the schema gives and XML-representable',
               'the ends hidden by an inherited association of the same name (known findings of C01) are not generated']


def jobs(tier):
    k = 60 if tier == 'quick' else 500
    return [(['CIM15', '*corpus'], k // 2)] + [([name], k // 4) for name in schema.models()] + [([name, n], k) for name, m in schema.models().items() for n in m.names]


def strategy(job):
    m = schema.model(job[0])

    def decode(src):
        opts = {'target': src.pick(['text', 'path']), 'encoding': src.pick(['utf-8', 'us-ascii'])}
        g = large_graph(src, m, all_links=True, any_keys=True) if len(job) == 1 else corpus_graph(src, m) if job[1] == '*corpus' else \
            gen_graph(src, m, [job[1]], 1 + src.n(3), links=6, all_links=True, any_keys=True)
        g.update(opts)
        return g
    return cases(decode, 170 if len(job) > 1 and job[1] != '*corpus' else 12)


def execute(job, case):
    m = schema.model(job[0])
    g = Graph(m, case)
    labels = {case['target'], case['encoding']}
    n = check_written(m, write(g.d, case), g.tree(), labels)
    return n >= 2, sorted(labels)

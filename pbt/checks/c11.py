"""C11  The model version follows the document or the caller."""
import collections
import io
import sys
import types

from .. import docs, schema
from ..gen import cases
from ..runner import fail

RULE = ('slices per model and kind of namespace (CIM14, CIM15, CIM16, unknown, none): documents with 0-4 objects of classes '
        'of that model in random layouts and under random prefixes, some with elements of a second CIM namespace, others with namespaces that resemble those of CIM, read '
        'without arguments, with class map and namespace (also with a class map of the caller, which has some of the classes only, or classes of the caller that derive from those of the model), with either one alone (also empty), as positional or keyword '
        'arguments. The model of every object read, the exceptions and the results of the namespace helpers are compared '
        'with the rules of the property. Non-trivial: at least one object read or an argument error expected.')
ASSUMPTIONS = ['the namespaces end in #', 'the RDF namespace is declared on the root element', 'without arguments only one known CIM namespace is bound, and the prefix cim to nothing else when it is declared below the root',
               'an unrecognised namespace is bound to the prefix cim']
LIKE = ['http://iec.ch/TC57/2010/CIM-schema-cim15-ext#', 'http://example.com/?CIM-schema-cim14#', 'http://iec.ch/TC57/2013/CIM-schema-cim16/profile#',
        'http://iec.ch/TC57/61970-552/ModelDescription/1#', 'http://iec.ch/tc57/2009/cim-schema-cim14#', 'http://iec.ch/TC57/2009/CIM-schema-cim14/#',
        'http://iec.ch/TC57/CIM-generic#', 'http://entsoe.eu/Secretariat/ProfileExtension/2#']
UNKNOWN = ['http://iec.ch/TC57/2012/CIM-schema-cim17', 'http://example.com/mine', 'http://iec.ch/TC57/2009/CIM-schema-cim14x', 'urn:x']


def jobs(tier):
    k = 400 if tier == 'quick' else 2500
    out = []
    for v in ('CIM14', 'CIM15', 'CIM16', 'unknown', 'none'):
        out.append((['auto', v], 4 * k))
    for name in schema.models():
        out.append((['map', name], k))
    return out


def strategy(job):
    kind, v = job
    m = schema.model({'CIM14': 'CIM14'}.get(v, 'CIM15') if kind == 'auto' else v)

    def decode(src):
        if kind == 'auto':
            ns = {'CIM14': schema.CIM_NS['CIM14'], 'CIM15': schema.CIM_NS['CIM15'], 'CIM16': schema.CIM16_NS,
                  'unknown': src.pick(UNKNOWN), 'none': None}[v]
        else:
            ns = src.pick([schema.CIM_NS[schema.version(v)], m.ns, 'http://example.com/mine', schema.CIM_NS['CIM14'],
                           schema.CIM_NS['CIM15'], schema.CIM16_NS])
        both = [n for n in m.names if n in schema.model('CIM14').base and n in schema.model('CIM15').base] if kind == 'auto' else m.names
        classes = [src.pick(both if src.byte() % 3 else m.names) for _ in range(3)]
        doc = docs.gen_doc(src, m, classes, src.n(5), attrs=2, links=2)
        doc['ns'] = ns
        items = doc['items']
        if ns is None:      # the objects are in a namespace that is not CIM at all
            doc['items'] = items = [{'node': ['ext', 'FullModel', [['rdf', 'about', '#x']], []]}]
        second = None
        if src.byte() % 3 == 1:
            # elements of a namespace that is not to be read
            doc['ns2'] = src.pick([u for u in (schema.CIM_NS['CIM14'], schema.CIM_NS['CIM15'], schema.CIM16_NS) if u != ns]) + '#' \
                if kind == 'map' else docs.OTHER
            for n in range(1 + src.n(2)):
                cls = src.pick(m.names)
                items.insert(src.n(len(items) + 1), {'node': ['cim2', cls, [['rdf', 'ID', 'second%d' % n]], []]})
        style = docs.gen_style(src)
        if v == 'unknown' or src.flag():
            style['cim'] = 'cim'
        if not style['late'] and src.byte() % 3 == 1:
            # further namespaces, like those of CIM but none of them
            taken = {style['cim'], style['rdf'], 'ext', 'o'}
            for _ in range(1 + src.n(2)):
                p = src.pick(['CIM', 'cims', 'cim14', 'cim16', 'Cim', 'entsoe', 'md', 'xsd'])
                if p not in taken:
                    taken.add(p)
                    doc.setdefault('xmlns', []).append([p, src.pick(LIKE)])
        bad = src.byte() % 4 == 1
        how = src.n(6) if bad else None
        case = {'doc': doc, 'style': style, 'bad': how, 'keywords': src.n(2), 'extra': src.n(3)}
        if kind == 'map' and src.flag():
            # a class map of the caller's: a part of the model's, classes of the caller's own, another kind of dictionary
            used = sorted({it['cls'] for it in items if 'cls' in it})
            case['map'] = {'kind': src.pick(['dict', 'ordered', 'derived']), 'without': [c for c in used if src.byte() % 4 == 1],
                           'only': src.byte() % 4 == 1, 'own': [c for c in used if src.byte() % 4 == 2]}
        return case
    return cases(decode, 220)


class Map(dict):
    pass


def class_map(m, x):
    """The class map of a case and the classes of the caller's own"""
    pm = {'dict': dict, 'ordered': collections.OrderedDict, 'derived': Map}[x['kind']](m.package_map())
    for c in x['without']:
        pm.pop(c)
    own = {}
    if x['own']:
        mod = types.ModuleType('mine_' + m.name.replace('.', '_'))
        sys.modules[mod.__name__] = mod
        for c in x['own']:
            if c in pm:
                own[c] = type(c, (m.py(c),), {'__module__': mod.__name__})
                setattr(mod, c, own[c])
                pm[c] = mod.__name__
    return pm, own


def execute(job, case):
    kind, v = job
    m = schema.model({'CIM14': 'CIM14'}.get(v, 'CIM15') if kind == 'auto' else v)
    doc, style = case['doc'], case['style']
    data = docs.render(doc, style)
    labels = {'%s %s' % (kind, v)}
    pm, ns = m.package_map(), doc['ns']
    # the helpers
    from PyCIM.RDFXMLReader import get_cim_ns, get_rdf_ns, xmlns
    got = xmlns(io.BytesIO(data))
    want = {style['rdf']: schema.RDF_NS, 'ext': docs.EXT, 'o': doc.get('ns2') or docs.OTHER}
    if ns is not None and not (kind == 'map' and style['late']):
        want[style['cim']] = ns + '#'
    want.update(doc.get('xmlns', ()))
    want.update((p, 'http://example.com/elsewhere#') for p in docs.elsewhere(doc, style))
    want.update(('n%d' % i, 'urn:n%d' % i) for i in range(style.get('xmlns') or 0))
    for p, u in want.items():
        if got.get(p) != u:
            fail('xmlns() gives %r for the prefix %r, the document declares %r', got.get(p), p, u)
    if set(got) - set(want) - {'loc', '', style['cim'], 'cim', 'rdf'}:
        fail('xmlns() gives prefixes that are not declared: %s', sorted(set(got) - set(want)))
    if get_rdf_ns(got) != schema.RDF_NS:
        fail('get_rdf_ns() is %r', get_rdf_ns(got))
    if get_rdf_ns({}) != schema.RDF_NS or get_rdf_ns({'rdf': 'http://x/y#'}) != 'http://x/y#':
        fail('get_rdf_ns() does not report the declared namespace, or not the standard one when none is declared')
    if kind == 'auto':
        uri, cmap = get_cim_ns(got)
        if ns is not None and uri != ns:
            fail('get_cim_ns() reports the namespace %r of a document in %r', uri, ns)
        if cmap is not m.package_map() and cmap != m.package_map():
            fail('get_cim_ns() reports the wrong class map for %s', v)
    # one argument alone
    if case['bad'] is not None:
        a = [dict(packageMap=pm), dict(nsURI=ns or 'http://x'), dict(packageMap=pm, nsURI=None), dict(packageMap=None, nsURI='http://x'),
             dict(packageMap=pm, nsURI=''), dict(packageMap={}, nsURI='http://x')][case['bad']]
        try:
            docs.cimread(io.BytesIO(data), **a)
        except ValueError:
            labels.add('ValueError for one argument alone')
            return True, sorted(labels)
        fail('no ValueError for %s alone', [k for k, x in a.items() if x])
    exp = docs.Expected(m)
    if case.get('map'):
        pm, exp.own = class_map(m, case['map'])
        if case['map']['only']:
            used = {it['cls'] for it in doc['items'] if 'cls' in it}
            for c in [c for c in pm if c not in used][1:]:      # an empty one is none
                del pm[c]
        doc = dict(doc, items=[it for it in doc['items'] if it.get('cls') not in case['map']['without']])
        labels |= {'class map of the caller'} | {'class map with own classes' for _ in exp.own} | {'class map without classes of the document' for _ in case['map']['without']}
        before = dict(pm)
    exp.read(doc)
    if kind == 'auto':
        args = [(), (None, None)][case['keywords']]
        d = docs.cimread(io.BytesIO(data), *args)
        exp.check(d, 'read without arguments')
        for o in d.values():
            if type(o).__module__.split('.')[0] != m.name:
                fail('a document in the %s namespace gives %s', v, type(o))
    else:
        d = docs.cimread(io.BytesIO(data), **dict(packageMap=pm, nsURI=ns)) if case['keywords'] else docs.cimread(io.BytesIO(data), pm, ns)
        exp.check(d, 'read with %s class map of %s' % ('a' if case.get('map') else 'the', v))
        if case.get('map') and pm != before:
            fail('the class map of the caller is changed')
    if doc.get('ns2') or any('node' in it for it in doc['items']):
        labels.add('elements of a second namespace')
    if doc.get('xmlns'):
        labels.add('further namespaces')
    if style['late']:
        labels.add('CIM declared below the root')
    labels.add('prefix %r' % style['cim'])
    return bool(exp.ids), sorted(labels)

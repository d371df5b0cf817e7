"""The reference schema (schema.json.gz, see tools/gen_schema.py) and lookups on it.

Nothing here reads the private tables (_attrs, _refs, ...) of the Python classes: what a class must
offer is known from the published metamodel, and the classes are used through their public features."""
import gzip
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class BadCase(ValueError):
    """An error of this machinery: a generated case is not what it should be."""


class Missing(Exception):
    """A class of the schema is not there."""


class Attr:
    __slots__ = ('n', 't', 'd', 'e', 'l', 'owner')

    def __init__(self, d, owner):
        self.n, self.t, self.d, self.e, self.l, self.owner = d['n'], d['t'], d['d'], d['e'], d['l'], owner


class Ref:
    __slots__ = ('n', 'many', 'to', 'opp', 'owner', 'opposite')

    def __init__(self, d, owner):
        self.n, self.many, self.to, self.opp, self.owner = d['n'], d['many'], d['to'], d['opp'], owner
        self.opposite = None        # Ref at the other end

    def __repr__(self):
        return '%s.%s' % (self.owner, self.n)


TRIO = ('PerLengthImpedance', 'SequenceImpedance', 'PhaseImpedance')     # CIM15 ACLineSegment, see C19


class Model:
    def __init__(self, name, data):
        self.name = name
        self.ns, self.prefix = data['ns']
        self.classes = {}
        self.base, self.pkg, self.own_attrs, self.own_refs, self.positional = {}, {}, {}, {}, {}
        for n, c in data['classes'].items():
            self.base[n], self.pkg[n] = c['base'], c['pkg']
            self.own_attrs[n] = [Attr(a, n) for a in c['attrs']]
            self.own_refs[n] = [Ref(r, n) for r in c['refs']]
            self.positional[n] = c.get('positional') or [a['n'] for a in c['attrs']] + [r['n'] for r in c['refs']]
        self.names = sorted(self.base)
        for n in self.names:
            for r in self.own_refs[n]:
                if r.opp and r.to:
                    r.opposite = next(o for o in self.own_refs[r.to] if o.n == r.opp)
        self._desc = {}
        kids = {}
        for n in self.names:
            kids.setdefault(self.base[n], []).append(n)
        for n in self.names:
            out, todo = [], [n]
            while todo:
                k = todo.pop(0)
                out.append(k)
                todo += sorted(kids.get(k, []))
            self._desc[n] = out
        self._flat = {}
        self._py = {}

    def ancestors(self, n):
        """n, its base, ... up to Element"""
        out = []
        while n:
            out.append(n)
            n = self.base[n]
        return out

    def descendants(self, n):
        return self._desc[n]

    def flat(self, n):
        """(attrs, refs) of an instance by name, base first; a feature of the same name in a subclass wins."""
        if n not in self._flat:
            attrs, refs = {}, {}
            for k in reversed(self.ancestors(n)):
                for a in self.own_attrs[k]:
                    attrs[a.n] = a
                for r in self.own_refs[k]:
                    refs[r.n] = r
            attrs.pop('UUID', None)
            self._flat[n] = (attrs, refs)
        return self._flat[n]

    def attrs(self, n):
        return self.flat(n)[0]

    def refs(self, n):
        return self.flat(n)[1]

    def usable(self, ref):
        """Classes whose instances really have this end (not hidden by one of the same name)."""
        return [k for k in self.descendants(ref.owner) if self.refs(k).get(ref.n) is ref]

    def hidden(self, ref):
        return [k for k in self.descendants(ref.owner) if self.refs(k).get(ref.n) is not ref]

    def targets(self, ref):
        """Classes an instance of which may be a partner at this end."""
        if ref.to is None:      # CIM15 ACLineSegment.PerLengthImpedance
            return ['PerLengthPhaseImpedance', 'PerLengthSequenceImpedance']
        if ref.opposite is not None:
            return self.usable(ref.opposite)
        return self.descendants(ref.to)

    def is_trio(self, ref):
        return self.name == 'CIM15' and ref.owner == 'ACLineSegment' and ref.n in TRIO

    def py(self, n):
        """The Python class, imported from the package the schema puts it in."""
        if n not in self._py:
            use_repo()
            try:
                self._py[n] = getattr(importlib.import_module(self.pkg[n]), n)
            except (ImportError, AttributeError) as e:
                raise Missing('%s cannot be imported from %s: %s' % (n, self.pkg[n], e)) from e
        return self._py[n]

    def package_map(self):
        use_repo()
        return importlib.import_module(self.name).packageMap

    def pairs(self):
        """Every bidirectional association once, as the Ref that sorts first; unidirectional ones too."""
        out = []
        for n in self.names:
            for r in self.own_refs[n]:
                if r.to is None:
                    continue
                if r.opposite is None or (r.owner, r.n) <= (r.opposite.owner, r.opposite.n):
                    out.append(r)
        return out

    def find(self, owner, name):
        return next(r for r in self.own_refs[owner] if r.n == name)


_used = []


def use_repo():
    if not _used:
        _used.append(1)
        sys.path.insert(0, REPO)
        sys.dont_write_bytecode = True
        import logging
        logging.disable(logging.CRITICAL)
        import warnings
        warnings.simplefilter('ignore')


_models = {}


def models():
    if not _models:
        with gzip.open(os.path.join(HERE, 'schema.json.gz')) as f:
            data = json.load(f)
        for n in sorted(data):
            _models[n] = Model(n, data[n])
    return _models


def model(n):
    return models()[n]


def version(name):
    return name.split('.')[0]


CIM_NS = {'CIM14': 'http://iec.ch/TC57/2009/CIM-schema-cim14', 'CIM15': 'http://iec.ch/TC57/2010/CIM-schema-cim15'}
CIM16_NS = 'http://iec.ch/TC57/2013/CIM-schema-cim16'
RDF_NS = 'http://www.w3.org/1999/02/22-rdf-syntax-ns#'

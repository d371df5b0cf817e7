"""Builds /verif/schema.json.gz, the oracle for class structure, from the
published metamodel (/repo/Model/**/*.ecore) plus the documented deviations
below.  Run once when the machinery was made; the checks use the committed
snapshot, so a later change of /repo (its code or its .ecore files) does not
change the oracle.

It never reads the Python classes."""
import glob, gzip, json, sys
import xml.etree.ElementTree as ET

XSI = '{http://www.w3.org/2001/XMLSchema-instance}type'
REPO = sys.argv[1] if len(sys.argv) > 1 else '/repo'
OUT = sys.argv[2] if len(sys.argv) > 2 else '/verif/schema.json.gz'

ECORE = {'EString': 'str', 'EBoolean': 'bool', 'EInt': 'int', 'EShort': 'int', 'EFloat': 'float',
         'EDouble': 'float', 'EIntegerObject': 'int', 'EDate': 'str'}
# java.math.BigInteger is represented as text throughout (GeneratingUnit.modelDetail, *.quantity)
INST = {'float': 'float', 'int': 'int', 'short': 'int', 'java.lang.String': 'str', 'java.util.Date': 'str',
        'java.math.BigInteger': 'str'}
DEFAULT = {'str': '', 'bool': False, 'int': 0, 'float': 0.0}


def load(path, rootpkg):
    root = ET.parse(path).getroot()
    classes, enums, dts = {}, {}, {}
    ns = (root.get('nsURI'), root.get('nsPrefix'))
    # profile metamodels repeat the path of the profile inside the root package
    prefix = rootpkg.split('.')

    def pkgname(parts):
        tail = prefix[1:]
        if tail and parts[:len(tail)] == tail:
            parts = parts[len(tail):]
        return '.'.join(prefix + parts)

    def walk(e, epath, parts):
        for c in e.findall('eClassifiers'):
            t, n = c.get(XSI).split(':')[1], c.get('name')
            if t == 'EClass':
                feats = []
                for f in c.findall('eStructuralFeatures'):
                    d = dict(f.attrib)
                    d['kind'] = f.get(XSI).split(':')[1]
                    feats.append(d)
                classes[epath + '/' + n] = dict(name=n, pkg=pkgname(parts), feats=feats,
                                                sup=(c.get('eSuperTypes') or '').split())
            elif t == 'EEnum':
                enums[epath + '/' + n] = [l.get('literal') or l.get('name') for l in c.findall('eLiterals')]
            else:
                dts[epath + '/' + n] = c.get('instanceClassName')
        for s in e.findall('eSubpackages'):
            walk(s, epath + '/' + s.get('name'), parts + [s.get('name')])
    walk(root, '#/', [])
    return classes, enums, dts, ns


def build(path, model):
    classes, enums, dts, ns = load(path, model)
    out = {}
    for key, v in classes.items():
        if model == 'CIM14.ENTSOE.Equipment' and key.endswith('Equipment/OperationalLimit'):
            continue    # declared twice: this empty base is folded into OperationalLimits/OperationalLimit
        attrs, refs = [], []
        for f in v['feats']:
            t = f['eType']
            if f['kind'] == 'EAttribute':
                enum = None
                if t.startswith('ecore:EDataType'):
                    py = ECORE[t.split('#//')[1]]
                elif t in enums:
                    py, enum = 'str', t.split('/')[-1]
                else:
                    py = INST[dts[t]]
                default = (enums[t][0] if enums[t] else '') if enum else DEFAULT[py]
                attrs.append(dict(n=f['name'], t=py, d=default, e=enum, l=enums[t] if enum else None))
            else:
                refs.append(dict(n=f['name'], many=f.get('upperBound') == '-1', to=t.split('/')[-1],
                                 opp=f['eOpposite'].split('/')[-1] if 'eOpposite' in f else None))
        out[v['name']] = dict(pkg=v['pkg'], base=v['sup'][0].split('/')[-1] if v['sup'] else None,
                              attrs=attrs, refs=refs)
    return dict(ns=ns, classes=out)


# ---- documented deviations of the Python packages from the metamodel files --------------------------
U14 = "http://iec.ch/TC57/2009/CIM-schema-cim14?profile=http://iec.ch/TC57/2007/profile/"
U15 = "http://iec.ch/TC57/2010/CIM-schema-cim15?profile=http://iec.ch/TC57/2011/"
ROOT_NS = {      # profile packages: schema URI + profile URI, and their own prefix
    'CIM14.CDPSM.Balanced': (U14 + 'CDPSM/Balanced', 'bal'),
    'CIM14.CDPSM.GIS_Connectivity': (U14 + 'CDPSM/GIS_Connectivity', 'conn'),
    'CIM14.CDPSM.Unbalanced': (U14 + 'CDPSM/Unbalanced', 'unbal'),
    'CIM14.CPSM.Equipment': (U14 + 'CPSM/Equipment', 'eq'),
    'CIM14.CPSM.StateVariables': (U14 + 'CPSM/StateVariables', 'sv'),
    'CIM14.CPSM.Topology': (U14 + 'CPSM/Topology', 'topo'),
    'CIM14.ENTSOE.Dynamics': (U14 + 'ENTSOE/Dynamics', 'dyn'),
    'CIM14.ENTSOE.Equipment': (U14 + 'ENTSOE/Equipment', 'eq'),
    'CIM14.ENTSOE.StateVariables': (U14 + 'ENTSOE/StateVariables', 'sv'),
    'CIM14.ENTSOE.Topology': (U14 + 'ENTSOE/Topology', 'topo'),
    'CIM15.CDPSM.Asset': (U15 + 'iec61968-4/CDPSM/Asset', 'asset'),
    'CIM15.CDPSM.Balanced': (U15 + 'iec61968-13/CDPSM/Balanced', 'balanced'),
    'CIM15.CDPSM.Connectivity': (U15 + 'iec61968-13/CDPSM/Connectivity', 'conn'),
    'CIM15.CDPSM.Geographical': (U15 + 'iec61968-13/CDPSM/Geographical', 'geo'),
}


def attr(n, t='float', e=None, l=None):
    return dict(n=n, t=t, d=l[0] if l else DEFAULT[t], e=e, l=l)


def ref(n, many, to, opp):
    return dict(n=n, many=many, to=to, opp=opp)


def deviations(S):
    for m, ns in ROOT_NS.items():
        S[m]['ns'] = ns
    q = S['CIM14.ENTSOE.Equipment']['classes']['OperationalLimit']
    q['base'] = 'IdentifiedObject'
    # not a Python identifier; the package offers no such feature
    t = S['CIM14.ENTSOE.Dynamics']['classes']['Thing']
    t['refs'] = [r for r in t['refs'] if r['n'].isidentifier()]
    C = S['CIM15']['classes']
    for n, c in C.items():        # compound types are identified elements as in CIM14
        if c['base'] is None and n != 'Element':
            c['base'] = 'Element'
    L = ["C", "N", "s1", "B", "s2", "A"]
    W, P, O = 'CIM15.IEC61970.Wires', 'CIM15.IEC61970.WiresPhaseModel', 'CIM15.IEC61970.OperationalLimits'
    C['ACLineSegmentPhase'] = dict(pkg=P, base='PowerSystemResource',
                                   attrs=[attr('phase', 'str', 'SinglePhaseKind', L)],
                                   refs=[ref('ACLineSegment', False, 'ACLineSegment', 'ACLineSegmentPhases')])
    C['ACLineSegment']['refs'] += [ref('ACLineSegmentPhases', True, 'ACLineSegmentPhase', 'ACLineSegment'),
                                   ref('PerLengthImpedance', False, None, 'LineSegments'),
                                   ref('CurrentTemperatureCurves', True, 'CurrentTemperatureCurve', 'ACLineSegments')]
    C['EnergyConsumerPhase']['attrs'] = [attr('phase', 'str', 'SinglePhaseKind', L), attr('pfixed'), attr('qfixed')]
    C['EnergyConsumerPhase']['positional'] = ['phase', 'EnergyConsumer', 'pfixed', 'qfixed']
    C['TransformerEnd']['refs'].append(ref('BaseVoltage', False, 'BaseVoltage', 'TransformerEnd'))
    C['BaseVoltage']['refs'].append(ref('TransformerEnd', True, 'TransformerEnd', 'BaseVoltage'))
    C['Equipment']['refs'].append(ref('OperationalLimitSet', True, 'OperationalLimitSet', None))
    C['CheckPoint'] = dict(pkg=O, base='IdentifiedObject', attrs=[], refs=[ref('Equipment', False, 'Equipment', None)])
    C['VoltageCheckPoint'] = dict(pkg=O, base='CheckPoint', attrs=[], refs=[
        ref('LowerLimitsCurve', False, 'VoltageTimeCurve', None),
        ref('UpperLimitsCurve', False, 'VoltageTimeCurve', None),
        ref('VoltageLimitSet', False, 'OperationalLimitSet', None)])
    C['VoltageTimeCurve'] = dict(pkg=O, base='Curve', attrs=[], refs=[])
    C['CurrentTemperatureCurve'] = dict(pkg=W, base='Curve', attrs=[], refs=[
        ref('ACLineSegments', True, 'ACLineSegment', 'CurrentTemperatureCurves')])


def main():
    S = {}
    for p in sorted(glob.glob(REPO + '/Model/**/*.ecore', recursive=True)):
        m = p[len(REPO + '/Model/'):-6].replace('/', '.')
        m = {'CIM14.CIM14': 'CIM14', 'CIM15.CIM15': 'CIM15'}.get(m, m)
        S[m] = build(p, m)
    deviations(S)
    with open(OUT, 'wb') as f:
        with gzip.GzipFile(fileobj=f, mode='wb', mtime=0) as g:
            g.write(json.dumps(S, sort_keys=True, separators=(',', ':')).encode())
    print(len(S), sum(len(m['classes']) for m in S.values()))


main()

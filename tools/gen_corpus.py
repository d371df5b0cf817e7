"""Makes corpus.json.gz, once: the EDF document among the tests' data as an abstract document (see pbt/docs.py).

Statements that the CIM15 schema does not have, or that would give a single-valued end a second partner,
are left out, and the long identifiers are kept."""
import gzip
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from pbt import graphs, schema      # noqa: E402
from pbt.world import RefModel      # noqa: E402

m = schema.model('CIM15')
with open(sys.argv[1], 'rb') as f:
    root = graphs.parse(f.read())
CIM, RDF = schema.CIM_NS['CIM15'] + '#}', schema.RDF_NS + '}'
items, rm, ids, seen, dropped = [], RefModel(m), {}, {}, []
for e in root.kids():
    cls = e.tag[len(CIM):]
    i = e.attrs.get(RDF + 'ID') or e.attrs[RDF + 'about'][1:]
    if cls not in m.base or ids.setdefault(i, (len(ids), cls))[1] != cls:
        dropped.append(e.tag)
        continue
    if i not in seen:
        seen[i] = rm.new(cls)
    items.append({'cls': cls, 'id': i, 'about': RDF + 'about' in e.attrs, 'st': [], 'e': e})
done = set()
for it in items:
    for s in it.pop('e').kids():
        q, n = s.tag[len(CIM):].split('.')
        a, r, res = m.attrs(it['cls']).get(n), m.refs(it['cls']).get(n), s.attrs.get(RDF + 'resource')
        if a and a.e and res and '.' in res and res.rsplit('.', 1)[1] in a.l:
            st = ['enum', n, q, res, res.rsplit('.', 1)[1]]
        elif a and not a.e and res is None:
            t = s.text()
            v = t if a.t == 'str' else int(t) if a.t == 'int' else t.strip().lower() in ('true', '1') if a.t == 'bool' else {'f': repr(float(t))}
            st = ['lit', n, q, t, v]
        elif r and res and res[:1] == '#' and res[1:] in seen:
            i, j = seen[it['id']], seen[res[1:]]
            if rm.cls[j] not in m.targets(r) or r.many and r.opposite is None or not r.many and rm.partners(i, n) not in ([], [j]) or \
                    r.opposite and not r.opposite.many and rm.partners(j, r.opp) not in ([], [i]):
                dropped.append((it['cls'], n))
                continue
            rm.link(i, n, j)
            st = ['ref', n, q, res[1:]]
        else:
            dropped.append((it['cls'], n))
            continue
        if st[0] != 'ref' and (it['id'], n) in done:
            dropped.append((it['cls'], n))
            continue
        done.add((it['id'], n))
        it['st'].append(st)
print(len(items), 'items', len(dropped), 'dropped', sorted(set(dropped))[:20])
with open(os.path.join(HERE, 'corpus.json.gz'), 'wb') as f:
    f.write(gzip.compress(json.dumps(items, separators=(',', ':')).encode(), 9, mtime=0))

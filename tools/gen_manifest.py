"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 'C01': 'Hypothesis-generated operation histories against an invariant over the history',
 'C02': 'Hypothesis-generated operation histories, model-based (reference model of association semantics)',
 'C03': 'Hypothesis-generated constructor calls, model-based (reference model, schema defaults)',
 'C04': 'Hypothesis-generated feature assignments against the published metamodel as the oracle',
 'C05': 'Hypothesis-generated import and read sequences, each in a fresh process',
 'C06': 'Hypothesis-generated documents against the expected identifiers and classes; metamorphic over order and source',
 'C07': 'Hypothesis-generated lexical forms and documents against typed expected values',
 'C08': 'Hypothesis-generated graphs, stated in random orders and ends, against a reference model',
 'C09': 'metamorphic: Hypothesis-generated documents with and without unusable content',
 'C10': 'Hypothesis-generated interleavings of reads, writes and mutations, with an invariant over the history',
 'C11': 'Hypothesis-generated namespace declarations and arguments against a decision table',
 'C12': 'metamorphic: Hypothesis-generated documents split into parts read in sequence; reference model',
 'C13': 'differential over Hypothesis-generated renderings of the same XML content',
 'C14': 'round trip over Hypothesis-generated object graphs',
 'C15': 'Hypothesis-generated object graphs, output parsed independently and compared with a reference model',
 'C16': 'metamorphic over Hypothesis-generated graphs, targets, encodings and locales',
 'C17': 'Hypothesis-generated call sequences, output parsed independently and compared with a reference tree',
 'C18': 'metamorphic and idempotence over Hypothesis-generated documents',
 'C19': 'Hypothesis-generated operation histories, model-based',
 'C21': 'Hypothesis-generated editing sessions (objects, dictionary, reads, writes, reloads), model-based',
 'C20': 'Hypothesis-generated damage to documents and injected faults of sources and targets, with invariants over what follows',
}
NOTE = {
 'C05': 'Every module of the library is the first import of at least one fresh process, and every package of each model the home of the first object read; deeper import orders are sampled.',
 'C10': 'Histories of up to about 12 steps are sampled; single thread.',
 'C19': 'Histories of up to 12 operations over pools of 2-4 segments and 2-4 impedances are sampled.',
}
rows = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks = []
for r in rows:
    i = r['id']
    cmd = 'PYTHONHASHSEED=0 python3-vt -B -m pbt.runner %s --tier %%s' % i
    checks.append({
        'property': i, 'quick_cmd': cmd % 'quick', 'thorough_cmd': cmd % 'thorough', 'evidence_file': 'evidence/%s.json' % i,
        'technique': TECH[i], 'level': 'exploration',
        'level_note': NOTE.get(i, 'Random search over every slice of the domain (each class, association or kind of document is '
                                  'visited in every run); absence of a violation outside the generated cases is not established.')
        + ' Trusts Hypothesis, expat and the committed schema.'})
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'python3-vt -B -c "import hypothesis, pbt.schema; pbt.schema.models()"', 'checks': checks,
               'not_applicable': [], 'notes': 'No hooks: the checks use the public interface of the library only.'}, f, indent=1)
    f.write('\n')

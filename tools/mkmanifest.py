"""Regenerates MANIFEST.json from properties.jsonl and the checks present."""
import json
import os

BASE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

NOTES = {}
DEFAULT = ('Every generated case is decided by the stated oracle on the real '
           'code; cases beyond the generated ones are not covered. Trusts the '
           'oracle in the check module, Hypothesis as a source of bytes, and '
           'the loaders of the generated graphs.')

TECH = {
    'C01': 'property-based testing: generated graphs, data and queries against a recursive reference evaluator',
    'C02': 'property-based testing over generated schedules: drawn completion orders and groupings, real thread-pool and asyncio executors, against a reference evaluator',
    'C03': 'property-based testing: call log of generated executions against a model of the calls',
    'C04': 'property-based testing over generated schedules: start/finish history invariant',
    'C05': 'property-based fault injection: malformed loader results in generated executions',
    'C06': 'property-based fault injection: failing loaders under generated schedules',
    'C07': 'property-based fault injection: drawn cancellation points of generated asyncio executions, life-cycle history invariant',
    'C08': 'property-based testing: confusable option values over aliases against a reference evaluator and loader call log',
    'C09': 'property-based testing: metamorphic relations and a reference merge',
    'C10': 'property-based testing: denormalizers against a reference evaluator with key order',
    'C11': 'property-based testing: generated valid and randomly edited queries, validate vs execute',
    'C12': 'property-based fault injection: generated valid queries made invalid in one known way; garbage queries',
    'C13': 'property-based testing: generated graph definitions with injected faults against a reference list of problems',
    'C14': 'property-based testing: generated GraphQL documents with known meaning',
    'C15': 'property-based fault injection and fuzzing of readers: faulty documents, mutated text and bytes',
    'C16': 'property-based testing: round trip of generated values and layouts',
    'C17': 'property-based testing: round trip of generated queries through every export format',
    'C18': 'property-based testing: introspection of generated graphs against a model schema and graphql-core',
    'C19': 'property-based differential testing: generated graphs with and without transformations',
    'C20': 'property-based testing: generated requests and batches against a reference evaluator, sync vs async differential',
    'C21': 'property-based testing: generated SQLite tables against a relational model, sync vs async differential',
    'C22': 'property-based testing: generated well-typed expressions against a direct interpreter',
    'C23': 'property-based fault injection: ill-typed edits of generated well-typed expressions',
    'C24': 'property-based testing: registry samples against the loader call log of generated histories',
    'C25': 'property-based testing and fuzzing of WSGI requests against a response model',
    'C26': 'property-based testing: dump of generated graphs read back by an independent parser',
    'C27': 'property-based testing: contexts seen by loaders in generated and interleaved executions',
    'C28': 'stateful property-based testing: generated histories over shared objects against fresh objects and snapshots',
    'C29': 'property-based testing: generated queries, types and graphs against their own descriptions (equality, walks, transformations, copies)',
}

checks, na = [], []
with open(os.path.join(BASE, 'properties.jsonl')) as f:
    ids = [json.loads(line)['id'] for line in f]
for i in ids:
    if os.path.exists(os.path.join(BASE, 'checks', i + '.py')):
        checks.append({
            'property': i,
            'quick_cmd': 'bash check.sh %s --tier quick' % i,
            'thorough_cmd': 'bash check.sh %s --tier thorough' % i,
            'technique': TECH[i], 'level': 'exploration',
            'level_note': NOTES.get(i, DEFAULT)})
    else:
        na.append({'property': i, 'reason':
                   'check not built yet (the technique applies; see '
                   'DESIGN.md)'})
out = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks,
       'not_applicable': na,
       'notes': 'No hooks are needed: the checks drive the public API of '
                '/repo/hiku, imported from the working tree. '
                'known_findings.json lists repaired and known defects.'}
with open(os.path.join(BASE, 'MANIFEST.json'), 'w') as f:
    json.dump(out, f, indent=1)
    f.write('\n')
print(len(checks), 'checks')

"""Regenerates DESIGN.md: tools/design_body.md, a section per property, and
the tables of repaired defects and planted bugs."""
import importlib
import json
import os
import re
import sys

BASE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, BASE)

SECTIONS = {
'C01': ('worlds of up to 4 nodes and a valid query of depth <= 3 with aliases, options, repeated links and duplicated items; executed, read back by three denormalizers; one in ten worlds large (hundreds of objects, deep chains, wide selections)',
        'the reference evaluator: equal values, types, keys and nothing else',
        'up to 6 identifiers per pool and 8 items per selection'),
'C02': ('worlds (also with sub-graph expression fields) and a drawn completion schedule: which of the pending calls complete, in which groups; the same under real asyncio with drawn pauses and under thread pools, one of them controlled by the schedule; graphs over graphs over graphs; slow loaders of real threads',
        'the reference evaluator for each executor; every call result consumed once; the executor ends with nothing pending',
        'real thread interleavings are those the machine gives plus those that the controlled pool orders; no exhaustive enumeration'),
'C03': ('worlds and queries as in C01, also with shared loading functions',
        'a model of the exact multiset of loader calls (function, set of fields with options, set of identifiers) of the whole execution',
        'which of several legal groupings an ordered root uses is left open'),
'C04': ('ordered queries (API) and mutation documents with fragments, directives and aliases (text), under drawn schedules and asyncio',
        'history invariant: start of the loader of item n+1 after completion of that of item n, in order of first mention; result as by the evaluator',
        'depth 2, up to 7 root items'),
'C05': ('an execution in which one drawn call of the whole execution (any depth) returns one of the malformed shapes at a drawn row; or every call returns well-formed lists and tuples mixed at random; the same in a graph below a graph',
        'TypeError exactly when the malformed value was returned; otherwise the evaluator\'s result',
        'one fault per execution'),
'C06': ('executions in which a drawn subset of calls raises (14 exception classes, custom ones and falsy ones among them, several of one class), under sync, drawn, thread and asyncio executors; in stacked graphs',
        'the exception that comes out is one of the injected objects (identity); afterwards the same engine gives the evaluator\'s result for another query',
        'BaseException subclasses which are not Exceptions are not injected'),
'C07': ('asyncio executions cancelled after a drawn number of loop steps; loaders with plain, slow, failing or swallowing clean-up, on a loop with a virtual clock (which finds executions that hang); in stacked graphs',
        'life-cycle log: all in-flight calls cancelled and finished at the time the caller sees CancelledError; nothing starts later; no task left in the loop',
        'one cancel() per execution'),
'C08': ('option declarations and values drawn from groups that are easily confused (-1/-2, 1/True/1.0, "1", empty containers, nested maps), several occurrences on the same objects; defaults, undeclared and missing options',
        'evaluator whose field values depend on the exact option values; loader log; TypeError iff a required option is missing',
        ''),
'C09': ('lists of overlapping query trees (names, options, aliases, ordered flags); worlds with two overlapping selections',
        'independent merge model: uniqueness, unions at every depth, order, ordered flag, idempotence, inputs unchanged (deep snapshots); execution of the merged query equals the evaluator on the concatenation',
        'stepwise merging (merge of merges) is compared by content only'),
'C10': ('worlds with nested records, optional and sequence records, named types, aliases that swap names between siblings; records as objects of six kinds (dictionaries, mappings, objects with item access only, falsy ones); `Denormalize`, `DenormalizeGraphQL`, `result.denormalize` and direct reading through the proxy',
        'evaluator with key order; a name not requested is not readable',
        ''),
'C11': ('valid queries by construction; randomly edited queries; drawn sub-selections of drawn types',
        'valid ones give no errors; whatever `validate` accepts is executed and denormalized without an exception',
        ''),
'C12': ('valid queries with one known fault of 15 kinds at a drawn place; option values with one wrong part at a drawn depth (of 12 foreign Python types among others); garbage queries of Python objects; documents',
        'at least one error for a faulty query, no exception from the validator for anything',
        'the wording of messages is not judged'),
'C13': ('graph definitions with zero or more injected faults (duplicate names, missing nodes and fields, wrong kinds, bad data types)',
        'a reference list of problems: GraphValidationError iff it is not empty; each reported problem belongs to the list',
        ''),
'C14': ('GraphQL document trees (operations, fragments, inline fragments, variables with defaults, directives, all literals) printed with drawn layout; operation names and variables',
        'an independent evaluator of the documents: resulting tree, options by value and type, operation type',
        'parsing of the text itself is graphql-core\'s'),
'C15': ('documents with one injected fault of a stated list per reader (GraphQL, EDN, protobuf); mutated text and bytes',
        'faulty: an exception of the documented kind; fuzz: an exception or a query tree, within the CPU limit',
        'inputs below 2 kB'),
'C16': ('nested EDN values of all kinds (tagged, symbols, keywords, dates, uuids, sets, maps, "twins" of equal content and other kind); drawn layouts (commas, comments, discards, number spellings)',
        'loads(dumps(x)) equals x in value and kind; text in any layout reads as the value',
        ''),
'C17': ('query trees through EDN, protobuf, GraphQL and the builder',
        'round trip equality in what the format can hold',
        ''),
'C18': ('graphs with options, hidden items, records, stacked Optional / Sequence wrappers, mutation graphs, named types that are not records; graphs with names that GraphQL does not allow',
        'a model schema computed from the spec (types, fields, args, defaults, wrappers, possible types), graphql-core\'s build_client_schema and introspection of the printed schema, random introspection queries; refused names',
        'sequences nested <= 3'),
'C19': ('graphs with drawn compositions of apply / graph transformers (identity, introspection, metrics, rewriting transformers), in every order',
        'same result and same loader calls as the graph without them; the original graph unchanged',
        ''),
'C20': ('requests and batches for the sync and async endpoints: operations, variables, __typename at all levels, syntax errors, invalid queries, unknown operations',
        'evaluator plus typename model per request; errors iff the request is faulty; batch = list of single answers; sync = async',
        ''),
'C21': ('SQLite tables with drawn rows (nulls, duplicates, more rows than one fetch), FieldsQuery and LinkQuery over drawn columns and identifiers; whole graphs',
        'relational model in Python; asynchronous sources equal the synchronous ones',
        'no PostgreSQL here: aiopg and SQLAlchemy asyncio run over stand-in engines'),
'C22': ('well-typed expressions (calls, each, if, if_some, get, tuples, literals) over low-level worlds',
        'direct interpreter of the expression over the data',
        ''),
'C23': ('well-typed expressions with one ill-typed edit',
        'construction of the sub-graph fails when the reference checker finds the expression ill-typed (undecided cases are not judged), and succeeds for the unedited one',
        ''),
'C24': ('histories of queries over graphs with metrics (stacked sub-graphs, shared functions, asyncio)',
        'registry samples before and after against the call log; for slow functions the observed time lies between the model\'s bounds',
        ''),
'C25': ('WSGI environments: methods, paths, lengths, bodies, queries',
        'response model (status, headers, body as evaluated, start_response once, bytes)',
        ''),
'C26': ('typed graphs', 'an independent parser of the dump; every typed item, with its type and description, and nothing else', ''),
'C27': ('loaders marked with pass_context, in nodes, links, sub-graphs and expression functions; several contexts, interleaved asyncio executions',
        'context identity by key lookups seen by each call; the others get no extra argument',
        ''),
'C28': ('histories of 3 to 8 operations (execute, validate, merge, export, introspect, denormalize, endpoints) over shared graphs, queries and engines',
        'each answer equals the answer of fresh objects; deep snapshots of the shared objects do not change',
        ''),
'C29': ('trees of queries, types and graph definitions; a second one with one difference; sets of overridden visitor methods; attributes to copy with',
        'the generated description itself: what is read back from the attributes, equality of the descriptions, the list of their parts in order',
        ''),
}


def section(p):
    mod = importlib.import_module('checks.' + p['id'])
    gen, oracle, bounds = SECTIONS[p['id']]
    cases = ', '.join('%s %d' % (t.name, t.quick) for t in mod.TESTS)
    out = ['### %s %s' % (p['id'], p['title']), '',
           '- Generated: %s.' % gen, '- Oracle: %s.' % oracle,
           '- Cases: %s. Non-trivial: %s.' % (cases, mod.RULE)]
    if bounds:
        out.append('- Bounds: %s.' % bounds)
    if getattr(mod, 'ASSUMPTIONS', None):
        out.append('- Assumes: %s.' % '; '.join(mod.ASSUMPTIONS))
    out.append('- Tests cannot: %s' % p['why_tests_cant'])
    return out


def main():
    with open(os.path.join(BASE, 'tools', 'design_body.md')) as f:
        body = f.read()
    head, tail = body.split('@@SECTIONS@@\n')
    out = [head.rstrip(), '']
    with open(os.path.join(BASE, 'properties.jsonl')) as f:
        for line in f:
            out += section(json.loads(line)) + ['']
    tail = tail.strip()
    with open(os.path.join(BASE, 'known_findings.json')) as f:
        known = json.load(f)
    rows = []
    for t in known['fixed']:
        m = re.match(r'fixed: property=(\S+) (\S+) (.*)', t)
        rows.append('- %s `%s` %s' % m.groups())
    tail = tail.replace('@@FIXED@@', '\n'.join(rows))
    with open(os.path.join(BASE, 'tools', 'seed_results.json')) as f:
        seeds = json.load(f)
    by = {}
    for bug, r in sorted(seeds.items()):
        if os.path.isdir(os.path.join(BASE, 'seeded', bug)):
            by.setdefault(r['property'], []).append((bug, r))
    rows = ['| property | planted | caught by its check | missed |',
            '|---|---|---|---|']
    for p in sorted(by):
        hit = [b for b, r in by[p] if r.get('caught')]
        miss = [b for b, r in by[p] if not r.get('caught')]
        rows.append('| %s | %d | %s | %s |' % (
            p, len(by[p]), ', '.join(hit), ', '.join(miss) or '-'))
    tail = tail.replace('@@SEEDED@@', '\n'.join(rows))
    out.append(tail)
    with open(os.path.join(BASE, 'DESIGN.md'), 'w') as f:
        f.write('\n'.join(out) + '\n')


main()

"""Regenerates properties.jsonl from the table below (kept as code so that the
JSON stays valid and in one style)."""
import json, os

def P(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    return {
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': qtext},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'state': [dict(name=n, meaning=m, where=w) for n, m, w in state],
            'mechanism': [dict(name=n, where=w) for n, w in mech],
            'observe_at': observe, 'hook_needed': hook,
        },
    }

PROPS = [
P('C01', 'Query results equal the meaning of the query over the graph',
  "For every graph, data set and query that the query validator accepts, executing the query gives exactly what a direct recursive evaluation of the query over the loaders' data gives: every requested field or link is present under its alias (or name), links to one, optional and many objects resolve to the linked objects (None for an absent optional link, list order and duplicates kept), and nothing else is present. This holds for links with and without a required field, for any hashable object identifiers including falsy ones, for complex (record-typed) fields, and for the same object reached by several paths.",
  ['inputs', 'programs'], 'all graphs x data x valid queries (aliases, options, nesting, repeated and self links, falsy idents, record fields)',
  'tests/test_engine.py checks some twenty hand-written graph/query pairs; the claim ranges over every combination of link kind, requirement, alias, option, nesting and shared object.',
  ['hiku/engine.py', 'hiku/result.py', 'hiku/query.py', 'hiku/graph.py'],
  [('query splitting and field/link scheduling', 'hiku/engine.py Query.process_node'), ('storing fields and links in the index', 'hiku/engine.py store_fields/store_links'), ('reading results', 'hiku/result.py Proxy')],
  ['Engine.execute(...) result', 'hiku.result.denormalize'],
  [('Index', 'normalized result storage: node -> ident -> index key -> value', 'hiku/result.py')]),
P('C02', 'Results do not depend on the executor or on completion order',
  "Executing the same query over the same graph and data gives the same result with the synchronous, thread-pool and asyncio executors, and with any executor that completes the submitted loader calls in any order and in any grouping. Every execution terminates, and each loader call's result is used exactly once.",
  ['schedules', 'inputs', 'programs'], 'all completion orders and groupings of loader calls, for all graphs (including sub-graph expression fields) and queries',
  'the tests use the sync executor or a 2-thread pool whose schedules are accidental; only one fixed queue script is replayed with two completion orders.',
  ['hiku/executors/queue.py', 'hiku/executors/sync.py', 'hiku/executors/threads.py', 'hiku/executors/asyncio.py', 'hiku/engine.py'],
  [('callbacks and fork bookkeeping', 'hiku/executors/queue.py Queue.progress'), ('waiting loops', 'hiku/executors/*.py process')],
  ['Engine.execute(...) result under each executor'],
  [('futures / forks / callbacks', 'pending calls, pending child task sets, what to run when they complete', 'hiku/executors/queue.py Queue')]),
P('C03', 'Loaders are called once per level and only for requested data',
  "For each place in the query, a loading function is called at most once however many objects are involved: one call gets all the fields requested there that this function serves, together with exactly the identifiers of the objects reached there (only the top level of an ordered query may take several calls, one after another). A loading function is never called for fields or links that the query does not ask for and no requested link requires, and is not called when no objects are reached.",
  ['inputs', 'programs'], 'all graphs, queries and data; the set of loader calls of a whole execution',
  'tests assert calls for a few mocks; a change that splits batches, drops or adds identifiers, or loads unrequested data keeps results equal and passes.',
  ['hiku/engine.py'],
  [('grouping fields by loading function', 'hiku/engine.py Query.process_node'), ('identifiers of the next level', 'hiku/engine.py link_result_to_ids')],
  ['arguments of every loading function call']),
P('C04', 'Ordered (mutation) queries run their fields strictly in order',
  "When a query is ordered, as every GraphQL mutation is, its top-level fields and links are run one after another in the order in which the document first mentions them: the loading function of an item is not started before the loading function of the previous item has completed. Adjacent fields served by the same function may share one call. This holds with any executor and any completion timing.",
  ['schedules', 'inputs', 'histories'], 'all ordered queries (fields, links, required fields, fragments, aliases) x completion schedules',
  'one test runs one ordered query with the sync executor, where every call completes at once, and no test goes from mutation text to call order.',
  ['hiku/engine.py', 'hiku/readers/graphql.py', 'hiku/query.py', 'hiku/executors/queue.py'],
  [('sequential scheduling', 'hiku/engine.py Query._process_node_ordered'), ('ordered flag from operation type', 'hiku/readers/graphql.py GraphQLTransformer.visit_operation_definition'), ('merge keeps order', 'hiku/query.py merge')],
  ['start and completion times of loading function calls']),
P('C05', 'Malformed loader results are rejected, never stored',
  "If a loading function returns a value of the wrong shape (not a sequence, wrong number of rows, wrong number of values in a row, wrong number of links, non-sequence for a to-many link) or returns Nothing for a link to exactly one object, execution raises TypeError instead of returning a result. A well-formed result (a list, tuple or other sequence; for the outer list also a generator, though deprecated) is never rejected.",
  ['fault_sequences', 'inputs', 'programs'], 'all loader calls of all executions x all shape faults at any one call',
  'tests list a handful of bad values at one root or one node loader; the fault may hit any loader at any depth, with any row or ident count.',
  ['hiku/engine.py'],
  [('shape checks', 'hiku/engine.py _check_store_fields/_check_store_links'), ('Nothing check', 'hiku/engine.py link_result_to_ids/link_ref_one')],
  ['exception of Engine.execute']),
P('C06', 'A failing loader fails the execution with its own error',
  "If any loading function raises, execution with any executor and completion order raises the error of a failed loading function; it never returns a partial result, hangs, or replaces the error with an unrelated one. Afterwards the same engine and graph execute further queries correctly.",
  ['fault_sequences', 'schedules', 'inputs'], 'any subset of loader calls failing x executors x completion orders',
  'no test makes a loading function fail.',
  ['hiku/engine.py', 'hiku/executors/queue.py', 'hiku/executors/sync.py', 'hiku/executors/threads.py', 'hiku/executors/asyncio.py'],
  [('reading results of futures in callbacks', 'hiku/engine.py Query._schedule_fields/_schedule_link')],
  ['exception of Engine.execute']),
P('C07', 'Cancelling an asyncio execution cancels everything in flight',
  "When an execution on the asyncio executor is cancelled at any moment while it is running, every loading function call in flight is cancelled and has finished its clean-up by the time the cancellation is reported to the caller, no loading function starts afterwards, and the caller sees the cancellation even if a loader's clean-up itself fails.",
  ['schedules', 'histories', 'fault_sequences'], 'all cancellation points x graphs, queries, loader timings and clean-up behaviour',
  'one test cancels a single task that has immediate clean-up.',
  ['hiku/executors/asyncio.py'],
  [('cancellation handler', 'hiku/executors/asyncio.py AsyncIOExecutor.process')],
  ['state of loader coroutines when execute() is cancelled']),
P('C08', 'Options reach loaders intact and never mix between aliases',
  "Every field or link with declared options gives its loading function each declared option with the value from the query, or else the declared default (None included), and no undeclared ones; execution fails with TypeError if a required option is missing. Occurrences of one field or link with different option values, anywhere in the query and on the same objects, never see each other's results; whatever the option values are (negative numbers, booleans, None, empty or nested lists and maps).",
  ['inputs', 'programs'], 'all option declarations x option values x several occurrences under different aliases or paths',
  'tests try one integer option and two occurrences with values 1 and 2; conflicts depend on the values themselves.',
  ['hiku/engine.py', 'hiku/query.py'],
  [('defaults and missing options', 'hiku/engine.py InitOptions'), ('per-options result key', 'hiku/query.py FieldBase.index_key')],
  ['options seen by loading functions', 'results per alias']),
P('C09', 'Merging queries keeps their meaning',
  "Merging any queries gives a query with the same result as evaluating the original selections together: each distinct field or link (by name, options and alias) appears once, sub-selections of equal links are united at every depth, and nothing is added or lost. Merging is idempotent, keeps first-appearance order among fields and among links (fields come before links unless the query is ordered; then the order is that of all items together), is ordered if and only if some input is, and leaves the inputs unchanged.",
  ['inputs', 'programs'], 'all lists of query trees with overlapping fields, links, aliases and options',
  'seven fixed examples, at most two levels deep.',
  ['hiku/query.py'],
  [('merge', 'hiku/query.py merge/_merge')],
  ['hiku.query.merge output', 'execution results before and after']),
P('C10', 'Denormalization follows the query structure exactly',
  "Turning a result into plain data with either denormalizer gives nested dicts and lists whose keys are exactly the requested aliases or names in the order of the executed query, for every link kind and for record-typed fields (inline or named data types; optional, sequence and nested ones) including aliases inside them. Reading a result by key or by attribute agrees with it, and reading a field that was not requested raises KeyError (AttributeError for attribute access).",
  ['inputs', 'programs'], 'all graphs with record fields and data types x queries x data',
  'tests denormalize a few fixed results; no alias, data type or nesting combinations.',
  ['hiku/result.py', 'hiku/denormalize/base.py', 'hiku/denormalize/graphql.py'],
  [('denormalize', 'hiku/result.py denormalize'), ('Denormalize visitor', 'hiku/denormalize/base.py'), ('Proxy access', 'hiku/result.py Proxy')],
  ['denormalized data']),
P('C11', 'A query that passes validation executes successfully',
  "If validation of a query against a graph reports no errors, then executing it with well-behaved loaders raises nothing and yields every requested key. Validation of a query that only uses existing fields and links, with suitable options of the declared types and no conflicting aliases, reports no errors; and validation has no side effects.",
  ['inputs', 'programs'], 'all graphs x queries, both valid by construction and arbitrary',
  'tests check error lists for fixed queries and never execute what they validate.',
  ['hiku/validate/query.py', 'hiku/engine.py'],
  [('QueryValidator', 'hiku/validate/query.py')],
  ['hiku.validate.query.validate', 'Engine.execute']),
P('C12', 'Query validation reports every invalid query without crashing',
  "A query with an unknown field or link, a link queried as a plain field, a plain field queried as a link, an unknown or missing required option, an option value that does not match its declared type at any depth, options on or conflicts inside record fields, or two different fields under one resulting name, makes validation report at least one error wherever in the query it is. Validation never raises, whatever the query and the option values are that a reader can produce.",
  ['inputs', 'programs'], 'all valid queries x one or more injected faults at any position; all option types x values',
  'fixed one-level examples; positions, nesting, and type x value combinations are unbounded.',
  ['hiku/validate/query.py'],
  [('QueryValidator, option type validator, record fields validator', 'hiku/validate/query.py')],
  ['hiku.validate.query.validate']),
P('C13', 'Graph construction accepts exactly the well-formed graphs',
  "Building a graph with duplicated node names, duplicated field or link names within a node or across several Root items, a link to a missing node, a link requiring a missing field, or items of a wrong kind always raises GraphValidationError, naming each such problem; building a graph without them never does. A link can only be defined with a type that is a reference to a node, or an optional or a sequence of one; any other type raises TypeError. A built graph exposes exactly the declared nodes, fields, links, options and descriptions.",
  ['inputs', 'configurations'], 'all graph definitions x injected definition faults (one or several)',
  'about ten fixed invalid graphs with one fault each.',
  ['hiku/validate/graph.py', 'hiku/graph.py'],
  [('GraphValidator', 'hiku/validate/graph.py'), ('Graph.__init__', 'hiku/graph.py')],
  ['exception of Graph(...)', 'Graph.nodes_map/root/fields_map']),
P('C14', 'GraphQL documents are read with their specified meaning',
  "Reading a GraphQL operation gives the query that the GraphQL specification's selection rules give: the chosen operation, fields with aliases and literal or variable argument values of every kind, named fragments and inline fragments expanded in place, variable defaults applied, and a selection kept exactly when @skip is not true and @include is not false. The operation type and name are reported correctly and only mutations are ordered.",
  ['inputs', 'programs'], 'all documents over the supported grammar: nested fragments, variables, defaults, directives, multiple operations, all value kinds',
  'some forty fixed documents; fragments, directives, variables and aliases combine freely.',
  ['hiku/readers/graphql.py'],
  [('GraphQLTransformer, FragmentsTransformer, OperationGetter', 'hiku/readers/graphql.py')],
  ['hiku.readers.graphql.read / read_operation']),
P('C15', 'Malformed queries are rejected by every reader',
  "A GraphQL document with no or several candidate operations, an unknown operation name, duplicated operations or fragments, cyclic or undefined fragments, undefined or missing required variables, or wrong @skip/@include argument names or counts is rejected with an exception, and so is an EDN query whose nodes, names or options have the wrong form, and a protobuf query with empty items or names. Readers always terminate, on any text or bytes, with either a query or an exception.",
  ['inputs', 'programs'], 'valid documents x injected faults at any position; arbitrary text and bytes',
  'fixed single-fault documents; e.g. only one shape of fragment cycle.',
  ['hiku/readers/graphql.py', 'hiku/readers/simple.py', 'hiku/readers/protobuf.py', 'hiku/edn.py'],
  [('reader checks', 'hiku/readers/*.py')],
  ['exception of read()']),
P('C16', 'EDN text round-trips',
  "Writing any supported value (nil, booleans, integers and finite floats, strings with any characters, keywords, symbols, vectors, lists, maps, sets, dates, UUIDs, tagged elements, nested in any way) as EDN text, with or without ASCII escaping, and reading it back gives an equal value of the same kinds. Whitespace, commas and comments between elements do not change the value read. Values of other kinds are written with the encoder and read with the tag handlers that the user gives, wherever they are nested, and are refused without an encoder.",
  ['inputs'], 'all nested EDN values and layouts',
  'three fixed documents.',
  ['hiku/edn.py'],
  [('loads / dumps', 'hiku/edn.py')],
  ['hiku.edn.loads(hiku.edn.dumps(v))']),
P('C17', 'Exporting a query and reading it back gives the same query',
  "Any query exported to the EDN, Protocol Buffers or GraphQL form, serialized, and read back is the same query: the same tree of fields and links with equal option values, and for GraphQL the same aliases. A query made with the query builder equals the tree it describes. An option value that a format cannot hold (a date, bytes, an object, a number or map key that it has no form for) is refused with an exception, as is a use of the builder that describes no tree (options or items given twice, an alias for an alias); neither gives a different query.",
  ['inputs', 'programs'], 'all query trees with JSON-like options (numbers, strings of any characters, booleans, null, nested lists and maps)',
  'each exporter and reader is tested on one or two fixed queries, never together.',
  ['hiku/export/simple.py', 'hiku/export/protobuf.py', 'hiku/export/graphql.py', 'hiku/readers/simple.py', 'hiku/readers/protobuf.py', 'hiku/readers/graphql.py', 'hiku/builder.py', 'hiku/edn.py'],
  [('exporters', 'hiku/export/*.py'), ('readers', 'hiku/readers/*.py'), ('builder', 'hiku/builder.py')],
  ['read(serialize(export(q)))']),
P('C18', 'GraphQL introspection describes exactly the graph',
  "For every graph accepted for introspection, the standard introspection query returns the schema of that graph: each node, the query and mutation roots and record data types with exactly their visible (not underscore-prefixed) fields and links, their arguments with types and JSON-encoded defaults (with unquoted names in objects), field types with exact nullability and list wrapping, descriptions, and the skip and include directives. __typename, asked of the query root or of a node, gives the name of its type. The answer is a schema that a GraphQL client library accepts, and graphs with names that are invalid in GraphQL, or nodes or record types without fields, are refused.",
  ['inputs', 'configurations'], 'all graphs: link kinds, field and option types, defaults, data types, mutation graphs, hidden fields',
  'a dozen fixed graphs; type, option and data-type combinations are open.',
  ['hiku/introspection/graphql.py'],
  [('schema loaders', 'hiku/introspection/graphql.py'), ('ValidateGraph', 'hiku/introspection/graphql.py')],
  ['result of the introspection query']),
P('C19', 'Graph transformations do not change query results',
  "Applying GraphQL introspection (sync or async), metrics, an identity transformer, or any composition of them to a graph leaves the result of every query on the original graph unchanged and calls the original loading functions with the same arguments the same number of times, context passing and sub-graph expressions included. The original graph is not modified. Transformers given together are applied one after another in the order given, and each is shown every node, field, link and option once.",
  ['inputs', 'configurations', 'programs'], 'all graphs x queries x compositions of transformers',
  'tests apply one transformer to one small graph.',
  ['hiku/graph.py', 'hiku/introspection/graphql.py', 'hiku/telemetry/prometheus.py'],
  [('GraphTransformer', 'hiku/graph.py'), ('GraphQLIntrospection', 'hiku/introspection/graphql.py'), ('GraphMetrics', 'hiku/telemetry/prometheus.py')],
  ['Engine.execute on the transformed graph', 'loader calls']),
P('C20', 'GraphQL endpoints answer each request with its own data or errors',
  "For every request (a mapping with a query text) an endpoint returns {'data': ...} with exactly the requested data, including the right __typename wherever it is asked for, if the operation is valid for its graph (query or mutation), and otherwise, also when the text cannot be read, {'errors': [...]} with at least one message and no loader called. A batch is answered by the list of the individual answers in request order, whatever its other members, and sync and async endpoints answer alike.",
  ['inputs', 'histories', 'programs'], 'all graphs x valid and invalid requests, variables, operation names, batches, concurrent async requests',
  'four fixed requests.',
  ['hiku/endpoint/graphql.py', 'hiku/denormalize/graphql.py', 'hiku/readers/graphql.py', 'hiku/validate/query.py'],
  [('dispatch', 'hiku/endpoint/graphql.py'), ('__typename', 'hiku/denormalize/graphql.py DenormalizeGraphQL')],
  ['dispatch() response']),
P('C21', 'SQL sources return what the tables contain',
  "For any table contents, the SQLAlchemy-based field source returns for each requested identifier, in the requested order and with duplicates, the values of the requested columns of its row, or None for each column if there is no such row. The link source returns for each value, in order, the matching target (one), the target or Nothing (optional), or all targets (many); None values and NULL targets match nothing; the asynchronous variants fetch all rows whatever their number and agree with the synchronous one.",
  ['inputs', 'configurations'], 'all table contents, id lists (missing, duplicated, empty, None), column selections, link kinds, row counts around the fetch size',
  'fixed tables of three rows; the asynchronous sources need a PostgreSQL server and are never run.',
  ['hiku/sources/sqlalchemy.py', 'hiku/sources/sqlalchemy_async.py', 'hiku/sources/aiopg.py'],
  [('FieldsQuery / LinkQuery', 'hiku/sources/*.py')],
  ['values returned by the sources and by queries that use them']),
P('C22', 'Expression fields compute what their expression says',
  "A field defined by an expression over a lower-level graph has, for every object, the value obtained by evaluating the expression directly on that object's low-level data: attribute access through links, iteration, conditions, optional unpacking, function calls, options, and list, map and scalar literals, with lexical scoping of bound names. All the low-level data the expression needs is loaded, whichever expression fields are queried together and however sub-graphs are stacked.",
  ['inputs', 'programs'], 'all well-typed expressions x low-level graphs and data x sets of queried fields',
  'tests evaluate about a dozen fixed expressions and check generated code for a few more.',
  ['hiku/sources/graph.py', 'hiku/expr/core.py', 'hiku/expr/checker.py', 'hiku/expr/compiler.py', 'hiku/expr/refs.py'],
  [('requirements', 'hiku/expr/refs.py RequirementsExtractor'), ('compiler', 'hiku/expr/compiler.py'), ('sub-graph execution', 'hiku/sources/graph.py SubGraph')],
  ['values of expression fields']),
P('C23', 'Ill-typed expressions are refused when the graph is built',
  "Building a graph with an expression that uses an unknown name, a field that its object does not have, a non-sequence in each, a wrong number of function arguments, or an argument whose type does not provide what the function declares, raises an error at graph construction. Well-typed expressions are accepted (literals and computed values have no declared type, so they fit untyped arguments only).",
  ['inputs', 'programs'], 'all well-typed expressions x one injected type fault at any position',
  'a handful of fixed ill-typed expressions.',
  ['hiku/expr/checker.py', 'hiku/sources/graph.py'],
  [('Checker / check_type', 'hiku/expr/checker.py')],
  ['exception of Graph(...)']),
P('C24', 'Metrics count every executed field and link exactly once',
  "With metrics applied to a graph, each call of a loading function that returns adds exactly one observation, of the time that it took, for each entry of the list of fields it serves (one for a link call) under the labels of the graph's name, the node's name and the field's name, also for sub-graph fields, shared loading functions and concurrent async loaders. Nothing else is observed, calls that raise included.",
  ['inputs', 'histories', 'configurations'], 'all graphs (functions shared between fields and nodes) x sequences of queries x sync/async',
  'two fixed graphs with one query each.',
  ['hiku/telemetry/prometheus.py'],
  [('GraphMetrics / AsyncGraphMetrics', 'hiku/telemetry/prometheus.py')],
  ['samples in the Prometheus registry']),
P('C25', 'The console answers every request properly',
  "The console WSGI application answers every request without raising: 404 for unknown paths, 405 for unsupported methods, and for a posted query 200 with the JSON of its denormalized result, 400 with the list of errors if it is invalid, and 500 if it cannot be read or run or its result is not JSON, with a traceback only in debug mode; a body over 1 MB or with a malformed length is refused with 400. Status, Content-Type and Content-Length always match the body sent.",
  ['inputs', 'configurations'], 'all methods, paths, bodies (valid, invalid, malformed, non-UTF-8, oversized) x graphs x debug flag',
  'three fixed requests.',
  ['hiku/console/ui.py'],
  [('ConsoleApplication', 'hiku/console/ui.py')],
  ['WSGI responses']),
P('C26', 'The type definition dump lists the whole typed graph',
  "The Kinko type definition dump of any graph defines each data type, node and typed root field exactly once, and reading it back gives for every typed field and link the declared type, with its nesting of optional, list, map, record and reference types (floats and untyped values print as Unknown) and its description (on one line).",
  ['inputs'], 'all graphs over all field types, nesting and descriptions',
  'four fixed graphs.',
  ['hiku/typedef/kinko.py'],
  [('GraphTypesEx and printers', 'hiku/typedef/kinko.py')],
  ['hiku.typedef.kinko.dumps output']),
P('C27', 'The query context reaches exactly the loaders that ask for it',
  "A loading function marked to receive the context gets, as its first argument, a read-only mapping equal to the context given to that execution, with a KeyError for missing keys; unmarked functions never get it. This also holds for loaders in sub-graphs, under transformations, and when several executions with different contexts run at the same time.",
  ['inputs', 'schedules', 'programs'], 'all graphs with marked and unmarked loaders (fields, links, sub-graphs) x contexts x interleaved executions',
  'two tests with one loader each.',
  ['hiku/engine.py', 'hiku/sources/graph.py', 'hiku/telemetry/prometheus.py'],
  [('pass_context / Context', 'hiku/engine.py')],
  ['arguments of loading function calls']),
P('C28', 'Executions are repeatable and do not affect each other',
  "Executing, validating, exporting, merging or denormalizing queries never changes the query, graph, context or option values it is given, so any later use of the same objects gives the same answer as a first use. Executions that run at the same time over one engine and graph give each the result it would give alone, and earlier results stay readable and unchanged.",
  ['histories', 'schedules', 'programs'], 'all sequences and interleavings of operations over shared engine, graph and query objects',
  'every test builds its objects, uses them once and throws them away.',
  ['hiku/engine.py', 'hiku/query.py', 'hiku/result.py', 'hiku/graph.py', 'hiku/validate/query.py', 'hiku/sources/graph.py', 'hiku/export/simple.py', 'hiku/readers/graphql.py'],
  [('copying transformers', 'hiku/query.py QueryTransformer'), ('one Query workflow, index and queue per execution', 'hiku/engine.py Engine.execute')],
  ['results and object state along a history']),
P('C29', 'Queries, types and graphs are values that can be walked, compared and transformed',
  "Two queries, or two types, are equal exactly when they are built of equal parts, and `!=` is the opposite of `==`. The query, type and graph visitors reach every part of what they visit exactly once, in order of definition, by the method for its kind. Transformers that change nothing give an equal new tree that shares no part with the original; those that override some methods, and copies with other attributes, differ from the original exactly in what they change (with no stale result keys or name maps), and the original stays as it was.",
  ['inputs', 'programs'], 'all queries, types and graph definitions x single differences x sets of overridden methods x copied attributes',
  'tests compare a few fixed queries and types, and transform one graph.',
  ['hiku/query.py', 'hiku/types.py', 'hiku/graph.py'],
  [('Base.__eq__/copy, QueryVisitor, QueryTransformer', 'hiku/query.py'), ('GenericMeta comparisons, TypeVisitor', 'hiku/types.py'), ('GraphVisitor, GraphTransformer, apply', 'hiku/graph.py')],
  ['attributes of the objects, calls of visitor methods']),
]

if __name__ == '__main__':
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(path, 'w') as f:
        for p in PROPS:
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    print(len(PROPS), 'properties')

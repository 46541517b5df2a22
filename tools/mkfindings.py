"""Regenerates known_findings.json: repaired defects (commits in /repo found
by their subject) and known ones that are not repaired."""
import json
import os
import subprocess

BASE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

FIXED = [
 ('C08', 'fix: distinguish results of different option values exactly',
  'one field requested under two aliases with option values that hash equally or print equally (-1 and -2, True and 1) got the result of one of them for both'),
 ('C04', 'fix: keep the order of fields and links when merging ordered queries',
  'merging (done by every GraphQL reading) put the plain fields of a mutation before its links: mutation { a {x} b } ran b first'),
 ('C09', 'fix: merge equal links when one of them is aliased with its own name',
  'merge of `a {x}` and `a: a {y}` kept two links with one resulting name; one of them was lost in the result'),
 ('C09', 'fix: keep the order of a field and a link with the same name in ordered merge',
  'ordered merge of `a {..} a` put the field before the link'),
 ('C10', 'fix: result.denormalize for aliases and named types in complex fields',
  'denormalize() failed on aliases inside complex fields and on complex fields with a named (TypeRef) data type'),
 ('C10', 'fix: Denormalize for aliases and records in complex fields',
  'Denormalize and DenormalizeGraphQL failed on aliases and nested optional/sequence records in complex fields'),
 ('C01', 'fix: give fields required by links their default options',
  'a link that requires a field with options (all with defaults) failed: the required field was loaded without its default options'),
 ('C12', 'fix: do not accept strings as values of Sequence options',
  'validation accepted a string as the value of a Sequence[String] option'),
 ('C11', 'fix: validation of links inside complex fields',
  'validation crashed or rejected valid sub-selections of records nested in complex fields (optional, sequence, named types)'),
 ('C12', 'fix: report conflicting names inside complex fields and conflicting options',
  'validation accepted two different record fields, or one field with two different option values, under one resulting name'),
 ('C14', 'fix: respect @include when @skip is also present',
  'a selection with both @skip(if: false) and @include(if: false) was kept'),
 ('C04', 'fix: complex fields in ordered queries',
  'an ordered query with a complex (record) field at its root failed with AttributeError'),
 ('C05', 'fix: raise TypeError when a link to one object returns Nothing',
  'Nothing returned for a link to exactly one object was stored or caused an unrelated error when the link was the last level or was among several'),
 ('C07', 'fix: wait for all cancelled tasks in AsyncIOExecutor',
  'when a loader failed during its clean-up, the others were not awaited and the caller saw that failure instead of the cancellation'),
 ('C16', 'fix: read \\u escapes in EDN strings',
  'a string with a character outside of ASCII, written with ASCII escapes, was not read back equal'),
 ('C16', 'fix: read tagged EDN elements which are followed by a closing bracket',
  'a tagged element at the end of a list, vector, map or set could not be read'),
 ('C16', 'fix: make TaggedElement hashable',
  'a tagged element could not be a set element or a map key; this also broke validation of queries with them'),
 ('C16', 'fix: write dates before the year 1000 with four digits',
  'a date before the year 1000 was written without leading zeros and could not be read back'),
 ('C16', 'fix: end EDN symbols and keywords at every delimiter',
  'symbols, keywords and numbers directly followed by a string, comment or opening bracket swallowed it'),
 ('C16', 'fix: read the EDN symbol "-"', 'the symbol - could not be read'),
 ('C17', 'fix: read nested EDN option values with the names they were exported with',
  'map option values nested in lists or maps were read back with Keyword keys instead of plain names'),
 ('C17', 'fix: read escaped non-BMP characters in GraphQL strings',
  'a surrogate pair escape in a GraphQL string was read as two characters'),
 ('C13', 'fix: report items of a wrong kind in options of fields',
  'Field(..., options=[1]) raised AttributeError; options=[Field(...)] was accepted'),
 ('C13', 'fix: report links which require a link instead of a field',
  'a link that requires the name of a link was accepted'),
 ('C18', 'fix: introspection of options without a type',
  'the introspection query failed for a graph with an option without a type'),
 ('C18', 'fix: refuse names with a trailing newline in introspection',
  'a name with a newline at its end was accepted'),
 ('C18', 'fix: write default values with objects in the GraphQL syntax',
  'default values with maps were written with quoted names; client libraries could not parse the schema'),
 ('C18', 'fix: refuse invalid names of data types in introspection',
  'data types with names or field names invalid in GraphQL were accepted'),
 ('C18', 'fix: find every type of the schema by name with __type',
  '__type gave null for scalars and data types that the schema lists'),
 ('C18', 'fix: introspection of graphs with several roots',
  'applying introspection to a graph with two Root items raised GraphValidationError'),
 ('C22', 'fix: expressions with mappings and nested containers',
  'an expression using a field with a Mapping type, a sequence of containers or an unpacked optional sequence was refused with AssertionError'),
 ('C22', 'fix: expressions which do not use "this"',
  'an expression which uses only root data or literals failed with KeyError "this" when queried alone'),
 ('C22', 'fix: scope of names bound by if_some and each',
  'names after the end of their scope, in the bound expression and in the else branch of if_some referred to the inner variable'),
 ('C22', 'fix: names in expressions which collide in the compiled code',
  'bound names like x_2, env, ctx, next and options with such names collided with identifiers of the generated code'),
 ('C22', 'fix: default options of fields and links required by sub-graphs',
  'low-level fields and links with options did not get their default options when loaded for an expression'),
 ('C20', 'fix: syntax errors in queries sent to the GraphQL endpoints',
  'a request with a syntax error raised GraphQLSyntaxError out of dispatch, so a whole batch was lost'),
 ('C20', 'fix: report misused __typename instead of ignoring it',
  '__typename with a selection raised AssertionError; with arguments it was accepted'),
 ('C20', 'fix: __typename under a result key of another field',
  '{ a: __typename a: b } was answered as if only one of the two was requested'),
 ('C20', 'fix: report undefined names and unsupported definitions in GraphQL documents',
  'an unknown operation name, an undefined fragment or a type definition raised ValueError, KeyError or AttributeError out of dispatch'),
 ('C21', 'fix: ignore null targets in optional and many links of SQL sources',
  'a row with NULL in the target column gave a link to an object with the identifier None instead of no link'),
 ('C24', 'fix: node labels in metrics of functions shared between nodes',
  'fields of a loading function that several nodes use were all observed under the name of one node'),
 ('C25', 'fix: console requests without PATH_INFO',
  'an environment without PATH_INFO, which PEP 3333 allows for an empty path, raised KeyError'),
 ('C25', 'fix: console requests with malformed Content-Length',
  'CONTENT_LENGTH which is not a number raised ValueError'),
 ('C25', 'fix: console answers to queries with results which are not JSON',
  'a result which cannot be written as JSON raised TypeError instead of the answer 500'),
 ('C25', 'fix: Content-Type of console docs', 'the docs had no Content-Type'),
 ('C26', 'fix: line breaks in descriptions in type definition dumps',
  'the text of a description after a line break was dumped as type definitions'),
 ('C26', 'fix: maps with container keys in type definition dumps',
  'Mapping[Optional[Integer], Integer] was dumped as a map without a value type'),
 ('C29', 'fix: comparing types for inequality raised TypeError',
  'Integer != String raised TypeError: expected 1 argument, got 0'),
 ('C16', 'fix: custom encoder was not used for values of tagged elements in EDN',
  'dumps(TaggedElement("a", x), default=f) was refused although f encodes x'),
 ('C22', 'fix: fields with the name "obj" in expressions',
  'S.x.obj was the expression S.x itself'),
 ('C22', 'fix: options and variables in expressions with names of Python\'s constants',
  'an option or a variable with the name None, True or False raised ValueError when the expression was compiled'),
 ('C11', 'fix: fields with named types that are not records',
  'a selection in a field with a named type which is an optional, a sequence or another name was accepted by validation, and denormalization raised'),
 ('C18', 'fix: introspection of named types that are not records',
  'fields and options with a named type which is not a record referred to types that the schema does not list; options raised AssertionError'),
 ('C22', 'fix: options and fields with the name "if" in expressions',
  'an option or a low-level field with the name "if" made every if_ of the expression raise AttributeError'),
 ('C25', 'fix: the console answered with numbers which are not JSON',
  'a result with inf or nan was answered with 200 and a body (Infinity, NaN) which is not JSON'),
 ('C17', 'fix: map keys of options which cannot be keywords in EDN export',
  'a map key such as "a b" in an option value was exported as a broken keyword: the text read back as another query, or not at all; other scalar keys could not be exported'),
 ('C17', 'fix: numbers which a double cannot hold were changed by protobuf export',
  'an integer over 2**53 in an option was exported as a rounded one, and inf and nan as strings'),
 ('C16', 'fix: symbols and numbers with a leading sign character in EDN',
  'Symbol("+"), Symbol("*a"), +1 and the like could be written but not read'),
 ('C16', 'fix: floats which are not finite were written as EDN symbols',
  'inf and nan were written as inf and nan, which read back as symbols'),
 ('C17', 'fix: values which GraphQL documents cannot hold were exported',
  'inf, nan and map keys which are not names were exported as text that reads back as another query or not at all'),
 ('C18', 'fix: __typename asked under several keys of a node',
  '__typename asked twice (with aliases) of a node or the root raised TypeError when executed by the engine'),
]

KNOWN = []      # {'key', 'property', 'what_fails', 'why_not_fixed'}

log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'],
                     capture_output=True, text=True, check=True).stdout
by_subject = {line.split(' ', 1)[1]: line.split(' ', 1)[0]
              for line in log.splitlines()}
fixed = ['fixed: property=%s %s %s' % (p, by_subject[s], what)
         for p, s, what in FIXED]
left = [s for s in by_subject if s.startswith('fix:') and
        s not in {f[1] for f in FIXED}]
assert not left, left
with open(os.path.join(BASE, 'known_findings.json'), 'w') as f:
    json.dump({'fixed': fixed, 'known': KNOWN}, f, indent=1)
    f.write('\n')
print(len(fixed), 'fixed,', len(KNOWN), 'known')

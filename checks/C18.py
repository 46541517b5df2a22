"""C18: GraphQL introspection describes exactly the graph."""
import json

from graphql import (build_client_schema, get_introspection_query,
                     parse_value, validate_schema, value_from_ast_untyped)

from hiku import graph as hg
from hiku.endpoint.graphql import AsyncGraphQLEndpoint, GraphQLEndpoint
from hiku.engine import Engine
from hiku.executors.asyncio import AsyncIOExecutor
from hiku.executors.sync import SyncExecutor
from hiku.introspection.graphql import (AsyncGraphQLIntrospection,
                                        GraphQLIntrospection)
from hiku.readers.graphql import read
from hiku.result import denormalize

from lib import gqltext
from lib import values as V
from lib import world as wd
from lib.execs import ScheduledExecutor, async_pause, run_async
from lib.runner import Test, ensure, fail

PROPERTY = 'C18'
RULE = ('schema: at least one node has options or hidden items, or there are '
        'data types; typename: __typename is asked below a link; refused: '
        'every case')
ASSUMPTIONS = [
    'every node and root has a visible item, and the graph has a root',
    'named data types refer only to data types; names of types do not '
    'collide',
    'default values are JSON-like, and names in them are GraphQL names',
    'a mutation graph has the nodes and data types of the query graph',
    'sequences are nested at most three times (the depth of the standard '
    'introspection query)',
    'an empty list and null are the same for lists that a kind of types '
    'does not have',
]

DESC = [None, None, None, 'text', '', 'Two\nlines "quoted" \\', 'é', ' t ',
        '\n  indented\n', ' ', 'x' * 300]


def wrapped(d, names):
    """A type of several layers."""
    t = ('ref', d.pick(names)) if names and d.bool() else \
        d.pick(V.SIMPLE[:5])
    seqs = 0
    for _ in range(d.int(1, 6)):
        if d.bool() and seqs < 3:
            seqs += 1
            t = ('seq', t)
        elif t[0] != 'opt':
            t = ('opt', t)
    return t


def layers(t, types):
    """How many sequences are around the type"""
    if t[0] == 'ref':
        return layers(types[t[1]], types)
    if t[0] in ('opt', 'seq'):
        return layers(t[1], types) + (t[0] == 'seq')
    return 0


def clip(world):
    """No more layers than the introspection query asks for"""
    types = dict(world['types'])

    def cut(t):
        if t[0] == 'rec':
            return ('rec', [(f, cut(i)) for f, i in t[1]])
        return ('int',) if layers(t, types) > 3 else t
    for name, t in world['types']:
        types[name] = cut(t)
    world['types'] = sorted(types.items())
    for items in [n['items'] for n in world['nodes']] + world['roots']:
        for i in items:
            if i['k'] == 'f':
                i['type'] = cut(i['type'])
            for o in i['opts']:
                if layers(o['t'], types) > 3:
                    o['t'] = ('any',)


def expanded(t, types):
    """The type without names of types which are not records"""
    if t[0] == 'ref':
        to = types[t[1]]
        return t if to[0] == 'rec' else expanded(to, types)
    if t[0] in ('opt', 'seq'):
        return (t[0], expanded(t[1], types))
    return t


def gen_world(d):
    world = wd.worlds(d, typed=False)
    names = [n for n, _ in world['types']]
    for items in [n['items'] for n in world['nodes']] + world['roots']:
        for i in items:
            if i['k'] == 'f' and d.chance(1, 4):
                i['type'] = wrapped(d, names)
            for o in i['opts']:
                if 'd' not in o and d.chance(1, 4):
                    o['t'] = wrapped(d, names)
    for k, (_, rec) in enumerate(world['types']):
        if rec[0] == 'rec':
            rec[1][:] = [(f, wrapped(d, names[:k]) if d.chance(1, 4) else t)
                         for f, t in rec[1]]
    clip(world)
    for g in [n['items'] for n in world['nodes']] + world['roots']:
        for i in g:
            i['opts'] = [o for o in i['opts'] if 'd' not in o or
                         gqltext.has_json_names(o['d'])]
    if d.chance(1, 10):
        wd.widen(d, world)
    hidden = d.pick(['_%s', '_%s', '__%s', '_%s_', '__%s__', '_%s1'])
    hide = d.sample(sorted({i['name'] for g in [
        n['items'] for n in world['nodes']] + world['roots'] for i in g
        if hidden % i['name'] not in ('__type', '__schema')}), 0, 3)
    seen = set()

    def decorate(items, key):
        for i in items:
            if i['name'] in hide:
                i['name'] = hidden % i['name']
            if i.get('req') in hide:
                i['req'] = hidden % i['req']
            i['desc'] = d.pick(DESC)
            for o in i['opts']:
                if id(o) not in seen:       # fields share them
                    seen.add(id(o))
                    o['desc'] = d.pick(DESC)
                    if d.chance(1, 4):
                        # options are not hidden
                        o['n'] = '_' + o['n']
        if all(i['name'].startswith('_') for i in items):
            items.append({'k': 'f', 'name': 'vis', 'type': ('str',),
                          'fn': 'vis' + key, 'opts': []})
    for n in world['nodes']:
        n['desc'] = d.pick(DESC)
        decorate(n['items'], n['name'])
    for k, r in enumerate(world['roots']):
        decorate(r, 'R')
        if k:
            r[:] = [i for i in r if i['name'] not in
                    {j['name'] for j in world['roots'][0]}] or [
                {'k': 'f', 'name': 'other', 'type': ('int',), 'fn': 'oth',
                 'opts': []}]
    mutation = None
    if d.bool():
        mutation = []
        for k in range(d.int(1, 3)):
            if d.bool():
                mutation.append({
                    'k': 'f', 'name': 'f%d' % k, 'fn': 'mu%d' % k,
                    'type': V.draw_type(d, [n for n, _ in world['types']]),
                    'opts': [{'n': 'o', 't': V.draw_type(d, []),
                              'desc': d.pick(DESC)}], 'desc': d.pick(DESC)})
            else:
                mutation.append({
                    'k': 'l', 'name': 'l%d' % k, 'fn': 'mu%d' % k,
                    'node': d.pick(world['nodes'])['name'],
                    'card': d.pick(['one', 'maybe', 'many']), 'req': None,
                    'opts': [], 'desc': d.pick(DESC)})
        for i in mutation:
            if i['k'] == 'f' and layers(i['type'], dict(world['types'])) > 3:
                i['type'] = ('int',)
    return {'world': world, 'mutation': mutation}


def graphs(case):
    run = wd.Run(case['world'])
    query = run.graph()
    mutation = None
    if case['mutation'] is not None:
        mrun = wd.Run(dict(case['world'], roots=[case['mutation']]))
        mutation = hg.Graph(
            query.nodes + [hg.Root([mrun.item(i)
                                    for i in case['mutation']])],
            data_types=query.data_types)
    return run, query, mutation


# -- the model of the schema

def nn(t):
    return {'kind': 'NON_NULL', 'name': None, 'ofType': t}


def named(kind, name):
    return {'kind': kind, 'name': name, 'ofType': None}


def type_of(spec, mode, types):
    spec = expanded(spec, types)
    k = spec[0]
    if k in ('any', 'none', 'map', 'rec'):
        return named('SCALAR', 'Any')
    if k == 'opt':
        t = type_of(spec[1], mode, types)
        return t['ofType'] if t['kind'] == 'NON_NULL' else t
    if k == 'seq':
        return nn({'kind': 'LIST', 'name': None,
                   'ofType': type_of(spec[1], mode, types)})
    if k == 'ref':
        return nn(named('INPUT_OBJECT', 'IO' + spec[1]) if mode == 'in' else
                  named('OBJECT', spec[1]))
    return nn(named('SCALAR', {'int': 'Int', 'str': 'String', 'bool':
                               'Boolean', 'float': 'Float'}[k]))


def arg(o, types):
    out = {'name': o['n'], 'description': o.get('desc'),
           'type': type_of(o['t'], 'in', types), 'defaultValue': None}
    if 'd' in o:
        out['defaultValue'] = ('value', V.canon(o['d']))
    return out


def field(i, types):
    if i['k'] == 'f':
        t = type_of(i['type'], 'out', types)
    else:
        t = named('OBJECT', i['node'])
        t = {'one': nn(t), 'maybe': t,
             'many': nn({'kind': 'LIST', 'name': None, 'ofType': nn(t)})}[
            i['card']]
    return {'name': i['name'], 'description': i.get('desc'), 'type': t,
            'args': [arg(o, types) for o in i['opts']], 'isDeprecated': False,
            'deprecationReason': None}


def obj(name, fields, desc=None, kind='OBJECT'):
    return {'kind': kind, 'name': name, 'description': desc,
            'fields': fields if kind == 'OBJECT' else [],
            'inputFields': fields if kind == 'INPUT_OBJECT' else []}


def model(case):
    world = case['world']
    defs = dict(world['types'])
    types = [obj(s, [], None, 'SCALAR') for s in
             ('String', 'Int', 'Boolean', 'Float', 'Any')]

    def visible(items):
        return [field(i, defs) for i in items if not i['name'].startswith('_')]
    for n in world['nodes']:
        types.append(obj(n['name'], visible(n['items']), n.get('desc')))
    types.append(obj('Query', visible([i for r in world['roots']
                                       for i in r])))
    if case['mutation'] is not None:
        types.append(obj('Mutation', visible(case['mutation'])))
    for name, (kind, *fields) in world['types']:
        if kind != 'rec':
            continue
        fields = fields[0]
        types.append(obj(name, [field({'k': 'f', 'name': f, 'type': t,
                                       'opts': []}, defs)
                                for f, t in fields]))
        types.append(obj('IO' + name, [arg({'n': f, 't': t}, defs)
                                       for f, t in fields], None,
                         'INPUT_OBJECT'))
    return {t['name']: t for t in types}


def norm_type(t):
    if t is None:
        return None
    return {'kind': t['kind'], 'name': t['name'],
            'ofType': norm_type(t.get('ofType'))}


def norm_arg(a):
    a = dict(a, type=norm_type(a['type']))
    if a['defaultValue'] is not None:
        v = value_from_ast_untyped(parse_value(a['defaultValue']))
        try:
            # JSON, except for names in objects
            j = json.loads(a['defaultValue'])
        except ValueError:
            pass
        else:
            ensure(V.same(j, v), 'default value %r', a['defaultValue'])
        a['defaultValue'] = ('value', V.canon(v))
    return a


def norm(t):
    t = dict(t)
    for k in ('interfaces', 'possibleTypes', 'enumValues'):
        ensure(not t.pop(k), '%s of %r', k, t['name'])
    t['fields'] = [dict(f, type=norm_type(f['type']),
                        args=[norm_arg(a) for a in f['args']])
                   for f in t['fields'] or []]
    t['inputFields'] = [norm_arg(a) for a in t['inputFields'] or []]
    return t


def check_schema_data(schema, case):
    want = model(case)
    got = {}
    for t in schema['types']:
        ensure(t['name'] not in got, 'type %r is listed twice', t['name'])
        got[t['name']] = norm(t)
    ensure(set(got) == set(want), 'types %r, expected %r', sorted(got),
           sorted(want))
    for name, t in want.items():
        for k, v in t.items():
            ensure(got[name][k] == v, '%s.%s: %r, expected %r', name, k,
                   got[name][k], v)
    ensure(schema['queryType'] == {'name': 'Query'}, 'queryType %r',
           schema['queryType'])
    ensure(schema['mutationType'] == (
        None if case['mutation'] is None else {'name': 'Mutation'}),
        'mutationType %r', schema['mutationType'])
    ensure(schema['subscriptionType'] is None, 'subscriptionType')
    directives = {x['name']: x for x in schema['directives']}
    ensure(sorted(directives) == ['include', 'skip'] and
           len(schema['directives']) == 2, 'directives %r', directives)
    for x in directives.values():
        ensure(set(x['locations']) == {
            'FIELD', 'FRAGMENT_SPREAD', 'INLINE_FRAGMENT'}, 'locations')
        ensure([(a['name'], norm_type(a['type']), a['defaultValue'])
                for a in x['args']] ==
               [('if', nn(named('SCALAR', 'Boolean')), None)],
               'arguments of @%s: %r', x['name'], x['args'])


FULL = get_introspection_query()
PART = FULL[FULL.index('fragment FullType'):]


def gen_schema(d):
    case = gen_world(d)
    case['way'] = d.pick(['endpoint', 'async endpoint', 'engine', 'async'])
    case['names'] = [d.byte() for _ in range(3)]
    return case


def check_schema(case, obs):
    run, query, mutation = graphs(case)
    way = case['way']
    if way == 'endpoint':
        end = GraphQLEndpoint(Engine(SyncExecutor()), query, mutation)

        def ask(text):
            return end.dispatch({'query': text})
    elif way == 'async endpoint':
        def ask(text):
            async def go():
                end = AsyncGraphQLEndpoint(Engine(AsyncIOExecutor()), query,
                                           mutation)
                return await end.dispatch({'query': text})
            return run_async(lambda loop: go())
    elif way == 'engine':
        graph = hg.apply(query, [GraphQLIntrospection(query, mutation)])

        def ask(text):
            r = Engine(SyncExecutor()).execute(graph, read(text))
            return {'data': denormalize(graph, r)}
    else:
        def ask(text):
            async def go():
                graph = hg.apply(query, [
                    AsyncGraphQLIntrospection(query, mutation)])
                engine = Engine(AsyncIOExecutor())
                r = await engine.execute(graph, read(text))
                return {'data': denormalize(graph, r)}
            return run_async(lambda loop: go())
    answer = ask(FULL)
    ensure(set(answer) == {'data'}, 'answer %r', answer)
    data = answer['data']
    check_schema_data(data['__schema'], case)
    schema = build_client_schema(data)
    errors = validate_schema(schema)
    ensure(not errors, 'not a valid schema: %r', errors)
    # __type gives the same as __schema
    types = data['__schema']['types']
    for k in case['names']:
        t = types[k % len(types)]
        text = '{ __type(name: "%s") { ...FullType } }\n%s' % (t['name'],
                                                               PART)
        got = ask(text)
        ensure(got == {'data': {'__type': t}}, '__type(name: %r): %r',
               t['name'], got)
    got = ask('{ __type(name: "Nope") { name } }')
    ensure(got == {'data': {'__type': None}}, '__type of no type: %r', got)
    ensure(not run.log, 'a loader was called')
    # the answer does not depend on what was asked before
    ensure(ask(FULL) == answer, 'second answer differs')
    obs.label(way)
    world = case['world']
    items = [i for n in world['nodes'] for i in n['items']] + \
        [i for r in world['roots'] for i in r]
    if world['types']:
        obs.label('data types')
    if any(t[0] != 'rec' for _, t in world['types']):
        obs.label('named types that are not records')
    if case['mutation']:
        obs.label('mutation')
    if any(i['name'].startswith('_') for i in items):
        obs.label('hidden')
    if any('d' in o for i in items for o in i['opts']):
        obs.label('defaults')
    return bool(world['types'] or any(
        i['opts'] or i['name'].startswith('_') for i in items))


# -- __typename, asked without an endpoint

INTRO = [
    (('l', '__schema', None, 's1', [
        ('l', 'queryType', None, None, [('f', 'name', None, 'n')])]),
     {'queryType': {'n': 'Query'}}),
    (('l', '__type', {'name': '-'}, 's2', [('f', 'name', None, None)]),
     None),
]


def gen_typename(d):
    world = wd.worlds(d)
    w = wd.W(world)

    def add(sel, node):
        out = []
        for e in sel:
            item = w.items[node][e[1]]
            if e[0] == 'l' and item['k'] == 'l':
                e = e[:4] + (add(e[4], item['node']),)
            out.append(e)
        if d.int(0, 2):
            keys = {e[3] or e[1] for e in out}
            for alias in d.sample([None, 't1', 't2', 'a', 'x'], 1, 2):
                if (alias or '__typename') not in keys:
                    out.insert(d.int(0, len(out)),
                               ('f', '__typename', None, alias))
        return out
    sel = add(wd.draw_selection(d, w, None, 3), None) or [
        ('f', '__typename', None, None)]
    intro = d.sample(range(len(INTRO)), 0, 2)
    return {'world': world, 'sel': sel, 'intro': intro, 'how': d.pick([
        'sync', 'schedule', 'async']), 'data': [d.byte() for _ in range(8)]}


def check_typename(case, obs):
    how = case['how']
    run = wd.Run(case['world'], async_=how == 'async')
    graph = run.graph()
    graph = hg.apply(graph, [(
        AsyncGraphQLIntrospection if how == 'async' else
        GraphQLIntrospection)(graph)])
    sel = list(case['sel'])
    want = wd.evaluate(wd.W(case['world']), sel,
                       typename=lambda n: n or 'Query')
    for i in case['intro']:
        sel.append(INTRO[i][0])
        want[INTRO[i][0][3]] = INTRO[i][1]
    query = wd.to_node(sel)
    if how == 'async':
        run.pause = async_pause(case['data'])

        async def go():
            return await Engine(AsyncIOExecutor()).execute(graph, query)
        result = run_async(lambda loop: go())
    else:
        result = Engine(SyncExecutor() if how == 'sync' else
                        ScheduledExecutor(case['data'])).execute(graph, query)
    got = denormalize(graph, result)
    ensure(V.same(got, want), 'got %r, expected %r', got, want)
    obs.label(how)
    return any(e[0] == 'l' and any(i[1] == '__typename' for i in e[4])
               for e in sel)


# -- refused graphs

BAD = ['', 'a-b', 'a b', '1a', 'é', 'a.b', 'a\n', '\n', 'a!', ' a', 'a ',
       '$a', 'a:b', 'b/a', '٣', 'aé', '"', 'a\x00']


def gen_refused(d):
    case = gen_world(d)
    case['mutation'] = None
    world = case['world']
    kind = d.pick(['node name', 'item name', 'root item name', 'option name',
                   'empty node', 'empty root', 'data type', 'record field',
                   'empty record'])
    bad = d.pick(BAD)
    node = d.pick(world['nodes'])
    extra = {'k': 'f', 'name': bad, 'type': ('int',), 'fn': 'bad',
             'opts': []}
    if d.bool():
        extra = {'k': 'l', 'name': bad, 'node': node['name'], 'card': 'many',
                 'req': None, 'fn': 'bad', 'opts': []}
    if kind == 'node name':
        world['nodes'].append({'name': bad, 'ids': [1], 'items': [
            dict(extra, name='ok')]})
    elif kind == 'item name':
        node['items'].insert(d.int(0, len(node['items'])), extra)
    elif kind == 'root item name':
        d.pick(world['roots']).append(extra)
    elif kind == 'option name':
        extra['name'] = 'ok'
        extra['opts'] = [{'n': 'fine', 't': ('int',)},
                         {'n': bad, 't': ('int',), 'd': 1}][d.below(2):]
        d.pick([node['items']] + world['roots']).append(extra)
    elif kind == 'empty node':
        world['nodes'].append({'name': 'Empty', 'ids': [1], 'items': []})
    elif kind == 'empty root':
        world['roots'] = [[]]
    elif kind == 'empty record':
        world['types'].append(('Bad', ('rec', [])))
    elif kind == 'data type':
        world['types'].append((bad, ('rec', [('f', ('int',))])))
    else:
        world['types'].append(('Bad', ('rec', d.perm([
            (bad, ('int',)), ('g', ('str',))]))))
    case['kind'] = kind
    case['part'] = d.pick(['query', 'mutation'])
    return case


def check_refused(case, obs):
    run, bad, _ = graphs(case)
    good = hg.Graph([hg.Root([hg.Field('a', None, len)])])
    query, mutation = (bad, None) if case['part'] == 'query' else (good, bad)

    def direct(cls):
        return hg.apply(bad, [cls(query, mutation)])
    for make in [
        lambda: direct(GraphQLIntrospection),
        lambda: direct(AsyncGraphQLIntrospection),
        lambda: GraphQLEndpoint(Engine(SyncExecutor()), query, mutation),
        lambda: AsyncGraphQLEndpoint(None, query, mutation),
    ]:
        try:
            make()
        except (ValueError, TypeError):
            continue
        fail('%s: the graph is not refused', case['kind'])
    obs.label(case['kind'])
    return True


TESTS = [
    Test('schema', gen_schema, check_schema, 1600, size=1500),
    Test('typename', gen_typename, check_typename, 2500, size=1500),
    Test('refused', gen_refused, check_refused, 3000, size=1500),
]

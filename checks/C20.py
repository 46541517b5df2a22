"""C20: GraphQL endpoints answer each request with its own data or errors."""
import asyncio

from hiku import graph as hg
from hiku.endpoint.graphql import (AsyncBatchGraphQLEndpoint,
                                   AsyncGraphQLEndpoint,
                                   BatchGraphQLEndpoint, GraphQLEndpoint)
from hiku.engine import Engine

from lib import gqltext
from lib import values as V
from lib import world as wd
from lib.execs import (AsyncIOExecutor, ScheduledExecutor, SyncExecutor,
                       async_pause, run_async)
from lib.invalid import make_invalid
from lib.runner import Test, ensure

PROPERTY = 'C20'
RULE = ('at least two requests, of which one asks for __typename below the '
        'root or is refused, or two have the same text')
ASSUMPTIONS = [
    'requests are mappings with a text under "query"; variables a mapping or '
    'null, operationName a text or null',
    'loaders do not fail',
    'records which are defined in place have no type name (null)',
]

KINDS = ['query', 'query', 'query', 'mutation', 'mutation', 'invalid',
         'invalid', 'typename conflict', 'typename link', 'typename args',
         'subscription', 'syntax', 'unknown operation', 'missing variable',
         'several operations', 'undefined fragment', 'undefined variable',
         'cyclic fragment', 'introspection', 'type definition',
         'no operations']


def draw_mutation(d, world):
    out = []
    for k in range(d.int(1, 3)):
        opts = wd.draw_options(d, dict(world['types']))
        if d.bool():
            t = V.draw_type(d, [n for n, _ in world['types']])
            out.append({'k': 'f', 'name': 'f%d' % k, 'fn': 'mf%d' % d.int(0, k),
                        'type': t, 'opts': opts})
        else:
            out.append({'k': 'l', 'name': 'l%d' % k, 'fn': 'ml%d' % k,
                        'node': d.pick(world['nodes'])['name'],
                        'card': d.pick(['one', 'maybe', 'many']),
                        'req': None, 'opts': opts})
    return out


def add_typenames(d, sel, drop, depth=0):
    """Asks for __typename at random places, under keys that are free."""
    out = []
    for e in sel:
        if e[0] == 'l':
            e = e[:4] + (add_typenames(d, e[4], drop, depth + 1),)
        out.append(e)
    if d.bool():
        keys = {e[3] or e[1] for e in out}
        for alias in d.sample([None, 't1', 't2', 'a', 'x'], 1, 2):
            if (alias or '__typename') not in keys:
                out.insert(d.int(0, len(out)),
                           ('f', '__typename', None, alias))
                if depth and drop and d.chance(1, 6):
                    # nothing else
                    return [('f', '__typename', None, alias)]
    return out


def introspection(world, mutation):
    name = world['nodes'][0]['name']
    return [
        (('l', '__schema', None, None,
          [('l', 'queryType', None, None, [('f', 'name', None, 'n')]),
           ('f', '__typename', None, None)]),
         {'queryType': {'n': 'Query'}, '__typename': '__Schema'}),
        (('l', '__type', {'name': name}, 'ty',
          [('f', 'name', None, None), ('f', 'kind', None, None),
           ('f', '__typename', None, 't')]),
         {'name': name, 'kind': 'OBJECT', 't': '__Type'}),
        (('l', '__schema', None, 'sch',
          [('l', 'mutationType', None, 'm', [('f', 'name', None, None)]),
           ('l', 'queryType', None, None, [('f', 'kind', None, None)])]),
         {'m': {'name': 'Mutation'} if mutation is not None else None,
          'queryType': {'kind': 'OBJECT'}}),
        (('l', '__type', {'name': 'Mutation'}, 'mut',
          [('f', 'name', None, None)]),
         {'name': 'Mutation'} if mutation is not None else None),
        (('l', '__type', {'name': '-'}, 'no',
          [('f', '__typename', None, None)]), None),
    ]


def draw_request(d, world, mutation):
    """{'kind', 'op', 'sel', 'data', 'intro'}"""
    kind = d.pick(KINDS)
    op = 'mutation' if kind == 'mutation' or d.chance(1, 4) else 'query'
    if kind == 'query':
        op = 'query'
    w = wd.W(world if op == 'query' or mutation is None else
             dict(world, roots=[mutation]))
    if op == 'mutation' and mutation is None:
        kind = 'no mutations'
    sel = wd.draw_selection(d, w, None, 3) or [('f', '__typename', None,
                                               None)]
    if kind == 'invalid':
        made = make_invalid(d, w, sel)
        if made is None:
            kind = op
        else:
            sel = made[1]
    sel = add_typenames(d, sel, kind != 'invalid')
    intro = []
    if kind == 'introspection':
        kind = op
        schema = introspection(world, mutation)
        intro = d.sample(range(len(schema)), 1, 2)
        for i in intro:
            sel.insert(d.int(0, len(sel)), schema[i][0])
    full = list(sel)
    if kind.startswith('typename'):
        paths = [()]

        def walk(s, path):
            for i, e in enumerate(s):
                if e[0] == 'l' and e[4]:
                    paths.append(path + (i,))
                    walk(e[4], path + (i,))
        walk(sel, ())
        path = d.pick(paths)
        here = sel
        for i in path:
            here = here[i][4]
        plain = [e for e in here if e[1] != '__typename']
        if kind == 'typename conflict' and plain:
            e = d.pick(plain)
            new = ('f', '__typename', None, e[3] or e[1])
        elif kind == 'typename args':
            new = ('f', '__typename', {'x': 1}, 'free')
        else:
            kind = 'typename link'
            new = ('l', '__typename', None, 'free',
                   [('f', d.pick(['a', '__typename']), None, None)])
        pos = d.int(0, len(here))
        full = put(sel, path, here[:pos] + [new] + here[pos:])
    doc = gqltext.Doc(d, fancy=d.chance(2, 3))
    name = d.pick([None, 'Op', 'query'])
    ops = []
    data = {}
    if d.chance(1, 3) or kind == 'several operations':
        # another operation in the same document
        name = name or 'Op'
        ops.append('%s Other { %s }' % (d.pick(['query', 'mutation',
                                                'subscription']),
                                        d.pick(['a', '__typename', 'zz'])))
        if kind != 'several operations':
            data['operationName'] = name
    elif d.bool():
        data['operationName'] = name
    if kind == 'unknown operation':
        data['operationName'] = d.pick(['Nope', 'op', 'OtherOp'])
    if kind == 'missing variable':
        doc.var_defs.append('$need: %s!' % d.pick(['Int', '[Int]', 'T']))
    word = 'subscription' if kind == 'subscription' else op
    ops.insert(d.int(0, len(ops)), gqltext.operation(doc, word, full, name))
    if kind == 'cyclic fragment':
        ops = [o.rstrip()[:-1] + ' ...Cyc }' for o in ops]
        doc.fragments.append('fragment Cyc on T { a %s }' % d.pick(
            ['...Cyc', 'x { ...Cyc }', '... { b ...Cyc }']))
    if kind == 'undefined fragment':
        ops = [o.rstrip()[:-1] + ' ...Nope }' for o in ops]
    if kind == 'undefined variable':
        ops = [o.rstrip()[:-1] + d.pick([' free: a(o: $nope) }',
                                         ' free: a(o: [{k: $nope}]) }',
                                         ' ... @skip(if: $nope) { a } }'])
               for o in ops]
    if kind == 'no operations':
        ops = []
        doc.fragments.append('fragment Only on T { a }')
    if kind == 'type definition':
        ops.insert(d.int(0, len(ops)), d.pick([
            'type T { a: Int }', 'schema { query: Q }', 'scalar S',
            'extend type Q { a: Int }', 'input I { a: Int }',
            'enum E { A }', 'directive @d on FIELD']))
    text = gqltext.assemble(d, ops, doc.fragments)
    if kind == 'syntax':
        text = d.pick([text.rstrip()[:-1], '{' + text, text + ' }', '', '{}',
                       '{ a( }', text + ' ?', 'foo { a }'])
    data['query'] = text
    if doc.variables or d.bool():
        data['variables'] = doc.variables
    elif d.bool():
        data['variables'] = None
    return {'kind': kind, 'op': op, 'sel': sel, 'data': data, 'intro': intro}


def put(sel, path, new):
    if not path:
        return new
    e = sel[path[0]]
    return sel[:path[0]] + [e[:4] + (put(e[4], path[1:], new),)] + \
        sel[path[0] + 1:]


def gen_large(d):
    """Large answers, or many requests in a batch."""
    world = wd.worlds(d)
    kind = d.pick(['ids', 'fields', 'batch'])
    if kind == 'ids':
        link = d.pick([i for i in world['roots'][0] if i['k'] == 'l'])
        wd.make_many(world, link)
        world['big'] = d.pick([17, 40, 65, 130, 260])
    elif kind == 'fields':
        wd.widen(d, world)
    case = gen(d, world)
    if kind == 'batch':
        n = d.pick([9, 17, 33, 65])
        case['requests'] = [d.pick(case['requests']) for _ in range(n)]
    return case


def gen(d, world=None):
    if world is None:
        world = wd.worlds(d)
    mutation = draw_mutation(d, world) if d.chance(2, 3) else None
    return {'world': world, 'mutation': mutation,
            'requests': d.many(1, 4, lambda: draw_request(d, world,
                                                          mutation)),
            'schedule': [d.byte() for _ in range(8)],
            'repeat': d.bool()}


def build(case, async_):
    run = wd.Run(case['world'], async_=async_)
    graph = run.graph()
    runs = [run]
    mutation = None
    if case['mutation'] is not None:
        mrun = wd.Run(dict(case['world'], roots=[case['mutation']]),
                      async_=async_)
        runs.append(mrun)
        mutation = hg.Graph(
            graph.nodes + [hg.Root([mrun.item(i)
                                    for i in case['mutation']])],
            data_types=graph.data_types)
    if async_:
        for r in runs:
            r.pause = async_pause(case['schedule'])
    return runs, graph, mutation


def expected(case, req):
    """The data, or None for errors."""
    if req['kind'] not in ('query', 'mutation'):
        return None
    root = {'query': 'Query', 'mutation': 'Mutation'}[req['op']]
    world = case['world']
    if req['op'] == 'mutation':
        world = dict(world, roots=[case['mutation']])
    sel = [e for e in req['sel'] if not (e[0] == 'l' and
                                         e[1].startswith('__'))]
    out = wd.evaluate(wd.W(world), sel,
                      typename=lambda n: root if n is None else n)
    for i in req['intro']:
        e, v = introspection(case['world'], case['mutation'])[i]
        out[e[3] or e[1]] = v
    return out


def judge(case, req, answer, where):
    want = expected(case, req)
    ensure(isinstance(answer, dict), '%s: answer %r', where, answer)
    if want is not None:
        ensure(set(answer) == {'data'}, '%s: answer %r, expected data %r',
               where, answer, want)
        ensure(V.same(answer['data'], want), '%s: data %r, expected %r',
               where, answer['data'], want)
        return
    ensure(set(answer) == {'errors'}, '%s (%s): answer %r, expected errors',
           where, req['kind'], answer)
    ensure(isinstance(answer['errors'], list) and answer['errors'] and
           all(isinstance(e, dict) and isinstance(e.get('message'), str) and
               e['message'] for e in answer['errors']), '%s: errors %r',
           where, answer['errors'])


def check(case, obs):
    reqs = case['requests']
    datas = [r['data'] for r in reqs]
    texts = repr(datas)

    # one by one, and then as a batch
    runs, graph, mutation = build(case, False)
    executor = SyncExecutor() if case['repeat'] else \
        ScheduledExecutor(case['schedule'])
    end = GraphQLEndpoint(Engine(executor), graph, mutation)
    answers = []
    for i, r in enumerate(reqs):
        for run in runs:
            run.log.clear()
        a = end.dispatch(r['data'])
        judge(case, r, a, 'request %d' % i)
        if 'errors' in a:
            ensure(not any(run.log for run in runs),
                   'request %d (%s): a loader was called', i, r['kind'])
        answers.append(a)
    batch = BatchGraphQLEndpoint(Engine(SyncExecutor()), graph, mutation)
    got = batch.dispatch(datas)
    ensure(isinstance(got, list) and same_answers(got, answers),
           'batch: %r, one by one: %r', got, answers)
    got = batch.dispatch(datas[0])
    ensure(same_answers([got], answers[:1]),
           'batch endpoint, one request: %r, expected %r', got, answers[0])
    ensure(batch.dispatch([]) == [], 'empty batch')

    # the same, asynchronously
    aruns, agraph, amutation = build(case, True)

    async def go():
        one = AsyncGraphQLEndpoint(Engine(AsyncIOExecutor()), agraph,
                                   amutation)
        many = AsyncBatchGraphQLEndpoint(Engine(AsyncIOExecutor()), agraph,
                                         amutation)
        alone = []
        for r in reqs:
            for run in aruns:
                run.log.clear()
            a = await one.dispatch(r['data'])
            if 'errors' in a:
                ensure(not any(run.log for run in aruns),
                       'async (%s): a loader was called', r['kind'])
            alone.append(a)
        together = await asyncio.gather(*(one.dispatch(x) for x in datas))
        batched = await many.dispatch(datas)
        mixed = await asyncio.gather(many.dispatch(datas),
                                     one.dispatch(datas[0]),
                                     many.dispatch(datas[-1]),
                                     many.dispatch([]))
        return alone, list(together), batched, mixed
    alone, together, batched, mixed = run_async(lambda loop: go())
    for name, got in [('async', alone), ('concurrent', together),
                      ('async batch', batched),
                      ('concurrent batch', mixed[0]),
                      ('beside a batch', [mixed[1]] + answers[1:]),
                      ('beside a batch', answers[:-1] + [mixed[2]])]:
        ensure(isinstance(got, list) and same_answers(got, answers),
               '%s: %r, sync: %r', name, got, answers)
    ensure(list(mixed[3]) == [], 'async empty batch')
    ensure(repr(datas) == texts, 'requests are changed')
    for r in reqs:
        obs.label(r['kind'])
        if r['intro']:
            obs.label('introspection')
    return len(reqs) > 1 and any(
        r['kind'] not in ('query', 'mutation') or below(r['sel'])
        for r in reqs)


def same_answers(a, b):
    return len(a) == len(b) and all(
        isinstance(x, dict) and V.same(x, y) for x, y in zip(a, b))


def below(sel):
    return any(e[0] == 'l' and (below(e[4]) or any(
        i[1] == '__typename' for i in e[4])) for e in sel)


# --------------------------------------------------- similar requests

# values which are easily taken for each other
ALIKE = [1, True, '1', 1.0, 0, False, '', None, 'None', 'null', [], {},
         [1], [True], '[1]', {'k': 1}, {'k': True}, 'True', 2]

TEXTS = [
    # text, operation names, root fields in order: (key, field, where)
    ('query A($v: Any) { x: f(o: $v) }', ['A', None],
     [('x', 'f', lambda v: v)]),
    ('query A($v: Any = 1) { f(o: $v) g }', ['A', None],
     [('f', 'f', lambda v: v), ('g', 'g', lambda v: 'none')]),
    ('query A($v: Any = "1") { x: f(o: [$v, {k: $v}]) y: f(o: 1) }',
     ['A', None], [('x', 'f', lambda v: [v, {'k': v}]),
                   ('y', 'f', lambda v: 1)]),
    ('mutation A($v: Any) { x: f(o: $v) y: g(o: {k: [$v]}) }', ['A', None],
     [('x', 'f', lambda v: v), ('y', 'g', lambda v: {'k': [v]})]),
    ('mutation A { f(o: 1) }', ['A', None], [('f', 'f', lambda v: 1)]),
    ('query A($v: Any) { a: f(o: $v) } query B($v: Any) { b: f(o: [$v]) }',
     ['A'], [('a', 'f', lambda v: v)]),
    ('query A($v: Any) { a: f(o: $v) } query B($v: Any) { b: f(o: [$v]) }',
     ['B'], [('b', 'f', lambda v: [v])]),
    ('query A($v: Any) { a: f(o: $v) } mutation B($v: Any) { a: f(o: $v) }',
     ['A'], [('a', 'f', lambda v: v)]),
    ('query A($v: Any) { a: f(o: $v) } mutation B($v: Any) { a: f(o: $v) }',
     ['B'], [('a', 'f', lambda v: v)]),
]
DEFAULTS = {1: 1, 2: '1'}


def gen_alike(d):
    first = d.int(0, len(TEXTS) - 1)
    requests = []
    for _ in range(d.int(2, 5)):
        if requests and d.chance(1, 4):
            requests.append(d.pick(requests))
            continue
        requests.append([
            first if d.int(0, 3) else d.int(0, len(TEXTS) - 1),
            # a value; no value; no variables at all
            d.int(-2, len(ALIKE) - 1), d.bool()])
    if d.chance(1, 12):
        # many different ones
        n = d.pick([10, 20, 33, 64, 70, 101, 130])
        more = [[first, 1000 + i, True] for i in range(n)]
        requests = d.pick([more + requests, requests + more,
                           requests + more + requests, more + more])
    return {'requests': requests}


def alike_value(i):
    return ALIKE[i] if i < len(ALIKE) else i


def alike_data(r):
    text, names, items = TEXTS[r[0]]
    data = {'query': text}
    name = names[0] if r[2] else names[-1]
    if name is not None or r[2]:
        data['operationName'] = name
    if r[1] >= 0:
        data['variables'] = {'v': alike_value(r[1])}
    elif r[1] == -1:
        data['variables'] = {}
    v = alike_value(r[1]) if r[1] >= 0 else DEFAULTS.get(r[0])
    mutates = 'mutation' in text.split(names[0] + '(')[0].split('}')[-1] \
        or text.startswith('mutation')
    return data, mutates, [(k, f, fn(v)) for k, f, fn in items]


def alike_graphs(calls, async_):
    def root(kind, f):
        def body(fields):
            out = []
            for i in fields:
                # the number of calls so far is in the answer of mutations
                calls.append((kind, f))
                o = i.options['o']
                out.append([calls.count((kind, f)), o] if kind else o)
            return out

        async def abody(fields):
            await asyncio.sleep(0)
            return body(fields)
        return hg.Field(f, None, abody if async_ else body,
                        options=[hg.Option('o', None, default='none')])
    graph = hg.Graph([hg.Root([root('', 'f'), root('', 'g')])])
    mutation = hg.Graph([hg.Root([root('m', 'f'), root('m', 'g')])])
    return graph, mutation


def check_alike(case, obs):
    reqs = [alike_data(r) for r in case['requests']]
    datas = [r[0] for r in reqs]

    def judge_all(how, got, calls, ordered=True):
        ensure(isinstance(got, list) and len(got) == len(reqs),
               '%s: %r', how, got)
        count = {}
        for data, mutates, items in reqs:
            for _, f, _ in items:
                k = ('m' if mutates else '', f)
                count[k] = count.get(k, 0) + 1
        for k in count:
            ensure(calls.count(k) == count[k], '%s: %r called %d times '
                   'instead of %d', how, k, calls.count(k), count[k])
        ensure(len(calls) == sum(count.values()), '%s: other calls: %r', how,
               calls)
        done = {}
        numbers = {}
        for (data, mutates, items), a in zip(reqs, got):
            want = {}
            for k, f, v in items:
                if mutates:
                    done[f] = done.get(f, 0) + 1
                    n = done[f]
                    if not ordered:
                        # any order between requests
                        try:
                            n = a['data'][k][0]
                        except Exception:
                            pass
                        numbers.setdefault(f, []).append(n)
                    v = [n, v]
                want[k] = v
            ensure(V.same(a, {'data': want}), '%s: %r: got %r, expected %r',
                   how, data, a, {'data': want})
        for f, ns in numbers.items():
            ensure(sorted(ns) == list(range(1, len(ns) + 1)),
                   '%s: answers of several calls: %r', how, ns)

    for how, cls in [('one by one', GraphQLEndpoint),
                     ('batch', BatchGraphQLEndpoint)]:
        calls = []
        end = cls(Engine(SyncExecutor()), *alike_graphs(calls, False))
        judge_all(how, [end.dispatch(x) for x in datas]
                  if how == 'one by one' else end.dispatch(datas), calls)
    for how, cls in [('async', AsyncGraphQLEndpoint),
                     ('concurrent', AsyncGraphQLEndpoint),
                     ('async batch', AsyncBatchGraphQLEndpoint)]:
        calls = []

        async def go():
            end = cls(Engine(AsyncIOExecutor()), *alike_graphs(calls, True))
            if how == 'async':
                return [await end.dispatch(x) for x in datas]
            if how == 'concurrent':
                return list(await asyncio.gather(*(end.dispatch(x)
                                                   for x in datas)))
            return list(await end.dispatch(datas))
        judge_all(how, run_async(lambda loop: go()), calls, how == 'async')
    texts = [r['query'] for r in datas]
    obs.label('same text' if len(set(texts)) < len(texts) else 'other texts')
    if any(datas.count(x) > 1 and m for x, m, _ in reqs):
        obs.label('mutation repeated')
    return len(set(texts)) < len(texts)


TESTS = [Test('requests', gen, check, 4000, size=2000),
         Test('large', gen_large, check, 300, size=2000),
         Test('alike', gen_alike, check_alike, 4000)]

"""C27: the query context reaches exactly the loaders that ask for it."""
import asyncio
import collections
import threading
import types
from collections.abc import Mapping
from concurrent.futures import ThreadPoolExecutor

from prometheus_client import CollectorRegistry, Summary

from hiku import graph as hg
from hiku.endpoint.graphql import (AsyncBatchGraphQLEndpoint,
                                   AsyncGraphQLEndpoint,
                                   BatchGraphQLEndpoint, GraphQLEndpoint)
from hiku.engine import Engine
from hiku.executors.threads import ThreadsExecutor
from hiku.introspection.graphql import (AsyncGraphQLIntrospection,
                                        GraphQLIntrospection)
from hiku.readers.graphql import read_operation
from hiku.result import denormalize
from hiku.telemetry.prometheus import AsyncGraphMetrics, GraphMetrics

from lib import exprs as X
from lib import gqltext
from lib import world as wd
from lib.execs import (AsyncIOExecutor, ScheduledExecutor, SyncExecutor,
                       async_pause, run_async)
from lib.gen import D
from lib.runner import Test, ensure
from lib.values import same

PROPERTY = 'C27'
RULE = ('loaders which ask for the context and loaders which do not were '
        'called, in executions with at least two different contexts')
ASSUMPTIONS = [
    'contexts are mappings which do not change while they are used, and raise '
    'KeyError for missing keys',
]

KEYS = ['key', 'who', '', 0, None, (1, 'a'), 1.5, 'get', '__mapping', b'x']
VALUES = [None, 0, '', 'v', [], {}, [1], ('t',), KeyError, float]


class Given(Mapping):
    """A mapping of the user"""

    def __init__(self, data):
        self.data = dict(data)

    def __getitem__(self, key):
        return self.data[key]

    def __iter__(self):
        return iter(self.data)

    def __len__(self):
        return len(self.data)


KINDS = {
    'dict': dict, 'ordered': collections.OrderedDict,
    'proxy': lambda x: types.MappingProxyType(dict(x)), 'mapping': Given,
    'chain': lambda x: collections.ChainMap({}, dict(x)),
    'user': collections.UserDict,
}


def gen_large(d):
    return gen(d, X.big_stack)


def gen(d, draw=X.stack_and_query):
    case = draw(d, lowest=0)
    stack = case['stack']
    world = stack['world']
    fns = sorted({i['fn'] for n in world['nodes'] for i in n['items']} |
                 {i['fn'] for r in world['roots'] for i in r})
    world['ctx'] = d.sample(fns, 1, 6)
    top = X.Level(stack, len(stack['levels'])) if stack['levels'] else \
        wd.W(world)
    case['queries'] = [case.pop('query')] + d.many(
        0, 1, lambda: wd.draw_selection(d, top, None, 2))
    case['runs'] = d.many(1, 4, lambda: {
        'query': d.int(0, len(case['queries']) - 1),
        'ctx': d.pick(sorted(KINDS) + ['none', 'absent']),
        'data': [(k, d.int(0, len(VALUES) - 1))
                 for k in d.sample(range(len(KEYS)), 0, 3)],
        'keyword': d.bool()})
    case['how'] = d.pick(['sync', 'schedule', 'threads', 'async', 'async',
                          'nested', 'separate'])
    case['trans'] = [d.sample(['identity', 'metrics', 'introspection'], 0, 2)
                     for _ in range(3)]
    case['data'] = [d.byte() for _ in range(8)]
    return case


def examine(ctx, want, where):
    """The context that a loader got"""
    ensure(isinstance(ctx, Mapping), '%s: %r', where, ctx)
    ensure(len(ctx) == len(want) and set(ctx) == set(want),
           '%s: keys %r, expected %r', where, list(ctx), list(want))
    for k, v in want.items():
        ensure(k in ctx and ctx[k] is v and ctx.get(k, 1) is v,
               '%s: %r is %r, expected %r', where, k, ctx[k], v)
    ensure(ctx == dict(want), '%s: not equal to %r', where, want)
    for missing in ('missing', ('a',), 77, None, 'who'):
        if missing in want:
            continue
        try:
            v = ctx[missing]
        except KeyError:
            pass
        else:
            ensure(False, '%s: %r is %r', where, missing, v)
        ensure(missing not in ctx and ctx.get(missing, 5) == 5,
               '%s: %r', where, missing)
    # it cannot be changed
    for change in (lambda: ctx.__setitem__('key', 'changed'),
                   lambda: ctx.__delitem__('key'),
                   lambda: ctx.update({'key': 'changed'}),
                   lambda: ctx.clear(), lambda: ctx.pop('key', None),
                   lambda: ctx.setdefault('new', 1)):
        try:
            change()
        except (TypeError, AttributeError):
            pass
        else:
            ensure(False, '%s: the context can be changed', where)


def check(case, obs):
    stack, how = case['stack'], case['how']
    async_ = how == 'async'
    levels = len(stack['levels'])
    top = X.Level(stack, levels) if levels else wd.W(stack['world'])
    try:
        values = [wd.evaluate(top, sel) for sel in case['queries']]
    except X.TooBig:
        return False
    n = [0]

    def transform(graph):
        ts = []
        for kind in case['trans'][n[0]]:
            if kind == 'identity':
                ts.append(hg.GraphTransformer())
            elif kind == 'metrics':
                ts.append((AsyncGraphMetrics if async_ else GraphMetrics)(
                    'g', metric=Summary('m', 'm', ['graph', 'node', 'field'],
                                        registry=CollectorRegistry())))
            else:
                ts.append((AsyncGraphQLIntrospection if async_ else
                           GraphQLIntrospection)(graph))
        n[0] += 1
        return hg.apply(graph, ts)

    run = X.StackRun(stack, async_=async_, transform=transform, styles=True)
    loads = run.run
    queries = [wd.to_node(q) for q in case['queries']]

    # what is given, and which calls each query makes
    given, wants = [], []
    for i, r in enumerate(case['runs']):
        want = {KEYS[k]: VALUES[v] for k, v in r['data']}
        if r['ctx'] in ('none', 'absent'):
            given.append(None)
            wants.append({})
        else:
            want['execution'] = token = object()
            given.append(KINDS[r['ctx']](want))
            wants.append(want)

    def start(engine, i):
        r = case['runs'][i]
        q = queries[r['query']]
        if r['ctx'] == 'absent':
            return engine.execute(run.graph, q)
        if r['keyword']:
            return engine.execute(run.graph, q, ctx=given[i])
        return engine.execute(run.graph, q, given[i])

    def value_of(result, i):
        got = denormalize(run.graph, result)
        want = values[case['runs'][i]['query']]
        ensure(same(got, want), 'execution %d: %r, expected %r', i, got, want)

    # calls of one execution of every query
    solo = {}
    for i, r in enumerate(case['runs']):
        if r['query'] in solo:
            continue
        loads.log.clear()
        if async_:
            async def one():
                return await start(Engine(AsyncIOExecutor()), i)
            value_of(run_async(lambda loop: one()), i)
        else:
            value_of(start(Engine(SyncExecutor()), i), i)
        solo[r['query']] = collections.Counter(loads.observed_calls())
    loads.log.clear()

    # the executions, one by one or at the same time
    if async_:
        loads.pause = async_pause(case['data'])

        async def go():
            engine = Engine(AsyncIOExecutor())

            async def one(i):
                return await start(engine, i)
            return await asyncio.gather(*(one(i)
                                          for i in range(len(given))))
        results = run_async(lambda loop: go())
        for i, res in enumerate(results):
            value_of(res, i)
    elif how == 'threads':
        errors = []
        with ThreadPoolExecutor(3) as pool:
            engine = Engine(ThreadsExecutor(pool))

            def one(i):
                try:
                    value_of(start(engine, i), i)
                except BaseException as e:
                    errors.append(e)
            threads = [threading.Thread(target=one, args=(i,))
                       for i in range(len(given))]
            for t in threads:
                t.start()
            for t in threads:
                t.join()
        if errors:
            raise errors[0]
    elif how == 'nested':
        # a loader of one execution executes the next one
        engine = Engine(SyncExecutor())
        pending = list(range(1, len(given)))

        def before(call):
            if pending:
                i = pending.pop(0)
                value_of(start(engine, i), i)
        loads.before = before
        value_of(start(engine, 0), 0)
        loads.before = None
        for i in pending:
            value_of(start(engine, i), i)
    else:
        engine = None
        for i in range(len(given)):
            if engine is None or how == 'separate':
                engine = Engine(ScheduledExecutor(case['data'])
                                if how == 'schedule' else SyncExecutor())
            value_of(start(engine, i), i)

    # who got what
    by_token = {id(w['execution']): i for i, w in enumerate(wants)
                if 'execution' in w}
    got = [collections.Counter() for _ in given]
    empty = collections.Counter()
    plain = collections.Counter()
    for call, seen in zip(loads.log, loads.observed_calls()):
        marked = call.fn in loads.ctx_fns
        if not marked:
            ensure(call.ctx is None, '%s got a context', call.fn)
            ensure(not any(isinstance(a, Mapping) and 'execution' in a
                           for a in call.args), '%s got a context: %r',
                   call.fn, call.args)
            plain[seen] += 1
            continue
        ensure(isinstance(call.ctx, Mapping), '%s got %r', call.fn, call.ctx)
        token = call.ctx.get('execution')
        if token is None:
            examine(call.ctx, next((w for w in wants if 'execution' not in w
                                    ), {'no': 'such execution'}), call.fn)
            empty[seen] += 1
        else:
            ensure(id(token) in by_token, '%s got %r', call.fn, call.ctx)
            i = by_token[id(token)]
            examine(call.ctx, wants[i], '%s, execution %d' % (call.fn, i))
            got[i][seen] += 1

    def only(counter, marked):
        return collections.Counter({k: v for k, v in counter.items()
                                    if (k[1] in loads.ctx_fns) is marked})
    want_empty, want_plain = collections.Counter(), collections.Counter()
    for i, r in enumerate(case['runs']):
        calls = solo[r['query']]
        want_plain += only(calls, False)
        if 'execution' in wants[i]:
            want = only(calls, True)
            ensure(got[i] == want, 'calls with the context of execution %d\n '
                   'unexpected: %r\n missing: %r', i, got[i] - want,
                   want - got[i])
        else:
            want_empty += only(calls, True)
    ensure(empty == want_empty, 'calls with an empty context: %r, expected '
           '%r', empty, want_empty)
    ensure(plain == want_plain, 'calls without a context: %r, expected %r',
           plain, want_plain)
    for g, w in zip(given, wants):
        ensure(g is None or dict(g) == w, 'a given context is changed: %r', g)
    obs.label(how, 'levels=%d' % levels, *{r['ctx'] for r in case['runs']})
    return bool(plain) and sum(1 for g in got if g) + bool(empty) > 1


# -- executions by GraphQL endpoints

def gen_endpoint(d):
    world = wd.worlds(d)
    fns = sorted({i['fn'] for n in world['nodes'] for i in n['items']} |
                 {i['fn'] for r in world['roots'] for i in r})
    world['ctx'] = d.sample(fns, 1, 6)
    w = wd.W(world)
    queries = d.many(1, 3, lambda: wd.draw_selection(d, w, None, 3) or [
        ('f', '__typename', None, None)])
    return {'world': world, 'queries': queries,
            'runs': d.many(1, 4, lambda: {
                'query': d.int(0, len(queries) - 1),
                'mutation': d.bool(),
                'ctx': d.pick(sorted(KINDS) + ['dispatch']),
                'data': [(k, d.int(0, len(VALUES) - 1))
                         for k in d.sample(range(len(KEYS)), 0, 3)]}),
            'how': d.pick(['sync', 'async', 'async']), 'batch': d.bool(),
            'together': d.bool(), 'data': [d.byte() for _ in range(8)]}


def check_endpoint(case, obs):
    async_ = case['how'] == 'async'
    loads = wd.Run(case['world'], async_=async_)
    graph = loads.graph()
    if async_:
        cls = AsyncBatchGraphQLEndpoint if case['batch'] else \
            AsyncGraphQLEndpoint
        loads.pause = async_pause(case['data'])
    else:
        cls = BatchGraphQLEndpoint if case['batch'] else GraphQLEndpoint

    def make():
        return cls(Engine(AsyncIOExecutor() if async_ else SyncExecutor()),
                   graph, graph)
    w = wd.W(case['world'])
    values = []
    for sel in case['queries']:
        values.append(wd.evaluate(w, sel, typename=lambda n: n or 'Query'))
    wants, starts = [], []
    for r in case['runs']:
        want = {}
        word = 'mutation' if r['mutation'] else 'query'
        doc = gqltext.Doc(D(b'\0' * 8), fancy=False)
        text = gqltext.assemble(D(b'\0' * 8), [gqltext.operation(
            doc, word, case['queries'][r['query']], None)], doc.fragments)
        if r['ctx'] == 'dispatch':
            starts.append(lambda end, t=text, v=doc.variables: end.dispatch(
                {'query': t, 'variables': v}))
        else:
            want = {KEYS[k]: VALUES[v] for k, v in r['data']}
            want['execution'] = object()
            op = read_operation(text, variables=doc.variables)
            given = KINDS[r['ctx']](want)
            starts.append(
                lambda end, o=op, g=given, m=r['mutation']: end.execute(
                    end.mutation_graph if m else end.query_graph, o, g))
        wants.append(want)

    def finished(i, answer):
        r = case['runs'][i]
        want = values[r['query']]
        if r['mutation']:
            want = wd.evaluate(w, case['queries'][r['query']],
                               typename=lambda n: n or 'Mutation')
        if r['ctx'] == 'dispatch':
            want = {'data': want}
        ensure(same(answer, want), 'execution %d: %r, expected %r', i,
               answer, want)

    def calls(i):
        """The calls with the context of the execution."""
        out = collections.Counter()
        token = wants[i].get('execution')
        for call, seen in zip(loads.log, loads.observed_calls()):
            if call.fn in loads.ctx_fns:
                ensure(isinstance(call.ctx, Mapping), '%s got %r', call.fn,
                       call.ctx)
                if call.ctx.get('execution') is token:
                    examine(call.ctx, wants[i], call.fn)
                    out[seen] += 1
            else:
                ensure(call.ctx is None and not any(
                    isinstance(a, Mapping) and 'execution' in a
                    for a in call.args), '%s got a context: %r', call.fn,
                    call)
        return out

    def marked():
        return sum(call.fn in loads.ctx_fns for call in loads.log)
    alone = []
    total = 0
    for i, start in enumerate(starts):
        loads.log.clear()
        if async_:
            async def one():
                return await start(make())
            finished(i, run_async(lambda loop: one()))
        else:
            finished(i, start(make()))
        alone.append(calls(i))
        n = sum(alone[-1].values())
        ensure(n == marked(), 'execution %d: %d of %d loaders which ask for '
               'the context got it', i, n, marked())
        total += n
    if async_ and case['together']:
        loads.log.clear()

        async def go():
            end = make()
            return await asyncio.gather(*(start(end) for start in starts))
        for i, answer in enumerate(run_async(lambda loop: go())):
            finished(i, answer)
        ensure(marked() == total, 'together: %d calls, expected %d',
               marked(), total)
        for i, want in enumerate(alone):
            if wants[i]:
                ensure(calls(i) == want, 'together: execution %d: %r, '
                       'expected %r', i, calls(i), want)
    obs.label(case['how'], *{r['ctx'] for r in case['runs']})
    return bool(total) and len(starts) > 1


TESTS = [Test('contexts', gen, check, 4000, size=2000),
         Test('large', gen_large, check, 400, size=2000),
         Test('endpoints', gen_endpoint, check_endpoint, 2500, size=1500)]

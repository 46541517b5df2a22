"""C24: metrics count every executed field and link exactly once."""
import asyncio
import collections
import threading
import time
from concurrent.futures import ThreadPoolExecutor

from prometheus_client import REGISTRY, CollectorRegistry, Summary

from hiku import graph as hg
from hiku.expr.core import S, define
from hiku.query import Field, Link, Node
from hiku.sources.graph import SubGraph
from hiku.types import Any, Sequence, TypeRef
from hiku.engine import Engine
from hiku.executors.threads import ThreadsExecutor
from hiku.introspection.graphql import (AsyncGraphQLIntrospection,
                                        GraphQLIntrospection)
from hiku.telemetry.prometheus import AsyncGraphMetrics, GraphMetrics

from lib import exprs as X
from lib import world as wd
from lib.execs import (AsyncIOExecutor, ScheduledExecutor, SyncExecutor,
                       async_pause, run_async)
from lib.runner import Test, ensure

PROPERTY = 'C24'
RULE = ('at least four observations are expected, for at least two nodes '
        'or graphs; or a slow function of an expression was called')
ASSUMPTIONS = [
    'a call which raises is not completed',
    'a field counts as often as it is in the list of fields that the function '
    'is called with (with different options, or when a link requires it)',
    'graphs in a stack of sub-graphs have different metrics names',
    'the metric is a Prometheus Summary, own or default',
]


class Failure(Exception):
    pass


def gen_large(d):
    return gen(d, X.big_stack)


def gen(d, draw=X.stack_and_query):
    data = [d.byte() for _ in range(8)]
    how = d.pick(['sync', 'schedule', 'threads', 'async', 'async'])
    case = draw(d, lowest=0, ctx=True)
    top = X.Level(case['stack'], len(case['stack']['levels'])) \
        if case['stack']['levels'] else wd.W(case['stack']['world'])
    case['queries'] = [case.pop('query')] + d.many(
        0, 2, lambda: wd.draw_selection(d, top, None, 2))
    case['how'] = how
    case['data'] = data
    # one by one or at the same time
    case['together'] = d.bool()
    case['slow'] = d.chance(1, 6)
    case['fail'] = d.int(1, 6) if not case['stack']['levels'] and \
        d.chance(1, 4) else 0
    case['default'] = d.chance(1, 6)
    case['extra'] = [d.sample(['identity', 'introspection', 'second'], 0, 2)
                     for _ in range(3)]
    return case


class Samples:
    """What a summary has observed: {(graph, node, field): (count, sum)}"""

    def __init__(self, metric):
        self.metric = metric
        self.before = {}
        self.before = self.read()

    def read(self):
        out = {}
        for family in self.metric.collect():
            for s in family.samples:
                key = tuple(s.labels.get(k) for k in
                            ('graph', 'node', 'field'))
                what = s.name.rsplit('_', 1)[1]
                if what in ('count', 'sum') and len(s.labels) == 3:
                    out.setdefault(key, {})[what] = s.value
        res = {}
        for key, v in out.items():
            c0, s0 = self.before.get(key, (0, 0.0))
            if v['count'] != c0:
                res[key] = (v['count'] - c0, v['sum'] - s0)
        return res


def default_metric():
    """The collector registered under the default name"""
    collector = REGISTRY._names_to_collectors.get('graph_field_time_count')
    ensure(collector is not None, 'no default metric is registered')
    return collector


def execute_all(graph, queries, case):
    """Executes the queries; the number of failed ones."""
    how = case['how']
    failed = 0
    ctx = {'key': 'value'}
    if how == 'async':
        async def go():
            engine = Engine(AsyncIOExecutor())

            async def one(q):
                await engine.execute(graph, q, ctx)
            if case['together']:
                return await asyncio.gather(*map(one, queries),
                                            return_exceptions=True)
            return [(await asyncio.gather(one(q), return_exceptions=True))[0]
                    for q in queries]
        results = run_async(lambda loop: go())
    else:
        pool = None
        if how == 'threads':
            pool = ThreadPoolExecutor(3)
            ex = ThreadsExecutor(pool)
        elif how == 'sync':
            ex = SyncExecutor()
        else:
            ex = ScheduledExecutor(case['data'])
        engine = Engine(ex)
        results = []

        def one(q):
            try:
                engine.execute(graph, q, ctx)
                results.append(None)
            except Failure as e:
                results.append(e)
        try:
            if how == 'threads' and case['together']:
                threads = [threading.Thread(target=one, args=(q,))
                           for q in queries]
                for t in threads:
                    t.start()
                for t in threads:
                    t.join()
                ensure(len(results) == len(queries), 'an execution raised')
            else:
                for q in queries:
                    one(q)
        finally:
            if pool is not None:
                pool.shutdown()
    for r in results:
        if isinstance(r, Failure):
            failed += 1
        elif r is not None:
            raise r
    return failed


def check(case, obs):
    stack = case['stack']
    levels = len(stack['levels'])
    top = X.Level(stack, levels) if levels else wd.W(stack['world'])
    async_ = case['how'] == 'async'
    short = one_name(stack['world'])
    # expected observations of the highest graph
    want = collections.Counter()
    again = collections.Counter()
    try:
        for sel in case['queries']:
            where = []
            if levels:
                wd.evaluate(top, sel)
            wd.expected_calls(top, sel, where=where)
            for node, names, repeated in where:
                for name in names:
                    want[node or 'Root', name] += 1
                for name in repeated:
                    again[node or 'Root', name] += 1
    except X.TooBig:
        return False

    metric = None if case['default'] else Summary(
        'm', 'm', ['graph', 'node', 'field'], registry=CollectorRegistry())
    names = []

    def transform(graph):
        k = len(names)
        cls = AsyncGraphMetrics if async_ else GraphMetrics
        intro = AsyncGraphQLIntrospection if async_ else GraphQLIntrospection
        extra = case['extra'][k]
        ts = [cls('g%d' % k, metric=metric)]
        names.append(['g%d' % k])
        if 'identity' in extra:
            ts.insert(case['data'][k] % 2, hg.GraphTransformer())
        if 'introspection' in extra:
            ts.insert(case['data'][k] // 2 % 2, intro(graph))
        if 'second' in extra:
            # another name, the same calls
            ts.append(cls('h%d' % k, metric=metric))
            names[-1].append('h%d' % k)
        return hg.apply(graph, ts)

    run = X.StackRun(stack, async_=async_, transform=transform)
    loads = run.run
    metric = metric or default_metric()
    samples = Samples(metric)
    lock = threading.Lock()
    started, returned = {}, []
    spent = collections.Counter()
    calls = [0]

    def before(call):
        with lock:
            calls[0] += 1
            if calls[0] == case['fail']:
                raise Failure()
        started[id(call.args)] = time.perf_counter()

    def after(call):
        if case['slow'] and not async_:
            time.sleep(0.0005)
        dt = time.perf_counter() - started[id(call.args)]
        with lock:
            returned.append(call)
            for name in served(loads, call):
                spent[short(name)] += dt

    loads.before, loads.after = before, after
    if async_:
        pause = async_pause(case['data'])

        async def slow(call):
            await pause(call)
            if case['slow']:
                time.sleep(0.0005)
        loads.pause = slow
    t0 = time.perf_counter()
    failed = execute_all(run.graph,
                         [wd.to_node(q) for q in case['queries']], case)
    elapsed = time.perf_counter() - t0
    got = samples.read()

    known = {n for ns in names for n in ns}
    total, durations = collections.Counter(), collections.Counter()
    for (graph, node, field), (count, sum_) in got.items():
        ensure(graph in known, 'graph %r is observed', graph)
        ensure(count == int(count) and count > 0, 'count %r', count)
        ensure(-1e-9 <= sum_ <= count * elapsed + 1e-3,
               '%r: %r observations take %r s of %r', (graph, node, field),
               count, sum_, elapsed)
    for ns in names:
        counts = [{k[1:]: v[0] for k, v in got.items() if k[0] == n}
                  for n in ns]
        for c in counts[1:]:
            ensure(c == counts[0],
                   'two metrics of one graph differ: %r, %r', c, counts[0])
        for k, v in got.items():
            if k[0] == ns[0]:
                total[short(k[2])] += v[0]
                durations[short(k[2])] += v[1]
    observed = {k[1:]: v[0] for k, v in got.items() if k[0] == names[-1][0]}
    if not failed:
        # between one for each field and one for each entry of the lists of
        # fields; the exact number of entries is compared below
        more = collections.Counter(observed) - want - again
        less = want - collections.Counter(observed)
        ensure(not more and not less,
               'observations\n unexpected: %r\n missing: %r', dict(more),
               dict(less))

    # every call of a loader, whatever graph it belongs to
    served_total = collections.Counter()
    for call in returned:
        for name in served(loads, call):
            served_total[short(name)] += 1
    if levels:
        # fields of sub-graphs are observed at their own level as well
        lower = collections.Counter()
        through = {(n, i['name']) for n in top.nodes
                   for i in top.items[n].values()
                   if i['k'] == 'f'}
        for (graph, node, field), (count, _) in got.items():
            level = int(graph[1:])
            if graph[0] == 'g' and not (level and (node, field) in through):
                if not any((node, field) in own_fields(stack, k)
                           for k in range(1, levels + 1)):
                    lower[short(field)] += count
        total = lower
    if not failed or not levels:
        # those which have raised are not observed
        ensure(total == served_total, 'observations %r, calls %r', total,
               served_total)
    if not levels and not failed:
        for name, dt in spent.items():
            ensure(durations[name] >= dt * 0.999 - 1e-5,
                   '%r: observed %r s, the calls took %r s', name,
                   durations[name], dt)
    if failed:
        obs.label('failure')
        ensure(all(total[n] >= c for n, c in served_total.items()),
               'observations %r, returned calls %r', total, served_total)
    obs.label(case['how'], 'levels=%d' % levels)
    if case['default']:
        obs.label('default metric')
    if len(case['queries']) > 1:
        obs.label('together' if case['together'] else 'several')
    if not levels and len({(n, i['fn']) for n in top.nodes
                           for i in top.items[n].values()}) > len(
            {i['fn'] for n in top.nodes for i in top.items[n].values()}):
        obs.label('shared functions')
    return sum(want.values()) >= 4 and len({k[:2] for k in got}) > 1


def own_fields(stack, k):
    return {(n, i['name']) for n, items in stack['levels'][k - 1].items()
            for i in items}


def served(run, call):
    if call.kind == 'l':
        return [run.by_fn[call.fn]['name']]
    return [f.name for f in call.args[0]]


def one_name(world):
    """Calls of a function of several links can't be told from each other:
    {name: one for all the names of links which share a function}"""
    out, by_fn = {}, {}
    for items in [n['items'] for n in world['nodes']] + world['roots']:
        for i in items:
            if i['k'] == 'l':
                a = by_fn.setdefault(i['fn'], i['name'])
                a, b = out.get(a, a), out.get(i['name'], i['name'])
                for name in {i['name'], b} | {k for k in out
                                              if out[k] == b}:
                    out[name] = a
    return lambda name: out.get(name, name)


# ------------------------------------- time of fields which are expressions

def gen_time(d):
    n = d.int(1, 4)
    return {'fields': [[d.bool(), d.bool(), d.bool()] for _ in range(n)],
            # links: identities and asked fields
            'queries': d.many(1, 2, lambda: d.many(1, 2, lambda: [
                d.int(0, 3), d.sample(range(n), 1, n)])),
            'low_slow': d.bool(),
            'how': d.pick(['sync', 'schedule', 'threads', 'async']),
            'data': [d.byte() for _ in range(8)]}


def check_time(case, obs):
    async_ = case['how'] == 'async'
    spent = collections.Counter()
    lock = threading.Lock()
    nap = 0.0003

    def low(fields, ids):
        if case['low_slow']:
            time.sleep(nap)
        return [['%s%s' % (f.name, i) for f in fields] for i in ids]

    async def alow(fields, ids):
        await asyncio.sleep(0)
        return low(fields, ids)
    loader = alow if async_ else low
    metric = Summary('m', 'm', ['graph', 'node', 'field'],
                     registry=CollectorRegistry())
    bottom = hg.Graph([hg.Node('X', [hg.Field('a', None, loader),
                                     hg.Field('b', None, loader)])])
    sg = SubGraph(bottom, 'X')

    def function(k, slow):
        @define(Any, Any)
        def fn(a, b):
            t = time.perf_counter()
            if slow:
                time.sleep(nap)
            with lock:
                spent['e%d' % k] += time.perf_counter() - t
            return [k, a, b]
        return fn
    fields = []
    for k, (slow, b, plain) in enumerate(case['fields']):
        if plain:
            fields.append(hg.Field('e%d' % k, None, sg.c(
                [S.this.b if b else S.this.a])))
        else:
            fields.append(hg.Field('e%d' % k, None, sg.c(
                function(k, slow)(S.this.a, S.this.b if b else 1))))
    links = sorted({i for q in case['queries'] for i, _ in q})

    def link(n):
        def fn():
            return list(range(n))

        async def afn():
            return list(range(n))
        return hg.Link('l%d' % n, Sequence[TypeRef['X']],
                       afn if async_ else fn, requires=None)
    cls = AsyncGraphMetrics if async_ else GraphMetrics
    graph = hg.apply(hg.Graph([hg.Node('X', fields),
                               hg.Root([link(n) for n in links])]),
                     [cls('g', metric=metric)])
    samples = Samples(metric)
    queries = [Node([Link('l%d' % n, Node([Field('e%d' % k) for k in ks]),
                          alias='x%d' % j)
                     for j, (n, ks) in enumerate(q)])
               for q in case['queries']]
    case = dict(case, together=False, fail=0)
    t0 = time.perf_counter()
    execute_all(graph, queries, case)
    elapsed = time.perf_counter() - t0
    got = samples.read()
    some = 0
    for name, dt in spent.items():
        some += dt > nap / 2
        _, observed = got.get(('g', 'X', name), (0, 0.0))
        ensure(observed >= dt * 0.999 - 1e-5,
               '%s: observed %r s, its function took %r s', name, observed,
               dt)
    for key, (count, total) in got.items():
        ensure(-1e-9 <= total <= count * elapsed + 1e-3,
               '%r: %r observations take %r s of %r', key, count, total,
               elapsed)
        if case['low_slow'] and key[1] == 'X':
            # each of the calls waits for the sub-graph
            ensure(total >= nap * 0.9, '%r: observed %r s, the sub-graph '
                   'took longer', key, total)
    obs.label('time of expressions')
    return some > 0


TESTS = [Test('metrics', gen, check, 4000, size=2000),
         Test('large', gen_large, check, 400, size=2000),
         Test('time', gen_time, check_time, 400)]

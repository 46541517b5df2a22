"""C19: graph transformations do not change query results."""
import collections

from prometheus_client import CollectorRegistry, Summary

from hiku import graph as hg
from hiku.engine import Engine
from hiku.introspection.graphql import (AsyncGraphQLIntrospection,
                                        GraphQLIntrospection)
from hiku.result import denormalize
from hiku.telemetry.prometheus import AsyncGraphMetrics, GraphMetrics
from hiku.validate.query import validate

from lib import exprs as X
from lib import world as wd
from lib.execs import (AsyncIOExecutor, ScheduledExecutor, SyncExecutor,
                       async_pause, run_async)
from lib.runner import Test, ensure
from lib.values import canon, same

PROPERTY = 'C19'
RULE = ('at least one transformation other than the identity was applied, '
        'and at least two loader calls were made; order: at least two '
        'transformations')
ASSUMPTIONS = [
    'loaders are deterministic',
    'introspection is applied at most once to a graph',
    'the graph has a root; names are GraphQL names',
]

KINDS = ['identity', 'metrics', 'introspection']


def gen_large(d):
    return gen(d, X.big_stack)


def gen(d, draw=X.stack_and_query):
    case = draw(d, lowest=0, ctx=True)
    levels = len(case['stack']['levels']) + 1
    trans = []
    for _ in range(levels):
        t = d.sample(KINDS + ['metrics', 'identity'], 0, 4)
        trans.append(t)
    if not trans[-1]:
        trans[-1] = [d.pick(KINDS[1:])]
    case['trans'] = trans
    case['how'] = d.pick(['sync', 'schedule', 'async'])
    case['one call'] = d.bool()
    case['data'] = [d.byte() for _ in range(8)]
    case['default metric'] = d.chance(1, 4)
    return case


def signature(graph, with_funcs=False):
    """What a graph declares."""
    def opt(o):
        return (o.name, repr(o.type), canon(o.default)
                if o.default is not hg.Nothing else None, o.description)

    def item(i):
        return (type(i).__name__, i.name, repr(i.type), i.description,
                getattr(i, 'requires', None), tuple(map(opt, i.options)),
                id(i.func) if with_funcs else None)

    out = {}
    for n in graph.items:
        fields = [item(f) for f in n.fields if not f.name.startswith('__')]
        if n.name is None:
            out.setdefault(None, []).extend(fields)
        elif not n.name.startswith('__'):
            ensure(n.name not in out, 'node %r twice', n.name)
            out[n.name] = fields + [n.description]
    out['types of the graph'] = [(k, repr(v))
                                 for k, v in graph.data_types.items()]
    return out


def execute(graph, query, how, ctx, data):
    if how == 'async':
        async def go():
            return await Engine(AsyncIOExecutor()).execute(graph, query, ctx)
        return run_async(lambda loop: go())
    ex = SyncExecutor() if how == 'sync' else ScheduledExecutor(data)
    return Engine(ex).execute(graph, query, ctx)


def observe(run, graph, query, case):
    run.log.clear()
    ctx = {'key': 'value', 1: object()}
    result = execute(graph, query, case['how'], ctx, case['data'])
    value = denormalize(graph, result)
    calls = collections.Counter()
    for c, seen in zip(run.log, run.observed_calls()):
        ensure((c.ctx is not None) == (c.fn in run.ctx_fns),
               '%s: context %r', c.fn, c.ctx)
        if c.ctx is not None:
            ensure(dict(c.ctx) == ctx, 'context %r', c.ctx)
        n = len(c.args[1]) if c.kind == 'f' and len(c.args) > 1 else -1
        calls[seen, n] += 1
    return value, calls, list(run.log)


def check(case, obs):
    stack = case['stack']
    top = X.Level(stack, len(stack['levels'])) if stack['levels'] else \
        wd.W(stack['world'])
    async_ = case['how'] == 'async'
    try:
        want = wd.evaluate(top, case['query'])
    except X.TooBig:
        return False
    query = wd.to_node(case['query'])

    plain = X.StackRun(stack, async_=async_, styles=True)
    if async_:
        plain.run.pause = async_pause(case['data'])
    value, calls, log = observe(plain.run, plain.graph, query, case)
    ensure(same(value, want), 'without transformations: %r, expected %r',
           value, want)

    trans = iter(case['trans'])
    seen = []

    def transform(graph):
        ts = []
        kinds = next(trans)
        if kinds.count('introspection') > 1:
            kinds.remove('introspection')
        for kind in kinds:
            if kind == 'identity':
                ts.append(hg.GraphTransformer())
            elif kind == 'metrics':
                cls = AsyncGraphMetrics if async_ else GraphMetrics
                metric = None
                if not case['default metric']:
                    metric = Summary('m', 'm', ['graph', 'node', 'field'],
                                     registry=CollectorRegistry())
                ts.append(cls('g%d' % len(ts), metric=metric))
            else:
                cls = AsyncGraphQLIntrospection if async_ else \
                    GraphQLIntrospection
                ts.append(cls(graph))
        before = signature(graph, with_funcs=True)
        if case['one call']:
            out = hg.apply(graph, ts)
        else:
            out = graph
            for t in ts:
                out = hg.apply(out, [t])
        ensure(signature(graph, with_funcs=True) == before,
               'the original graph is modified')
        ensure(signature(out) == signature(graph),
               'declarations differ: %r, originally %r', signature(out),
               signature(graph))
        seen.append((graph, before))
        return out

    run = X.StackRun(stack, async_=async_, transform=transform, styles=True)
    if async_:
        run.run.pause = async_pause(case['data'])
    ensure(not run.run.log, 'transformations call loaders')
    ensure(validate(run.graph, query) == validate(plain.graph, query),
           'validation differs: %r, originally %r',
           validate(run.graph, query), validate(plain.graph, query))
    for again in ('first', 'second'):
        value2, calls2, _ = observe(run.run, run.graph, query, case)
        ensure(same(value2, value), '%s execution: %r, expected %r', again,
               value2, value)
        ensure(calls2 == calls, 'calls (%s execution): %r, expected %r',
               again, calls2, calls)
    for graph, before in seen:
        ensure(signature(graph, with_funcs=True) == before,
               'the original graph is modified')
    # the graph under the last transformations still works
    value3, calls3, _ = observe(run.run, seen[-1][0], query, case)
    ensure(same(value3, value), 'original graph: %r, expected %r', value3,
           value)
    ensure(calls3 == calls, 'calls of the original graph: %r, expected %r',
           calls3, calls)
    used = {t for ts in case['trans'] for t in ts}
    obs.label(case['how'], 'levels=%d' % len(stack['levels']), *used)
    if any(c.ctx is not None for c in log):
        obs.label('context')
    return bool(used - {'identity'}) and len(log) > 1


class Suffix(hg.GraphTransformer):
    """Writes its mark at the end of descriptions of one kind of items, and
    remembers what it has seen"""

    def __init__(self, mark, kinds):
        self.mark = mark
        self.kinds = kinds
        self.seen = []

    def marked(self, kind, obj, new):
        self.seen.append((kind, obj.name, obj.description))
        if kind in self.kinds:
            new.description = (new.description or '') + self.mark
        return new

    def visit_field(self, obj):
        return self.marked('field', obj, super().visit_field(obj))

    def visit_link(self, obj):
        return self.marked('link', obj, super().visit_link(obj))

    def visit_option(self, obj):
        return self.marked('option', obj, super().visit_option(obj))

    def visit_node(self, obj):
        return self.marked('node', obj, super().visit_node(obj))


def gen_order(d):
    world = wd.worlds(d)
    return {'world': world, 'marks': [
        [d.pick('xyz') + str(k), d.sample(['field', 'link', 'option', 'node'],
                                          1, 4)]
        for k in range(d.int(1, 5))],
        'as': d.pick(['list', 'tuple', 'iterator', 'generator'])}


def descriptions(graph):
    out = []
    for n in graph.items:
        if n.name is not None:
            out.append(('node', n.name, n.description))
        for f in n.fields:
            for o in f.options:
                out.append(('option', o.name, o.description))
            out.append(('link' if isinstance(f, hg.Link) else 'field',
                        f.name, f.description))
    return out


def check_order(case, obs):
    graph = wd.Run(case['world']).graph()
    before = descriptions(graph)
    ts = [Suffix(m, kinds) for m, kinds in case['marks']]
    given = {'list': list, 'tuple': tuple, 'iterator': iter,
             'generator': lambda x: (t for t in x)}[case['as']](ts)
    out = hg.apply(graph, given)
    want = before
    for t in ts:
        ensure(sorted(t.seen, key=repr) == sorted(want, key=repr),
               '%s has seen %r, expected %r', t.mark, t.seen, want)
        want = [(k, n, (desc or '') + t.mark if k in t.kinds else desc)
                for k, n, desc in want]
    ensure(descriptions(out) == want, 'transformed: %r, expected %r',
           descriptions(out), want)
    ensure(descriptions(graph) == before, 'the original graph is modified')
    obs.label(case['as'], 'options' if any(k == 'option' for k, _, _ in want)
              else 'no options')
    return len(ts) > 1


TESTS = [
    Test('transformations', gen, check, 4500, size=2000),
    Test('large', gen_large, check, 400, size=2000),
    Test('order', gen_order, check_order, 2000),
]

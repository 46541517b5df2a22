"""C28: executions are repeatable and do not affect each other."""
import asyncio
import copy
import threading
from concurrent.futures import ThreadPoolExecutor

from graphql.language.printer import print_ast
from prometheus_client import CollectorRegistry, Summary

from hiku import edn
from hiku import graph as hg
from hiku import query as hq
from hiku.denormalize.base import Denormalize
from hiku.denormalize.graphql import DenormalizeGraphQL
from hiku.endpoint.graphql import (AsyncBatchGraphQLEndpoint,
                                   BatchGraphQLEndpoint)
from hiku.engine import Engine
from hiku.executors.threads import ThreadsExecutor
from hiku.export import graphql as ex_graphql
from hiku.export import protobuf as ex_protobuf
from hiku.export import simple as ex_simple
from hiku.introspection.graphql import GraphQLIntrospection
from hiku.query import merge
from hiku.readers import graphql as rd_graphql
from hiku.readers import protobuf as rd_protobuf
from hiku.readers import simple as rd_simple
from hiku.result import denormalize
from hiku.telemetry.prometheus import GraphMetrics
from hiku.typedef.kinko import dumps
from hiku.validate.query import validate

from lib import exprs as X
from lib import gqltext
from lib import world as wd
from lib.edit import random_edit
from lib.execs import (AsyncIOExecutor, ScheduledExecutor, SyncExecutor,
                       async_pause, run_async)
from lib.invalid import make_invalid
from lib.runner import Test, Violation, ensure
from lib import values as V
from lib.gen import D
from lib.values import canon, same
from .C09 import describe
from .C19 import signature

PROPERTY = 'C28'
RULE = ('the history has at least three operations of two kinds, one of '
        'them an execution of at least two loader calls, and some query is '
        'used more than once; or (views) one source has different '
        'expressions for fields of one name; or (many) over a hundred '
        'different queries of more than one field in all')
ASSUMPTIONS = [
    'loaders are deterministic and do not change what they are given',
    'plain field values in a denormalized result belong to the loaders; the '
    'dictionaries and lists around them belong to the caller',
    'metrics and clocks aside: two uses of the same objects are compared by '
    'their answers (also errors, by class)',
]

INTRO = '{ __schema { queryType { name } types { name kind } } }'


class Boom(Exception):
    pass


# ---------------------------------------------------------------- generation

def gen_large(d):
    return gen(d, X.big_stack)


def gen(d, draw=X.stack_and_query):
    case = draw(d, lowest=0, ctx=True)
    stack = case['stack']
    top = level_of(stack)
    queries = [{'sel': case.pop('query'), 'kind': 'valid',
                'ordered': d.chance(1, 5)}]
    for _ in range(d.int(0, 2)):
        sel = wd.draw_selection(d, top, None, 2)
        kind = 'valid'
        c = d.int(0, 5)
        if c == 0 and sel:
            made = make_invalid(d, top, sel)
            if made:
                sel, kind = made[1], 'invalid'
        elif c == 1 and sel:
            sel, kind = random_edit(d, top, sel), 'invalid'
        elif c == 2:
            kind = 'overlapping'
            sel = wd.draw_selection(d, top, None, 2, True)
        queries.append({'sel': sel, 'kind': kind, 'ordered': d.chance(1, 5)})
    case['queries'] = queries
    valid = [i for i, q in enumerate(queries) if q['kind'] == 'valid']
    every = range(len(queries))
    texts = []
    for q in queries:
        doc = gqltext.Doc(d)
        text = gqltext.operation(doc, d.pick(['query', 'query', 'mutation']),
                                 q['sel'] or [('f', '__typename', None,
                                               None)])
        texts.append({'query': gqltext.assemble(d, [text], doc.fragments),
                      'variables': doc.variables})
    case['texts'] = texts
    case['edn'] = d.pick(['[:a {:x [:b]}]', '[(:a {:o [1 {:k nil}]})]',
                          '[{(:x {:o 1}) [:a]} :b :a]', '[a]', '[:a'])

    def op():
        kind = d.pick(KINDS)
        if kind in ('execute', 'fail', 'ordered', 'elsewhere'):
            return kind, d.pick(valid), d.int(0, 4)
        if kind in ('threads', 'async', 'nested', 'cancel'):
            return (kind, [d.pick(valid) for _ in range(d.int(2, 4))],
                    d.int(0, 9))
        if kind == 'merge':
            return kind, [d.pick(every) for _ in range(d.int(1, 3))]
        if kind in ('validate', 'simple', 'graphql', 'protobuf', 'read',
                    'copy'):
            return kind, d.pick(every)
        if kind in ('transform', 'rebuild'):
            return kind, d.sample(['identity', 'metrics', 'introspection'],
                                  1, 2), d.pick(valid)
        if kind in ('endpoint', 'async endpoint'):
            return kind, [d.pick(every) for _ in range(d.int(1, 3))]
        if kind in ('again', 'spoil'):
            return kind, d.int(0, 9)
        return kind,
    case['ops'] = d.many(3, 10, op)
    case['ctx'] = {'key': 1, 'deep': {'a': [1]}}
    case['data'] = [d.byte() for _ in range(8)]
    case['cached'] = d.bool()
    case['other'] = [d.byte() for _ in range(24)]
    return case


KINDS = ['execute', 'execute', 'execute', 'ordered', 'fail', 'threads',
         'async', 'cancel', 'nested', 'validate', 'simple', 'graphql',
         'protobuf', 'merge', 'read', 'copy', 'transform', 'rebuild',
         'endpoint', 'async endpoint', 'again', 'spoil', 'dumps',
         'introspect', 'edn', 'elsewhere', 'elsewhere']


def level_of(stack):
    return X.Level(stack, len(stack['levels'])) if stack['levels'] else \
        wd.W(stack['world'])


def other_stack(case):
    """The same graph with other default options and other values."""
    stack = copy.deepcopy(case['stack'])
    world = stack['world']
    types = dict(world['types'])
    d = D(bytes(case['other']))
    done = set()
    for items in [n['items'] for n in world['nodes']] + world['roots'] + [
            items for level in stack['levels'] for items in level.values()]:
        for i in items:
            if id(i) in done:
                continue
            done.add(id(i))
            if 'expr' not in i:
                i['fn'] += '*'
            for o in i['opts']:
                if 'd' in o and id(o) not in done:
                    done.add(id(o))
                    o['d'] = V.draw_value(d, o['t'], types)
    return stack


# ---------------------------------------------------------------- the objects

class Env:
    """The objects that a history is about. Operations return plain data."""

    def __init__(self, case):
        self.case = case
        self.run = X.StackRun(case['stack'], styles=True)
        self.graph = self.run.graph
        self.arun = X.StackRun(case['stack'], async_=True)
        self.agraph = self.arun.graph
        self.arun.run.pause = async_pause(case['data'])
        self.queries = [wd.to_node(q['sel'], q['ordered'])
                        for q in case['queries']]
        self.orun = X.StackRun(other_stack(case))
        self.ctx = wd.copy_plain(case['ctx'])
        self.ctxs = [self.ctx, None, {'key': 2}]
        self.engine = Engine(SyncExecutor())
        self.scheduled = Engine(ScheduledExecutor(case['data']))
        self.endpoint = BatchGraphQLEndpoint(self.engine, self.graph,
                                             self.graph)
        self.texts = wd.copy_plain(case['texts'])
        self.kept = []          # (query index, graph, result, plain value)
        self.cache = {}
        if case['cached']:
            for r in (self.run.run, self.arun.run):
                r.change = self.remember

    def remember(self, call, res):
        """Loaders which return the same objects whenever they are called
        the same way."""
        key = (call.fn, canon([describe(hq.Node(list(a)))
                               if call.kind == 'f' and n == 0 else a
                               for n, a in enumerate(call.args)]))
        if key not in self.cache:
            self.cache[key] = res, canon(res)
        return self.cache[key][0]

    def snapshot(self):
        return [
            [describe(q) for q in self.queries],
            [[id(f) for f in q.fields] for q in self.queries],
            [signature(g, with_funcs=True)
             for r in (self.run, self.arun, self.orun)
             for g in r.graphs],
            [[id(i) for i in g.items] + [id(g.root), sorted(g.nodes_map)]
             for r in (self.run, self.arun, self.orun)
             for g in r.graphs],
            repr(self.ctxs), repr(self.texts),
            all(canon(v) == seen for v, seen in self.cache.values()),
        ]

    # operations
    def keep(self, i, graph, result):
        value = denormalize(graph, result)
        self.kept.append((i, graph, result, canon_order(value)))
        return value

    def start(self, engine, i, graph=None, query=None, ctx=0):
        graph = self.graph if graph is None else graph
        query = self.queries[i] if query is None else query
        return engine.execute(graph, query, self.ctxs[ctx])

    def one(self, i, how, graph=None, query=None, run=None):
        """An execution with one of the contexts."""
        run = (run or self.run).run
        engine = self.engine if how % 2 else self.scheduled
        before = len(run.log)
        result = self.start(engine, i, graph, query, how // 2)
        value = self.keep(i, self.graph if graph is None else graph, result)
        want = self.ctxs[how // 2] or {}
        for c in run.log[before:]:
            ensure(c.ctx is None or dict(c.ctx) == want,
                   '%s got the context %r instead of %r', c.fn, c.ctx, want)
        return value

    def do(self, op):
        return getattr(self, 'do_' + op[0].replace(' ', '_'))(*op[1:])

    def do_execute(self, i, how):
        return self.one(i, how)

    def do_elsewhere(self, i, how):
        """The same query, another graph"""
        errors = validate(self.orun.graph, self.queries[i])
        ensure(not errors, 'another graph: %r', errors)
        return self.one(i, how, self.orun.graph, None, self.orun)

    def do_ordered(self, i, how):
        query = hq.Node(self.queries[i].fields, ordered=True)
        return self.one(i, how, None, query)

    def do_fail(self, i, n):
        left = [n]

        def before(call):
            left[0] -= 1
            if left[0] < 0:
                raise Boom
        self.run.run.before = before
        try:
            return self.keep(i, self.graph, self.start(self.engine, i))
        except Boom:
            return 'failed'
        finally:
            self.run.run.before = None

    def do_threads(self, which, n):
        out = [None] * len(which)
        with ThreadPoolExecutor(1 + n % 3) as pool:
            engine = Engine(ThreadsExecutor(pool)) if n % 2 else self.engine

            def one(j, i):
                try:
                    out[j] = self.start(engine, i)
                except BaseException as e:
                    out[j] = e
            threads = [threading.Thread(target=one, args=(j, i))
                       for j, i in enumerate(which)]
            for t in threads:
                t.start()
            for t in threads:
                t.join()
        for r in out:
            if isinstance(r, BaseException):
                raise r
        return [self.keep(i, self.graph, r) for i, r in zip(which, out)]

    def do_nested(self, which, n):
        """Loaders of one execution execute the others."""
        pending = list(which[1:])
        out = []

        def before(call):
            if pending:
                i = pending.pop(0)
                out.append(self.keep(i, self.graph,
                                     self.start(self.engine, i)))
        self.run.run.before = before
        try:
            first = self.start(self.engine, which[0])
        finally:
            self.run.run.before = None
        for i in pending:
            out.append(self.keep(i, self.graph, self.start(self.engine, i)))
        return [self.keep(which[0], self.graph, first)] + sorted(out, key=canon)

    def do_async(self, which, n):
        async def go():
            engine = Engine(AsyncIOExecutor())

            async def one(i):
                return await self.start(engine, i, self.agraph)
            return await asyncio.gather(*map(one, which))
        return [self.keep(i, self.agraph, r)
                for i, r in zip(which, run_async(lambda loop: go()))]

    def do_cancel(self, which, n):
        """One of the executions is cancelled; the others go on."""
        async def go():
            engine = Engine(AsyncIOExecutor())

            async def one(i):
                return await self.start(engine, i, self.agraph)
            tasks = [asyncio.ensure_future(one(i)) for i in which]
            for _ in range(n):
                await asyncio.sleep(0)
            tasks[0].cancel()
            return await asyncio.gather(*tasks[1:]), \
                await asyncio.gather(tasks[0], return_exceptions=True)
        results, _ = run_async(lambda loop: go())
        return [self.keep(i, self.agraph, r)
                for i, r in zip(which[1:], results)]

    def do_validate(self, i):
        return validate(self.graph, self.queries[i])

    def do_simple(self, i):
        text = edn.dumps(ex_simple.export(self.queries[i]))
        return [text, describe(rd_simple.read(text))]

    def do_graphql(self, i):
        text = print_ast(ex_graphql.export(self.queries[i]))
        return [text, describe(rd_graphql.read(text))]

    def do_protobuf(self, i):
        msg = ex_protobuf.export(self.queries[i])
        return [describe(rd_protobuf.read(msg.SerializeToString())),
                describe(rd_protobuf.transform(msg)),
                describe(rd_protobuf.transform(msg))]

    def do_merge(self, which):
        return describe(merge([self.queries[i] for i in which]))

    def do_copy(self, i):
        query = self.queries[i]
        other = hq.QueryTransformer().visit(query)
        ensure(other == query and not other != query, 'a copy differs')
        return [describe(other), describe(query.copy()), repr(query),
                list(query.result_map), list(query.fields_map)]

    def do_read(self, i):
        t = self.texts[i]
        return [describe(rd_graphql.read(t['query'], t['variables'])),
                describe(rd_graphql.read_operation(t['query'],
                                                   t['variables']).query)]

    def do_edn(self):
        return describe(rd_simple.read(self.case['edn']))

    def transformed(self, kinds):
        ts = []
        for kind in kinds:
            if kind == 'identity':
                ts.append(hg.GraphTransformer())
            elif kind == 'metrics':
                ts.append(GraphMetrics('g', metric=Summary(
                    'm', 'm', ['graph', 'node', 'field'],
                    registry=CollectorRegistry())))
            else:
                ts.append(GraphQLIntrospection(self.graph))
        return hg.apply(self.graph, ts)

    def do_transform(self, kinds, i):
        graph = self.transformed(kinds)
        return self.keep(i, graph, self.start(self.engine, i, graph))

    def do_rebuild(self, kinds, i):
        """Another graph from the items of this one"""
        graph = hg.Graph(self.graph.items, self.graph.data_types)
        value = self.keep(i, graph, self.start(self.engine, i, graph))
        ensure(signature(graph, True) == signature(self.graph, True),
               'a graph of the same items differs')
        return value

    def do_endpoint(self, which):
        return self.endpoint.dispatch([self.texts[i] for i in which])

    def do_async_endpoint(self, which):
        async def go():
            end = AsyncBatchGraphQLEndpoint(Engine(AsyncIOExecutor()),
                                            self.agraph, self.agraph)
            datas = [self.texts[i] for i in which]
            return await asyncio.gather(end.dispatch(datas),
                                        end.dispatch(datas[0]))
        return list(run_async(lambda loop: go()))

    def do_dumps(self):
        return dumps(self.graph)

    def do_introspect(self):
        graph = hg.apply(self.graph, [GraphQLIntrospection(self.graph)])
        query = rd_graphql.read(INTRO)
        return denormalize(graph, self.engine.execute(graph, query))

    # earlier results
    def read_kept(self, k):
        i, graph, result, value = self.kept[k]
        name = 'result %d of query %d' % (k, i)
        got = denormalize(graph, result)
        ensure(canon_order(got) == value, '%s is now %r, was %r', name, got,
               value)
        sel = self.case['queries'][i]['sel']
        ensure(same(Denormalize(graph, result).process(self.queries[i]), got),
               '%s: denormalizers differ', name)
        ensure(same(DenormalizeGraphQL(graph, result, 'Query')
                    .process(self.queries[i]), got),
               '%s: denormalizers differ', name)
        for e in sel:
            key = e[3] or e[1]
            one = result[key]
            ensure(isinstance(one, list) or one is result[key] or
                   e[0] == 'l', '%s: %r is read differently', name, key)
            if e[0] == 'f':
                ensure(same(one, got[key]), '%s: %r is %r, %r in the '
                       'denormalized form', name, key, one, got[key])
        return got

    def do_again(self, k):
        if self.kept:
            self.read_kept(k % len(self.kept))

    def do_spoil(self, k):
        """The caller changes its own copy of a result."""
        if self.kept:
            k %= len(self.kept)
            got = self.read_kept(k)
            scramble(got, self.case['queries'][self.kept[k][0]]['sel'])


def scramble(value, sel):
    if isinstance(value, list):
        for v in value:
            scramble(v, sel)
        value.append('spoilt')
    elif isinstance(value, dict):
        for e in sel:
            if e[0] == 'l' and (e[3] or e[1]) in value:
                scramble(value[e[3] or e[1]], e[4])
        value.clear()
        value['spoilt'] = True


def canon_order(v):
    if isinstance(v, dict):
        return {'keys': list(v), 'values': [canon_order(i)
                                            for i in v.values()]}
    if isinstance(v, list):
        return [canon_order(i) for i in v]
    return canon(v)


def outcome(env, op):
    """What the operation answers; reading and exporting may refuse a query,
    which is an answer too."""
    if op[0] in ('simple', 'graphql', 'protobuf', 'merge', 'read', 'edn',
                 'dumps', 'introspect', 'transform'):
        try:
            return env.do(op)
        except Violation:
            raise
        except Exception as e:
            return 'refused: %s' % type(e).__name__
    return env.do(op)


# ------------------------------------------------------------------ the check

def check(case, obs):
    top = level_of(case['stack'])
    values = {}
    others = {}
    otop = level_of(other_stack(case))
    try:
        for i, q in enumerate(case['queries']):
            if q['kind'] == 'valid':
                values[i] = wd.evaluate(top, q['sel'])
                others[i] = wd.evaluate(otop, q['sel'])
    except X.TooBig:
        return False
    env = Env(case)
    before = env.snapshot()
    calls = 0
    for n, op in enumerate(case['ops']):
        where = 'operation %d %r' % (n, op)
        env.run.run.log.clear()
        env.arun.run.log.clear()
        got = outcome(env, op)
        calls = max(calls, len(env.run.run.log), len(env.arun.run.log))
        ensure(env.snapshot() == before, '%s changed the objects:\n%r\nnow '
               '%r', where, before, env.snapshot())
        refused = isinstance(got, str) and got.startswith('refused')
        if op[0] in ('execute', 'ordered'):
            want = values[op[1]]
            ensure(same(got, want), '%s: %r, expected %r', where, got, want)
        elif op[0] == 'elsewhere':
            want = others[op[1]]
            ensure(same(got, want), '%s: %r, expected %r', where, got, want)
        elif op[0] == 'fail' and got != 'failed':
            ensure(same(got, values[op[1]]), '%s: %r, expected %r', where,
                   got, values[op[1]])
        elif op[0] in ('transform', 'rebuild') and not refused:
            want = values[op[2]]
            ensure(same(got, want), '%s: %r, expected %r', where, got, want)
        elif op[0] in ('threads', 'async'):
            want = [values[i] for i in op[1]]
            ensure(same(got, want), '%s: %r, expected %r', where, got, want)
        elif op[0] == 'nested':
            want = [values[op[1][0]]] + sorted(
                (values[i] for i in op[1][1:]), key=canon)
            ensure(same(got, want), '%s: %r, expected %r', where, got, want)
        elif op[0] == 'cancel':
            want = [values[i] for i in op[1][1:]]
            ensure(same(got, want), '%s: %r, expected %r', where, got, want)
        elif op[0] not in ('again', 'spoil'):
            fresh = outcome(Env(case), op)
            ensure(canon(got) == canon(fresh), '%s: %r, but with fresh '
                   'objects %r', where, got, fresh)
        obs.label(op[0])
        if refused:
            obs.label('refused')
    for k in range(len(env.kept)):
        env.read_kept(k)
    ensure(env.snapshot() == before, 'reading results changed the objects')
    used = []
    for op in case['ops']:
        for a in op[1:2]:
            used += a if isinstance(a, list) else [a]
    if case['cached']:
        obs.label('cached loaders')
    return len({op[0] for op in case['ops']}) > 1 and calls > 1 and \
        len(used) > len(set(map(repr, used)))


# ------------------------------------------------------- very many of a kind

def gen_many(d):
    """Hundreds of queries, all different, and some of them again."""
    case = X.stack_and_query(d, lowest=0, ctx=True)
    top = level_of(case['stack'])
    base = [case.pop('query')]
    for _ in range(d.int(0, 3)):
        base.append(wd.draw_selection(d, top, None, 2) or base[0])
    case['base'] = base
    case['n'] = d.pick([30, 70, 140, 270, 300, 530])
    case['back'] = [d.int(0, case['n'] - 1) for _ in range(d.int(5, 20))]
    case['ctx'] = {'key': 1}
    case['via'] = d.pick(['engine', 'endpoint', 'read', 'merge', 'threads'])
    return case


def variant(case, k):
    """The k-th query: the same selection under other names."""
    sel = case['base'][k % len(case['base'])]
    return [e[:3] + ('%s_%d' % (e[3] or e[1], k),) + tuple(e[4:])
            if e[1] != '__typename' else e for e in map(tuple, sel)]


def check_many(case, obs):
    top = level_of(case['stack'])
    run = X.StackRun(case['stack'], styles=True)
    engine = Engine(SyncExecutor())
    via = case['via']
    total = case['n']
    kept = {}
    wants = {}

    def want(k):
        if k not in wants:
            wants[k] = wd.evaluate(top, variant(case, k))
        return wants[k]

    def text(k):
        return 'query Q%d($v: Int, $w: [Int!]) { a%d: f(o: $v, k: %d) ' \
            'g(o: $w) { b%d: c } }' % (k % 7, k, k, k // 5)

    def tree(k, v):
        return {'a%d' % k: {'o': v, 'k': k}, 'g': {'o': [v, k]},
                'sub': 'b%d' % (k // 5)}

    def one(k):
        if via == 'read':
            node = rd_graphql.read(text(k), {'v': k + 1, 'w': [k + 1, k]})
            got = {f.result_key: f.options for f in node.fields}
            got['sub'] = node.result_map['g'].node.fields[0].result_key
            ensure(got == tree(k, k + 1), 'query %d is read as %r', k, got)
            again = rd_graphql.read(text(k), {'v': k + 2, 'w': [k + 2, k]})
            got = {f.result_key: f.options for f in again.fields}
            got['sub'] = again.result_map['g'].node.fields[0].result_key
            ensure(got == tree(k, k + 2), 'query %d is read as %r with '
                   'other variables', k, got)
            node = rd_simple.read('[(:a%d {:o %d}) {:g%d [:b]}]' % (k, k, k))
            ensure([(f.name, f.options) for f in node.fields] ==
                   [('a%d' % k, {'o': k}), ('g%d' % k, None)],
                   'edn query %d is read as %r', k, node)
            return
        node = wd.to_node(variant(case, k))
        if via == 'merge':
            # an identical query adds nothing, another one its own names
            other = wd.to_node(variant(case, k + 1))
            got = [f.result_key for f in merge([node, other, node]).fields]
            names = list(dict.fromkeys(
                [e[3] or e[1] for e in variant(case, k)] +
                [e[3] or e[1] for e in variant(case, k + 1)]))
            ensure(sorted(got) == sorted(names), 'queries %d and %d merged '
                   'are %r, expected %r', k, k + 1, got, names)
        errors = validate(run.graph, node)
        ensure(not errors, 'query %d: %r', k, errors)
        result = engine.execute(run.graph, node, case['ctx'])
        if k not in kept and len(kept) < 40:
            kept[k] = result
        got = denormalize(run.graph, result)
        ensure(same(got, want(k)), 'query %d of %d: %r, expected %r', k,
               total, got, want(k))
    try:
        want(0)
        for k in range(len(case['base'])):
            want(k)
    except X.TooBig:
        return False
    if via == 'threads':
        with ThreadPoolExecutor(4) as pool:
            list(pool.map(one, range(total)))
    elif via == 'endpoint':
        end = BatchGraphQLEndpoint(engine, run.graph, run.graph)
        for k in range(total):
            got = end.dispatch({'query': '{ a%d: __typename b%d: __typename }'
                                         % (k, k % 11)})
            ensure(got == {'data': {'a%d' % k: 'Query',
                                    'b%d' % (k % 11): 'Query'}},
                   'request %d is answered %r', k, got)
            one(k)
    else:
        for k in range(total):
            one(k)
    for k in case['back']:
        one(k)
    for k, result in kept.items():
        got = denormalize(run.graph, result)
        ensure(same(got, want(k)), 'query %d is now %r, was %r', k, got,
               want(k))
    obs.label(via)
    obs.label('%d queries' % total)
    return total > 100 and sum(map(len, case['base'])) > 1


def check_views(case, obs):
    engine = Engine(SyncExecutor())

    def execute(graph, query):
        ensure(not validate(graph, query), 'the query is refused')
        return denormalize(graph, engine.execute(graph, query))
    return X.check_views(case, execute)


TESTS = [Test('histories', gen, check, 3500, size=2600),
         Test('large', gen_large, check, 200, size=2600),
         Test('many', gen_many, check_many, 160, size=2600),
         Test('views', X.views, check_views, 1500, size=2000)]

"""C02: results do not depend on the executor or on completion order."""
import asyncio
import collections
import time
from concurrent.futures import ThreadPoolExecutor

from hiku.engine import Engine
from hiku.query import merge
from hiku.result import denormalize

from lib import exprs as X
from lib import world as wd
from lib.execs import (SyncExecutor, AsyncIOExecutor, ThreadsExecutor,
                       ScheduledExecutor, ControlledPool, run_async,
                       async_pause)
from lib.runner import Test, ensure
from lib.values import same

PROPERTY = 'C02'
RULE = ('a case is non-trivial when at some moment at least two loader calls '
        'were pending together and the calls did not all complete in one '
        'group (threads and asyncio: at least three loader calls; stacked '
        'graphs: at least two)')


def gen(d):
    data = [d.byte() for _ in range(24)]
    case = wd.world_and_query(d, odd=True, depth=3,
                              dups=d.chance(1, 4), max_items=5)
    case['schedule'] = data
    return case


def gen_large(d):
    data = [d.byte() for _ in range(24)]
    case = wd.big_case(d)
    case['schedule'] = data
    return case


def prepare(case, async_=False):
    run = wd.Run(case['world'], async_=async_)
    graph = run.graph()
    query = merge([wd.to_node(case['query'])])
    want = wd.evaluate(run.w, case['query'])
    return run, graph, query, want


def judge(run, case, graph, result, want, name):
    got = denormalize(graph, result)
    ensure(same(got, want), '%s\n got: %r\nwant: %r', name, got, want)
    calls = collections.Counter(run.observed_calls())
    exp = collections.Counter(wd.expected_calls(run.w, case['query']))
    ensure(calls == exp, '%s: loader calls\n extra: %r\nmissing: %r', name,
           calls - exp, exp - calls)


def check_schedule(case, obs):
    run, graph, query, want = prepare(case)
    ex = ScheduledExecutor(case['schedule'])
    result = Engine(ex).execute(graph, query)
    judge(run, case, graph, result, want, 'scheduled executor')
    ensure(all(f.done and f.reads for f in ex.submitted),
           'a submitted call was not completed or its result never used')
    obs.label('pending%d' % min(ex.max_pending, 5))
    return ex.max_pending >= 2 and ex.groups >= 2


def check_sync(case, obs):
    run, graph, query, want = prepare(case)
    result = Engine(SyncExecutor()).execute(graph, query)
    judge(run, case, graph, result, want, 'sync executor')
    return len(run.log) >= 3


def check_asyncio(case, obs):
    run, graph, query, want = prepare(case, async_=True)
    run.pause = async_pause(case['schedule'])

    how = case['schedule'][0] % 4

    async def main(engine):
        engine = engine or Engine(AsyncIOExecutor())
        return await engine.execute(graph, query)

    def start(loop):
        if how == 0:
            return main(None)
        # made before the loop runs, which need not be the current one
        if how == 1:
            asyncio.set_event_loop(None)
        engine = Engine(AsyncIOExecutor(loop))
        asyncio.set_event_loop(loop)
        return main(engine)
    obs.label(['own loop', 'other loop', 'loop', 'loop'][how])
    result = run_async(start)
    judge(run, case, graph, result, want, 'asyncio executor')
    return len(run.log) >= 3


def check_threads(case, obs):
    run, graph, query, want = prepare(case)
    real = case['schedule'][0] % 4 == 0
    pool = ThreadPoolExecutor(1 + case['schedule'][1] % 4) if real else \
        ControlledPool(case['schedule'])
    obs.label('thread pool' if real else 'controlled pool')
    try:
        result = Engine(ThreadsExecutor(pool)).execute(graph, query)
    finally:
        pool.shutdown()
    judge(run, case, graph, result, want, 'threads executor')
    return len(run.log) >= 3


def gen_slow(d):
    case = gen(d)
    case['nap'] = [d.pick([0.02, 0.15, 0.15, 0.5, 1.2]), d.below(4)]
    return case


def check_slow(case, obs):
    """One loader takes real time, others don't"""
    run, graph, query, want = prepare(case)
    nap, which = case['nap']
    n = [-1]

    def before(call):
        n[0] += 1
        if n[0] == which:
            time.sleep(nap)
    run.before = before
    with ThreadPoolExecutor(2) as pool:
        result = Engine(ThreadsExecutor(pool)).execute(graph, query)
    judge(run, case, graph, result, want, 'threads executor')
    obs.label('slept %g' % nap if n[0] >= which else 'no')
    return n[0] >= which


def gen_stack(d):
    """Graphs over graphs, many of them, with fields of several sources"""
    data = [d.byte() for _ in range(24)]
    how = d.pick(['schedule', 'schedule', 'asyncio', 'threads'])
    return dict(X.stacked_graphs(d), schedule=data, how=how)


def check_stack(case, obs):
    stack, schedule, how = case['stack'], case['schedule'], case['how']
    top = X.Level(stack, len(stack['levels']))
    want = wd.evaluate(top, case['query'])
    query = wd.to_node(case['query'])
    first = X.StackRun(stack, split=case['split'])
    got = denormalize(first.graph,
                      Engine(SyncExecutor()).execute(first.graph, query))
    ensure(same(got, want), 'sync executor\n got: %r\nwant: %r', got, want)
    run = X.StackRun(stack, split=case['split'], async_=how == 'asyncio')
    if how == 'asyncio':
        run.run.pause = async_pause(schedule)

        async def main():
            return await Engine(AsyncIOExecutor()).execute(run.graph, query)
        result = run_async(lambda loop: main())
    elif how == 'threads':
        pool = ControlledPool(schedule)
        try:
            result = Engine(ThreadsExecutor(pool)).execute(run.graph, query)
        finally:
            pool.shutdown()
    else:
        result = Engine(ScheduledExecutor(schedule)).execute(run.graph, query)
    got = denormalize(run.graph, result)
    ensure(same(got, want), '%s\n got: %r\nwant: %r', how, got, want)
    have = collections.Counter(run.run.observed_calls())
    exp = collections.Counter(first.run.observed_calls())
    ensure(have == exp, '%s: loader calls\n extra: %r\nmissing: %r', how,
           have - exp, exp - have)
    n = len(stack['levels'])
    obs.label(how, 'levels 1-4' if n < 5 else 'levels 5-20')
    return len(run.run.log) > 1


TESTS = [
    Test('schedule', gen, check_schedule, 12000),
    Test('sync', gen, check_sync, 1600),
    Test('asyncio', gen, check_asyncio, 4000),
    Test('threads', gen, check_threads, 3200),
    Test('slow threads', gen_slow, check_slow, 120, 600),
    Test('stack', gen_stack, check_stack, 1500, size=1500),
    Test('large schedule', gen_large, check_schedule, 600, size=700),
    Test('large asyncio', gen_large, check_asyncio, 400, size=700),
    Test('large threads', gen_large, check_threads, 400, size=700),
]

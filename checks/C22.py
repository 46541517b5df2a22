"""C22: expression fields compute what their expression says."""
from concurrent.futures import ThreadPoolExecutor

from hiku.engine import Engine
from hiku.result import denormalize

from lib import exprs as X
from lib import world as wd
from lib.execs import (AsyncIOExecutor, ScheduledExecutor, SyncExecutor,
                       ThreadsExecutor, async_pause, run_async)
from lib.runner import Test, ensure
from lib.values import same

PROPERTY = 'C22'
RULE = ('the query asks for at least one expression field and reaches at '
        'least one object; in `views`, one source has different expressions '
        'for fields of one name')
ASSUMPTIONS = [
    'expressions give plain data, not objects of the lower-level graph',
    'low-level fields and links which require options are not used',
]


def gen(d):
    case = X.stack_and_query(d)
    case['how'] = d.pick(['sync', 'schedule', 'threads', 'async'])
    case['data'] = [d.byte() for _ in range(8)]
    return case


_pool = []


def execute(graph, query, case):
    how = case['how']
    if how == 'sync':
        return Engine(SyncExecutor()).execute(graph, query)
    if how == 'schedule':
        return Engine(ScheduledExecutor(case['data'])).execute(graph, query)
    if how == 'threads':
        if not _pool:
            _pool.append(ThreadPoolExecutor(2))
        return Engine(ThreadsExecutor(_pool[0])).execute(graph, query)

    async def go():
        return await Engine(AsyncIOExecutor()).execute(graph, query)
    return run_async(lambda loop: go())


def check(case, obs):
    stack = case['stack']
    top = X.Level(stack, len(stack['levels']))
    try:
        want = wd.evaluate(top, case['query'])
    except X.TooBig:
        obs.label('given up: too big')
        return False
    run = X.StackRun(stack, async_=case['how'] == 'async')
    if case['how'] == 'async':
        run.run.pause = async_pause(case['data'])
    query = wd.to_node(case['query'])
    result = execute(run.graph, query, case)
    got = denormalize(run.graph, result)
    ensure(same(got, want), 'got:  %r\nwant: %r', got, want)
    found = X.expr_items(case['query'], top)
    obs.label(case['how'], 'levels=%d' % len(stack['levels']))
    if found:
        obs.label(*case['uses'])
    return bool(found) and has_object(want)


def has_object(v):
    if isinstance(v, dict):
        return any(isinstance(i, dict) or has_object(i) for i in v.values())
    return isinstance(v, list) and bool(v) and (
        isinstance(v[0], dict) or has_object(v[0]))


def gen_high(d):
    """Many graphs above each other."""
    case = X.stack_and_query(d, levels=6, lowest=3)
    case['how'] = d.pick(['sync', 'schedule', 'threads', 'async'])
    case['data'] = [d.byte() for _ in range(8)]
    return case


def gen_large(d):
    case = X.big_stack(d)
    case['how'] = d.pick(['sync', 'schedule', 'threads', 'async'])
    case['data'] = [d.byte() for _ in range(8)]
    return case


def gen_views(d):
    case = X.views(d)
    case['how'] = d.pick(['sync', 'schedule', 'threads'])
    case['data'] = [d.byte() for _ in range(8)]
    return case


def check_views(case, obs):
    obs.label(case['how'], *case['uses'])
    return X.check_views(case, lambda graph, query: denormalize(
        graph, execute(graph, query, case)))


TESTS = [Test('expressions', gen, check, 8000, size=2000),
         Test('high', gen_high, check, 1500, size=3000),
         Test('large', gen_large, check, 600, size=2000),
         Test('views', gen_views, check_views, 2500, size=2000)]

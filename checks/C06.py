"""C06: a failing loader fails the execution with its own error."""
from asyncio import CancelledError
from concurrent.futures import CancelledError as FutureCancelled
from concurrent.futures import ThreadPoolExecutor

from hiku.engine import Engine
from hiku.query import merge
from hiku.result import denormalize

from lib import exprs as X
from lib import world as wd
from lib.execs import (SyncExecutor, AsyncIOExecutor, ThreadsExecutor,
                       ScheduledExecutor, ControlledPool, run_async,
                       async_pause)
from lib.runner import Test, ensure, fail
from lib.values import same

PROPERTY = 'C06'
RULE = ('a case is non-trivial when at least one loader call raised while '
        'the query needs at least two calls')


class Custom(Exception):
    pass


class Falsy(Exception):
    def __len__(self):
        return 0


class Equal(LookupError):
    """All are equal"""

    def __eq__(self, other):
        return True

    __hash__ = None


class Pair(TypeError):
    """Can't be made of a message"""

    def __init__(self, a, b):
        super().__init__()
        self.pair = a, b

    def __str__(self):
        raise RuntimeError('no text')


ERRORS = [Custom, Equal, Pair, FutureCancelled, ValueError, KeyError,
          TypeError, AttributeError, IndexError, AssertionError, RuntimeError, OSError, LookupError,
          ArithmeticError, NotImplementedError, TimeoutError, EOFError]
# which coroutines can't raise, or their event loop does not keep
NOT_ASYNC = [StopIteration, StopAsyncIteration, KeyboardInterrupt, SystemExit,
             GeneratorExit]
# the first as a loader does, a task of which is cancelled
# (futures of concurrent.futures lose errors that are false)
ONLY_ASYNC = [CancelledError, Falsy]


def gen_large(d):
    return gen(d, True)


def gen_stack(d):
    return gen(d, stack=True)


def gen(d, large=False, stack=False):
    data = [d.byte() for _ in range(12)]
    errors = len(ERRORS + NOT_ASYNC)
    kind = d.below(errors)
    same_kind = d.bool()
    fails = [(d.int(0, 6), kind)]
    while d.chance(1, 2) and len(fails) < 5:
        fails.append((d.int(0, 9),
                      kind if same_kind else d.below(errors)))
    if stack:
        case = X.stacked_graphs(d, 8)
    elif large:
        n = d.pick([1, 5, 10, 20, 40])
        fails = [(i * n, k) for i, k in fails]
        case = wd.big_case(d)
    else:
        case = wd.world_and_query(d, odd=True, depth=3, max_items=5)
    case['schedule'] = data
    case['fails'] = fails
    case['ordered'] = d.chance(1, 4)
    return case


def arm(run, case):
    """The drawn calls raise; returns the list of raised errors."""
    errors = ERRORS + (ONLY_ASYNC + ERRORS if run.async_ else NOT_ASYNC)
    fails = dict(case['fails'])
    raised = []
    n = [-1]

    def before(call):
        n[0] += 1
        if n[0] in fails:
            cls = errors[fails[n[0]]]
            e = cls(*['call %d' % n[0]] * (2 if cls is Pair else 1))
            raised.append(e)
            raise e
    run.before = before
    return raised


def judge(name, raised, error, result):
    if not raised:
        if error is not None:
            raise error
        return
    if error is None:
        fail('%s: a loader raised %s, and execution returned a result',
             name, type(raised[0]))
    ensure(any(error is e or type(e) is type(error) is CancelledError
               for e in raised),
           '%s: loaders raised %s, execution raised %s', name,
           [type(e) for e in raised], type(error))


def setup(case, async_=False):
    query = merge([wd.to_node(case['query'], ordered=case['ordered'])])
    if 'stack' in case:
        run, graph, want = X.stack_of(case, async_)
        return run, graph, query, want
    run = wd.Run(case['world'], async_=async_)
    graph = run.graph()
    return run, graph, query, wd.evaluate(run.w, case['query'])


def again(run, engine, graph, query, want, name):
    run.before = None
    got = denormalize(graph, engine.execute(graph, query))
    ensure(same(got, want), '%s: query after the failed one\n got: %r\n'
           'want: %r', name, got, want)


def check_sync(case, obs):
    run, graph, query, want = setup(case)
    kind = case['schedule'][0] % 5
    pool = None
    if kind == 0:
        ex, name = SyncExecutor(), 'sync'
    elif kind == 1 or kind == 2 and case['schedule'][1] % 2:
        name = 'threads'
        pool = ControlledPool(case['schedule']) \
            if case['schedule'][1] % 4 == 1 else ThreadPoolExecutor(3)
        ex = ThreadsExecutor(pool)
    else:
        ex, name = ScheduledExecutor(case['schedule']), 'scheduled'
    obs.label(name)
    engine = Engine(ex)
    raised = arm(run, case)
    try:
        error = result = None
        try:
            result = engine.execute(graph, query)
        except BaseException as e:
            error = e
        if pool is not None:
            raised = list(raised)
        judge(name, raised, error, result)
        failed = bool(raised)
        if name == 'scheduled':
            ex = ScheduledExecutor(case['schedule'])
            engine = Engine(ex)
        again(run, engine, graph, query, want, name)
    finally:
        if pool is not None:
            pool.shutdown()
    if len(raised) > 1:
        obs.label('several raised')
    return failed and len(run.log) >= 2


def check_asyncio(case, obs):
    run, graph, query, want = setup(case, async_=True)
    pause = async_pause(case['schedule'])
    late = case['schedule'][2] % 2      # fail after waiting, not at once
    raised = arm(run, case)
    if late:
        raise_ = run.before
        run.before = None

        async def pause_then_fail(call):
            await pause(call)
            raise_(call)
        run.pause = pause_then_fail
    else:
        run.pause = pause

    async def main(loop):
        engine = Engine(AsyncIOExecutor(loop))
        error = result = None
        try:
            result = await engine.execute(graph, query)
        except BaseException as e:
            error = e
        judge('asyncio', list(raised), error, result)
        run.before = None
        run.pause = pause
        got = denormalize(graph, await engine.execute(graph, query))
        ensure(same(got, want), 'asyncio: query after the failed one\n'
               ' got: %r\nwant: %r', got, want)
    run_async(main)
    obs.label('fails late' if late else 'fails at once')
    return bool(raised) and len(run.log) >= 2


TESTS = [
    Test('sync', gen, check_sync, 9000),
    Test('asyncio', gen, check_asyncio, 4000),
    Test('stack', gen_stack, check_sync, 1600, size=1500),
    Test('stack asyncio', gen_stack, check_asyncio, 1000, size=1500),
    Test('large', gen_large, check_sync, 600, size=700),
    Test('large asyncio', gen_large, check_asyncio, 400, size=700),
]

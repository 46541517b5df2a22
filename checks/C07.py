"""C07: cancelling an asyncio execution cancels everything in flight."""
import asyncio

from hiku.engine import Engine
from hiku.executors.asyncio import AsyncIOExecutor
from hiku.query import merge

from lib import exprs as X
from lib import world as wd
from lib.execs import NAPS, Schedule, run_async
from lib.runner import Test, ensure
from lib.values import same
from hiku.result import denormalize

PROPERTY = 'C07'
RULE = ('a case is non-trivial when at least one loader call was in flight '
        'at the moment of cancellation')
ASSUMPTIONS = ['cancellation is requested once, after execution has begun to '
               'wait (a task cancelled before its first step never runs)']

CLEAN = ['plain', 'plain', 'slow', 'error', 'slow error', 'swallow']


class CleanupError(Exception):
    pass


def finish(d, case):
    case['inside'] = d.int(1, 5) if d.chance(1, 4) else 0
    return case


def gen(d):
    data = [d.byte() for _ in range(20)]
    when = d.int(1, 14)
    cleanup = [d.int(0, len(CLEAN) - 1) for _ in range(6)]
    case = wd.world_and_query(d, odd=True, depth=3, max_items=5)
    case.update(schedule=data, when=when, cleanup=cleanup,
                ordered=d.chance(1, 5))
    return finish(d, case)


def gen_large(d):
    data = [d.byte() for _ in range(20)]
    when = d.int(1, 14)
    cleanup = [d.int(0, len(CLEAN) - 1) for _ in range(6)]
    case = wd.big_case(d)
    case.update(schedule=data, when=when, cleanup=cleanup,
                ordered=d.chance(1, 5))
    return finish(d, case)


def gen_stack(d):
    """Loaders of sub-graphs in flight"""
    data = [d.byte() for _ in range(20)]
    when = d.int(1, 14)
    cleanup = [d.int(0, len(CLEAN) - 1) for _ in range(6)]
    ordered = d.chance(1, 5)
    case = X.stacked_graphs(d, 6)
    case.update(schedule=data, when=when, cleanup=cleanup, ordered=ordered)
    return finish(d, case)


def setup(case):
    if 'stack' in case:
        return X.stack_of(case, async_=True)
    run = wd.Run(case['world'], async_=True)
    return run, run.graph(), wd.evaluate(run.w, case['query'])


def check(case, obs):
    run, graph, want = setup(case)
    query = merge([wd.to_node(case['query'], ordered=case['ordered'])])
    sched = Schedule(case['schedule'])
    state = {'started': 0, 'running': {}, 'finished': 0, 'cancelled': set(),
             'late': 0, 'requested': False, 'called': 0}

    async def pause(call):
        k = state['started']
        state['started'] += 1
        if state['cancelled']:
            state['late'] += 1
        kind = CLEAN[case['cleanup'][k % len(case['cleanup'])]]
        n = 1 + sched.next(9)
        long = sched.next(6)
        state['running'][k] = [kind, n]
        try:
            for _ in range(n):
                await asyncio.sleep(0 if long > 1 or n < 5 else NAPS[2])
                state['running'][k][1] -= 1
        except asyncio.CancelledError:
            state['cancelled'].add(k)
            if kind.startswith('slow'):
                for _ in range(1 + k % 3):
                    await asyncio.sleep(0 if long > 2 else NAPS[long])
            if kind.endswith('error'):
                raise CleanupError(k)
            if kind != 'swallow':
                raise
        finally:
            del state['running'][k]
            state['finished'] += 1
    run.pause = pause

    def on_call(fn):
        state['called'] += state['requested']
    run.on_call = on_call

    def cancel():
        state['requested'] = True
        state['in flight'] = {k: tuple(v)
                              for k, v in state['running'].items()}
        return state['task'].cancel()

    async def main(loop):
        task = state['task'] = loop.create_task(_execute(loop, graph, query))
        if case['inside']:
            # in the very step in which a loader completes
            def after(call):
                if state['finished'] == case['inside'] and \
                        not state['requested']:
                    state['accepted'] = cancel()
            run.after = after
            await asyncio.wait([task])
            if not state['requested']:
                got = denormalize(graph, task.result())
                ensure(same(got, want), 'not cancelled')
                obs.label('finished before')
                return False
            in_flight, accepted = state['in flight'], state['accepted']
            obs.label('inside')
        else:
            for _ in range(case['when']):
                await asyncio.sleep(0)
            if case['cleanup'][0] % 2:
                await asyncio.sleep(NAPS[2] * case['when'] / 4 + 1)
            if task.done():
                got = denormalize(graph, task.result())
                ensure(same(got, want), 'not cancelled')
                obs.label('finished before')
                return False
            accepted = cancel()
            in_flight = state['in flight']
        outcome = 'returned a result'
        try:
            await task
        except asyncio.CancelledError:
            outcome = 'cancelled'
        except BaseException as e:
            outcome = 'raised %r' % (e,)
        left = dict(state['running'])
        before = state['started']
        ensure(accepted and outcome == 'cancelled',
               'cancelled with %r in flight: the caller sees: %s', in_flight,
               outcome)
        ensure(not left, 'cancellation is reported while loader calls are '
               'still running: %r (in flight: %r)', left, in_flight)
        # a call may still complete in the steps that deliver the cancellation
        missed = [k for k, (_, n) in in_flight.items()
                  if n >= 4 and k not in state['cancelled']]
        ensure(not missed, 'loader calls in flight were not cancelled: %r',
               [in_flight[k] for k in missed])
        for _ in range(30):
            await asyncio.sleep(0)
        ensure(state['started'] == before, 'loader calls started after the '
               'cancellation was reported: %d', state['started'] - before)
        ensure(not state['late'], 'loader calls started while others were '
               'already cancelled: %d', state['late'])
        ensure(not state['called'], 'loading functions called after the '
               'cancellation was requested: %d', state['called'])
        others = [t for t in asyncio.all_tasks(loop)
                  if t is not asyncio.current_task()]
        ensure(not others, 'tasks left after cancellation: %r', others)
        obs.label('in flight %d' % min(len(in_flight), 4))
        for k in set(in_flight.values()):
            obs.label(k[0])
        return bool(in_flight)

    async def _execute(loop, graph, query):
        return await Engine(AsyncIOExecutor(loop)).execute(graph, query)
    return run_async(main)


TESTS = [Test('cancel', gen, check, 8000),
         Test('stack', gen_stack, check, 2500, size=1500),
         Test('large', gen_large, check, 800, size=700)]

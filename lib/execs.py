"""Executors and drivers under the control of a drawn schedule."""
import asyncio
import threading
from concurrent.futures import Future

from hiku.executors.sync import SyncExecutor
from hiku.executors.asyncio import AsyncIOExecutor
from hiku.executors.threads import ThreadsExecutor

from .runner import fail


class Schedule:
    """An endless stream of small numbers from a drawn list."""

    def __init__(self, data):
        self.data = data or [0]
        self.i = 0

    def next(self, n):
        """A number below n."""
        if n <= 1:
            return 0
        v = self.data[self.i % len(self.data)]
        # after the drawn list is used up, vary it deterministically
        v += (self.i // len(self.data)) * 7
        self.i += 1
        return v % n


class LazyFuture:

    def __init__(self, fn, args, kwargs):
        self.call = (fn, args, kwargs)
        self.done = False
        self.reads = 0

    def run(self):
        if self.done:
            return
        fn, args, kwargs = self.call
        self.done = True
        try:
            self.value, self.error = fn(*args, **kwargs), None
        except Exception as e:
            self.value, self.error = None, e

    def result(self):
        if not self.done:
            fail('result() of a call that has not completed was read')
        self.reads += 1
        if self.error is not None:
            raise self.error
        return self.value


class ScheduledExecutor:
    """Completes submitted calls in an order and grouping drawn in advance.
    Eager calls run at submit(), lazy ones when they complete."""

    def __init__(self, data):
        self.schedule = Schedule(data)
        self.submitted = []
        self.completed = 0
        self.max_pending = 0
        self.groups = 0

    def submit(self, fn, *args, **kwargs):
        fut = LazyFuture(fn, args, kwargs)
        self.submitted.append(fut)
        if self.schedule.next(2):
            fut.run()
        return fut

    def process(self, queue, workflow):
        finished = []
        while True:
            waiting = queue.__futures__
            if not waiting:
                break
            if any(any(f is d for d in finished) for f in waiting):
                fail('a completed call is still waited for: execution never '
                     'ends')
            # own order: the queue keeps sets
            waiting = [f for f in self.submitted
                       if any(f is w for w in waiting)]
            self.max_pending = max(self.max_pending, len(waiting))
            n = 1 + self.schedule.next(len(waiting))
            done = []
            for _ in range(n):
                i = self.schedule.next(len(waiting))
                done.append(waiting.pop(i))
            for f in done:
                f.run()
            finished.extend(done)
            self.groups += 1
            shape = self.schedule.next(3)
            queue.progress(done if shape == 0 else set(done) if shape == 1
                           else tuple(done))
        return workflow.result()


class ControlledPool:
    """Looks like a thread pool; a second thread completes the submitted
    calls in the drawn order."""

    def __init__(self, data):
        self.schedule = Schedule(data)
        self.cond = threading.Condition()
        self.pending = []
        self.stop = False
        self.thread = threading.Thread(target=self._run, daemon=True)
        self.thread.start()

    def submit(self, fn, *args, **kwargs):
        fut = Future()
        with self.cond:
            self.pending.append((fut, fn, args, kwargs))
            self.cond.notify()
        return fut

    def _run(self):
        while True:
            with self.cond:
                while not self.pending and not self.stop:
                    self.cond.wait()
                if not self.pending and self.stop:
                    return
                i = self.schedule.next(len(self.pending))
                fut, fn, args, kwargs = self.pending.pop(i)
            fut.set_running_or_notify_cancel()
            try:
                value = fn(*args, **kwargs)
            except BaseException as e:
                fut.set_exception(e)
            else:
                fut.set_result(value)

    def shutdown(self):
        with self.cond:
            self.stop = True
            self.cond.notify()
        self.thread.join(20)


def sync_executor():
    return SyncExecutor()


NAPS = [0.05, 3, 20000]


class VirtualLoop(asyncio.SelectorEventLoop):
    """An event loop in which waiting takes no time: when every task sleeps,
    its clock is moved to the moment when the first of them wakes up."""

    def __init__(self):
        self.skipped = 0
        super().__init__()
        select = self._selector.select

        def skip(timeout=None):
            if timeout is None:
                events = select(20)
                if not events:
                    fail('asyncio: every task waits, and nothing will wake '
                         'them: execution never ends')
                return events
            events = select(0)
            if not events and timeout > 0:
                self.skipped += timeout
            return events
        self._selector.select = skip

    def time(self):
        return super().time() + self.skipped


def run_async(make_coro):
    """Runs make_coro(loop) on a fresh loop; asserts that nothing is left."""
    loop = VirtualLoop()
    try:
        asyncio.set_event_loop(loop)
        return loop.run_until_complete(make_coro(loop))
    finally:
        try:
            left = [t for t in asyncio.all_tasks(loop) if not t.done()]
            for t in left:
                t.cancel()
            if left:
                loop.run_until_complete(
                    asyncio.gather(*left, return_exceptions=True))
        finally:
            asyncio.set_event_loop(None)
            loop.set_exception_handler(lambda *a: None)
            loop.close()


def async_pause(data):
    """A loader pause that yields to the loop a drawn number of times, or
    takes a while (of the loop's own time)."""
    sched = Schedule(data)

    async def pause(call):
        n = sched.next(8)
        if n < 5:
            for _ in range(n):
                await asyncio.sleep(0)
        else:
            await asyncio.sleep(NAPS[n - 5] * (1 + sched.next(4)))
    return pause


__all__ = ['Schedule', 'ScheduledExecutor', 'ControlledPool', 'SyncExecutor',
           'AsyncIOExecutor', 'ThreadsExecutor', 'run_async', 'async_pause',
           'sync_executor']

"""C05: malformed loader results are rejected, never stored."""
import collections
import warnings
from collections.abc import Sequence

from hiku.engine import Engine
from hiku.graph import Nothing
from hiku.query import merge
from hiku.result import denormalize

from lib import exprs as X
from lib import world as wd
from lib.execs import SyncExecutor, ScheduledExecutor
from lib.runner import Test, ensure, fail
from lib.values import same

PROPERTY = 'C05'
RULE = ('a case is non-trivial when one loader call of the query was given a '
        'malformed result (its kind is counted in the classes)')
ASSUMPTIONS = ['values that Python takes for sequences (str, bytes, range) '
               'are not used as malformed results']


def gen(d):
    data = [d.byte() for _ in range(4)]
    pick, how, where = d.byte(), d.byte(), d.byte()
    case = wd.world_and_query(d, odd=True, depth=3, max_items=5)
    case['schedule'] = data
    case['bad'] = [pick, how, where]
    case['ordered'] = d.chance(1, 4)
    return case


def gen_stack(d):
    """The malformed result is that of a loader of a sub-graph"""
    data = [d.byte() for _ in range(4)]
    pick, how, where = d.byte(), d.byte(), d.byte()
    case = X.stacked_graphs(d, 6)
    case.update(schedule=data, bad=[pick, how, where],
                ordered=d.chance(1, 4))
    return case


def setup(case):
    if 'stack' in case:
        return X.stack_of(case)
    run = wd.Run(case['world'])
    return run, run.graph(), wd.evaluate(run.w, case['query'])


def gen_large(d):
    data = [d.byte() for _ in range(4)]
    pick, how, where = d.byte(), d.byte(), d.byte()
    case = wd.big_case(d)
    case['schedule'] = data
    case['bad'] = [pick, how, where]
    case['ordered'] = d.chance(1, 4)
    return case


def places(n, where):
    """Rows in which a fault is tried"""
    if n <= 12:
        return range(n)
    return sorted({0, 1, n // 2, n - 2, n - 1, where % n, where * 7 % n})


def not_sequences(res):
    items = list(res) if isinstance(res, (list, tuple)) else [res]
    return [None, 5, {}, {i: v for i, v in enumerate(items)}, object(),
            set(range(len(items))), iter(items), Nothing, True]


def gen_of(seq):
    return (x for x in seq)


class Rows(Sequence):
    """Not a list, and not a tuple"""

    def __init__(self, items):
        self._items = list(items)

    def __len__(self):
        return len(self._items)

    def __getitem__(self, i):
        return self._items[i]


def with_item(res, i, v):
    out = list(res)
    out[i] = v
    return type(res)(out)


def uneven(res, where):
    """As many values in all, but not in each row"""
    out = []
    for i in places(len(res), where):
        row = res[i]
        for j in places(len(res), where):
            other = res[j]
            if i != j and len(row):
                moved = with_item(res, i, row[:-1])
                out.append(('rows uneven', with_item(moved, j,
                                                     other + row[-1:])))
    return out[:20]


def mutations(run, call, res, where):
    """[(name, malformed result)] for this call."""
    out = []
    if call.kind == 'f':
        out += [('not a sequence', v) for v in not_sequences(res)]
        out += [('short', res[:-1]), ('long', res + res[:1]),
                ('empty', res[:0]), ('doubled', res + res)]
        out += [('generator', gen_of(x)) for x in
                (res[:-1], list(res) + list(res[:1]))]
        if len(call.args) > 1:
            for i in places(len(res), where):
                row = res[i]
                out += [('row not a sequence', with_item(res, i, v))
                        for v in not_sequences(row)]
                out += [('row short', with_item(res, i, row[:-1])),
                        ('row long', with_item(res, i, row + row[:1])),
                        ('row empty', with_item(res, i, row[:0]))]
            out += uneven(res, where)
            if len(call.args[0]) != len(res):
                # a row for each field and not for each object
                out.append(('transposed', [list(c) for c in zip(*res)]))
        return out
    item = run.by_fn[call.fn]
    listed = item['req'] is not None and call.fn not in run.link_root
    card = item['card']
    if not listed:
        if card == 'many':
            out += [('links not a sequence', v) for v in not_sequences(res)]
        elif card == 'one':
            out += [('Nothing for one', Nothing)]
        return out
    out += [('links not a sequence', v) for v in not_sequences(res)]
    out += [('links short', res[:-1]), ('links long', res + res[:1]),
            ('links empty', res[:0]), ('generator', gen_of(res[:-1])),
            ('generator', gen_of(list(res) + list(res[:1])))]
    if card == 'many' and sum(map(len, res)) != len(res):
        out.append(('flat', [x for row in res for x in row]))
    for i in places(len(res), where):
        row = res[i]
        if card == 'many':
            out += [('many not a sequence', with_item(res, i, v))
                    for v in not_sequences(row)]
        elif card == 'one':
            out += [('Nothing for one', with_item(res, i, Nothing))]
    return out


def check(case, obs):
    run, graph, want = setup(case)
    query = wd.to_node(case['query'], ordered=case['ordered'])
    ex = SyncExecutor() if case['schedule'][0] % 2 else \
        ScheduledExecutor(case['schedule'])
    got = denormalize(graph, Engine(ex).execute(graph, query))
    ensure(same(got, want), 'well-formed results\n got: %r\nwant: %r', got,
           want)
    total = len(run.log)
    if not total:
        return False
    pick, how, where = case['bad']
    target = pick % total
    state = {'n': -1, 'bad': None}

    def change(call, res):
        state['n'] += 1
        if state['n'] != target:
            return res
        muts = mutations(run, call, res, where)
        if not muts:
            return res
        by_name = {}
        for name, v in muts:
            by_name.setdefault(name, []).append(v)
        names = sorted(by_name)
        name = names[how % len(names)]
        v = by_name[name][where % len(by_name[name])]
        state['bad'] = (name, call, v)
        return v
    run.change = change
    ex = SyncExecutor() if case['schedule'][0] % 2 else \
        ScheduledExecutor(case['schedule'])
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore', DeprecationWarning)
            result = Engine(ex).execute(graph, query)
    except TypeError as e:
        ensure(state['bad'], 'TypeError without a malformed result: %s', e)
        obs.label(state['bad'][0])
        return True
    if state['bad'] is None:
        got = denormalize(graph, result)
        ensure(same(got, want), 'second run')
        return False
    name, call, v = state['bad']
    fail('malformed result (%s) of %s(%r) accepted: %r', name, call.fn,
         call.args, v)


KINDS = [list, tuple, collections.UserList, collections.deque, Rows]


def gen_ok(d):
    """Well-formed results in either kind of sequence."""
    case = wd.big_case(d) if d.chance(1, 10) else \
        wd.world_and_query(d, odd=True, depth=3, max_items=5)
    case['flips'] = [d.byte() for _ in range(12)]
    return case


def check_ok(case, obs):
    run = wd.Run(case['world'])
    graph = run.graph()
    n = [0, 0]

    def flip():
        n[0] += 1
        x = case['flips'][n[0] % len(case['flips'])]
        kinds = KINDS if x & 64 or case['flips'][0] & 1 else KINDS[:2]
        return kinds[x % len(kinds)]

    def outer():
        # generators are still supported in place of the outer list
        if case['flips'][1] & 3 == 3 and case['flips'][
                n[0] % len(case['flips'])] & 8:
            n[0] += 1
            n[1] += 1
            return gen_of
        return flip()

    def change(call, res):
        item = run.by_fn[call.fn]
        if call.kind == 'f':
            if len(call.args) > 1:
                res = [flip()(row) for row in res]
            return outer()(res)
        listed = item['req'] is not None and call.fn not in run.link_root
        if item['card'] == 'many':
            if listed:
                res = [flip()(r) for r in res]
            return outer()(res)
        return outer()(res) if listed else res
    run.change = change
    query = merge([wd.to_node(case['query'])])
    want = wd.evaluate(run.w, case['query'])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore', DeprecationWarning)
        result = Engine(SyncExecutor()).execute(graph, query)
    got = denormalize(graph, result)
    if n[1]:
        obs.label('generators')
    ensure(same(got, want), 'lists and tuples\n got: %r\nwant: %r', got, want)
    return n[0] >= 3


TESTS = [
    Test('malformed', gen, check, 12000),
    Test('stack', gen_stack, check, 2500, size=1500),
    Test('large', gen_large, check, 800, size=700),
    Test('well-formed', gen_ok, check_ok, 3000),
]

"""C03: loaders are called once per level and only for requested data."""
import collections

from hiku.engine import Engine
from hiku.query import merge

from lib import world as wd
from lib.execs import SyncExecutor, ScheduledExecutor
from lib.runner import Test, ensure

PROPERTY = 'C03'
RULE = ('a case is non-trivial when at least three loader calls are expected '
        'and one of them is for at least two objects')


def gen(d):
    data = [d.byte() for _ in range(8)]
    case = wd.world_and_query(d, odd=True, depth=3,
                              dups=d.chance(1, 4), max_items=5)
    case['schedule'] = data
    return case


def gen_large(d):
    data = [d.byte() for _ in range(8)]
    case = wd.big_case(d)
    case['schedule'] = data
    return case


def check(case, obs):
    run = wd.Run(case['world'])
    graph = run.graph()
    query = merge([wd.to_node(case['query'])])
    ex = SyncExecutor() if case['schedule'][0] % 3 == 0 else \
        ScheduledExecutor(case['schedule'])
    Engine(ex).execute(graph, query)
    calls = collections.Counter(run.observed_calls())
    exp = collections.Counter(wd.expected_calls(run.w, case['query']))
    ensure(calls == exp, 'loader calls\n unexpected: %r\n missing: %r',
           dict(calls - exp), dict(exp - calls))
    for c in run.log:
        if c.kind == 'f':
            ensure(c.args[0], 'loader called with no fields')
            if len(c.args) > 1:
                ensure(c.args[1], 'loader called with no identifiers')
    n = sum(exp.values())
    multi = any(c[0] == 'f' and c[3] and len(c[3]) > 1 for c in exp)
    shared = any(c[0] == 'f' and len(c[2]) > 1 for c in exp)
    if multi:
        obs.label('several objects')
    if shared:
        obs.label('several fields in one call')
    if any(c[0] == 'l' and c[2] for c in exp):
        obs.label('links with requirements')
    if max(exp.values(), default=0) > 1:
        obs.label('same call from several places')
    return n >= 3 and multi


def check_ordered(case, obs):
    """In an ordered query the fields of the root may take several calls;
    everything else is as usual."""
    run = wd.Run(case['world'])
    graph = run.graph()
    query = merge([wd.to_node(case['query'], ordered=True)])
    ex = SyncExecutor() if case['schedule'][0] % 3 == 0 else \
        ScheduledExecutor(case['schedule'])
    Engine(ex).execute(graph, query)
    calls, exp = run.observed_calls(), wd.expected_calls(run.w, case['query'])

    def split(all_calls):
        root = collections.defaultdict(set)
        rest = collections.Counter()
        for c in all_calls:
            if c[0] == 'f' and c[3] is None:
                root[c[1]] |= c[2]
            else:
                rest[c] += 1
        return dict(root), rest
    (root, rest), (exp_root, exp_rest) = split(calls), split(exp)
    ensure(root == exp_root, 'fields of the root\n got: %r\nwant: %r', root,
           exp_root)
    ensure(rest == exp_rest, 'loader calls\n unexpected: %r\n missing: %r',
           dict(rest - exp_rest), dict(exp_rest - rest))
    n = sum(len(c[2]) for c in calls if c[0] == 'f' and c[3] is None)
    again = sum(e[0] == 'l' and
                run.w.items[None][e[1]].get('req') is not None
                for e in wd.merge_sel(case['query']))
    ensure(n <= len(wd.merge_sel(case['query'])) + again,
           'fields of the root are requested again: %r', calls)
    return len(calls) >= 3 and any(c[0] == 'f' and c[3] and len(c[3]) > 1
                                   for c in calls)


TESTS = [Test('calls', gen, check, 16000),
         Test('large', gen_large, check, 1000, size=700),
         Test('ordered', gen, check_ordered, 4000)]

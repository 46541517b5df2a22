"""C01: query results equal the meaning of the query over the graph."""
from hiku.engine import Engine
from hiku.query import merge
from hiku.result import denormalize
from hiku.denormalize.base import Denormalize
from hiku.validate.query import validate

from lib import world as wd
from lib.execs import SyncExecutor
from lib.runner import Test, ensure
from lib.values import same

PROPERTY = 'C01'
RULE = ('a case is non-trivial when the query has at least two levels and '
        'its result holds at least three values (large: twenty)')


def size(v):
    if isinstance(v, dict):
        return sum(map(size, v.values()))
    if isinstance(v, list):
        return sum(map(size, v))
    return 1


def read_by_hand(graph_obj, types, result, sel, w, node):
    """Plain data by walking the result with [] only."""
    out = {}
    for e in wd.merge_sel(sel):
        key = e[3] or e[1]
        item = w.items[node][e[1]]
        v = result[key]
        if item['k'] == 'l':
            if item['card'] == 'many':
                v = [read_by_hand(None, None, i, e[4], w, item['node'])
                     for i in v]
            elif v is not None:
                v = read_by_hand(None, None, v, e[4], w, item['node'])
        elif e[0] == 'l':
            v = wd.select_record(item['type'], w.types, v, e[4])
        out[key] = v
    return out


def check(case, obs):
    w = wd.W(case['world'])
    run = wd.Run(case['world'])
    graph = run.graph()
    sel = case['query']
    query = wd.to_node(sel)
    if sel != wd.merge_sel(sel):
        obs.label('merged')
        query = merge([query])
    errors = validate(graph, query)
    ensure(not errors, 'valid query refused: %r', errors)
    result = Engine(SyncExecutor()).execute(graph, query)
    want = wd.evaluate(w, sel)
    got = read_by_hand(None, None, result, sel, w, None)
    ensure(same(got, want), 'result read by key\n got: %r\nwant: %r',
           got, want)
    got = denormalize(graph, result)
    ensure(same(got, want), 'denormalize\n got: %r\nwant: %r', got,
           want)
    got = Denormalize(graph, result).process(query)
    ensure(same(got, want), 'Denormalize\n got: %r\nwant: %r', got,
           want)
    d = wd.depth_of(sel)
    if 'kind' in case:
        obs.label(case['kind'])
        return size(want) >= 20
    obs.label('depth%d' % min(d, 4))
    items = [i for n in w.items.values() for i in n.values()]
    if any(i['req'] for i in items if i['k'] == 'l'):
        obs.label('requires')
    return d >= 2 and size(want) >= 3


TESTS = [
    Test('query', lambda d: wd.world_and_query(
        d, odd=True, depth=3, dups=True), check, 16000),
    Test('large', wd.big_case, check, 1000, size=700),
]

"""C11: a query that passes validation executes successfully."""
from hiku import graph as hg
from hiku import query as hq
from hiku.denormalize.base import Denormalize
from hiku.engine import Engine
from hiku.query import merge
from hiku.result import denormalize
from hiku.validate.query import validate

from lib import world as wd
from lib import values as V
from lib.edit import random_edit
from lib.execs import SyncExecutor, ScheduledExecutor
from lib.runner import Test, ensure
from lib.values import REC_NAMES, canon, same
from .C09 import describe

PROPERTY = 'C11'
RULE = ('valid: the query has options, a record sub-selection or two levels; '
        'edited: the randomly edited query was accepted by the validator and '
        'is not one of the generated valid queries; nested: likewise, a drawn '
        'sub-selection of a field of a drawn type was accepted')


def snapshot_graph(graph):
    return [(n.name, [(f.name, repr(f), sorted(f.options_map))
                      for f in n.fields]) for n in graph.nodes + [graph.root]]


def check_validate(graph, query, run):
    """Errors of validation, which must leave no traces."""
    before = describe(query), snapshot_graph(graph)
    calls = len(run.log)
    errors = validate(graph, query)
    again = validate(graph, query)
    ensure(errors == again, 'validated twice: %r, then %r', errors, again)
    ensure((describe(query), snapshot_graph(graph)) == before,
           'validation changed the query or the graph')
    ensure(len(run.log) == calls, 'validation called a loading function')
    return errors


def check_valid(case, obs):
    run = wd.Run(case['world'])
    graph = run.graph()
    sel = case['query']
    query = wd.to_node(sel, ordered=case['ordered'])
    for q in [query, merge([query])]:
        errors = check_validate(graph, q, run)
        ensure(errors == [], 'valid query is refused: %r\n%r', errors, sel)
    q = merge([query])
    result = Engine(SyncExecutor()).execute(graph, q)
    want = wd.evaluate(run.w, sel)
    got = denormalize(graph, result)
    ensure(same(got, want), 'result\n got: %r\nwant: %r', got, want)
    flat = repr(sel)
    nontrivial = wd.depth_of(sel) >= 2
    if '{' in flat:
        obs.label('options')
    return nontrivial or '{' in flat


def gen_valid(d):
    case = wd.world_and_query(d, odd=True, depth=3, dups=True)
    case['ordered'] = d.chance(1, 4)
    return case


def gen_large(d):
    case = wd.big_case(d)
    case['ordered'] = d.chance(1, 4)
    return case


def gen_edited(d):
    case = wd.world_and_query(d, odd=True, depth=2, dups=True)
    w = wd.W(case['world'])
    sel = case['query']
    for _ in range(d.int(1, 3)):
        sel = random_edit(d, w, sel)
    case['original'] = case['query']
    case['query'] = sel
    case['ordered'] = d.chance(1, 4)
    case['schedule'] = [d.byte() for _ in range(5)]
    return case


def check_shape(graph, graph_obj, node, data, path):
    """Every requested key is there, and nothing else; nested likewise."""
    keys = {f.result_key for f in node.fields}
    ensure(isinstance(data, dict) and set(data) == keys,
           '%s: keys of %r are not %r', path, data, keys)
    last = {f.result_key: f for f in node.fields}
    for key, f in last.items():
        if not isinstance(f, hq.Link):
            continue
        obj = graph_obj.fields_map[f.name]
        here = path + '.' + key
        if isinstance(obj, hg.Link):
            below = graph.nodes_map[obj.node]
            items = data[key] if isinstance(data[key], list) else \
                [] if data[key] is None else [data[key]]
            for item in items:
                check_shape(graph, below, f.node, item, here)
        else:
            items = data[key] if isinstance(data[key], list) else \
                [] if data[key] is None else [data[key]]
            for item in items:
                ensure(isinstance(item, dict) and
                       set(item) == {i.result_key for i in f.node.fields},
                       '%s: record keys of %r', here, item)


def check_edited(case, obs):
    run = wd.Run(case['world'])
    graph = run.graph()
    query = merge([wd.to_node(case['query'], ordered=case['ordered'])])
    errors = check_validate(graph, query, run)
    ensure(all(isinstance(e, str) and e for e in errors), 'errors: %r',
           errors)
    if errors:
        obs.label('refused')
        return False
    obs.label('accepted')
    executor = SyncExecutor() if case['schedule'][0] % 2 else \
        ScheduledExecutor(case['schedule'])
    try:
        result = Engine(executor).execute(graph, query)
        data = denormalize(graph, result)
        data2 = Denormalize(graph, result).process(query)
    except Exception as e:
        ensure(False, 'accepted query fails: %s: %s\n%r', type(e).__name__, e,
               case['query'])
    check_shape(graph, graph.root, query, data, 'result')
    check_shape(graph, graph.root, query, data2, 'result')
    return canon(case['query']) != canon(case['original'])


# -- options of every declared type, valid values at every depth

def gen_typed(d):
    types = {'T0': ('rec', V.draw_rec(d, [], 2))}
    opts = []
    for n in d.sample(wd.OPTION_NAMES, 1, 3):
        o = {'n': n, 't': V.draw_type(d, list(types), 3)}
        if d.bool():
            o['d'] = V.draw_value(d, o['t'], types, 3)
        opts.append(o)
    field = {'k': 'f', 'name': 'a', 'type': ('int',), 'fn': 'f0',
             'opts': opts}
    link = {'k': 'l', 'name': 'x', 'node': 'N', 'fn': 'l0', 'req': None,
            'card': 'one', 'opts': opts}
    world = {'types': sorted(types.items()), 'ctx': [], 'salt': d.int(0, 9),
             'nodes': [{'name': 'N', 'ids': [1], 'items': [dict(field)]}],
             'roots': [[dict(field, fn='r0'), link]]}

    def values():
        out = {}
        for o in opts:
            if 'd' not in o or d.bool():
                out[o['n']] = V.draw_value(d, o['t'], types, 3)
        return out
    return {'world': world, 'ordered': False, 'query': [
        ('f', 'a', values(), None),
        ('l', 'x', values(), None, [('f', 'a', values(), None)])]}


# -- sub-selections of fields of any type

def gen_nested(d):
    types = {'T0': ('rec', V.draw_rec(d, [], 1))}

    def wrapped(inner):
        t = inner
        for _ in range(d.int(0, 3)):
            k = d.pick(['seq', 'opt', 'map'])
            t = ('map', ('str',), t) if k == 'map' else (k, t)
        return t
    rec = d.pick([('ref', 'T0'), ('rec', [('a', ('int',)), ('b', ('str',))])])
    outer = ('rec', [('c', wrapped(rec)), ('d', ('int',))])
    t = wrapped(d.pick([rec, outer]))
    names = ['a', 'b', 'c', 'd'] + REC_NAMES

    def sel(spec):
        # the names of the innermost record, mostly
        while spec[0] in ('opt', 'seq', 'map', 'ref'):
            spec = types['T0'] if spec[0] == 'ref' else spec[-1]
        fields = dict(spec[1]) if spec[0] == 'rec' else {}
        out = []
        for _ in range(d.int(1, 2)):
            name = d.pick(list(fields) * 3 + names[:4])
            t = fields.get(name, ('int',))
            if (t[0] == 'ref' or 'rec' in repr(t)) and d.int(0, 5) or d.chance(1, 9):
                out.append(('l', name, None, d.pick([None, 'k']), sel(t)))
            else:
                out.append(('f', name, None, d.pick([None, None, 'z'])))
        return out
    world = {'types': sorted(types.items()), 'ctx': [], 'salt': d.int(0, 20),
             'nodes': [{'name': 'N', 'ids': [1, 2], 'items': [
                 {'k': 'f', 'name': 'n', 'type': t, 'fn': 'f0', 'opts': []}]}],
             'roots': [[{'k': 'f', 'name': 'r', 'type': t, 'fn': 'r0',
                         'opts': []},
                        {'k': 'l', 'name': 'x', 'node': 'N', 'fn': 'l0',
                         'req': None, 'card': 'many', 'opts': []}]]}
    q = ('l', 'r', None, None, sel(t)) if d.bool() else \
        ('l', 'x', None, None, [('l', 'n', None, None, sel(t))])
    return {'world': world, 'query': [q], 'ordered': False, 'original': [],
            'schedule': [d.byte(), d.byte()]}


TESTS = [
    Test('valid', gen_valid, check_valid, 8000),
    Test('large', gen_large, check_valid, 1000, size=700),
    Test('edited', gen_edited, check_edited, 12000),
    Test('nested', gen_nested, check_edited, 8000, size=300),
    Test('typed', gen_typed, check_valid, 5000, size=400),
]

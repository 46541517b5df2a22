"""C10: denormalization follows the query structure exactly."""
from hiku.denormalize.base import Denormalize
from hiku.denormalize.graphql import DenormalizeGraphQL
from hiku.engine import Engine
from hiku.query import merge
from hiku.result import denormalize

from lib import values as V
from lib import world as wd
from lib.execs import SyncExecutor
from lib.runner import Test, ensure, fail
from lib.values import same, same_order

PROPERTY = 'C10'
RULE = ('a case is non-trivial when the query has a record sub-selection with '
        'an alias or a nested record, or links of two levels')

ASSUMPTIONS = []

NAMES = wd.FIELD_NAMES + wd.LINK_NAMES + wd.ALIASES + ['f', 'g', 'zz', '']


def gen(d):
    case = wd.world_and_query(d, odd=True, depth=3, dups=d.bool())
    case['ordered'] = d.chance(1, 4)
    case['dress'] = d.int(0, len(wd.DRESSES) - 1)
    case['alias_all'] = d.chance(1, 4)
    if case['alias_all']:
        case['query'] = alias_all(d, wd.merge_sel(case['query']))
    return case


def gen_large(d):
    case = wd.big_case(d)
    case['ordered'] = d.chance(1, 4)
    case['dress'] = d.int(0, len(wd.DRESSES) - 1)
    case['alias_all'] = d.chance(1, 4)
    if case['alias_all']:
        case['query'] = alias_all(d, wd.merge_sel(case['query']))
    return case


def alias_all(d, sel):
    """Names swapped between siblings as aliases: {a: b, b: a}."""
    names = list({e[3] or e[1]: None for e in sel})
    new = dict(zip(names, d.perm(names)))
    return [e[:3] + (new[e[3] or e[1]],) +
            ((alias_all(d, e[4]),) if e[0] == 'l' else ()) for e in sel]


def walk(w, proxy, sel, node, want, path):
    """Reading by key and attribute agrees with the denormalized data."""
    keys = set()
    for e in sel:
        key = e[3] or e[1]
        keys.add(key)
        v = proxy[key]
        a = getattr(proxy, key)
        item = w.items[node][e[1]]
        if item['k'] == 'l':
            here = path + '.' + key
            if item['card'] == 'many':
                ensure(isinstance(v, list) and isinstance(a, list) and
                       len(v) == len(a) == len(want[key]),
                       '%s: list of objects: %r, %r', here, v, a)
                pairs = zip(v, a, want[key])
            elif want[key] is None:
                ensure(v is None and a is None, '%s: %r, %r instead of None',
                       here, v, a)
                pairs = []
            else:
                pairs = [(v, a, want[key])]
            for pv, pa, pw in pairs:
                walk(w, pv, e[4], item['node'], pw, here)
                if path.count('.') < 4:     # both ways is exponential
                    walk(w, pa, e[4], item['node'], pw, here)
            continue
        if e[0] == 'l':
            v = wd.select_record(item['type'], w.types, v, e[4])
            a = wd.select_record(item['type'], w.types, a, e[4])
        ensure(same(v, want[key]), '%s[%r] is %r, denormalized %r', path, key,
               v, want[key])
        ensure(same(a, want[key]), '%s.%s is %r, denormalized %r', path, key,
               a, want[key])
    for name in NAMES:
        if name in keys:
            continue
        try:
            v = proxy[name]
        except KeyError:
            pass
        else:
            fail('%s[%r] was not requested, but is %r', path, name, v)
        try:
            v = getattr(proxy, name)
        except AttributeError:
            pass
        else:
            fail('%s.%s was not requested, but is %r', path, name, v)


def interesting(w, sel, node=None):
    """Links two levels deep, or records with aliases or nested records."""
    for e in sel:
        if e[0] != 'l':
            continue
        if w.items[node][e[1]]['k'] == 'l':
            if any(i[0] == 'l' for i in e[4]):
                return True
            if interesting(w, e[4], w.items[node][e[1]]['node']):
                return True
        elif any(i[0] == 'l' or i[3] for i in e[4]):
            return True
    return False


def check(case, obs):
    run = wd.Run(case['world'])
    w = run.w
    graph = run.graph()
    sel = case['query']
    query = wd.to_node(sel, ordered=case['ordered'])
    if sel != wd.merge_sel(sel):
        query = merge([query])
        sel = wd.from_node(query)
        obs.label('merged')
    kind = wd.DRESSES[case['dress']]
    if kind is not None and wd.can_dress(w, sel):
        wd.dress_records(run, kind)
        obs.label('records are ' + kind.__name__)
    result = Engine(SyncExecutor()).execute(graph, query)
    want = wd.evaluate(w, sel)
    for name, got in [
        ('denormalize', denormalize(graph, result)),
        ('Denormalize', Denormalize(graph, result).process(query)),
        ('DenormalizeGraphQL',
         DenormalizeGraphQL(graph, result, 'Query').process(query)),
    ]:
        ensure(same(got, want), '%s\n got: %r\nwant: %r', name, got, want)
        ensure(same_order(got, want), '%s: order of keys\n got: %r\nwant: %r',
               name, got, want)
        ensure(plain(got), '%s left an object that is not plain data: %r',
               name, got)
    walk(w, result, sel, None, want, 'result')
    if case['alias_all']:
        obs.label('swapped aliases')
    return interesting(w, sel)


def plain(v):
    if isinstance(v, dict):
        return type(v) is dict and all(plain(i) for i in v.values())
    if isinstance(v, (list, tuple)):
        return all(map(plain, v))
    return v is None or isinstance(v, (str, int, float, bool, bytes))


# -- record-typed fields of every nesting

def gen_records(d):
    """One field with a deep record type; a deep selection of it."""
    types = {}
    for i in range(d.int(0, 2)):
        types['T%d' % i] = ('rec', [
            (n, draw_deep(d, list(types), 1))
            for n in d.sample(V.REC_NAMES, 1, 3)])
    while True:
        spec = draw_deep(d, list(types), 3)
        if V.record_of(spec, types):
            break
    place = d.pick(['root', 'node'])
    item = {'k': 'f', 'name': 'c', 'type': spec, 'fn': 'f0', 'opts': []}
    link = {'k': 'l', 'name': 'x', 'node': 'N', 'fn': 'l0', 'req': None,
            'card': d.pick(['one', 'maybe', 'many']), 'opts': []}
    world = {'types': sorted(types.items()), 'ctx': [], 'salt': d.int(0, 99),
             'nodes': [{'name': 'N', 'ids': [1, 2, 3], 'items': [item]}],
             'roots': [[link, item] if place == 'root' else [link]]}
    sub = [('l', 'c', None, d.pick([None, 'k']),
            select(d, V.record_of(spec, types)[1], types))]
    sel = sub if place == 'root' else [('l', 'x', None, None, sub)]
    return {'world': world, 'query': sel, 'ordered': False,
            'alias_all': False, 'dress': d.int(0, len(wd.DRESSES) - 1)}


def draw_deep(d, types, depth):
    """Types in which records are frequent."""
    c = d.int(0, 9)
    if depth <= 0:
        return d.pick(V.SIMPLE[:5])
    if c <= 3:
        return ('rec', [(n, draw_deep(d, types, depth - 1) if d.bool()
                         else d.pick(V.SIMPLE[:5]))
                        for n in d.sample(V.REC_NAMES, 1, 3)])
    if c <= 6:
        # sequences and options of records; one level of wrapping is the
        # limit for what the validator accepts as a record
        return (d.pick(['opt', 'seq']), draw_deep(d, types, depth - 1))
    if c <= 8 and types:
        return ('ref', d.pick(types))
    return ('rec', [(n, d.pick(V.SIMPLE[:5]))
                    for n in d.sample(V.REC_NAMES, 1, 3)])


def select(d, fields, types):
    sel, seen = [], set()
    for name, t in d.perm(fields):
        for _ in range(d.int(1, 2)):
            alias = d.pick([None, None, 'f', 'g', 'k', 'm'])
            if (alias or name) in seen:
                continue
            seen.add(alias or name)
            rec = V.record_of(t, types)
            if rec:
                sub = select(d, rec[1], types)
                sel.append(('l', name, None, alias, sub))
            else:
                sel.append(('f', name, None, alias))
    if not sel:
        n, t = fields[0]
        rec = V.record_of(t, types)
        sel.append(('l', n, None, None, select(d, rec[1], types)) if rec else
                   ('f', n, None, None))
    return sel


TESTS = [
    Test('result', gen, check, 10000),
    Test('large', gen_large, check, 800, size=700),
    Test('records', gen_records, check, 6000, size=300),
]

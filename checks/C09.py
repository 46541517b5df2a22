"""C09: merging queries keeps their meaning."""
import collections

from hiku import query as hq
from hiku.engine import Engine
from hiku.query import merge
from hiku.result import denormalize

from lib import world as wd
from lib.execs import SyncExecutor
from lib.runner import Test, ensure
from lib.values import canon, same
from .C08 import draw_confusable

PROPERTY = 'C09'
RULE = ('tree: at least one field or link occurs more than once in the '
        'inputs; meaning: two selections share a link')


def gen_tree(d):
    def sel(depth):
        out = []
        for _ in range(d.int(0, 5)):
            name = d.pick(['a', 'b', 'c'])
            opts = None
            if d.chance(1, 3):
                opts = {d.pick(['o', 'p']): draw_confusable(d)
                        for _ in range(d.int(0, 2))}
            alias = d.pick([None, None, None, 'a', 'b', 'k'])
            if depth > 0 and d.bool():
                out.append(('l', name, opts, alias, d.chance(1, 6),
                            sel(depth - 1)))
            else:
                out.append(('f', name, opts, alias))
        return out
    return {'nodes': [(sel(2), d.chance(1, 4))
                      for _ in range(d.int(1, 3))]}


def gen_large(d):
    """Many inputs, many items, or many levels."""
    kind = d.int(0, 2)
    n = d.pick([5, 10, 17, 20, 33, 40, 65, 100, 130])
    if kind == 2:
        n = min(n, 40)
    nodes = []

    def item(i):
        o = d.pick([None, None, {'o': i % 7}, {'o': draw_confusable(d)}])
        return ('f', 'a%d' % (i % d.pick([3, 50, 1000])), o, None)
    if kind == 0:
        for i in range(n):
            sub = [item(i), item(i + 1)]
            nodes.append(([item(i), ('l', 'b', d.pick([None, None, {'o': i}]),
                                     None, False, sub)], False))
    elif kind == 1:
        sel = [item(i) for i in range(n)]
        more = [item(i) for i in range(0, n, d.int(1, 4))]
        sel.append(('l', 'b', None, None, False, more))
        nodes = [(sel, d.chance(1, 3)), (more, False)]
        nodes.append(([('l', 'b', None, None, False, sel[:-1])], False))
    else:
        for _ in range(d.int(2, 3)):
            sel = [item(0)]
            for i in range(n):
                sel = [('l', 'b', None, None, False, sel)]
                if d.chance(1, 3):
                    sel.insert(d.int(0, 1), item(i))
            nodes.append((sel, False))
    return {'nodes': nodes}


def build(sel, ordered):
    out = []
    for e in sel:
        opts = wd.copy_plain(e[2]) if e[2] is not None else None
        if e[0] == 'f':
            out.append(hq.Field(e[1], opts, e[3]))
        else:
            out.append(hq.Link(e[1], build(e[5], e[4]), opts, e[3]))
    return hq.Node(out, ordered=ordered)


def describe(node):
    """Exact plain data of a query tree."""
    return [bool(node.ordered)] + [
        (type(f).__name__, f.name, canon(f.options), f.alias) +
        ((describe(f.node),) if isinstance(f, hq.Link) else ())
        for f in node.fields]


def norm(node):
    """The tree by resulting names."""
    return [bool(node.ordered)] + [
        (type(f).__name__, f.name, canon(f.options or None),
         f.alias or f.name) +
        ((norm(f.node),) if isinstance(f, hq.Link) else ())
        for f in node.fields]


def ref_merge(nodes):
    ordered = any(o for _, o in nodes)
    items = collections.OrderedDict()
    for sel, _ in nodes:
        for e in sel:
            kind = 'Field' if e[0] == 'f' else 'Link'
            key = (kind, e[1], canon(e[2] or None), e[3] or e[1])
            subs = items.setdefault(key, [])
            if e[0] == 'l':
                subs.append((e[5], e[4]))
    keys = list(items)
    if not ordered:
        keys = [k for k in keys if k[0] == 'Field'] + \
            [k for k in keys if k[0] == 'Link']
    return [ordered] + [k + ((ref_merge(items[k]),) if k[0] == 'Link' else ())
                        for k in keys]


def by_position(tree):
    """Order-insensitive between fields and links, but not among them."""
    fields = [i for i in tree[1:] if i[0] == 'Field']
    links = [i[:4] + (by_position(i[4]),) for i in tree[1:]
             if i[0] == 'Link']
    if tree[0]:
        return [True] + [i if i[0] == 'Field' else
                         i[:4] + (by_position(i[4]),) for i in tree[1:]]
    return [False, fields, links]


def content(tree):
    return [tree[0]] + sorted(
        i[:4] + ((content(i[4]),) if i[0] == 'Link' else ())
        for i in tree[1:])


def check_tree(case, obs):
    inputs = [build(sel, o) for sel, o in case['nodes']]
    before = [describe(n) for n in inputs]
    merged = merge(inputs)
    after = [describe(n) for n in inputs]
    ensure(before == after, 'merge changed its input\nbefore: %r\n after: %r',
           before, after)
    got, want = by_position(norm(merged)), by_position(
        ref_merge(case['nodes']))
    ensure(got == want, 'merged tree\n got: %r\nwant: %r', got, want)
    again = merge([merged])
    ensure(describe(again) == describe(merged), 'merge is not idempotent\n'
           ' once: %r\ntwice: %r', describe(merged), describe(again))
    step = merge([merge(inputs[:1])] + inputs[1:])
    # an unordered first step may put fields before links, so only content
    ensure(content(norm(step)) == content(ref_merge(case['nodes'])),
           'merging step by step\n got: %r\nwant: %r', norm(step), want)
    total = sum(map(count, inputs))
    obs.label('nested ordered' if 'True' in repr(norm(merged)[1:]) else
              'ordered' if merged.ordered else 'unordered')
    return total > count(merged)


def count(node):
    return sum(1 + (count(f.node) if isinstance(f, hq.Link) else 0)
               for f in node.fields)


def gen_meaning(d):
    world = wd.worlds(d, odd=True)
    w = wd.W(world)
    seen = {}
    sels = [wd.draw_selection(d, w, None, 3, True, 4, True, seen)
            for _ in range(d.int(1, 3))]
    return {'world': world, 'queries': sels}


def check_meaning(case, obs):
    run = wd.Run(case['world'])
    graph = run.graph()
    query = merge([wd.to_node(s) for s in case['queries']])
    result = Engine(SyncExecutor()).execute(graph, query)
    got = denormalize(graph, result)
    every = [e for s in case['queries'] for e in s]
    want = wd.evaluate(run.w, every)
    ensure(same(got, want), 'result of the merged query\n got: %r\nwant: %r',
           got, want)
    keys = [e[3] or e[1] for e in every if e[0] == 'l']
    return len(keys) > len(set(keys))


TESTS = [
    Test('tree', gen_tree, check_tree, 16000, size=400),
    Test('large', gen_large, check_tree, 1500, size=700),
    Test('meaning', gen_meaning, check_meaning, 6000),
]

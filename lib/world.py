"""Worlds: a graph with data, as plain data; the real hiku graph built from
it; queries over it; and the reference meaning of a query.

world = {
  'types': [(name, type spec), ...],
  'nodes': [{'name', 'ids': [...], 'items': [item, ...]}, ...],
  'roots': [[item, ...], ...],            one list per Root
  'ctx': [loader names that get the context],
  'salt': int,
}
item = {'k': 'f', 'name', 'type', 'fn', 'opts': [{'n', 't', 'd'?}]}
     | {'k': 'l', 'name', 'node', 'card': 'one'|'maybe'|'many', 'req', 'fn',
        'opts'}
selection = [('f', name, opts, alias) | ('l', name, opts, alias, selection)]

What a loader returns depends only on the loader name, the field name, the
identifier (or the required value) and the options, through crc32, so the
reference evaluator computes it without the engine.
"""
import collections
import functools
from types import MappingProxyType, MethodType

from hiku import graph as hg
from hiku import query as hq
from hiku import types as ht
from hiku.engine import pass_context

from . import values as V
from .values import canon, h, record_of, resolve

FIELD_NAMES = ['a', 'b', 'c', 'd', 'id', 'name']
LINK_NAMES = ['x', 'y', 'z', 'a', 'b']
OPTION_NAMES = ['o', 'p', 'q']
NODE_NAMES = ['N', 'M', 'K', 'a']
ALIASES = ['r', 's', 'a', 'b', 'id', 'x']

# other names: which differ in case, begin alike, or are used by the library
# or the language for something else: fields, links, nodes, aliases
OTHER_NAMES = [
    (['A', 'a', 'b', 'B', 'Id', 'id'], ['x', 'X', 'y', 'A', 'b'],
     ['N', 'n', 'M', 'm'], ['r', 'R', 'A', 'a', 'b', 'X']),
    (['a', 'aa', 'a1', 'a_', 'a10', 'id'], ['ab', 'a0', 'a_1', 'aa', 'a1'],
     ['N', 'NN', 'N1', 'N_'], ['a_', 'aa', 'a1', 'a11', 'aaa', 'b']),
    (['obj', 'node', 'name', 'type', 'index', 'items'],
     ['fields', 'query', 'root', 'values', 'type'],
     ['Node', 'Graph', 'Index', 'index'],
     ['obj', 'type', 'alias', 'options', 'items', 'root']),
    (['get', 'if', 'each', 'keys', 'None', 'true'],
     ['next', 'env', 'ctx', 'this_2', 'get'],
     ['Link', 'Field', 'Id', 'get'],
     ['null', 'None', 'ctx', 'get', 'true', 'self']),
    (['firstName', 'firstname', 'lastName', 'x' * 40, 'createdAt2', 'ID'],
     ['userByID', 'users_list', 'x' * 41, 'Users', 'lastName'],
     ['UserProfile', 'userProfile', 'N' * 40, 'V2'],
     ['myAlias', 'x' * 42, 'firstName', 'Users', 'ID', 'a__b']),
]

# names which GraphQL does not allow or hides, but graphs do
ODD_NAMES = [
    (['_a', '__a', 'a-b', '_', '__type', 'a'],
     ['_x', '__x', 'x-y', '__schema', '-'],
     ['_N', '__root', 'N-M', 'n m'], ['_r', '__r', 'r-s', '_', 'a', 'x']),
    (['a.b', 'a/b', 'a:b', 'a b', '0', 'n\u00e9'],
     ['x.y', 'x/y', '1', '\u043a', 'x[0]'],
     ['N.M', 'N/M', '0', '\u043a'], ['r.s', '1', '\u043a', '%s', '{0}', 'a']),
]

# never two equal-but-distinct values (0/False/0.0) in one pool
IDENTS = [1, 2, 0, -1, -2, 7, '', 'a', 'b', '1', None, (1, 2), (), ('a', None),
          1.5, frozenset([1]), b'k', ' a', 'A', 'a b', '\n', '\u00e9', 10 ** 20,
          -1.5, ('a',), (None, ()), '0', 'None', 'x' * 70]


# ---------------------------------------------------------------- generation

def draw_options(draw, types, max_opts=2):
    n = draw.int(0, 3)
    if n < 2:
        return []
    names = draw.sample(OPTION_NAMES, 1, max_opts)
    out = []
    for name in names:
        t = V.draw_type(draw, types, 2)
        o = {'n': name, 't': t}
        if draw.int(0, 2):
            o['d'] = V.draw_value(draw, t, types)
        out.append(o)
    return out


def make_many(world, link):
    """Makes of the link, and of those with its function, a link to many."""
    for items in [n['items'] for n in world['nodes']] + world['roots']:
        for i in items:
            if i['k'] == 'l' and i['fn'] == link['fn']:
                i['card'] = 'many'
    link['card'] = 'many'


def worlds(draw, max_nodes=3, options=True, records=True, ctx=False,
           multi_root=True, typed=False, ids=IDENTS, odd=False):
    ntypes = draw.int(0, 3) if records else 0
    types = {}
    prefix = draw.pick(['T', 'T', 'T', '_T', 't', 'Data_', 'T_'])
    for i in range(ntypes):
        if draw.chance(1, 5):
            # a name of a type which is not a record, or of another name
            t = ('ref', draw.pick(list(types))) if types else \
                ('rec', V.draw_rec(draw, [], 1))
            t = draw.pick([t, ('opt', t), ('seq', t), ('seq', ('opt', t)),
                           ('str',)])
        else:
            t = ('rec', V.draw_rec(draw, list(types), 2))
        types['%s%d' % (prefix, i)] = t
    field_names, link_names, node_names, aliases = \
        draw.pick(OTHER_NAMES + ODD_NAMES if odd else OTHER_NAMES) \
        if draw.chance(1, 3) else \
        (FIELD_NAMES, LINK_NAMES, NODE_NAMES, ALIASES)
    names = node_names[:draw.int(1, max_nodes)]
    catalog = {}        # (fn, field name) -> type, opts; link fn -> spec
    nfn = [0]

    def field(name, prefix):
        if nfn[0] and draw.bool():
            fn = '%s%d' % (prefix, draw.int(0, nfn[0] - 1))
        else:
            fn = '%s%d' % (prefix, nfn[0])
            nfn[0] += 1
        key = (fn, name)
        if key not in catalog:
            t = V.draw_type(draw, list(types), 2 if records else 1,
                            allow_none=not typed, records=records)
            opts = draw_options(draw, types) if options else []
            catalog[key] = (t, opts)
        t, opts = catalog[key]
        return {'k': 'f', 'name': name, 'type': t, 'fn': fn, 'opts': opts}

    nlinks = [0]
    known = []

    def link(name, fields, prefix):
        req = None
        if fields and draw.int(0, 3):
            plain = [f['name'] for f in fields
                     if all('d' in o for o in f['opts'])]
            if plain:
                req = draw.pick(plain)
        # a function of another link, of this node or of another one
        same = [i for p, i in known if p == prefix and
                (i['req'] is None) == (req is None)]
        if same and draw.chance(1, 5):
            return dict(draw.pick(same), name=name, req=req)
        fn = 'l%d' % nlinks[0]
        nlinks[0] += 1
        out = {'k': 'l', 'name': name,
                'node': draw.pick(names),
                'card': draw.pick(['one', 'many', 'maybe', 'many']),
                'req': req, 'fn': fn,
                'opts': draw_options(draw, types) if options else []}
        known.append((prefix, out))
        return out

    def items(prefix, nf, nl, used=()):
        fnames = draw.sample([f for f in field_names if f not in used], *nf)
        fields = [field(n, prefix) for n in fnames]
        lnames = draw.sample([x for x in link_names if x not in fnames and
                              x not in used], *nl)
        links = [link(n, fields, prefix) for n in lnames]
        return fields + links

    nodes = []
    for name in names:
        pool = draw.sample(ids, 1, 4)
        nodes.append({'name': name, 'ids': pool,
                      'items': items('n', (1, 4), (0, 2))})
    roots = [items('r', (0, 3), (1, 3))]
    if multi_root and draw.chance(1, 4):
        used = {i['name'] for i in roots[0]}
        more = items('r', (1, 2), (0, 1), used)
        roots.append(more)
    world = {'types': sorted(types.items()), 'nodes': nodes, 'roots': roots,
             'ctx': [], 'salt': draw.int(0, 50)}
    if aliases is not ALIASES:
        world['aliases'] = aliases
    if ctx:
        fns = sorted({i['fn'] for n in nodes for i in n['items']} |
                     {i['fn'] for r in roots for i in r})
        world['ctx'] = draw.sample(fns, 0, 4)
    return world


class W:
    """Index over a world."""

    def __init__(self, world):
        self.world = world
        self.types = dict(world['types'])
        self.nodes = {n['name']: n for n in world['nodes']}
        self.items = {n['name']: {i['name']: i for i in n['items']}
                      for n in world['nodes']}
        self.items[None] = {i['name']: i for r in world['roots'] for i in r}
        self.salt = world['salt']
        # large pools of identifiers are not spelled out in the case
        self.pools = {k: list(n['ids']) for k, n in self.nodes.items()}
        self.big = world.get('big', 0)
        for pool in self.pools.values():
            pool.extend(range(1000, 1000 + self.big))
        self.wide_fns = {i['fn'] for i in self.items[None].values()
                         if i['k'] == 'l'}
        if world.get('fan'):
            # a link of a node, of which each object has many targets
            self.wide_fns = {world['fan']}

    def full_options(self, item, opts):
        opts = opts or {}
        return {o['n']: opts[o['n']] if o['n'] in opts else o['d']
                for o in item['opts']}

    # data of the world
    def field_value(self, fn, item, ident, opts):
        key = '%s|%s|%s|%s|%s' % (self.salt, fn, item['name'], canon(ident),
                                  canon(opts))
        return V.det_value(item['type'], self.types, key)

    def targets(self, item, reqval, opts):
        pool = self.pools[item['node']]
        n = h(self.salt, item['fn'], canon(reqval), canon(opts))
        if item['card'] == 'one':
            return pool[n % len(pool)]
        if item['card'] == 'maybe':
            return hg.Nothing if n % 3 == 0 else pool[(n >> 3) % len(pool)]
        if self.big and item['fn'] in self.wide_fns:
            size = (n >> 8) % (self.big + 1)
            return [pool[(n + i * (1 + n % 5)) % len(pool)]
                    for i in range(size)]
        return [pool[(n >> (3 + 3 * i)) % len(pool)] for i in range((n >> 20) % 5)]


# ------------------------------------------------------------------- queries

def draw_opts(draw, item, types):
    """Valid option values for a field or link (None when not given)."""
    if not item['opts']:
        return None
    out = {}
    for o in item['opts']:
        if 'd' not in o or draw.bool():
            out[o['n']] = V.draw_value(draw, o['t'], types)
    if not out and draw.bool():
        return None
    return out


def draw_record_sel(draw, fields, types, depth, dups, seen=None):
    names = [n for n, _ in fields]
    ftypes = dict(fields)
    sel, seen = [], {} if seen is None else seen
    for _ in range(draw.int(1, 3)):
        name = draw.pick(names)
        rec = V.record_of(ftypes[name], types)
        if rec and depth <= 0:
            continue
        alias = draw.pick([None, None, None] + ALIASES)
        key = alias or name
        if key in seen and (seen[key][0] != name or not dups):
            continue
        _, subseen = seen.setdefault(key, (name, {}))
        if rec:
            sub = draw_record_sel(draw, rec[1], types, depth - 1, dups,
                                  subseen)
            if not sub:
                continue
            sel.append(('l', name, None, alias, sub))
        else:
            sel.append(('f', name, None, alias))
    return sel


def draw_selection(draw, w, node, depth, dups=False, max_items=4,
                   as_plain=True, seen=None):
    """A selection that is valid for the node. With dups, an item may appear
    again (with other sub-selections) under the same key; `seen` holds what
    each key stands for, at every depth."""
    aliases = w.world.get('aliases', ALIASES)
    items = list(w.items[node].values())
    links = [i for i in items if i['k'] == 'l'] if depth > 0 else []
    sel, seen = [], {} if seen is None else seen
    for _ in range(draw.int(1, max_items)):
        item = draw.pick(links if links and draw.int(0, 2) == 2 else items)
        name = item['name']
        opts = draw_opts(draw, item, w.types)
        alias = draw.pick([None, None] + aliases)
        key = alias or name
        ident = [name, canon(opts)]
        rec = V.record_of(item['type'], w.types) if item['k'] == 'f' else None
        kind = 'f'
        if item['k'] == 'l' or (rec and (not as_plain or
                                         draw.int(0, 3))):
            kind = 'l'
        ident.append(kind)
        if key in seen and (seen[key][0] != ident or not dups):
            continue
        _, subseen = seen.get(key, (None, {}))
        if kind == 'f':
            seen[key] = ident, subseen
            sel.append(('f', name, opts, alias))
            continue
        if item['k'] == 'l':
            if depth <= 0:
                continue
            sub = draw_selection(draw, w, item['node'], depth - 1, dups,
                                 max_items, as_plain, subseen)
        else:
            sub = draw_record_sel(draw, rec[1], w.types, 2, dups, subseen)
        if not sub:
            continue
        seen[key] = ident, subseen
        sel.append(('l', name, opts, alias, sub))
    return sel


def world_and_query(draw, depth=3, dups=False, max_items=4, as_plain=True,
                    **kw):
    world = worlds(draw, **kw)
    w = W(world)
    sel = draw_selection(draw, w, None, depth, dups, max_items, as_plain)
    return {'world': world, 'query': sel}


BIG = [20, 40, 70, 120, 140, 260, 300, 520, 600, 1100]


def big_case(draw, **kw):
    """A world and query which is large in one way: many objects, many
    items, many levels, or many occurrences of one item."""
    kind = draw.pick(['ids', 'wide', 'deep', 'aliases', 'fan'])
    if kind == 'ids':
        n = draw.pick(BIG)
        world = worlds(draw, **kw)
        link = draw.pick([i for i in world['roots'][0] if i['k'] == 'l'])
        make_many(world, link)
        world['big'] = n
        w = W(world)
        sub = draw_selection(draw, w, link['node'], 1, False, 4)
        sel = []
        if sub:
            sel.append(('l', link['name'], draw_opts(draw, link, w.types),
                        draw.pick([None, 'r']), sub))
        seen = {e[3] or e[1] for e in sel}
        sel += [e for e in draw_selection(draw, w, None, 1, False, 2)
                if (e[3] or e[1]) not in seen]
        case = {'world': world, 'query': sel}
    elif kind == 'fan':
        world = worlds(draw, **kw)
        w = W(world)
        ways = [(a, b) for a in w.items[None].values() if a['k'] == 'l'
                for b in w.items[a['node']].values() if b['k'] == 'l']
        if not ways:
            node = draw.pick(world['nodes'])
            to = draw.pick([i for i in w.items[None].values()
                            if i['k'] == 'l'])
            way = {'k': 'l', 'name': 'fan', 'node': node['name'],
                   'card': 'many', 'req': None, 'fn': 'fan', 'opts': []}
            w.nodes[to['node']]['items'].append(way)
            ways = [(to, way)]
        first, second = draw.pick(ways)
        make_many(world, second)
        world['fan'] = second['fn']
        world['big'] = draw.pick(BIG[:8])
        w = W(world)
        sel = []
        sub = draw_selection(draw, w, second['node'], 0, False, 3)
        if sub:
            sel.append(('l', first['name'], draw_opts(draw, first, w.types),
                        draw.pick([None, 'r']), [
                ('l', second['name'], draw_opts(draw, second, w.types),
                 draw.pick([None, 'fan']), sub)]))
        seen = {e[3] or e[1] for e in sel}
        sel += [e for e in draw_selection(draw, w, None, 1, False, 2)
                if (e[3] or e[1]) not in seen]
        case = {'world': world, 'query': sel}
    elif kind == 'wide':
        world = worlds(draw, **kw)
        n = draw.pick([10, 20, 40, 70, 140, 270])
        fns = draw.int(1, 3)
        where = draw.int(0, 1)
        t = V.draw_type(draw, [], 1, allow_none=False)
        new = [{'k': 'f', 'name': 'w%d' % i, 'type': t,
                'fn': 'w%d' % (i % fns), 'opts': []} for i in range(n)]
        w = W(world)
        links = [i for i in w.items[None].values() if i['k'] == 'l']
        if where and links:
            link = draw.pick(links)
            W(world).nodes[link['node']]['items'].extend(new)
        else:
            link = None
            world['roots'][0].extend(new)
        step = draw.int(1, 3)
        sel = [('f', 'w%d' % i, None, draw.pick([None, 'v%d' % i]))
               for i in range(0, n, step)]
        if draw.bool():
            sel.reverse()
        w = W(world)
        if link is not None:
            sel = [('l', link['name'], draw_opts(draw, link, w.types), None,
                    sel)]
        case = {'world': world, 'query': sel}
    elif kind == 'deep':
        world = worlds(draw, **kw)
        w = W(world)
        n = draw.pick([6, 10, 15, 20, 30, 40])
        manies = [2]

        def level(node, k):
            items = list(w.items[node].values())
            sel = []
            fields = [i for i in items if i['k'] == 'f' and
                      not V.record_of(i['type'], w.types)]
            if fields and draw.bool():
                f = draw.pick(fields)
                sel.append(('f', f['name'], draw_opts(draw, f, w.types),
                            draw.pick([None, 'deep'])))
            links = [i for i in items if i['k'] == 'l' and
                     (manies[0] or i['card'] != 'many')]
            if links and k:
                f = draw.pick(links)
                manies[0] -= f['card'] == 'many'
                sub = level(f['node'], k - 1)
                if sub:
                    sel.append(('l', f['name'], draw_opts(draw, f, w.types),
                                draw.pick([None, 'next']), sub))
            elif fields and not sel:
                f = draw.pick(fields)
                sel.append(('f', f['name'], draw_opts(draw, f, w.types),
                            None))
            return sel
        case = {'world': world, 'query': level(None, n)}
    else:
        world = worlds(draw, **kw)
        w = W(world)
        n = draw.pick([10, 20, 40, 70, 140])
        items = list(w.items[None].values())
        sel = []
        for _ in range(draw.int(1, 2)):
            item = draw.pick(items)
            sub = None
            rec = V.record_of(item['type'], w.types) \
                if item['k'] == 'f' else None
            if item['k'] == 'l':
                sub = draw_selection(draw, w, item['node'], 1, max_items=2)
            elif rec:
                sub = draw_record_sel(draw, rec[1], w.types, 2, False)
            if not sub and (item['k'] == 'l' or rec):
                continue
            for i in range(n):
                opts = draw_opts(draw, item, w.types)
                e = ('l' if sub else 'f', item['name'], opts,
                     'v%d_%d' % (len(sel), i))
                sel.append(e + ((sub,) if sub else ()))
        case = {'world': world, 'query': sel or [
            ('f', i['name'], draw_opts(draw, i, w.types), None)
            for i in items if i['k'] == 'f'][:1]}
    case['kind'] = kind
    return case


def widen(draw, world):
    """Makes a graph large in one way."""
    n = draw.pick([9, 17, 33, 65, 130])
    kind = draw.pick(['fields', 'nodes', 'types', 'record', 'options',
                   'default'])
    items = draw.pick([w['items'] for w in world['nodes']] + world['roots'])
    t = V.draw_type(draw, [], 2, allow_none=False)
    if kind == 'fields':
        items += [{'k': 'f', 'name': 'wide%d' % i, 'type': t,
                   'fn': 'w%d' % (i % 3), 'opts': []} for i in range(n)]
    elif kind == 'nodes':
        world['nodes'] += [
            {'name': 'Wide%d' % i, 'ids': [1], 'items': [
                {'k': 'f', 'name': 'x', 'type': t, 'fn': 'w%d' % i,
                 'opts': []}]} for i in range(n)]
    elif kind == 'types':
        world['types'] += [
            ('Wide%d' % i, ('rec', [('x', t)] if i % 3 else [
                ('a', ('int',)), ('b', ('opt', ('str',)))]))
            for i in range(n)]
    elif kind == 'record':
        world['types'].append(('Wide', ('rec', [
            ('x%d' % i, t) for i in range(n)])))
    else:
        opts = [{'n': 'wide%d' % i, 't': ('int',)} for i in range(n)]
        if kind == 'options':
            for o in opts[::2]:
                o['d'] = len(o['n'])
        else:
            opts = [{'n': 'wide', 't': ('any',), 'd': draw.pick([
                list(range(n)), {'k%d' % i: i for i in range(n)},
                'ab"\\' * n, {'a': [{'b': ['x'] * n}]}])}]
        items.append({'k': 'f', 'name': 'wide', 'type': t, 'fn': 'w0',
                      'opts': opts})


def to_node(sel, ordered=False, shared=None):
    """Equal parts of some queries are one object, as fragments and variables
    make them."""
    if shared is None and len(repr(sel)) % 3 == 0:
        shared = {}
    fields = []
    for e in sel:
        opts = e[2]
        if opts is not None:
            opts = share(shared, opts, lambda: copy_plain(e[2]))
        if e[0] == 'f':
            fields.append(share(shared, e, lambda: hq.Field(e[1], opts, e[3])))
        else:
            node = share(shared, e[4], lambda: to_node(
                e[4], False, False if shared is None else shared))
            fields.append(share(shared, e, lambda: hq.Link(e[1], node, opts,
                                                           e[3])))
    return hq.Node(fields, ordered=ordered)


def share(shared, key, make):
    if not shared and shared != {}:
        return make()
    key = repr(key)
    if key not in shared:
        shared[key] = make()
    return shared[key]


def copy_plain(v):
    if isinstance(v, dict):
        return {k: copy_plain(i) for k, i in v.items()}
    if isinstance(v, list):
        return [copy_plain(i) for i in v]
    return v


def from_node(node):
    """hiku query -> selection (plain data)."""
    out = []
    for f in node.fields:
        if isinstance(f, hq.Link):
            out.append(('l', f.name, f.options, f.alias, from_node(f.node)))
        else:
            out.append(('f', f.name, f.options, f.alias))
    return out


def merge_sel(sel, by_kind=False):
    """Reference merge: united by (result key), first-appearance order.
    The selection must not have conflicts."""
    out = collections.OrderedDict()
    for e in sel:
        key = (e[3] or e[1], e[0]) if by_kind else e[3] or e[1]
        if key in out:
            if e[0] == 'l':
                out[key][4].extend(e[4])
        else:
            out[key] = list(e[:4]) + ([list(e[4])] if e[0] == 'l' else [])
    return [tuple(e[:4]) + ((merge_sel(e[4], by_kind),) if e[0] == 'l' else ())
            for e in out.values()]


def depth_of(sel):
    return max([1] + [1 + depth_of(e[4]) for e in sel if e[0] == 'l'])


def count_items(sel):
    return sum(1 + (count_items(e[4]) if e[0] == 'l' else 0) for e in sel)


# -------------------------------------------------------- reference meaning

def select_record(wrap_spec, types, value, sel, typenames=False):
    """Value of a record-typed field under a record selection. Records
    which are defined in place have no type name."""
    spec, name = wrap_spec, None
    while spec[0] == 'ref':
        name, spec = spec[1], types[spec[1]]
    if spec[0] == 'opt':
        return None if value is None else \
            select_record(spec[1], types, value, sel, typenames)
    if spec[0] == 'seq':
        return [select_record(spec[1], types, i, sel, typenames)
                for i in value]
    ft = dict(spec[1])
    out = {}
    for e in merge_sel(sel):
        if typenames and e[1] == '__typename':
            out[e[3] or e[1]] = name
            continue
        v = value[e[1]]
        if e[0] == 'l':
            v = select_record(ft[e[1]], types, v, e[4], typenames)
        out[e[3] or e[1]] = v
    return out


class Items:
    """A record which can do nothing but give its fields by name; it may be
    taken for an empty container."""

    def __init__(self, items):
        self.__items = items

    def __getitem__(self, name):
        return self.__items[name]

    def __len__(self):
        return 0


class LazyRecord(dict):
    """A dictionary which computes its values when they are asked for."""

    def __init__(self, items):
        super().__init__()
        self.__items = items

    def __missing__(self, name):
        return self.__items[name]


DRESSES = [None, Items, LazyRecord, collections.OrderedDict,
           collections.UserDict, MappingProxyType]


def dressed(spec, types, value, kind):
    """The value with its records as objects of another kind, and its
    sequences as tuples."""
    rec = record_of(spec, types)
    spec = resolve(spec, types)
    if rec is None or value is None:
        return value
    if spec[0] == 'opt':
        return dressed(spec[1], types, value, kind)
    if spec[0] == 'seq':
        return tuple(dressed(spec[1], types, i, kind) for i in value)
    return kind({n: dressed(t, types, value[n], kind) for n, t in spec[1]})


def can_dress(w, sel, node=None):
    """Fields with records are requested with selections only."""
    for e in sel:
        item = w.items[node][e[1]]
        if item['k'] == 'l':
            if not can_dress(w, e[4], item['node']):
                return False
        elif record_of(item['type'], w.types) and not (
                e[0] == 'l' and no_plain(item['type'], w.types, e[4])):
            return False
    return True


def no_plain(spec, types, sel):
    rec = record_of(spec, types)
    fields = dict(rec[1])
    return all(not record_of(fields[e[1]], types) or
               e[0] == 'l' and no_plain(fields[e[1]], types, e[4])
               for e in sel)


def dress_records(run, kind):
    """Loaders of the run give records of another kind; those which links
    require are left as they are."""
    required = set()
    for items in run.w.items.values():
        for i in items.values():
            req = i.get('req') if i['k'] == 'l' else None
            required.update([req] if isinstance(req, str) else req or ())
    def change(call, res):
        if call.kind != 'f':
            return res
        fields = call.args[0]
        items = run.by_fn[call.fn]

        def row(values):
            return [v if f.name in required else
                    dressed(items[f.name]['type'], run.w.types, v, kind)
                    for f, v in zip(fields, values)]
        return row(res) if len(call.args) == 1 else [row(r) for r in res]
    run.change = change


def evaluate(w, sel, node=None, ident='ROOT', typename=None):
    """The meaning of the selection on one object, by direct recursion.
    typename(node name or None or ('rec', spec)) gives __typename."""
    out = {}
    for e in merge_sel(sel):
        key = e[3] or e[1]
        if e[1] == '__typename' and typename is not None:
            out[key] = typename(node)
            continue
        item = w.items[node][e[1]]
        opts = w.full_options(item, e[2])
        if item['k'] == 'f':
            v = w.field_value(item['fn'], item, ident, opts)
            if e[0] == 'l':
                v = select_record(item['type'], w.types, v, e[4],
                                  typename is not None)
            out[key] = v
            continue
        t = w.targets(item, _reqval(w, node, item, ident), opts)
        if item['card'] == 'many':
            out[key] = [evaluate(w, e[4], item['node'], i, typename)
                        for i in t]
        elif t is hg.Nothing:
            out[key] = None
        else:
            out[key] = evaluate(w, e[4], item['node'], t, typename)
    return out


def _reqval(w, node, item, ident):
    if item['req'] is None:
        return '-'
    f = w.items[node][item['req']]
    return w.field_value(f['fn'], f, ident, w.full_options(f, None))


def sub_canon(sel):
    return '{%s}' % ' '.join(sorted({
        e[1] + canon(e[2] or {}) + (sub_canon(e[4]) if e[0] == 'l' else '')
        for e in merge_sel(sel, True)}))


def expected_calls(w, sel, node=None, idents=None, out=None, where=None):
    """The loader calls of the (unordered) query: one per place and loader.
    ('f', fn, {fields}, {idents} or None) / ('l', fn, req values, options)
    where: a list that gets (node name or None, [names of served items],
    [names which are asked for again]) of each call"""
    if out is None:
        out = []
    groups = {}
    again = {}
    links = []

    def served(fn, entry):
        group = groups.setdefault(fn, set())
        if entry in group:
            again.setdefault(fn, []).append(entry[0])
        group.add(entry)
    for e in merge_sel(sel):
        item = w.items[node][e[1]]
        opts = w.full_options(item, e[2])
        if item['k'] == 'f':
            sub = sub_canon(e[4]) if e[0] == 'l' else ''
            served(item['fn'], (e[1], canon(opts), sub))
        else:
            if item['req'] is not None:
                f = w.items[node][item['req']]
                served(f['fn'], (f['name'], canon(w.full_options(f, None)),
                                 ''))
            links.append((e, item, opts))
    ids = None if idents is None else frozenset(map(canon, idents))
    for fn, fields in groups.items():
        out.append(('f', fn, frozenset(fields), ids))
        if where is not None:
            where.append((node, [f[0] for f in fields], again.get(fn, [])))
    for e, item, opts in links:
        if where is not None:
            where.append((node, [item['name']], []))
        here = ['ROOT'] if idents is None else idents
        reqs = [_reqval(w, node, item, i) for i in here]
        out.append(('l', item['fn'],
                    None if item['req'] is None else
                    frozenset(map(canon, reqs)),
                    canon(opts)))
        nxt = []
        for r in reqs:
            t = w.targets(item, r, opts)
            if item['card'] == 'many':
                nxt.extend(t)
            elif t is not hg.Nothing:
                nxt.append(t)
        if nxt:
            expected_calls(w, e[4], item['node'], nxt, out, where)
    return out


# ----------------------------------------------------------- the real graph

Call = collections.namedtuple('Call', 'kind fn node_level args ctx')


class Run:
    """Builds the hiku graph of a world; loaders log their calls.

    async_=True makes coroutine loaders. Hooks (set before executing):
      before(call) -- sync, before the value is computed
      pause(call)  -- async: awaited before and may raise
      change(call, result) -> result
    """

    def __init__(self, world, async_=False, ctx_all=False, styles=True):
        self.w = W(world)
        self.styles = styles
        self.async_ = async_
        self.log = []
        self.before = None
        self.on_call = None
        self.after = None
        self.pause = None
        self.change = None
        self._fns = {}
        self.ctx_fns = set(world['ctx'])
        self.by_fn = {}
        for node, items in self.w.items.items():
            for i in items.values():
                if i['k'] == 'f':
                    self.by_fn.setdefault(i['fn'], {})[i['name']] = i
                else:
                    self.by_fn[i['fn']] = i
                    if node is None:
                        i = dict(i)
        self.link_root = {}
        for i in self.w.items[None].values():
            if i['k'] == 'l':
                self.link_root[i['fn']] = True

    # what a loader does
    def _fields(self, fn, args):
        if len(args) == 1:
            (fields,), ids = args, None
        else:
            fields, ids = args
        items = self.by_fn[fn]
        seq = tuple if h(fn, self.w.salt) % 3 == 0 else list

        def row(ident):
            return seq(self.w.field_value(fn, items[f.name], ident,
                                          dict(f.options or {}))
                       for f in fields)
        if ids is None:
            return row('ROOT')
        outer = tuple if h(fn, 'o', self.w.salt) % 4 == 0 else list
        return outer(row(i) for i in ids)

    def _links(self, fn, args):
        item = self.by_fn[fn]
        args = list(args)
        opts = dict(args.pop()) if item['opts'] else {}
        seq = tuple if h(fn, self.w.salt) % 3 == 0 else list

        def one(req):
            t = self.w.targets(item, req, opts)
            return seq(t) if isinstance(t, list) else t
        if item['req'] is None:
            assert not args, args
            return one('-')
        (reqs,) = args
        if fn in self.link_root:
            return one(reqs)
        return seq(one(r) for r in reqs)

    def loader(self, fn, kind):
        if fn in self._fns:
            load = self._fns[fn]
            if isinstance(load, MethodType):
                # another object, equal to the first one
                load = load.__self__.method
            return load
        work = self._fields if kind == 'f' else self._links
        takes_ctx = fn in self.ctx_fns

        def split(args):
            ctx = None
            if takes_ctx:
                ctx, args = args[0], args[1:]
            call = Call(kind, fn, None, args, ctx)
            return call

        if self.async_:
            async def load(*args):
                call = split(args)
                self.log.append(call)
                if self.before:
                    self.before(call)
                if self.pause:
                    await self.pause(call)
                res = work(fn, call.args)
                if self.change:
                    res = self.change(call, res)
                if self.after:
                    self.after(call)
                return res
            if h(fn, 'plain', self.w.salt) % 2:
                # a plain function which returns an awaitable
                coroutine = load

                def load(*args):
                    if self.on_call:
                        self.on_call(fn)
                    return coroutine(*args)
        else:
            def load(*args):
                call = split(args)
                self.log.append(call)
                if self.before:
                    self.before(call)
                res = work(fn, call.args)
                if self.change:
                    res = self.change(call, res)
                if self.after:
                    self.after(call)
                return res
        load.__name__ = 'load_%s' % fn
        style = h(fn, 'style', self.w.salt) % 8 if self.styles else 0
        load = self.styled(load, style, takes_ctx)
        self._fns[fn] = load
        return load

    @staticmethod
    def styled(load, style, takes_ctx):
        """The loader as another kind of callable."""
        if style == 1:
            load = functools.partial(load)
        elif style == 2:
            class Loader:
                def __call__(self, *args):
                    return load(*args)
            if takes_ctx:
                return pass_context(Loader)()
            return Loader()
        elif style == 3:
            class Holder:
                def method(self, *args):
                    return load(*args)
            if takes_ctx:
                pass_context(Holder.method)
            return Holder().method
        elif style == 4:
            # of a derived class, as those in hiku.sources.aiopg
            class Base:
                def __call__(self, *args):
                    raise NotImplementedError

            class Derived(pass_context(Base) if takes_ctx else Base):
                def __call__(self, *args):
                    return load(*args)
            return Derived()
        elif style == 5:
            # only this object is marked, and not its class
            class Marked:
                def __call__(self, *args):
                    return load(*args)
            return pass_context(Marked()) if takes_ctx else Marked()
        elif style == 6:
            # a decorated function has the attributes of the wrapped one
            if takes_ctx:
                load = pass_context(load)

            @functools.wraps(load)
            def wrapper(*args):
                return load(*args)
            return wrapper
        return pass_context(load) if takes_ctx else load

    def option(self, o):
        kw = {'default': copy_plain(o['d'])} if 'd' in o else {}
        return hg.Option(o['n'], V.to_type(o['t']),
                         description=o.get('desc'), **kw)

    def item(self, i):
        opts = [self.option(o) for o in i['opts']]
        fn = self.loader(i['fn'], i['k'])
        if i['k'] == 'f':
            return hg.Field(i['name'], V.to_type(i['type']), fn, options=opts,
                            description=i.get('desc'))
        t = ht.TypeRef[i['node']]
        t = {'one': t, 'maybe': ht.Optional[t],
             'many': ht.Sequence[t]}[i['card']]
        return hg.Link(i['name'], t, fn, requires=i['req'], options=opts,
                       description=i.get('desc'))

    def data_types(self):
        return {n: V.to_type(t) for n, t in self.w.world['types']}

    def graph_items(self):
        out = [hg.Node(n['name'], [self.item(i) for i in n['items']],
                       description=n.get('desc'))
               for n in self.w.world['nodes']]
        roots = [hg.Root([self.item(i) for i in r])
                 for r in self.w.world['roots']]
        if self.w.salt % 2:
            return roots[:1] + out + roots[1:]
        return out + roots

    def graph(self):
        return hg.Graph(self.graph_items(), data_types=self.data_types())

    def observed_calls(self):
        out = []
        for c in self.log:
            if c.kind == 'f':
                fields = c.args[0]
                ids = None if len(c.args) == 1 else \
                    frozenset(map(canon, c.args[1]))
                out.append(('f', c.fn, frozenset(
                    (f.name, canon(dict(f.options or {})),
                     sub_canon(from_node(f.node))
                     if isinstance(f, hq.Link) else '') for f in fields),
                    ids))
            else:
                item = self.by_fn[c.fn]
                args = list(c.args)
                opts = dict(args.pop()) if item['opts'] else {}
                reqs = None
                if item['req'] is not None:
                    reqs = args[0]
                    reqs = frozenset([canon(reqs)]) \
                        if c.fn in self.link_root \
                        else frozenset(map(canon, reqs))
                out.append(('l', c.fn, reqs, canon(opts)))
        return out

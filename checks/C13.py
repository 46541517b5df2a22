"""C13: graph construction accepts exactly the well-formed graphs."""
import collections
import re

from hiku import graph as hg
from hiku import types as ht
from hiku.validate.graph import GraphValidationError

from lib import values as V
from lib.runner import Test, ensure, fail

PROPERTY = 'C13'
RULE = ('the graph has at least one problem, or at least two nodes or roots '
        'with items')
ASSUMPTIONS = [
    'an item of a wrong kind may hide the other problems of its link or '
    'field, of its node (all Root items are one node) or, in the list of '
    'nodes, of the graph',
    'no node is called __root__, and option names are unique',
]

NAMES = ['a', 'b', 'c', 'id', 'x', 'y', 'root', 'N', '', 'é', 'a.b', '"q"',
         'A', '_a', 'a_', 'n', 'ID']
NODES = ['N', 'M', 'K', 'root', 'a', '', 'é', 'n', '_N', 'A']
# wrong items by the place where they are put
WRONG = {'graph': ['int', 'str', 'none', 'field', 'link', 'option', 'list',
                   'type'],
         'node': ['int', 'str', 'none', 'node', 'root', 'option', 'list',
                  'type'],
         'options': ['int', 'str', 'none', 'field', 'link', 'node', 'list',
                     'type']}
DESC = [None, None, 'd', '', 'Some\n"text"']


def gen(d):
    faulty = d.chance(2, 3)
    rate = d.pick([0, 0, 10, 25]) if faulty else 0

    def fault():
        return rate and d.chance(1, rate)

    def options():
        out = []
        for n in d.sample(['o', 'p', 'q', ''], 0, 3) if d.bool() else []:
            t = V.draw_type(d, [], 2)
            o = {'n': n, 't': t, 'desc': d.pick(DESC)}
            if d.bool():
                o['d'] = V.draw_value(d, t)
            out.append(o)
        if fault():
            out.insert(d.int(0, len(out)), ('bad', d.pick(WRONG['options'])))
        return out

    node_names = d.sample(NODES, 0, 4)

    def items(used):
        out = []
        names = [n for n in d.sample(NAMES, 0, 5) if n not in used]
        for n in names:
            if node_names and d.bool():
                out.append({'k': 'l', 'name': n, 'node': d.pick(node_names),
                            'card': d.pick(['one', 'maybe', 'many']),
                            'req': None, 'fn': d.int(0, 3),
                            'opts': options(), 'desc': d.pick(DESC)})
            else:
                out.append({'k': 'f', 'name': n, 'fn': d.int(0, 3),
                            'type': V.draw_type(d, [], 2),
                            'opts': options(), 'desc': d.pick(DESC)})
        return out

    def like(name):
        """A name close to the name."""
        return d.pick([name.swapcase(), name.lower(), name.upper(),
                       '_' + name, '__' + name, name + '_', name + ' ',
                       ' ' + name, name[:-1], name + name])

    def damage(out):
        fields = [i['name'] for i in out if i['k'] == 'f']
        for i in out:
            if i['k'] == 'l':
                if fields and d.bool():
                    i['req'] = d.pick(fields)
                if fault():
                    i['req'] = like(i['req'] or 'a') if d.bool() else \
                        d.pick(NAMES + ['zz'])
                if fault():
                    i['node'] = like(i['node']) if d.bool() else \
                        d.pick(NODES + ['zz'])
        for i in list(out):
            if fault():
                out.insert(d.int(0, len(out)),
                           dict(i, name=d.pick([i['name']] + NAMES)))
        if fault():
            out.insert(d.int(0, len(out)), ('bad', d.pick(WRONG['node'])))
        return out

    graph = []
    for n in node_names:
        graph.append({'name': n, 'items': damage(items(())),
                      'desc': d.pick(DESC)})
    used = set()
    roots = []
    for _ in range(d.int(0, 3)):
        r = items(() if fault() else used)
        used |= {i['name'] for i in r}
        roots.append(r)
    # fields required by links of a root may be in another one
    rf = [i['name'] for r in roots for i in r if i['k'] == 'f']
    for r in roots:
        damage(r)
        for i in r:
            if isinstance(i, dict) and i['k'] == 'l' and rf and d.bool():
                i['req'] = d.pick(rf)
        graph.insert(d.int(0, len(graph)),
                     {'name': None, 'items': r, 'desc': None})
    for g in list(graph):
        if fault() and g['name'] is not None:
            graph.insert(d.int(0, len(graph)), dict(
                g, items=d.pick([[], g['items']])))
    if fault():
        graph.insert(d.int(0, len(graph)), ('bad', d.pick(WRONG['graph'])))
    if d.chance(1, 8):
        pad(d, graph)
    if faulty and d.chance(1, 12):
        many_faults(d, graph)
    return {'graph': graph}


def many_faults(d, graph):
    """The same problem many times."""
    n = d.pick([2, 3, 4, 5, 9, 20])
    at = d.int(0, len(graph))
    how = d.pick(['items', 'nodes', 'links', 'requires'])
    if how == 'nodes':
        graph[at:at] = [{'name': 'D%d' % (i % n), 'desc': None, 'items': []}
                        for i in range(2 * n)]
        return
    items = []
    for i in range(n):
        if how == 'items':
            items += [{'k': 'f', 'name': 'd%d' % i, 'fn': k, 'type': ('int',),
                       'opts': [], 'desc': None} for k in (0, 1)]
        else:
            items.append({'k': 'l', 'name': 'd%d' % i, 'fn': 0, 'opts': [],
                          'node': 'zz%d' % i if how == 'links' else 'D',
                          'req': 'yy%d' % i if how == 'requires' else None,
                          'card': 'one', 'desc': None})
    if d.bool():
        items.reverse()
    graph.insert(at, {'name': d.pick(['D', None]), 'items': items,
                      'desc': None})


def pad(d, graph):
    """Makes a graph large: the faults are among many items."""
    n = d.pick([5, 10, 20, 40, 100])
    nodes = [g for g in graph if isinstance(g, dict)]
    if nodes and d.bool():
        items = d.pick(nodes)['items']
        new = [{'k': 'f', 'name': 'pad%d' % i, 'fn': i % 4, 'type': ('int',),
                'opts': [], 'desc': None} for i in range(n)]
        at = d.int(0, len(items))
        items[at:at] = new
    else:
        new = [{'name': 'Pad%d' % i, 'desc': None, 'items': [
            {'k': 'f', 'name': 'a', 'fn': i % 4, 'type': ('int',),
             'opts': [], 'desc': None}]} for i in range(n)]
        at = d.int(0, len(graph))
        graph[at:at] = new


def problems(graph):
    """[(description, texts that a message must contain)] and the number of
    problems that may be hidden."""
    out = []
    if any(isinstance(g, tuple) for g in graph):
        return [('wrong item in the graph', [])]
    names = [g['name'] for g in graph if g['name'] is not None]
    for n, c in collections.Counter(names).items():
        if c > 1:
            out.append(('duplicated node', [n]))
    scopes = [(g['name'], g['items']) for g in graph
              if g['name'] is not None]
    scopes.append((None, [i for g in graph if g['name'] is None
                          for i in g['items']]))
    for node, items in scopes:
        shown = 'root' if node is None else node
        if any(isinstance(i, tuple) for i in items):
            out.append(('wrong item in a node', [shown]))
            continue
        for n, c in collections.Counter(i['name'] for i in items).items():
            if c > 1:
                out.append(('duplicated name', [shown, n]))
        fields = {i['name'] for i in items if i['k'] == 'f'}
        for i in items:
            if any(isinstance(o, tuple) for o in i['opts']):
                out.append(('wrong option', [shown, i['name']]))
                continue
            if i['k'] == 'l':
                if i['node'] not in names:
                    out.append(('missing node', [i['name'], i['node']]))
                if i['req'] is not None and i['req'] not in fields:
                    out.append(('missing required field',
                                [shown, i['name'], i['req']]))
    return out


def named(name, message):
    return re.search(r'(?<!\w)%s(?!\w)' % re.escape(name), message)


def fn0(*args):
    raise AssertionError('called')


FNS = [fn0] + [lambda *a, n=n: fn0() for n in range(3)]


def wrong(kind):
    return {'int': 1, 'str': 'N', 'none': None, 'list': [],
            'field': hg.Field('wf', None, fn0),
            'link': hg.Link('wl', ht.TypeRef['N'], fn0, requires=None),
            'option': hg.Option('wo', None),
            'node': hg.Node('wn', []), 'root': hg.Root([]),
            'type': ht.Integer}[kind]


def build(graph):
    def option(o):
        if isinstance(o, tuple):
            return wrong(o[1])
        kw = {'default': o['d']} if 'd' in o else {}
        return hg.Option(o['n'], V.to_type(o['t']), description=o['desc'],
                         **kw)

    def item(i):
        if isinstance(i, tuple):
            return wrong(i[1])
        opts = [option(o) for o in i['opts']]
        if i['k'] == 'f':
            return hg.Field(i['name'], V.to_type(i['type']), FNS[i['fn']],
                            options=opts, description=i['desc'])
        return hg.Link(i['name'], link_type(i), FNS[i['fn']],
                       requires=i['req'], options=opts,
                       description=i['desc'])
    out = []
    for g in graph:
        if isinstance(g, tuple):
            out.append(wrong(g[1]))
        elif g['name'] is None:
            out.append(hg.Root([item(i) for i in g['items']]))
        else:
            out.append(hg.Node(g['name'], [item(i) for i in g['items']],
                               description=g['desc']))
    return out


def link_type(i):
    t = ht.TypeRef[i['node']]
    return {'one': t, 'maybe': ht.Optional[t], 'many': ht.Sequence[t]}[
        i['card']]


def show(o):
    """An item of a graph as plain data."""
    if isinstance(o, hg.Option):
        out = {'n': o.name, 't': o.type, 'desc': o.description}
        if o.default is not hg.Nothing:
            out['d'] = V.canon(o.default)
        return out
    out = {'name': o.name, 'fn': FNS.index(o.func), 'desc': o.description,
           'opts': [show(i) for i in o.options],
           'map': [(k, show(v)) for k, v in o.options_map.items()],
           'type': o.type}
    if isinstance(o, hg.Field):
        out['k'] = 'f'
    elif isinstance(o, hg.Link):
        out.update(k='l', req=o.requires, node=o.node, enum=o.type_enum)
    return out


def want_item(i):
    opts = [dict([('n', o['n']), ('t', V.to_type(o['t'])),
                  ('desc', o['desc'])] +
                 ([('d', V.canon(o['d']))] if 'd' in o else []))
            for o in i['opts']]
    out = {'name': i['name'], 'fn': i['fn'], 'desc': i['desc'], 'opts': opts,
           'map': [(o['n'], o) for o in opts], 'k': i['k']}
    if i['k'] == 'f':
        out['type'] = V.to_type(i['type'])
    else:
        out['type'] = link_type(i)
        out.update(req=i['req'], node=i['node'],
                   enum={'one': hg.One, 'maybe': hg.Maybe,
                         'many': hg.Many}[i['card']])
    return out


def check(case, obs):
    spec = case['graph']
    want = problems(spec)
    items = build(spec)
    data_types = {'D': ht.Record[{'x': ht.Integer}]}
    before = list(items)
    shown = [repr(i) for i in items]
    try:
        graph = hg.Graph(items, data_types)
    except GraphValidationError as e:
        graph, errors = None, e.errors
        text = str(e)
    ensure(items == before and [repr(i) for i in items] == shown,
           'the list of items was changed')
    if want:
        if graph is not None:
            fail('accepted; problems: %r', want)
        ensure(errors, 'no errors are listed')
        for kind, names in want:
            obs.label(kind)
            ensure(any(all(named(n, m) for n in names) for m in errors),
                   '%s %r is not named in %r', kind, names, errors)
        for m in errors:
            ensure(m in text, 'error %r is not in the text of the exception',
                   m)
            ensure(any(all(named(n, m) for n in names)
                       for _, names in want),
                   'error %r for a graph with problems %r', m, want)
        if len(want) > 1:
            obs.label('several problems')
        return True
    if graph is None:
        fail('a well-formed graph is refused: %r', errors)
    nodes = [g for g in spec if g['name'] is not None]
    roots = [i for g in spec if g['name'] is None for i in g['items']]

    def same(what, got, wanted):
        ensure(got == wanted, '%s: %r, declared: %r', what, got, wanted)
    same('nodes', [n.name for n in graph.nodes], [n['name'] for n in nodes])
    same('nodes_map', list(graph.nodes_map), [n['name'] for n in nodes])
    same('items', [i.name for i in graph.items], [g['name'] for g in spec])
    for got, g in zip(graph.items, spec):
        same('class', type(got), hg.Root if g['name'] is None else hg.Node)
        same('item', [show(i) for i in got.fields],
             [want_item(i) for i in g['items']])
    for n in nodes:
        got = graph.nodes_map[n['name']]
        same('description', got.description, n['desc'])
        same('fields', [show(i) for i in got.fields],
             [want_item(i) for i in n['items']])
        same('fields_map', [(k, show(i)) for k, i in got.fields_map.items()],
             [(i['name'], want_item(i)) for i in n['items']])
        same('type', dict(graph.__types__[n['name']].__field_types__),
             {i['name']: want_item(i)['type'] or ht.Any for i in n['items']})
    same('root', [show(i) for i in graph.root.fields],
         [want_item(i) for i in roots])
    same('iter_root', [show(i) for i in graph.iter_root()],
         [want_item(i) for i in roots])
    same('root map', [(k, show(i)) for k, i in graph.root.fields_map.items()],
         [(i['name'], want_item(i)) for i in roots])
    same('root type', dict(graph.__types__['__root__'].__field_types__),
         {i['name']: want_item(i)['type'] or ht.Any for i in roots})
    same('types', set(graph.__types__),
         {n['name'] for n in nodes} | {'__root__', 'D'})
    same('data types', dict(graph.data_types), data_types)
    obs.label('well-formed')
    return sum(bool(g['items']) for g in spec) > 1


# ------------------------------------------------------- types of links

def gen_link(d):
    ref = ('ref', d.pick(NODES))
    t = d.pick([ref, ref, V.draw_type(d, [], 2), ('none',)])
    for _ in range(d.int(0, 3)):
        k = d.int(0, 4)
        t = (('opt', t), ('seq', t), ('opt', t), ('seq', t),
             ('map', ('str',), t))[k] if t[0] != 'none' else t
    return {'type': t}


def check_link(case, obs):
    t = case['type']
    inner = t[1] if t[0] in ('opt', 'seq') else t
    want = {'ref': 'One', 'opt': 'Maybe', 'seq': 'Many'}[t[0]] \
        if inner[0] == 'ref' else None
    try:
        link = hg.Link('x', V.to_type(t), fn0, requires=None)
    except TypeError:
        ensure(want is None, 'a link to %r is refused', t)
        obs.label('refused')
        return True
    ensure(want is not None, 'a link to %r is accepted: %r', t, link)
    ensure(link.type_enum is getattr(hg, want) and link.node == inner[1],
           'a link to %r is of the kind %r, to %r', t, link.type_enum,
           link.node)
    obs.label('accepted')
    return True


TESTS = [Test('graphs', gen, check, 12000, size=500),
         Test('link types', gen_link, check_link, 800, size=200)]

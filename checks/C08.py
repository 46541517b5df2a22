"""C08: options reach loaders intact and never mix between aliases."""
from hiku import graph as hg
from hiku import query as hq
from hiku.engine import Engine
from hiku.query import merge
from hiku.result import denormalize
from hiku.types import TypeRef

from lib import world as wd
from lib.execs import SyncExecutor, ScheduledExecutor
from lib.runner import Test, ensure, fail
from lib.values import canon, same

PROPERTY = 'C08'
RULE = ('alias: some field or link was requested with at least two different '
        'option values; options: at least one default was used or an '
        'undeclared option was given, or a required option was missing')

def nested(n, v):
    for i in range(n):
        v = [v] if i % 2 else {'a': v}
    return v


# groups of values that are easily confused (equal hash, equal, or equal text)
CONFUSABLE = [
    [-1, -2], [1, True, 1.0, '1'], [0, False, 0.0, '', None],
    [[], {}, None, '[]', '{}', ()], [[1], [True], [1.0], ['1'], {'1': 1}],
    [[-1], [-2]], [{'a': -1}, {'a': -2}], [{'a': 1}, {'a': True}],
    [{'a': 1, 'b': 2}, {'a': 2, 'b': 1}], [[1, 2], [2, 1]],
    [[[]], [{}], [None], [[], []]], [{'a': []}, {'a': {}}, {'a': None}],
    [2 ** 61 - 1, 0], [2 ** 61, 1], ['a', "'a'", ['a']], [[1, [2]], [[1], 2]],
    [{'a': {'b': 1}}, {'a': {'b': 2}}], ['None', None], ['True', True],
    [{'a': 1}, [['a', 1]], {'a': [1]}],
    [2 ** 53, 2 ** 53 + 1, float(2 ** 53)], [2 ** 64, 2 ** 64 + 1],
    [0.1 + 0.2, 0.3], ['\xe9', 'e\u0301'], ['a', 'A', ' a', 'a '],
    ['a' * 300 + 'b', 'a' * 300 + 'c', 'a' * 300], ['a' * 40, 'a' * 41],
    [list(range(60)), list(range(59)) + [61], list(range(59))],
    [list(range(12)), list(range(11)) + [0]],
    [nested(14, 1), nested(14, 2), nested(13, 1)],
    [nested(40, 'a'), nested(40, 'b')],
    [{'k%d' % i: i for i in range(20)},
     {'k%d' % i: i % 19 for i in range(20)}],
]


def draw_confusable(d):
    v = d.pick(d.pick(CONFUSABLE))
    return list(v) if isinstance(v, tuple) else v


def gen_world(d):
    def opts():
        out = []
        for n in d.sample(['o', 'p'], 1, 2):
            o = {'n': n, 't': d.pick([('any',), ('none',)])}
            if d.bool():
                o['d'] = draw_confusable(d)
            out.append(o)
        return out

    def link(name, node_fields):
        req = d.pick([None] + node_fields)
        return {'k': 'l', 'name': name, 'node': 'N', 'fn': 'l' + name,
                'card': d.pick(['one', 'many', 'maybe']), 'req': req,
                'opts': opts()}
    rec = ('rec', [('f', ('int',)), ('g', ('str',))])
    # a link may require a field with options, which gets the defaults then
    a_opts = opts()
    defaults = all('d' in o for o in a_opts)
    node = {'name': 'N', 'ids': d.sample([1, 2, 0, 'a', -1, -2], 1, 3),
            'items': [
                {'k': 'f', 'name': 'a', 'type': ('int',), 'fn': 'n0',
                 'opts': a_opts},
                {'k': 'f', 'name': 'b', 'type': ('str',),
                 'fn': d.pick(['n0', 'n1']), 'opts': []},
                {'k': 'f', 'name': 'c', 'type': rec, 'fn': 'n0',
                 'opts': opts()},
                link('y', ['b'] + (['a'] * 2 if defaults else []))]}
    root = [{'k': 'f', 'name': 'r', 'type': ('str',), 'fn': 'r0',
             'opts': opts()},
            link('x', [])]
    if d.bool():
        root.append(link('z', []))
    return {'types': [], 'nodes': [node], 'roots': [root], 'ctx': [],
            'salt': d.int(0, 9)}


def gen_query(d, w, node, depth):
    items = list(w.items[node].values())
    out, n = [], 0
    group = d.pick(CONFUSABLE)
    plain = set()
    for _ in range(d.int(1, 5)):
        item = d.pick(items)
        if item['k'] == 'l' and depth <= 0:
            continue
        opts = {}
        for o in item['opts']:
            if 'd' not in o or d.int(0, 3):
                v = d.pick(group) if d.int(0, 3) else draw_confusable(d)
                opts[o['n']] = list(v) if isinstance(v, tuple) else v
        alias = 'k%d' % n
        n += 1
        if item['name'] not in plain and d.bool():
            alias = None
            plain.add(item['name'])
        if item['k'] == 'l':
            out.append(('l', item['name'], opts or None, alias,
                        gen_query(d, w, item['node'], depth - 1) or
                        [('f', 'b', None, None)]))
        elif item['name'] == 'c' and d.bool():
            out.append(('l', 'c', opts or None, alias,
                        [('f', 'f', None, None)]))
        else:
            out.append(('f', item['name'], opts or None, alias))
    return out


def gen_alias(d):
    world = gen_world(d)
    w = wd.W(world)
    return {'world': world, 'query': gen_query(d, w, None, 3),
            'schedule': [d.byte() for _ in range(6)],
            'merge': d.bool()}


# families of values for many aliases of one item
FAMILIES = {
    'int': lambda i: i, 'negative': lambda i: -i, 'text': str,
    'longer': lambda i: 'a' * i, 'list': lambda i: [i, -i],
    'length': lambda i: [0] * i, 'key': lambda i: {'k%d' % i: 1},
    'value': lambda i: {'k': i, 'j': 0}, 'float': lambda i: i / 7,
    'again': lambda i: i % 5, 'deep': lambda i: nested(i % 40, i // 40),
    'power': lambda i: 2 ** i, 'case': lambda i: chr(65 + i),
    'mixed': lambda i: [i // 4, bool(i // 4), str(i // 4),
                        float(i // 4)][i % 4],
}


def gen_many(d):
    """Many aliases of one item, each with its own options."""
    world = gen_world(d)
    w = wd.W(world)
    n = d.pick([8, 17, 33, 40, 65, 130, 260])
    inner = d.bool()
    item = w.items['N' if inner else None][d.pick(
        ['a', 'c', 'y'] if inner else ['r', 'x'])]
    families = [FAMILIES[d.pick(sorted(FAMILIES))] for _ in item['opts']]
    shift = d.pick([0, 1, 7])
    extra = {o['n']: 0 for o in w.items[None]['x']['opts'] if 'd' not in o}
    sel = []
    for i in range(n):
        opts = {o['n']: f(i + k * shift)
                for k, (o, f) in enumerate(zip(item['opts'], families))}
        if item['k'] == 'l':
            sel.append(('l', item['name'], opts, 'k%d' % i,
                        [('f', 'b', None, None)]))
        else:
            sel.append(('f', item['name'], opts, 'k%d' % i))
    if d.bool():
        sel.reverse()
    if inner:
        sel = [('l', 'x', extra or None, None, sel)]
    return {'world': world, 'query': sel,
            'schedule': [d.byte() for _ in range(6)],
            'merge': d.bool()}


def variants(sel, out=None):
    out = {} if out is None else out
    for e in sel:
        out.setdefault(e[1], set()).add(canon(e[2] or {}))
        if e[0] == 'l':
            variants(e[4], out)
    return out


def executor(case):
    return SyncExecutor() if case['schedule'][0] % 2 else \
        ScheduledExecutor(case['schedule'])


def check_alias(case, obs):
    run = wd.Run(case['world'])
    graph = run.graph()
    query = wd.to_node(case['query'])
    if case['merge']:
        query = merge([query, wd.to_node(case['query'])])
    result = Engine(executor(case)).execute(graph, query)
    got = denormalize(graph, result)
    want = wd.evaluate(run.w, case['query'])
    ensure(same(got, want), 'aliases with different options\n got: %r\n'
           'want: %r', got, want)
    n = max(map(len, variants(case['query']).values()), default=0)
    obs.label('variants%d' % min(n, 4))
    return n >= 2


# -- exactly the declared options, defaults, missing ones

def gen_options(d):
    """One field and one link, at the root and on a node, with drawn option
    declarations; each is requested once or twice."""
    def decl():
        return [(n, draw_confusable(d) if d.int(0, 2) else '<required>')
                for n in d.sample(['o', 'p', 'q', 'limit'], 1, 3)]

    def given(decl, spoil):
        out = {}
        for n, default in decl:
            if default == '<required>':
                if not (spoil and d.bool()):
                    out[n] = draw_confusable(d)
            elif d.bool():
                out[n] = draw_confusable(d)
        if d.chance(1, 4):
            out[d.pick(['zz', 'o', 'limit'])] = draw_confusable(d)
        if not out:
            return d.pick([None, {}])
        return out
    decls = {k: decl() for k in ['rf', 'rl', 'nf', 'nl']}
    spoil = d.chance(1, 4)
    uses = {k: d.many(1, 2, lambda k=k: given(decls[k], spoil))
            for k in decls}
    return {'decls': decls, 'uses': uses, 'reqs': d.int(0, 3),
            'ordered': d.chance(1, 4),
            'schedule': [d.byte() for _ in range(6)]}


def check_options(case, obs):
    seen = {k: [] for k in case['decls']}

    def options(k):
        return [hg.Option(n, None) if v == '<required>' else
                hg.Option(n, None, default=v) for n, v in case['decls'][k]]

    def fields(k):
        def load(fs, ids=None):
            for f in fs:
                if f.name == 'plain':
                    continue
                seen[k].append(f.options)
            row = [7 for _ in fs]
            return row if ids is None else [row for _ in ids]
        return load

    def links(k):
        def load(*args):
            seen[k].append(args[-1])
            if len(args) == 2 and k == 'nl':
                return [1 for _ in args[0]]
            return 1
        return load
    r = case['reqs']
    nf, rf = fields('nf'), fields('rf')
    graph = hg.Graph([
        hg.Node('N', [
            hg.Field('plain', None, nf),
            hg.Field('f', None, nf, options=options('nf')),
            hg.Link('l', TypeRef['N'], links('nl'),
                    requires='plain' if r & 1 else None,
                    options=options('nl'))]),
        hg.Root([
            hg.Field('plain', None, rf),
            hg.Field('f', None, rf, options=options('rf')),
            hg.Link('l', TypeRef['N'], links('rl'),
                    requires='plain' if r & 2 else None,
                    options=options('rl'))]),
    ])
    u = case['uses']

    def f(k):
        return [hq.Field('f', wd.copy_plain(o), alias='f%d' % i)
                for i, o in enumerate(u[k])]
    inner = f('nf') + [hq.Link('l', hq.Node([hq.Field('plain')]),
                               wd.copy_plain(o), alias='l%d' % i)
                       for i, o in enumerate(u['nl'])]
    query = hq.Node(f('rf') + [hq.Link('l', hq.Node(inner),
                                       wd.copy_plain(o), alias='l%d' % i)
                               for i, o in enumerate(u['rl'])],
                    ordered=case['ordered'])
    missing = any(n not in (o or {}) for k in u for o in u[k]
                  for n, v in case['decls'][k] if v == '<required>')
    special = missing
    try:
        Engine(executor(case)).execute(graph, query)
    except TypeError:
        if not missing:
            raise
        obs.label('missing')
        return True
    if missing:
        fail('a required option is missing, but execution succeeded')
    for k, given in u.items():
        want = []
        for o in given:
            o = o or {}
            want.append({n: o.get(n, v) for n, v in case['decls'][k]})
            special |= any(n not in o for n, _ in case['decls'][k]) or \
                any(n not in dict(case['decls'][k]) for n in o)
        # a node-level loader is called for every root link
        times = len(u['rl']) if k in ('nf', 'nl') else 1
        ensure(sorted(map(canon, seen[k])) ==
               sorted(list(map(canon, want)) * times),
               'options seen by the %s loader\n got: %r\nwant: %r (x%d)', k,
               seen[k], want, times)
    return special


TESTS = [
    Test('alias', gen_alias, check_alias, 12000, size=600),
    Test('many', gen_many, check_alias, 800, size=200),
    Test('options', gen_options, check_options, 6000, size=400),
]

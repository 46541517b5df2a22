"""Stacked graphs with expression fields over a world, and their reference
meaning by a direct interpreter.

stack = {
  'world': low-level world,
  'levels': [{node name: [expression item, ...]}, ...],    lowest first
  'fns': [[argument spec, ...], ...],
}
Level 0 is the world itself. Level k has the same nodes and links; its fields
are the fields of level k-1 (through SubGraph) and expression items:
{'k': 'f', 'name', 'type', 'fn', 'opts', 'expr'}.

expression = ('lit', v) | ('var', name) | ('get', e, name)
 | ('each', var, e, e) | ('if', e, e, e) | ('ifsome', var, e, e, e)
 | ('call', fn, [e]) | ('list', [e]) | ('dict', [(key, e)])
argument spec = ('any',) | ('leaf', type spec) | ('rec', [(name, spec)])
 | ('seq', spec) | ('opt', spec)
"""
from hiku import graph as hg
from hiku import types as ht
from hiku.expr.core import S, define, each, if_, if_some
from hiku.sources.graph import SubGraph

from . import values as V
from . import world as wd
from .runner import Violation

VARS = ['x', 'y', 'v', 'this', 'x_2', 'env', 'ctx', 'next', 'a', 'b', 'id',
        'o', 'this_2', 'y_2', 'lambda', 'None', 'obj']
OPTS = ['o', 'p', 'x', 'env', 'a', 'ctx', 'next', 'None', 'obj']


# ------------------------------------------------------------------ levels

def expressible(item):
    """Can be used without options."""
    return all('d' in o for o in item['opts'])


class Level(wd.W):
    """Level of the stack as a world, for query generation and evaluation."""

    def __init__(self, stack, k):
        world = stack['world']
        self.below = Level(stack, k - 1) if k else None
        if k:
            nodes = []
            for n in world['nodes']:
                items = []
                for i in self.below.items[n['name']].values():
                    if i['k'] == 'f' and expressible(i):
                        i = dict(i, opts=[], through=True)
                        i.pop('expr', None)
                        items.append(i)
                    elif i['k'] == 'l':
                        items.append(i)
                items += stack['levels'][k - 1].get(n['name'], [])
                nodes.append(dict(n, items=items))
            world = dict(world, nodes=nodes)
        super().__init__(world)
        self.k = k
        self.stack = stack
        self.steps = 0
        self.total = 0

    def field_value(self, fn, item, ident, opts):
        if 'expr' in item:
            env = dict(opts)
            env['this'] = RObj(self.below, item['node'], ident)
            self.below.steps = 0
            v = interpret(item['expr'], env, self.below)
            return plain(v)
        if item.get('through'):
            low = self.below.items[item['node']][item['name']]
            return self.below.field_value(
                low['fn'], low, ident, self.below.full_options(low, None))
        return super().field_value(fn, item, ident, opts)


class TooBig(Exception):
    """The reference value is too big; the case is given up."""


class RObj:
    """An object of a level."""

    def __init__(self, level, node, ident):
        self.level = level
        self.node = node
        self.ident = ident

    def __getitem__(self, name):
        lv = self.level
        lv.total += 1
        if lv.big and lv.total > 60000:
            raise TooBig
        item = lv.items[self.node][name]
        opts = lv.full_options(item, None)
        if item['k'] == 'f':
            return lv.field_value(item['fn'], item, self.ident, opts)
        t = lv.targets(item, wd._reqval(lv, self.node, item, self.ident),
                       opts)
        if item['card'] == 'many':
            return [RObj(lv, item['node'], i) for i in t]
        if t is hg.Nothing:
            return None
        return RObj(lv, item['node'], t)


def plain(v):
    if isinstance(v, RObj):
        raise AssertionError('an object in a plain value')
    if isinstance(v, (list, tuple)):
        return [plain(i) for i in v]
    if isinstance(v, dict):
        return {k: plain(i) for k, i in v.items()}
    return v


# -------------------------------------------------------------- functions

def read_arg(spec, v):
    k = spec[0]
    if k in ('any', 'leaf'):
        return v
    if k == 'seq':
        return [read_arg(spec[1], i) for i in v]
    if k == 'opt':
        return None if v is None else read_arg(spec[1], v)
    return {n: read_arg(s, v[n]) for n, s in spec[1]}


def function(i, specs):
    def body(*args):
        if len(args) != len(specs):
            raise Violation('function got %d arguments instead of %d' % (
                len(args), len(specs)))
        return ['F%d' % i] + [read_arg(s, a) for s, a in zip(specs, args)]
    # functions of different names, or of one
    body.__name__ = 'fn%d' % i if len(specs) % 2 else 'fn'
    return body


def arg_type(spec):
    k = spec[0]
    if k == 'any':
        return ht.Any
    if k == 'leaf':
        return V.to_type(spec[1])
    if k == 'seq':
        return ht.Sequence[arg_type(spec[1])]
    if k == 'opt':
        return ht.Optional[arg_type(spec[1])]
    return ht.Record[[(n, arg_type(s)) for n, s in spec[1]]]


def edn_spec(spec):
    """Text form of an argument spec, or None."""
    if spec[0] == 'any':
        return 'nil'
    if spec[0] != 'rec':
        return None
    out = []
    for n, s in spec[1]:
        if s[0] == 'any':
            out.append(':' + n)
        else:
            t = edn_spec(s)
            if t is None:
                return None
            out.append('{:%s %s}' % (n, t))
    return '[%s]' % ' '.join(out)


def make_functions(fns):
    out = []
    for i, specs in enumerate(fns):
        texts = [edn_spec(s) for s in specs]
        if i % 2 and specs and all(texts):
            dec = define('[%s]' % ' '.join(texts))
        else:
            dec = define(*[arg_type(s) for s in specs])
        out.append(dec(function(i, specs)))
    return out


# ---------------------------------------------------------- the real thing

def to_hiku(e, fns):
    k = e[0]
    if k == 'lit':
        return wd.copy_plain(e[1])
    if k == 'var':
        return getattr(S, e[1])
    if k == 'get':
        return getattr(to_hiku(e[1], fns), e[2])
    if k == 'each':
        return each(getattr(S, e[1]), to_hiku(e[2], fns), to_hiku(e[3], fns))
    if k == 'if':
        return if_(*[to_hiku(i, fns) for i in e[1:]])
    if k == 'ifsome':
        return if_some([getattr(S, e[1]), to_hiku(e[2], fns)],
                       to_hiku(e[3], fns), to_hiku(e[4], fns))
    if k == 'call':
        return fns[e[1]](*[to_hiku(i, fns) for i in e[2]])
    if k == 'list':
        return [to_hiku(i, fns) for i in e[1]]
    if k == 'dict':
        return {key: to_hiku(i, fns) for key, i in e[1]}
    raise ValueError(e)


class StackRun:
    """Builds the real graphs of a stack."""

    def __init__(self, stack, async_=False, transform=None, styles=True,
                 split=()):
        self.stack = stack
        # where another source is made for the next item
        self.split = list(split)
        self.run = wd.Run(stack['world'], async_=async_, styles=styles)
        self.fns = make_functions(stack['fns'])
        graph = self.run.graph()
        self.graphs = [graph]
        for k in range(1, len(stack['levels']) + 1):
            if transform is not None:
                graph = transform(graph)
            graph = self.level(graph, k)
            self.graphs.append(graph)
        if transform is not None:
            graph = transform(graph)
        self.graph = graph

    def level(self, below, k):
        lv = Level(self.stack, k)
        nodes = []
        for n in lv.world['nodes']:
            sg = SubGraph(below, n['name'])
            items = []
            for i in n['items']:
                if self.split:
                    self.split.append(self.split.pop(0))
                    if self.split[0]:
                        sg = SubGraph(below, n['name'])
                if 'expr' in i:
                    items.append(hg.Field(
                        i['name'], V.to_type(i['type']),
                        sg.c(to_hiku(i['expr'], self.fns)),
                        options=[self.run.option(o) for o in i['opts']]))
                elif i.get('through'):
                    items.append(hg.Field(i['name'], V.to_type(i['type']),
                                          sg))
                else:
                    items.append(self.run.item(i))
            nodes.append(hg.Node(n['name'], items))
        roots = [hg.Root([self.run.item(i) for i in r])
                 for r in lv.world['roots']]
        return hg.Graph(nodes + roots, data_types=self.run.data_types())


def interpret(e, env, level):
    level.steps += 1
    level.total += 1
    if level.steps > 20000 or level.big and level.total > 60000:
        raise TooBig
    k = e[0]
    if k == 'lit':
        return e[1]
    if k == 'var':
        if e[1] in env:
            return env[e[1]]
        return RObj(level, None, 'ROOT')[e[1]]
    if k == 'get':
        return interpret(e[1], env, level)[e[2]]
    if k == 'each':
        return [interpret(e[3], dict(env, **{e[1]: i}), level)
                for i in interpret(e[2], env, level)]
    if k == 'if':
        return interpret(e[2] if interpret(e[1], env, level) else e[3], env,
                         level)
    if k == 'ifsome':
        v = interpret(e[2], env, level)
        if v is None:
            return interpret(e[4], env, level)
        return interpret(e[3], dict(env, **{e[1]: v}), level)
    if k == 'call':
        args = [interpret(i, env, level) for i in e[2]]
        return function(e[1], level.stack['fns'][e[1]])(*args)
    if k == 'list':
        return [interpret(i, env, level) for i in e[1]]
    if k == 'dict':
        return {key: interpret(i, env, level) for key, i in e[1]}
    raise ValueError(e)


# ------------------------------------------------------------- generation

class Gen:
    """Draws well-typed expressions over a level.

    Types: V specs and ('node', name)."""

    def __init__(self, d, level, fns):
        self.d = d
        self.level = level
        self.types = level.types
        self.fns = fns
        self.uses = set()

    def item_type(self, i):
        if i['k'] == 'f':
            return ('any',) if i['type'][0] == 'none' else i['type']
        t = ('node', i['node'])
        return {'one': t, 'maybe': ('opt', t), 'many': ('seq', t)}[i['card']]

    def fields_of(self, t):
        """[(name, type)] of an object type, or None."""
        t = V.resolve(t, self.types)
        if t[0] == 'node':
            return [(i['name'], self.item_type(i))
                    for i in self.level.items[t[1]].values()
                    if expressible(i)]
        if t[0] == 'rec':
            return list(t[1])
        return None

    def root_env(self, node, opts):
        env = {i['name']: self.item_type(i)
               for i in self.level.items[None].values() if expressible(i)}
        for o in opts:
            env[o['n']] = ('any',) if o['t'][0] == 'none' else o['t']
        env['this'] = ('node', node)
        return env

    def res(self, t):
        return V.resolve(t, self.types)

    def has_object(self, t):
        """Holds an object of a graph (not plain data)."""
        t = self.res(t)
        if t[0] == 'node':
            return True
        return t[0] in ('opt', 'seq') and self.has_object(t[1])

    def steps(self, start, depth):
        """A path from a variable: (expression, type)."""
        d = self.d
        e, t = start
        for _ in range(d.int(0, depth)):
            fields = self.fields_of(t)
            if not fields:
                break
            n, t = d.pick(fields)
            e = ('get', e, n)
        return e, t

    def path(self, env, want, depth=3, tries=6):
        """A path whose type satisfies want(type), or None."""
        d = self.d
        names = list(env)
        for _ in range(tries):
            if d.bool() and 'this' in env:
                n = 'this'
            else:
                n = d.pick(names)
            e, t = self.steps((('var', n), env[n]), depth)
            for _ in range(3):
                if want(t):
                    return e, t
                fields = self.fields_of(t)
                if not fields:
                    break
                n2, t = d.pick(fields)
                e = ('get', e, n2)
            if want(t):
                return e, t
        return None

    def scalar(self, env):
        p = self.path(env, lambda t: not self.has_object(t))
        return p[0] if p else ('lit', self.literal())

    def literal(self):
        d = self.d
        return d.pick([None, True, False, 0, 1, -1, 7, 1.5, -0.5, '', 'a',
                       'é"\'', 'x\n', [], {}, [1, [None]], {'k': [True]},
                       0.1 + 0.2, 1e-13, 123456789.12345679, 1e300,
                       10 ** 30, -2 ** 63, ' a ', '\x00', 'x' * 300,
                       list(range(20))])

    def expr(self, env, depth):
        d = self.d
        c = d.int(0, 13) if depth > 0 else d.int(0, 4)
        if c <= 3:
            return self.scalar(env)
        if c == 4:
            return ('lit', self.literal())
        if c <= 6:
            return self.call(env, depth)
        if c <= 8:
            p = self.path(env, lambda t: self.res(t)[0] == 'seq')
            if p is None:
                return self.call(env, depth)
            e, t = p
            var = d.pick(VARS)
            self.uses.add('each')
            if var in env:
                self.uses.add('shadowing')
            return ('each', var, e, self.expr(
                dict(env, **{var: self.res(t)[1]}), depth - 1))
        if c <= 10:
            p = self.path(env, lambda t: self.res(t)[0] == 'opt')
            if p is None and d.bool():
                p = self.path(env, lambda t: not self.has_object(t))
            if p is None:
                return self.call(env, depth)
            e, t = p
            t = self.res(t)
            var = d.pick(VARS)
            self.uses.add('if_some')
            if var in env:
                self.uses.add('shadowing')
            return ('ifsome', var, e, self.expr(
                dict(env, **{var: t[1] if t[0] == 'opt' else t}), depth - 1),
                self.expr(env, depth - 1))
        if c == 11:
            self.uses.add('if')
            test = self.path(env, lambda t: True) if d.bool() else None
            test = test[0] if test else self.expr(env, depth - 1)
            return ('if', test, self.expr(env, depth - 1),
                    self.expr(env, depth - 1))
        if c == 12:
            return ('list', d.many(1, 8 if d.chance(1, 12) else 3,
                                   lambda: self.expr(env, depth - 1)))
        return ('dict', [(k, self.expr(env, depth - 1))
                         for k in d.sample(['k', 'a', 'é', 'k-1', '_k', 'k_', 'K',
                                         '', ' a'], 1, 3)])

    all_fields = fields_of

    def fits(self, t, spec):
        """A value of the type can be given, and the links below it are not
        taken as plain data."""
        def plain_links(t, spec):
            t = self.res(t)
            if spec[0] in ('any', 'leaf'):
                return not self.has_object(t)
            if spec[0] in ('opt', 'seq'):
                return plain_links(t[1] if t[0] == spec[0] else t, spec[1])
            fields = dict(self.fields_of(t))
            return all(plain_links(fields[n], s) for n, s in spec[1])
        try:
            assignable(t, spec, self)
        except (IllTyped, Undecided):
            return False
        return plain_links(t, spec)

    def again(self, env, depth):
        """A call of a function which is already used somewhere."""
        d = self.d
        i = d.int(0, len(self.fns) - 1)
        args = []
        for spec in self.fns[i]:
            if spec[0] == 'any':
                args.append(self.expr(env, depth - 1))
            else:
                p = self.path(env, lambda t: self.fits(t, spec))
                if p is None:
                    return None
                args.append(p[0])
        self.uses.add('function again')
        return ('call', i, args)

    def call(self, env, depth):
        d = self.d
        if self.fns and d.chance(1, 5):
            e = self.again(env, depth)
            if e is not None:
                return e
        specs, args = [], []
        for _ in range(d.int(4, 9) if d.chance(1, 25) else d.int(0, 3)):
            p = None
            if d.int(0, 3):
                p = self.path(env, lambda t: self.spec_of(t, 0) is not None)
            if p is None:
                specs.append(('any',))
                args.append(self.expr(env, depth - 1))
                continue
            e, t = p
            specs.append(self.spec_of(t, d.int(3, 4) if d.chance(1, 8)
                                      else d.int(1, 2)))
            args.append(e)
        self.fns.append(specs)
        self.uses.add('function')
        return ('call', len(self.fns) - 1, args)

    def spec_of(self, t, depth):
        """What a function declares to use of the type; None if there is
        nothing to use. With depth 0 only tells if there is something."""
        d = self.d
        r = self.res(t)
        if r[0] in ('opt', 'seq'):
            inner = self.spec_of(r[1], depth)
            return inner and (r[0], inner)
        fields = self.fields_of(t)
        if fields is None:
            return None
        out = []
        usable = [(n, ft) for n, ft in fields
                  if self.fields_deep(ft) is None or
                  (depth > 1 and self.spec_of(ft, 0))
                  or not self.has_object(ft)]
        if not usable:
            return None
        if depth == 0 or d.chance(1, 12):
            return ('rec', [])      # the object is used, not its fields
        for n, ft in d.sample(usable, 1, 3):
            wrap = d.chance(1, 6)
            if self.fields_deep(ft) is not None and (
                    self.has_object(ft) or d.bool()):
                s = self.spec_of(ft, depth - 1) if depth > 1 else None
                if s is None:
                    if self.has_object(ft):
                        continue
                    s = ('any',)
            elif d.bool():
                s = ('any',)
            else:
                s = ('leaf', ('opt', ft) if wrap else ft)
                wrap = False
            if wrap and s[0] == 'rec':
                s = ('opt', s)
            out.append((n, s))
        return ('rec', out) if out else \
            ('rec', [(n, ('any',)) for n, ft in usable[:1]
                     if not self.has_object(ft)]) if any(
                not self.has_object(ft) for _, ft in usable[:1]) else None

    def fields_deep(self, t):
        r = self.res(t)
        if r[0] in ('opt', 'seq'):
            return self.fields_deep(r[1])
        return self.fields_of(t)


def stacks(d, levels=2, lowest=1, prepare=None, **kw):
    world = wd.worlds(d, **kw)
    if prepare is not None:
        prepare(world)
    for n in world['nodes']:
        for i in n['items']:
            i['node_'] = n['name']
    for n in world['nodes']:
        for i in n['items']:
            i.pop('node_')
    # RObj and Level need the node of a field
    for n in world['nodes']:
        n['items'] = [dict(i, node=n['name']) if i['k'] == 'f' else i
                      for i in n['items']]
    stack = {'world': world, 'levels': [], 'fns': []}
    uses = set()
    for k in range(1, d.int(lowest, levels) + 1):
        below = Level(stack, k - 1)
        here = {}
        for n in world['nodes']:
            out = []
            for j in range(d.int(1, 3)):
                opts = []
                if d.chance(1, 3):
                    for name in d.sample(OPTS, 1, d.pick([2, 2, 2, 6])):
                        t = V.draw_type(d, [], 1)
                        o = {'n': name, 't': t}
                        if d.bool():
                            o['d'] = V.draw_value(d, t)
                        opts.append(o)
                g = Gen(d, below, stack['fns'])
                e = g.expr(g.root_env(n['name'], opts),
                           d.int(4, 5) if d.chance(1, 15) else d.int(1, 3))
                uses |= g.uses
                out.append({'k': 'f', 'name': 'e%d_%d' % (k, j),
                            'type': ('none',), 'fn': 'e', 'opts': opts,
                            'expr': e, 'node': n['name']})
            here[n['name']] = out
        stack['levels'].append(here)
    return stack, uses


def stack_and_query(d, levels=2, depth=2, lowest=1, **kw):
    stack, uses = stacks(d, levels, lowest, **kw)
    top = Level(stack, len(stack['levels']))
    sel = wd.draw_selection(d, top, None, depth)
    return {'stack': stack, 'query': sel, 'uses': sorted(uses)}


def stacked_graphs(d, most=20):
    """Graphs over graphs, many of them; or few, with expressions"""
    case = None
    if d.chance(1, 3):
        case = stack_and_query(d)
        case.pop('uses')
        try:
            wd.evaluate(Level(case['stack'], len(case['stack']['levels'])),
                        case['query'])
        except TooBig:
            case = None
    if case is None:
        world = wd.worlds(d, max_nodes=2, records=False, options=False)
        for n in world['nodes']:
            n['items'] = [dict(i, node=n['name']) if i['k'] == 'f' else i
                          for i in n['items']]
        stack = {'world': world, 'fns': [],
                 'levels': [{} for _ in range(d.int(1, most))]}
        top = Level(stack, len(stack['levels']))
        case = {'stack': stack,
                'query': wd.draw_selection(d, top, None, 2, max_items=4)}
    case['split'] = [d.bool() for _ in range(d.int(1, 5))]
    return case


def stack_of(case, async_=False):
    """The graphs of the case, a run of its loaders, the expected result"""
    top = Level(case['stack'], len(case['stack']['levels']))
    want = wd.evaluate(top, case['query'])
    stack = StackRun(case['stack'], split=case['split'], async_=async_)
    return stack.run, stack.graph, want


def big_stack(d, lowest=1, **kw):
    """A stack and query which are large in one way: many objects, or many
    fields."""
    kind = d.pick(['ids', 'wide'])
    chosen = []

    def prepare(world):
        link = d.pick([i for i in world['roots'][0] if i['k'] == 'l'])
        if kind == 'ids':
            wd.make_many(world, link)
            world['big'] = d.pick([17, 33, 40, 65, 100, 130, 260])
        chosen.append(link)
    stack, uses = stacks(d, 1 if kind == 'wide' else 2, lowest, prepare,
                         **kw)
    world, levels, link = stack['world'], stack['levels'], chosen[0]
    if kind == 'ids':
        pass
    elif levels:
        n = d.pick([9, 17, 33, 40, 65])
        node = link['node']
        below = Level(stack, len(levels) - 1)
        out = levels[-1][node]
        base = []
        for _ in range(3):
            g = Gen(d, below, stack['fns'])
            base.append(g.expr(g.root_env(node, []), d.int(1, 2)))
            uses |= g.uses
        for i in range(n):
            e = base[i % 3]
            if i % 2:
                e = ('list', [('lit', i), e])
            out.append({'k': 'f', 'name': 'w%d' % i, 'type': ('none',),
                        'fn': 'e', 'opts': [], 'expr': e, 'node': node})
    else:
        n = d.pick([9, 17, 33, 65, 130])
        fns = d.int(1, 3)
        next(w for w in world['nodes'] if w['name'] == link['node'])[
            'items'].extend(
                {'k': 'f', 'name': 'w%d' % i, 'type': ('int',),
                 'fn': 'w%d' % (i % fns), 'opts': [], 'node': link['node']}
                for i in range(n))
    top = Level(stack, len(levels)) if levels else wd.W(world)
    sub = wd.draw_selection(d, top, link['node'], 1, False, 4)
    if kind == 'wide':
        names = {e[3] or e[1] for e in sub}
        sub += [('f', 'w%d' % i, None, None)
                for i in range(0, n, d.int(1, 3)) if 'w%d' % i not in names]
        if d.bool():
            sub.reverse()
    sel = []
    if sub:
        sel.append(('l', link['name'], wd.draw_opts(d, link, top.types),
                    d.pick([None, 'big']), sub))
    seen = {e[3] or e[1] for e in sel}
    sel += [e for e in wd.draw_selection(d, top, None, 1, False, 2)
            if (e[3] or e[1]) not in seen]
    return {'stack': stack, 'query': sel, 'uses': sorted(uses),
            'kind': kind}


def views(d):
    """Nodes of an upper graph that look at the objects of a lower one: there
    may be several over one lower node, with one source, whose fields have
    the same names and other expressions."""
    world = wd.worlds(d)
    for n in world['nodes']:
        n['items'] = [dict(i, node=n['name']) if i['k'] == 'f' else i
                      for i in n['items']]
    stack = {'world': world, 'levels': [], 'fns': []}
    low = Level(stack, 0)
    uses = set()
    out = []
    over = d.sample([n['name'] for n in world['nodes']], 1, 2)
    for k in range(d.int(2, 4)):
        node = d.pick(over)
        fields = []
        for name in d.sample(['x', 'y', 'z'], 1, 3):
            opts = []
            for o in d.sample(OPTS, 1, d.pick([2, 2, 6])) \
                    if d.chance(1, 3) else []:
                t = V.draw_type(d, [], 1)
                opts.append({'n': o, 't': t, 'd': V.draw_value(d, t)})
            g = Gen(d, low, stack['fns'])
            e = g.expr(g.root_env(node, opts), d.int(1, 3))
            uses |= g.uses
            fields.append({'name': name, 'opts': opts, 'expr': e})
        out.append({'name': 'View%d' % k, 'node': node, 'fields': fields,
                    'ids': d.sample(low.pools[node], 1, 3)})
    queries = d.many(1, 4, lambda: [
        (v, d.sample(range(len(out[v]['fields'])), 1, 3),
         d.sample(range(len(out[v]['ids'])), 1, 3))
        for v in d.sample(range(len(out)), 1, 4)])
    return {'stack': stack, 'views': out, 'queries': queries,
            'uses': sorted(uses), 'shared': d.int(0, 3)}


class Views:
    """The real graphs of `views`"""

    def __init__(self, case):
        stack = case['stack']
        self.case = case
        self.run = wd.Run(stack['world'])
        self.low = self.run.graph()
        self.level = Level(stack, 0)
        fns = make_functions(stack['fns'])
        sources = {}
        nodes, links = [], []
        for v in case['views']:
            # sometimes every node has a source of its own
            key = v['node'] if case['shared'] else v['name']
            if key not in sources:
                sources[key] = SubGraph(self.low, v['node'])
            sg = sources[key]
            nodes.append(hg.Node(v['name'], [hg.Field(
                f['name'], None, sg.c(to_hiku(f['expr'], fns)),
                options=[self.run.option(o) for o in f['opts']])
                for f in v['fields']]))
            links.append(hg.Link(
                'to' + v['name'], ht.Sequence[ht.TypeRef[v['name']]],
                lambda opts, v=v: [v['ids'][i] for i in opts['of']],
                requires=None, options=[hg.Option('of', None)]))
        self.graph = hg.Graph(nodes + [hg.Root(links)])

    def query(self, q):
        return wd.to_node([
            ('l', 'to' + self.case['views'][v]['name'], {'of': ids}, None,
             [('f', self.case['views'][v]['fields'][f]['name'], None, None)
              for f in fields]) for v, fields, ids in q])

    def value(self, q):
        out = {}
        lv = self.level
        for v, fields, ids in q:
            v = self.case['views'][v]
            out['to' + v['name']] = rows = []
            for i in ids:
                rows.append({})
                for f in fields:
                    f = v['fields'][f]
                    env = {o['n']: o['d'] for o in f['opts']}
                    env['this'] = RObj(lv, v['node'], v['ids'][i])
                    lv.steps = 0
                    rows[-1][f['name']] = plain(interpret(f['expr'], env, lv))
        return out


def check_views(case, execute):
    """Queries one after another against one graph; returns whether one
    source had different expressions for one name"""
    graphs = Views(case)
    try:
        wants = [graphs.value(q) for q in case['queries']]
    except TooBig:
        return False
    for k in [*range(len(wants)), 0]:
        got = execute(graphs.graph, graphs.query(case['queries'][k]))
        if not V.same(got, wants[k]):
            raise Violation('query %d:\n got:  %r\n want: %r' % (
                k, got, wants[k]))
    seen = {}
    for q in case['queries']:
        for v, fields, _ in q:
            v = case['views'][v]
            for f in fields:
                f = v['fields'][f]
                seen.setdefault((v['node'], f['name']), set()).add(
                    repr(f['expr']))
    return bool(case['shared']) and any(len(e) > 1 for e in seen.values())


def expr_items(sel, level, node=None):
    """Expression items that the query asks for."""
    out = []
    for e in sel:
        item = level.items[node][e[1]]
        if 'expr' in item:
            out.append((node, e[1]))
        if e[0] == 'l' and item['k'] == 'l':
            out += expr_items(e[4], level, item['node'])
    return out


# --------------------------------------------------- reference type checker

class IllTyped(Exception):
    pass


class Undecided(Exception):
    """The property does not say whether this is well-typed."""


def assignable(t, spec, g):
    """Checks a value of type t given where spec is declared."""
    if spec[0] == 'any' or (spec[0] == 'leaf' and spec[1][0] == 'any'):
        return
    # computed values have no declared type
    t = ('any',) if t is None else g.res(t)
    if spec[0] == 'leaf':
        return leaf_assignable(t, g.res(spec[1]), g)
    if spec[0] == 'opt':
        return assignable(t[1] if t[0] == 'opt' else t, spec[1], g)
    if t[0] in ('any', 'none'):
        raise IllTyped('untyped value given to a typed argument')
    if spec[0] == 'seq':
        if t[0] != 'seq':
            raise IllTyped('not a sequence')
        return assignable(t[1], spec[1], g)
    if t[0] not in ('node', 'rec'):
        raise IllTyped('not an object')
    fields = dict(g.all_fields(t))
    bad = []
    for n, s in spec[1]:
        if n not in fields:
            bad.append(IllTyped('missing field'))
            continue
        try:
            assignable(fields[n], s, g)
        except (IllTyped, Undecided) as e:
            bad.append(e)
    raise_worst(bad)


def raise_worst(bad):
    for e in bad:
        if isinstance(e, IllTyped):
            raise e
    if bad:
        raise bad[0]


def leaf_assignable(t, want, g):
    if want[0] == 'any':
        return
    if want[0] == 'opt':
        return leaf_assignable(g.res(t[1]) if t[0] == 'opt' else t,
                               g.res(want[1]), g)
    if t[0] in ('any', 'none'):
        raise IllTyped('untyped value given to a typed argument')
    if {t[0], want[0]} <= {'int', 'float', 'bool'} and t[0] != want[0]:
        raise Undecided('number types')
    if t[0] == 'node' and want[0] == 'rec':
        raise Undecided('not generated')
    if t[0] != want[0]:
        raise IllTyped('types mismatch')
    if t[0] == 'seq':
        leaf_assignable(g.res(t[1]), g.res(want[1]), g)
    elif t[0] == 'map':
        leaf_assignable(g.res(t[1]), g.res(want[1]), g)
        leaf_assignable(g.res(t[2]), g.res(want[2]), g)
    elif t[0] == 'rec':
        have = dict(t[1])
        bad = []
        for n, wt in want[1]:
            if n not in have:
                bad.append(IllTyped('missing field'))
                continue
            try:
                leaf_assignable(g.res(have[n]), g.res(wt), g)
            except (IllTyped, Undecided) as e:
                bad.append(e)
        raise_worst(bad)


class TypeChecker(Gen):

    def all_fields(self, t):
        t = self.res(t)
        if t[0] == 'node':
            return [(i['name'], self.item_type(i))
                    for i in self.level.items[t[1]].values()]
        return list(t[1]) if t[0] == 'rec' else None

    def root_env(self, node, opts):
        env = super().root_env(node, opts)
        for i in self.level.items[None].values():
            env.setdefault(i['name'], self.item_type(i))
        return env

    def verdict(self, e, env):
        """(type or None, [problems])"""
        bad = []
        t = self.check(e, env, bad)
        return t, bad

    def check(self, e, env, bad):
        """The declared type of the expression (None for computed values and
        after a problem); problems are added to `bad`."""
        k = e[0]
        if k == 'var':
            if e[1] not in env:
                bad.append(IllTyped('unknown name'))
                return None
            return env[e[1]]
        if k == 'get':
            n = len(bad)
            t = self.check(e[1], env, bad)
            if t is None:
                if len(bad) == n:
                    bad.append(Undecided('attribute of a computed value'))
                return None
            r = self.res(t)
            if r[0] in ('any', 'none'):
                bad.append(Undecided('attribute of an untyped value'))
                return None
            fields = self.all_fields(r)
            if fields is None:
                bad.append(IllTyped('attribute of something without fields'))
                return None
            if e[2] not in dict(fields):
                bad.append(IllTyped('unknown field'))
                return None
            return dict(fields)[e[2]]
        if k == 'each':
            n = len(bad)
            t = self.check(e[2], env, bad)
            inner = ('any',)
            if t is None:
                if len(bad) == n:
                    bad.append(Undecided('each over a computed value'))
            else:
                r = self.res(t)
                if r[0] == 'seq':
                    inner = r[1]
                elif r[0] in ('any', 'none'):
                    bad.append(Undecided('each over an untyped value'))
                else:
                    bad.append(IllTyped('each over a non-sequence'))
            self.check(e[3], dict(env, **{e[1]: inner}), bad)
            return None
        if k == 'ifsome':
            n = len(bad)
            t = self.check(e[2], env, bad)
            if t is None:
                if len(bad) == n:
                    bad.append(Undecided('if_some with a computed value'))
                t = ('any',)
            r = self.res(t)
            self.check(e[3], dict(env, **{e[1]: r[1] if r[0] == 'opt'
                                          else t}), bad)
            self.check(e[4], env, bad)
            return None
        if k == 'if':
            for i in e[1:]:
                self.check(i, env, bad)
        elif k == 'call':
            specs = self.fns[e[1]]
            if len(specs) != len(e[2]):
                bad.append(IllTyped('arguments count'))
            for i, a in enumerate(e[2]):
                n = len(bad)
                t = self.check(a, env, bad)
                if i < len(specs) and not (t is None and len(bad) > n):
                    try:
                        assignable(t, specs[i], self)
                    except (IllTyped, Undecided) as p:
                        bad.append(p)
        elif k == 'list':
            for i in e[1]:
                self.check(i, env, bad)
        elif k == 'dict':
            for _, i in e[1]:
                self.check(i, env, bad)
        return None

    # ------------------------------------------------------------- mutation

    def positions(self, e, env, where=()):
        """[(path, expression, env)] of all sub-expressions."""
        out = [(where, e, env)]
        k = e[0]

        def sub(i, x, env_):
            out.extend(self.positions(x, env_, where + (i,)))
        if k == 'get':
            sub(1, e[1], env)
        elif k == 'each':
            sub(2, e[2], env)
            sub(3, e[3], dict(env, **{e[1]: self.item_of(e[2], env)}))
        elif k == 'ifsome':
            sub(2, e[2], env)
            sub(3, e[3], dict(env, **{e[1]: self.item_of(e[2], env)}))
            sub(4, e[4], env)
        elif k == 'if':
            for i in (1, 2, 3):
                sub(i, e[i], env)
        elif k == 'call':
            for i, a in enumerate(e[2]):
                out.extend(self.positions(a, env, where + (2, i)))
        elif k == 'list':
            for i, a in enumerate(e[1]):
                out.extend(self.positions(a, env, where + (1, i)))
        elif k == 'dict':
            for i, (_, a) in enumerate(e[1]):
                out.extend(self.positions(a, env, where + (1, i, 1)))
        return out

    def item_of(self, e, env):
        t = self.check(e, env, [])
        if t is None:
            return ('any',)
        r = self.res(t)
        return r[1] if r[0] in ('seq', 'opt') else t

    def mutate(self, e, env):
        """One random change of the expression (maybe of a function's
        declaration): the new expression, or None."""
        d = self.d
        pos = self.positions(e, env)
        kind = d.pick(['var', 'attr', 'drop', 'path', 'args', 'spec', 'name', 'spec',
                       'spec', 'near', 'near',
                       'col', 'arg'])

        def choose(*kinds):
            found = [p for p in pos if p[1][0] in kinds]
            return d.pick(found) if found else None
        if kind == 'var':
            p = choose('var', 'lit', 'get', 'call', 'list', 'dict', 'if')
            names = ['zz'] + [v for v in VARS + OPTS if p and v not in p[2]]
            return p and put(e, p[0], ('var', d.pick(names)))
        if kind == 'attr':
            p = choose('var', 'get')
            return p and put(e, p[0], ('get', p[1], d.pick(
                ['zz', 'a', 'id', 'x', 'f'])))
        if kind == 'drop':
            p = choose('get')
            return p and put(e, p[0], p[1][1])
        if kind == 'name':
            p = choose('get')
            return p and put(e, p[0], ('get', p[1][1], d.pick(
                ['zz', 'a', 'b', 'id', 'x', 'y', 'f', 'g'])))
        if kind == 'path':
            p = choose('var', 'get')
            got = p and self.path(p[2], lambda t: True)
            return got and put(e, p[0], got[0])
        if kind == 'col':
            p = choose('each', 'ifsome')
            got = p and self.path(p[2], lambda t: True)
            return got and put(e, p[0] + (2,), got[0])
        p = choose('call')
        if p is None:
            return None
        args = list(p[1][2])
        specs = self.fns[p[1][1]]
        if kind == 'args' or not args:
            if args and d.bool():
                args.pop(d.int(0, len(args) - 1))
            else:
                got = self.path(p[2], lambda t: True)
                args.insert(d.int(0, len(args)),
                            got[0] if got else ('lit', 1))
            return put(e, p[0], ('call', p[1][1], args))
        i = d.int(0, len(args) - 1)
        if kind == 'near':
            # a value with a structure, and a declaration which differs in
            # one place
            kinds = d.pick([('map',), ('map', 'rec', 'seq', 'opt')])
            got = self.path(p[2], lambda t: not self.has_object(t) and
                            self.res(t)[0] in kinds)
            if got is None or i >= len(specs):
                return None
            args[i] = got[0]
            specs = list(specs)
            specs[i] = ('leaf', self.tweak(self.res(got[1])))
            # other calls of the function are left alone
            self.fns.append(specs)
            return put(e, p[0], ('call', len(self.fns) - 1, args))
        if kind == 'arg':
            got = self.path(p[2], lambda t: self.has_object(t) or
                            self.res(t)[0] == 'rec')
            if got is None:
                return None
            args[i] = got[0]
            return put(e, p[0], ('call', p[1][1], args))
        if i < len(specs):
            specs = list(specs)
            specs[i] = self.mutate_spec(specs[i])
            self.fns.append(specs)
            return put(e, p[0], ('call', len(self.fns) - 1, args))
        return None

    def tweak(self, t):
        """The type changed in one place."""
        d = self.d
        k = t[0]
        if k == 'ref':
            return self.tweak(self.res(t)) if d.int(0, 3) else t
        if k == 'map':
            if d.bool():
                return ('map', t[1], self.tweak(t[2]))
            return ('map', d.pick([i for i in [('str',), ('int',)]
                                   if i != t[1]]), t[2])
        if k in ('seq', 'opt') and d.int(0, 4):
            return (k, self.tweak(t[1]))
        if k == 'rec' and t[1] and d.int(0, 4):
            i = d.int(0, len(t[1]) - 1)
            fs = list(t[1])
            if d.chance(1, 4):
                fs[i] = ('zz', fs[i][1])
            else:
                fs[i] = (fs[i][0], self.tweak(fs[i][1]))
            return ('rec', fs)
        return d.pick([i for i in [('str',), ('int',), ('bool',), ('float',),
                                   ('seq', ('str',)),
                                   ('map', ('str',), ('str',)),
                                   ('rec', [('f', ('str',))])] if i != t])

    def mutate_spec(self, spec):
        d = self.d
        c = d.int(0, 5)
        if spec[0] == 'rec' and spec[1] and c > 1:
            i = d.int(0, len(spec[1]) - 1)
            fs = list(spec[1])
            if c == 2:
                names = [n for n in ('zz', 'a', 'id', 'f')
                         if n not in dict(fs)]
                fs.append((d.pick(names), ('any',)))
            else:
                fs[i] = (fs[i][0], self.mutate_spec(fs[i][1]))
            return ('rec', fs)
        if spec[0] in ('seq', 'opt'):
            if c > 2:
                return (spec[0], self.mutate_spec(spec[1]))
            if c == 2:
                return spec[1]
        if spec[0] == 'leaf' and d.int(0, 2):
            return ('leaf', self.tweak(spec[1]))
        if spec[0] == 'leaf' or c == 0:
            return ('leaf', V.draw_type(d, [], 2, allow_none=False))
        return (d.pick(['seq', 'opt']), spec)


def put(e, where, new):
    if not where:
        return new
    i = where[0]
    out = list(e)
    out[i] = put(e[i], where[1:], new)
    return tuple(out) if isinstance(e, tuple) else out

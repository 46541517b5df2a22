"""C29: queries, types and graphs are values that can be walked, compared and
transformed part by part."""
from hiku import graph as hg
from hiku import query as hq
from hiku import types as ht

from lib import world as wd
from lib.runner import Test, ensure
from lib.values import same

PROPERTY = 'C29'
RULE = ('query, type: the value has at least four parts, on at least two '
        'levels; graph: it has a node with two items and an option')
ASSUMPTIONS = [
    'options are compared as Python compares them',
    'records with the same fields in another order are not compared',
]


# ---------------------------------------------------------------- queries
# spec: ('f', name, options, alias) | ('l', name, options, alias, node)
#       node: ('n', ordered, [spec])

def draw_node(d, depth, width=4):
    items = []
    for _ in range(d.int(0, width)):
        name = d.pick(['a', 'b', 'c', 'd'])
        opts = d.pick([None, None, {}, {'o': 1}, {'o': [1, {'p': None}]},
                       {'o': 1, 'p': 'x'}])
        alias = d.pick([None, None, 'a', 'k', ''])
        if depth > 0 and d.bool():
            items.append(('l', name, opts, alias,
                          draw_node(d, depth - 1, width)))
        else:
            items.append(('f', name, opts, alias))
    return ('n', d.chance(1, 5), items)


def build(spec):
    if spec[0] == 'n':
        return hq.Node([build(i) for i in spec[2]], ordered=spec[1])
    opts = None if spec[2] is None else dict(spec[2])
    if spec[0] == 'f':
        return hq.Field(spec[1], opts, spec[3])
    return hq.Link(spec[1], build(spec[4]), opts, spec[3])


def read(q):
    """The spec of a query: exactly what its attributes hold"""
    if type(q) is hq.Node:
        return ('n', q.ordered, [read(i) for i in q.fields])
    if type(q) is hq.Field:
        return ('f', q.name, q.options, q.alias)
    ensure(type(q) is hq.Link, 'unexpected %r', q)
    return ('l', q.name, q.options, q.alias, read(q.node))


def parts(spec, path=()):
    """Every part in order, with its path"""
    yield path, spec
    if spec[0] == 'n':
        for i, item in enumerate(spec[2]):
            yield from parts(item, path + (i,))
    elif spec[0] == 'l':
        yield from parts(spec[4], path + ('n',))


def at(q, path):
    for p in path:
        q = q.node if p == 'n' else q.fields[p]
    return q


def replaced(spec, path, new):
    if not path:
        return new
    p, rest = path[0], path[1:]
    if p == 'n':
        return spec[:4] + (replaced(spec[4], rest, new),)
    items = list(spec[2])
    items[p] = replaced(items[p], rest, new)
    return ('n', spec[1], items)


def changed(d, spec):
    """Another spec, most often with one difference"""
    path, part = d.pick(list(parts(spec)))
    if part[0] == 'n':
        items = list(part[2])
        c = d.int(0, 4)
        if c == 0:
            new = ('n', not part[1], items)
        elif c == 1 and items:
            del items[d.below(len(items))]
            new = ('n', part[1], items)
        elif c == 2 and len(items) > 1:
            new = ('n', part[1], d.perm(items))
        else:
            items.insert(d.int(0, len(items)), ('f', 'new', None, None))
            new = ('n', part[1], items)
    else:
        new = list(part)
        c = d.int(0, 3)
        if c == 0:
            new[1] = d.pick(['a', 'b', 'zz'])
        elif c == 1:
            new[2] = d.pick([None, {}, {'o': 1}, {'o': 2}, {'q': 1},
                             {'o': [1, {'p': 0}]}])
        elif c == 2:
            new[3] = d.pick([None, '', 'a', 'b', 'zz'])
        elif part[0] == 'f':
            new = ['l'] + new[1:] + [('n', False, [])]
        else:
            new = ['f'] + new[1:4]
        new = tuple(new)
    return replaced(spec, path, new)


def gen_query(d):
    spec = draw_node(d, 3)
    if d.chance(1, 40):
        # wide or deep
        n = d.pick([33, 101, 300])
        if d.bool():
            spec = ('n', False, [('f', 'a%d' % i, None, None)
                                 for i in range(n)])
        else:
            for i in range(min(n, 101)):
                spec = ('n', False, [('l', 'a', None, None, spec)])
    other = changed(d, spec) if d.chance(4, 5) else spec
    return {'spec': spec, 'other': other, 'bytes': [d.byte()
                                                    for _ in range(12)]}


class Walk(hq.QueryVisitor):
    def __init__(self):
        self.log = []

    def visit_field(self, obj):
        self.log.append(obj)
        return super().visit_field(obj)

    def visit_link(self, obj):
        self.log.append(obj)
        return super().visit_link(obj)

    def visit_node(self, obj):
        self.log.append(obj)
        return super().visit_node(obj)


def transformed(spec, marks):
    """What the transformer below makes"""
    if spec[0] == 'n':
        return ('n', spec[1] or marks[2], [transformed(i, marks)
                                           for i in spec[2]])
    if spec[0] == 'f':
        return spec[:3] + ('F',) if marks[0] else spec
    if marks[1]:
        spec = spec[:2] + ({'l': 1},) + spec[3:]
    return spec[:4] + (transformed(spec[4], marks),)


def transformer(marks):
    class T(hq.QueryTransformer):
        pass

    if marks[0]:
        def visit_field(self, obj):
            return hq.QueryTransformer.visit_field(self, obj).copy(alias='F')
        T.visit_field = visit_field
    if marks[1]:
        def visit_link(self, obj):
            obj = hq.QueryTransformer.visit_link(self, obj)
            return obj.copy(options={'l': 1})
        T.visit_link = visit_link
    if marks[2]:
        def visit_node(self, obj):
            obj = hq.QueryTransformer.visit_node(self, obj)
            return obj.copy(ordered=True)
        T.visit_node = visit_node
    return T()


def key_of(f):
    return f.result_key, f.index_key


def check_maps(q, spec):
    for path, part in parts(spec):
        obj = at(q, path)
        if part[0] == 'n':
            names, keys = {}, {}
            for f in obj.fields:
                names[f.name] = f
                keys[f.alias if f.alias is not None else f.name] = f
            for got, want in [(obj.fields_map, names),
                              (obj.result_map, keys)]:
                ensure(list(got) == list(want) and
                       all(got[k] is want[k] for k in want),
                       'a map of %r has %r', obj, got)
        else:
            ensure(obj.result_key == (part[1] if part[3] is None
                                      else part[3]),
                   'result key %r of %r', obj.result_key, obj)


def check_query(case, obs):
    spec, other = case['spec'], case['other']
    data = list(case['bytes'])
    a, b = build(spec), build(other)
    # equal exactly when they are made of the same parts
    for x, y, eq in [(a, build(spec), True), (a, b, spec == other),
                     (b, a, spec == other)]:
        ensure((x == y) is eq, '%r == %r is %r', x, y, x == y)
        ensure((x != y) is not eq, '%r != %r is %r', x, y, x != y)
    for p, part in parts(spec):
        obj = at(a, p)
        for x in [None, 1, part[1], 'a', p, obj.__dict__]:
            ensure(not (obj == x) and obj != x, '%r equals %r', obj, x)

    # every part once, in order
    w = Walk()
    w.visit(a)
    want = [at(a, p) for p, _ in parts(spec)]
    ensure(len(w.log) == len(want) and
           all(x is y for x, y in zip(w.log, want)),
           'visited %r, the parts are %r', w.log, want)
    names = []

    class Names(hq.QueryVisitor):
        def visit_field(self, obj):
            names.append(obj.name)
    Names().visit(a)
    ensure(names == [s[1] for _, s in parts(spec) if s[0] == 'f'],
           'names of the fields: %r', names)
    ensure(same(read(a), spec), 'a walk changes the query: %r', a)

    # a transformer that changes nothing, and one that does
    check_maps(a, spec)
    for path, part in parts(spec):
        if part[0] != 'n':
            at(a, path).index_key   # remembered
    t = hq.QueryTransformer().visit(a)
    ensure(t is not a and same(read(t), spec) and t == a,
           'transformed %r', t)
    ids = {id(at(a, p)) for p, _ in parts(spec)}
    shared = [at(t, p) for p, s in parts(spec) if id(at(t, p)) in ids]
    ensure(not shared, 'the new query shares %r', shared)
    marks = [data[0] % 2, data[1] % 2, data[2] % 2]
    t = transformer(marks).visit(a)
    want = transformed(spec, [bool(m) for m in marks])
    ensure(same(read(t), want), 'transformed %r, expected %r', read(t), want)
    check_maps(t, want)
    ensure(same(read(a), spec), 'a transformer changes the query: %r', a)

    # a copy
    all_parts = list(parts(spec))
    path, part = all_parts[data[3] % len(all_parts)]
    obj = at(a, path)
    kw = {}
    if part[0] == 'n':
        if data[4] % 2:
            kw['ordered'] = not part[1]
        if data[5] % 2:
            kw['fields'] = [hq.Field('z')] * (data[6] % 2)
    else:
        for i, k in enumerate(['name', 'alias', 'options']):
            if data[4 + i] % 2:
                kw[k] = [['n', 'a'], [None, 'al', ''],
                         [None, {}, {'o': 5}]][i][data[7 + i] %
                                                  (2 if i == 0 else 3)]
        if part[0] == 'l' and data[10] % 2:
            kw['node'] = hq.Node([hq.Field('z')])
    c = obj.copy(**kw)
    ensure(type(c) is type(obj) and c is not obj, 'copied as %r', c)
    want = {k: kw.get(k, getattr(obj, k)) for k in
            {'n': ['fields', 'ordered'], 'f': ['name', 'options', 'alias'],
             'l': ['name', 'node', 'options', 'alias']}[part[0]]}
    for k, v in want.items():
        ensure(getattr(c, k) is v, 'copy of %r with %r is %r', obj, kw, c)
    fresh = type(obj)(**want)
    ensure(c == fresh, 'copy %r, expected %r', c, fresh)
    if part[0] == 'n':
        ensure(list(c.result_map) == list(fresh.result_map) and
               list(c.fields_map) == list(fresh.fields_map),
               'maps of the copy %r', c)
    else:
        ensure(key_of(c) == key_of(fresh), 'keys %r of the copy %r',
               key_of(c), c)
    ensure(same(read(a), spec), 'a copy changes the query: %r', a)
    if spec != other:
        obs.label('different')
    if any(marks):
        obs.label('transformed')
    return len(all_parts) >= 4 and any(len(p) > 1 for p, _ in all_parts)


# ------------------------------------------------------------------- types

SCALARS = {'any': ht.Any, 'bool': ht.Boolean, 'str': ht.String,
           'int': ht.Integer, 'float': ht.Float}


def draw_type(d, depth):
    c = d.int(0, 13) if depth > 0 else d.int(0, 6)
    if depth == 4 and c < 6:
        c += 8
    if c < 5:
        return (d.pick(sorted(SCALARS)),)
    if c <= 6:
        # as a reference or as its name
        return ('ref', d.pick(['A', 'B', '']))
    if c <= 8:
        return ('opt', draw_type(d, depth - 1))
    if c <= 10:
        return ('seq', draw_type(d, depth - 1))
    if c == 11:
        return ('map', draw_type(d, depth - 1), draw_type(d, depth - 1))
    if c == 12:
        names = d.sample(['a', 'b', 'c', 'd'], 0, 3)
        return ('rec',) + tuple((n, draw_type(d, depth - 1)) for n in names)
    return ('call',) + tuple(draw_type(d, depth - 1)
                             for _ in range(d.int(0, 3)))


def subtypes(t):
    if t[0] == 'rec':
        return [x for _, x in t[1:]]
    return [x for x in t[1:] if isinstance(x, tuple)]


def walk_type(t):
    yield t
    for s in subtypes(t):
        yield from walk_type(s)


def build_type(t, way, inner=False):
    k = t[0]
    if k in SCALARS:
        return SCALARS[k]
    if k == 'ref':
        return t[1] if inner and way % 2 else ht.TypeRef[t[1]]
    if k == 'rec':
        fields = [(n, build_type(x, way // 2, True)) for n, x in t[1:]]
        return ht.Record[dict(fields) if way % 3 == 0 else
                         iter(fields) if way % 3 == 1 else fields]
    args = [build_type(x, way // 2, True) for x in t[1:]]
    if k == 'opt':
        return ht.Optional[args[0]]
    if k == 'seq':
        return ht.Sequence[args[0]]
    if k == 'map':
        return ht.Mapping[args[0], args[1]]
    return ht.Callable[args if way % 2 else tuple(args)]


def read_type(t):
    for k, v in SCALARS.items():
        if t is v:
            return (k,)
    if isinstance(t, ht.TypeRefMeta):
        return ('ref', t.__type_name__)
    if isinstance(t, ht.OptionalMeta):
        return ('opt', read_type(t.__type__))
    if isinstance(t, ht.SequenceMeta):
        return ('seq', read_type(t.__item_type__))
    if isinstance(t, ht.MappingMeta):
        return ('map', read_type(t.__key_type__), read_type(t.__value_type__))
    if isinstance(t, ht.RecordMeta):
        return ('rec',) + tuple((n, read_type(x))
                                for n, x in t.__field_types__.items())
    ensure(isinstance(t, ht.CallableMeta), 'unexpected %r', t)
    return ('call',) + tuple(map(read_type, t.__arg_types__))


def changed_type(d, t):
    """Another type: one part is different"""
    if d.chance(1, 3) or not subtypes(t):
        new = draw_type(d, 1)
        return new
    i = d.below(len(subtypes(t)))
    if t[0] == 'rec':
        c = d.int(0, 2)
        fields = list(t[1:])
        if c == 0:
            fields[i] = (fields[i][0] + 'x', fields[i][1])
        elif c == 1:
            del fields[i]
        else:
            fields[i] = (fields[i][0], changed_type(d, fields[i][1]))
        return ('rec',) + tuple(fields)
    if t[0] == 'call' and d.bool():
        return t + (('int',),) if d.bool() else t[:-1]
    if t[0] in ('opt', 'seq') and d.chance(1, 4):
        return ({'opt': 'seq', 'seq': 'opt'}[t[0]], t[1])
    return t[:i + 1] + (changed_type(d, t[i + 1]),) + t[i + 2:]


def gen_type(d):
    t = draw_type(d, 4)
    if d.chance(1, 30):
        n = d.pick([9, 17, 33, 65, 130])
        kind = d.pick(['rec', 'call', 'deep'])
        if kind == 'rec':
            t = ('rec',) + tuple(('x%d' % i, t if i % 5 == 0 else ('int',))
                                 for i in range(n))
        elif kind == 'call':
            t = ('call',) + tuple(t if i % 5 == 0 else ('str',)
                                  for i in range(n))
        else:
            for i in range(min(n, 65)):
                t = d.pick([('opt', t), ('seq', t), ('map', ('str',), t)])
    return {'type': t, 'other': changed_type(d, t) if d.chance(4, 5) else t,
            'ways': [d.byte() for _ in range(3)]}


class WalkType(ht.TypeVisitor):
    def __init__(self):
        self.log = []


class WalkAbstract(ht.AbstractTypeVisitor):
    """Calls nothing itself: only which method is called for a type"""


KINDS = {'visit_any': 'any', 'visit_boolean': 'bool', 'visit_string': 'str',
         'visit_integer': 'int', 'visit_float': 'float',
         'visit_typeref': 'ref', 'visit_optional': 'opt',
         'visit_sequence': 'seq', 'visit_mapping': 'map',
         'visit_record': 'rec', 'visit_callable': 'call'}


def _methods():
    def walking(name):
        def method(self, obj):
            self.log.append((KINDS[name], obj))
            return getattr(super(WalkType, self), name)(obj)
        return method

    def plain(name):
        def method(self, obj):
            return KINDS[name], obj
        return method
    for name in KINDS:
        setattr(WalkType, name, walking(name))
        setattr(WalkAbstract, name, plain(name))
    WalkAbstract.__abstractmethods__ = frozenset()


_methods()


def check_type(case, obs):
    spec, other = case['type'], case['other']
    ways = case['ways']
    a, again = build_type(spec, ways[0]), build_type(spec, ways[1])
    b = build_type(other, ways[2])
    for x, want in [(a, spec), (again, spec), (b, other)]:
        ensure(read_type(x) == want, '%r was built of %r', x, want)
    unordered = sorted_records(spec) == sorted_records(other) and \
        spec != other
    for x, y, eq in [(a, again, True), (a, b, spec == other),
                     (b, a, spec == other)]:
        if x is not again and y is not again and unordered:
            continue
        ensure((x == y) is eq, '%r == %r is %r', x, y, x == y)
        ensure((x != y) is not eq, '%r != %r is %r', x, y, x != y)
    for x in [None, 1, 'A', type, object, ht.Optional, ht.Record]:
        ensure(not (a == x) and a != x, '%r equals %r', a, x)
    ensure(repr(a) == repr(again), 'equal types %r and %r', a, again)
    if spec != other and not unordered:
        ensure(repr(a) != repr(b), 'different types are both %r', a)
    # every part once, by the method of its kind
    w = WalkType()
    w.visit(a)
    want = list(walk_type(spec))
    ensure([k for k, _ in w.log] == [t[0] for t in want] and
           [read_type(t) for _, t in w.log] == want,
           'visited %r, the parts are %r', w.log, want)
    got = WalkAbstract().visit(a)
    ensure(got[0] == spec[0] and got[1] is a, 'visited as %r', got)
    # a type with parameters takes no more of them
    if spec[0] not in SCALARS:
        try:
            a[ht.Integer]
        except TypeError:
            pass
        else:
            ensure(False, '%r[Integer] is allowed', a)
    # and the general types are still general
    ensure(not any(t.__final__ for t in (
        ht.Optional, ht.Sequence, ht.Mapping, ht.Record, ht.Callable,
        ht.TypeRef)), 'a general type has got parameters')
    ensure(read_type(a) == spec, '%r is changed', a)
    # what a reference is to
    x, y = ht.Sequence[a], ht.Optional[b]
    types = {'X': x, 'Y': y, 'Z': ht.TypeRef['Y']}
    ensure(ht.get_type(types, ht.TypeRef['X']) is x and
           ht.get_type(types, ht.TypeRef['Y']) is y and
           ht.get_type(types, ht.TypeRef['Z']) is y, 'other types are found')
    if spec[0] != 'ref':
        ensure(ht.get_type(types, a) is a, 'type of %r', a)
    obs.label(spec[0])
    return len(want) >= 4 and any(subtypes(t) for t in want[1:])


def sorted_records(t):
    if t[0] == 'rec':
        return ('rec',) + tuple(sorted(
            ((n, sorted_records(x)) for n, x in t[1:]), key=repr))
    return tuple(sorted_records(x) if isinstance(x, tuple) else x for x in t)


# ------------------------------------------------------------------ graphs

DESC = [None, '', 'text', 'a\nb']


def gen_graph(d):
    world = wd.worlds(d, max_nodes=4, odd=True)
    if d.chance(1, 20):
        wd.widen(d, world)
    for group in [n['items'] for n in world['nodes']] + world['roots']:
        for i in group:
            i['desc'] = d.pick(DESC)
            for o in i['opts']:
                o['desc'] = d.pick(DESC)
    for n in world['nodes']:
        n['desc'] = d.pick(DESC)
    return {'world': world, 'marks': [d.bool() for _ in range(4)]}


def dump(obj):
    """All that a definition holds; functions by identity"""
    if isinstance(obj, hg.Option):
        return ('o', obj.name, obj.type, obj.default, obj.description)
    opts = [dump(o) for o in getattr(obj, 'options', ())]
    if isinstance(obj, hg.Field):
        return ('f', obj.name, obj.type, obj.func, opts, obj.description)
    if isinstance(obj, hg.Link):
        return ('l', obj.name, obj.type, obj.func, opts, obj.description,
                obj.requires, obj.node, obj.type_enum)
    if isinstance(obj, hg.Root):
        return ('r', [dump(i) for i in obj.fields])
    if isinstance(obj, hg.Node):
        return ('n', obj.name, [dump(i) for i in obj.fields],
                obj.description)
    return ('g', [dump(i) for i in obj.items], obj.data_types)


def flat(obj):
    yield obj
    for name in ('items', 'fields', 'options'):
        for x in getattr(obj, name, ()):
            yield from flat(x)


class WalkGraph(hg.GraphVisitor):
    def __init__(self):
        self.log = []


def _graph_methods():
    def walking(name):
        def method(self, obj):
            self.log.append((name, obj))
            return getattr(super(WalkGraph, self), name)(obj)
        return method
    for name in ('option', 'field', 'link', 'node', 'root', 'graph'):
        setattr(WalkGraph, 'visit_' + name, walking('visit_' + name))


_graph_methods()


def marked(t, marks):
    """What the transformer below makes of a dump"""
    t = list(t)
    if t[0] == 'o':
        if marks[0]:
            t[3] = 'changed'
    elif t[0] in 'fl':
        t[4] = [marked(o, marks) for o in t[4]]
        if marks[1] and t[0] == 'f':
            t[5] = 'field ' + t[1]
        if marks[2] and t[0] == 'l':
            t[5] = 'link ' + t[1]
    elif t[0] == 'n':
        t[2] = [marked(i, marks) for i in t[2]]
        if marks[3]:
            t[3] = 'node ' + t[1]
    else:
        t[1] = [marked(i, marks) for i in t[1]]
    return tuple(t)


def graph_transformer(marks):
    class T(hg.GraphTransformer):
        pass

    def describing(name, word):
        def method(self, obj):
            obj = getattr(hg.GraphTransformer, name)(self, obj)
            obj.description = '%s %s' % (word, obj.name)
            return obj
        return method
    if marks[0]:
        def visit_option(self, obj):
            obj = hg.GraphTransformer.visit_option(self, obj)
            obj.default = 'changed'
            return obj
        T.visit_option = visit_option
    if marks[1]:
        T.visit_field = describing('visit_field', 'field')
    if marks[2]:
        T.visit_link = describing('visit_link', 'link')
    if marks[3]:
        T.visit_node = describing('visit_node', 'node')
    return T()


def check_graph(case, obs):
    run = wd.Run(case['world'])
    items = run.graph_items()
    want = [dump(i) for i in items]
    data_types = run.data_types()
    graph = hg.Graph(items, data_types=data_types)
    ensure(dump(graph) == ('g', want, data_types),
           'graph\n got: %r\nwant: %r', dump(graph), want)
    ensure([dump(i) for i in items] == want, 'definitions are changed')

    w = WalkGraph()
    w.visit(graph)
    parts_ = list(flat(graph))
    kinds = {hg.Option: 'visit_option', hg.Field: 'visit_field',
             hg.Link: 'visit_link', hg.Node: 'visit_node',
             hg.Root: 'visit_root', hg.Graph: 'visit_graph'}
    ensure([id(o) for _, o in w.log] == [id(o) for o in parts_] and
           all(n == kinds[type(o)] for n, o in w.log),
           'visited %r, the parts are %r', w.log, parts_)

    new = hg.GraphTransformer().visit(graph)
    ensure(dump(new) == dump(graph), 'transformed\n got: %r\nwant: %r',
           dump(new), dump(graph))
    ids = {id(o) for o in parts_}
    both = [o for o in flat(new) if id(o) in ids]
    ensure(not both, 'the new graph shares %r', both)
    before = dump(graph)
    marks = case['marks']
    new = hg.apply(graph, [graph_transformer(marks)])
    want_new = marked(before, marks)
    ensure(dump(new) == want_new, 'transformed\n got: %r\nwant: %r',
           dump(new), want_new)
    # one transformer after another
    steps = [graph_transformer([i == k and m for k, m in enumerate(marks)])
             for i in range(4)]
    new = hg.apply(graph, steps)
    ensure(dump(new) == want_new, 'transformed step by step\n got: %r\n'
           'want: %r', dump(new), want_new)
    ensure(dump(graph) == before, 'the graph is changed')
    ensure(hg.apply(graph, []) is graph or
           dump(hg.apply(graph, [])) == before, 'no transformers')

    # names
    for g in (graph, new):
        nodes = [n for n in g.items if type(n) is hg.Node]
        ensure(list(g.nodes) == nodes and list(g.iter_nodes()) == nodes and
               list(g.nodes_map) == [n.name for n in nodes] and
               all(g.nodes_map[n.name] is n for n in nodes),
               'nodes of the graph: %r', g.nodes_map)
        own = [f for r in g.items if type(r) is hg.Root for f in r.fields]
        ensure([id(f) for f in g.root.fields] == [id(f) for f in own] and
               [id(f) for f in g.iter_root()] == [id(f) for f in own],
               'the root has %r', g.root.fields)
        for n in nodes + [g.root]:
            ensure(list(n.fields_map) == [f.name for f in n.fields] and
                   all(n.fields_map[f.name] is f for f in n.fields),
                   'items of %r: %r', n, n.fields_map)
            for f in n.fields:
                ensure(list(f.options_map) == [o.name for o in f.options]
                       and all(f.options_map[o.name] is o
                               for o in f.options),
                       'options of %r: %r', f, f.options_map)
    if any(marks):
        obs.label('transformed')
    obs.label('roots=%d' % len(case['world']['roots']))
    return any(type(o) is hg.Option for o in parts_) and \
        any(type(o) is hg.Node and len(o.fields) > 1 for o in parts_)


TESTS = [Test('query', gen_query, check_query, 5000),
         Test('type', gen_type, check_type, 5000),
         Test('graph', gen_graph, check_graph, 2500)]

"""C17: exporting a query and reading it back gives the same query."""
import datetime
import decimal
import uuid

from graphql.language.printer import print_ast

from hiku import builder
from hiku import edn
from hiku import query as hq
from hiku.export import graphql as ex_graphql
from hiku.export import protobuf as ex_protobuf
from hiku.export import simple as ex_simple
from hiku.protobuf import query_pb2
from hiku.query import merge
from hiku.readers import graphql as rd_graphql
from hiku.readers import protobuf as rd_protobuf
from hiku.readers import simple as rd_simple

from lib import world as wd
from lib.runner import Test, ensure, fail
from lib.values import canon
from .C09 import describe

PROPERTY = 'C17'
RULE = 'the query has options with a value that is not a scalar, or two levels'
ASSUMPTIONS = [
    'option values are those that the format can hold: JSON-like values (in '
    'EDN also sets, and keys of maps which are scalars); numbers of protobuf '
    'are compared by value (the format has only doubles)',
    'no options and empty options are the same',
    'GraphQL has no links without a selection; EDN and protobuf no aliases',
]

NAMES = ['a', 'b', 'foo', 'id', '_x', '__typename', 'fooBar', 'a1', 'type',
         'query', 'on', 'fragment', 'true', 'null', 'nil', 'N', 'M', 'e1']
STRS = ['', 'a', 'é', '"', '\\', '\\u0041', '"""', '\n', '\r\n', '\t', '\0',
        '\x7f', '\u2028', '😀', 'a😀b', ':k', '#x', '{}', '$v', "'", ' ', '\b',
        '\f', '\v', '\a', 'x' * 40, '\\n', '\ufeff']
NUMBERS = [0, 1, -1, 2, 100, -2 ** 31, 2 ** 40, 2 ** 53, 1.5, -0.5, 1e20,
           1e-7, 5e-324, 1e300, 0.1, 3.0, -3.0, 0.0, 2 ** 53 - 1, 1 / 3,
           0.1234567890123456, 123456789.12345678, 1.7976931348623157e308]


def value(d, depth, fmt):
    c = d.int(0, 9 if depth > 0 else 6)
    if c == 0:
        return None
    if c == 1:
        return d.bool()
    if c in (2, 3):
        if d.chance(1, 4):
            return d.below(2 ** 53) / 2 ** d.int(0, 60) * (-1) ** d.int(0, 1)
        return d.pick(NUMBERS)
    if c <= 6:
        return d.pick(STRS)
    n = d.int(0, 3)
    if c == 7 and fmt == 'edn' and d.bool():
        return {'<set>': sorted({d.pick([1, 2, 3, 5]) for _ in range(n)})}
    if c <= 8:
        return [value(d, depth - 1, fmt) for _ in range(n)]
    return {key(d, fmt): value(d, depth - 1, fmt) for _ in range(n)}


# texts of other forms in a format, or which could end the key
KEYS = ['', ' ', 'a b', 'a-b', 'é', '1', '-', 'a: 1, b', 'a 1 :b', ':a', 'a:',
        'a"', 'a}', '}', '[a', '(', 'a,', ';', 'a;b', '#', '#a', '\\', 'a\n',
        '\n', '\t', '$v', '"', '\u2028', '\ufeff', '😀', 'a.b', '{}']


def key(d, fmt):
    c = d.int(0, 9)
    if c == 0 and fmt != 'graphql':
        return d.pick(KEYS)
    if c == 1 and fmt == 'edn':
        return d.pick([0, 1, -1, 2 ** 70, 1.5, None, True])
    return d.pick(NAMES)


def gen_tree(d, fmt):
    aliases = fmt in ('graphql', 'builder')
    seen_opts = {}

    def sel(depth):
        out = []
        for _ in range(d.int(1 if fmt == 'graphql' else 0, 4)):
            name = d.pick(NAMES)
            opts = None
            if d.bool():
                names = d.sample(NAMES, 0, 3)
                opts = {n: value(d, 3, fmt) for n in names}
            if d.chance(1, 3):
                opts = seen_opts.get(name, opts)
            seen_opts[name] = opts
            alias = d.pick([None, None] + NAMES) if aliases else None
            if depth > 0 and d.bool():
                out.append(('l', name, opts, alias, sel(depth - 1)))
            else:
                out.append(('f', name, opts, alias))
        return out
    query = sel(3)
    if d.chance(1, 12):
        query = grow(d, query, fmt)
    return {'query': query, 'merge': d.bool(), 'ordered': d.chance(1, 6),
            'fmt': fmt}


def grow(d, sel, fmt):
    """Makes a query large in one way."""
    aliases = fmt in ('graphql', 'builder')
    n = d.pick([8, 17, 33, 65, 130, 260])
    kind = d.pick(['fields', 'links', 'deep', 'options', 'list', 'map',
                   'text', 'nested', 'same'])
    v = None
    if kind == 'fields':
        new = [('f', 'w%d' % i, None, None) for i in range(n)]
    elif kind == 'links':
        new = [('l', 'w%d' % i, None, None, [('f', 'x%d' % i, None, None)])
               for i in range(n)]
    elif kind == 'deep':
        new = sel or [('f', 'a', None, None)]
        # (protobuf has a limit of 100 levels)
        for i in range(min(n, 25 if fmt == 'protobuf' else 50)):
            new = [('l', 'd%d' % (i % 3), {'a': i} if i % 4 == 0 else None,
                    None, new)] + [('f', 'b%d' % i, None, None)] * d.int(0, 1)
    elif kind == 'same':
        # one field or link with different options
        new = [('l' if i % 3 else 'f', 's', {'a': i // d.pick([1, 1, 2])},
                'k%d' % i if aliases else None) +
               (([('f', 'x', None, None)],) if i % 3 else ())
               for i in range(n)]
    elif kind == 'options':
        v = {'o%d' % i: i for i in range(n)}
    elif kind == 'list':
        v = {'o': [i % 7 for i in range(n)]}
    elif kind == 'map':
        v = {'o': {'k%d' % i: i for i in range(n)}}
    elif kind == 'text':
        v = {'o': d.pick(STRS) * n}
    else:
        v = 1
        for i in range(min(n, 17 if fmt == 'protobuf' else 40)):
            v = [v] if d.bool() else {'a': v}
        v = {'o': v}
    if v is not None:
        new = [d.pick([('f', 'big', v, None),
                       ('l', 'big', v, None, [('f', 'x', None, None)])])]
    at = d.int(0, len(sel))
    return sel[:at] + new + sel[at:]


def real(v):
    if isinstance(v, dict):
        if list(v) == ['<set>']:
            return frozenset(v['<set>'])
        return {k: real(i) for k, i in v.items()}
    if isinstance(v, list):
        return [real(i) for i in v]
    return v


def to_node(sel, ordered):
    out = []
    for e in sel:
        opts = None if e[2] is None else {k: real(v) for k, v in e[2].items()}
        if e[0] == 'f':
            out.append(hq.Field(e[1], opts, e[3]))
        else:
            out.append(hq.Link(e[1], to_node(e[4], False), opts, e[3]))
    return hq.Node(out, ordered=ordered)


def vcanon(v, numeric):
    """canon; with numeric, numbers by their value."""
    if isinstance(v, dict):
        return '{%s}' % ','.join(sorted(
            '%s:%s' % (canon(k), vcanon(i, numeric)) for k, i in v.items()))
    if isinstance(v, (list, tuple)):
        return '[%s]' % ','.join(vcanon(i, numeric) for i in v)
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        return 'n%r' % float(v) if numeric else canon(v)
    return canon(v)


def tree(sel, numeric, aliases):
    """Reference: merged, as nested plain data without regard of the order
    between fields and links."""
    items = {}
    for e in sel:
        key = (e[0], e[1], vcanon({k: real(v) for k, v in (e[2] or {}).items()},
                                  numeric),
               e[3] or e[1] if aliases else e[1])
        items.setdefault(key, [])
        if e[0] == 'l':
            items[key] += e[4]
    return [[k for k in items if k[0] == 'f'],
            [k + (tree(v, numeric, aliases),) for k, v in items.items()
             if k[0] == 'l']]


def read_tree(node, numeric):
    fields, links = [], []
    for f in node.fields:
        key = ('f' if type(f) is hq.Field else 'l', f.name,
               vcanon(f.options or {}, numeric), f.alias or f.name)
        if isinstance(f, hq.Link):
            links.append(key + (read_tree(f.node, numeric),))
        else:
            fields.append(key)
    return [fields, links]


def check(case, obs):
    fmt = case['fmt']
    query = to_node(case['query'], case['ordered'])
    if case['merge']:
        query = merge([query])
    before = describe(query)
    numeric = fmt == 'protobuf'
    for turn in (1, 2):
        if fmt == 'edn':
            for ascii_ in (True, False):
                text = edn.dumps(ex_simple.export(query), ensure_ascii=ascii_)
                got = rd_simple.read(text)
        elif fmt == 'protobuf':
            text = ex_protobuf.export(query).SerializeToString()
            got = rd_protobuf.read(text)
            same = rd_protobuf.transform(query_pb2.Node.FromString(text))
            ensure(describe(same) == describe(got), 'read and transform '
                   'differ')
        else:
            text = print_ast(ex_graphql.export(query))
            got = rd_graphql.read(text)
            op = rd_graphql.read_operation(text)
            ensure(op.type is rd_graphql.OperationType.QUERY and
                   describe(op.query) == describe(got), 'read_operation '
                   'differs from read')
        want = tree(case['query'], numeric, fmt == 'graphql')
        ensure(read_tree(got, numeric) == want,
               '%s, turn %d: %r\n got: %r\nwant: %r', fmt, turn, text,
               read_tree(got, numeric), want)
        for f in walk(got):
            for k, v in (f.options or {}).items():
                ensure(type(k) is str and plain(v, fmt),
                       'option of %r is not plain data: %r: %r', f.name, k, v)
        ensure(describe(query) == before, 'export changed the query')
        query, before = got, describe(got)
    return nontrivial(case['query'])


def plain(v, fmt):
    if isinstance(v, dict):
        return all((type(k) is str or fmt == 'edn' and
                    (k is None or type(k) in (int, float, bool))) and
                   plain(i, fmt) for k, i in v.items())
    if isinstance(v, (list, tuple)):
        return all(plain(i, fmt) for i in v)
    return v is None or type(v) in (str, int, float, bool) or \
        isinstance(v, (set, frozenset))


def walk(node):
    for f in node.fields:
        yield f
        if isinstance(f, hq.Link):
            yield from walk(f.node)


def nontrivial(sel):
    return wd.depth_of(sel) >= 2 or any(
        isinstance(v, (list, dict)) for e in sel for v in (e[2] or {}).values())


# -- the query builder

def handle(e):
    h = getattr(builder.Q, e[1])
    if e[2] is not None:
        h = h(**{k: real(v) for k, v in e[2].items()})
    if e[0] == 'l':
        items = [handle(i) for i in e[4]]
        h = h[items[0]] if len(items) == 1 else h[tuple(items)]
    if e[3] is not None:
        h = getattr(builder.Q, e[3]) << h
    return h


def check_builder(case, obs):
    want = to_node(case['query'], False)
    for _ in (1, 2):
        got = builder.build([handle(e) for e in case['query']])
        ensure(describe(got) == describe(want) and got == want,
               'builder\n got: %r\nwant: %r', got, want)
    return nontrivial(case['query'])


def gen_misuse(d):
    case = gen_tree(d, 'builder')
    while not case['query']:
        case['query'] = gen_tree(d, 'builder')['query'] or \
            [('f', 'a', None, None)]
    case.update(path=[d.byte() for _ in range(3)], kind=d.int(0, 9),
                extra=gen_tree(d, 'builder')['query'])
    return case


def check_misuse(case, obs):
    """One handle of the tree is used in a way that describes no tree."""
    Q = builder.Q
    path = list(case['path'])
    extra = case['extra']
    name = case['query'][0][1]

    def items():
        return tuple(handle(i) for i in extra)

    def bad(e):
        kind = case['kind']
        plain_ = (e[0], e[1], e[2], None) + tuple(e[4:])
        h = handle(plain_)
        if kind == 0 and e[2] is not None:
            obs.label('options twice')
            return h(**{k: real(v) for k, v in (e[2] or {'a': 1}).items()})
        if kind == 1 and e[0] == 'l':
            obs.label('items twice')
            return h[items()]
        if kind == 2:
            obs.label('attribute of an item')
            return getattr(h, name)
        if kind == 3:
            obs.label('alias with options')
            return getattr(Q, name)(**{name: 1}) << h
        if kind == 4:
            obs.label('alias with items')
            return getattr(Q, name)[items() or Q.a] << h
        if kind == 5:
            obs.label('alias with alias')
            return (getattr(Q, name) << Q.a) << h
        if kind == 6:
            obs.label('alias of something else')
            return h << [None, name, 1, (h,), [h]][case['path'][0] % 5]
        if kind == 7 and e[0] == 'f':
            obs.label('items of a wrong kind')
            return h[[name, 1, list(items()), {}, hq.Field(name)]
                     [case['path'][0] % 5]]
        obs.label('no name')
        return Q

    def make(e, deep):
        """handle(e) with the fault inside"""
        if not deep or e[0] == 'f' or not e[4]:
            return bad(e)
        h = getattr(Q, e[1])
        if e[2] is not None:
            h = h(**{k: real(v) for k, v in e[2].items()})
        i = deep[0] % len(e[4])
        kids = [make(c, deep[1:]) if j == i else handle(c)
                for j, c in enumerate(e[4])]
        return h[kids[0] if len(kids) == 1 else tuple(kids)]

    i = path[0] % len(case['query'])
    try:
        hs = [make(e, path[1:]) if j == i else handle(e)
              for j, e in enumerate(case['query'])]
        got = builder.build(hs)
    except (AssertionError, TypeError, AttributeError):
        return True
    fail('misuse of the builder is accepted: %r', got)


# -- values that a format cannot hold

class Strange:
    pass


def unsupported(fmt, i):
    out = [b'x', Strange(), datetime.date(2020, 1, 2), decimal.Decimal('1.5'),
           range(2), complex(1, 2), uuid.UUID(int=1), Strange, iter([1])]
    out += [float('inf'), -float('inf'), float('nan'), {(1,): 1},
            {Strange(): 1}]
    if fmt == 'protobuf':
        out += [2 ** 53 + 1, -2 ** 63 + 1, 10 ** 400, 3 ** 40]
    else:
        out += [(1, 2), (), {b'k': 1}]
    if fmt == 'graphql':
        # (and those which could end the key)
        out += [{k: 1} for k in KEYS]
    if fmt != 'edn':
        out += [{1: 1}, {None: 1}, {1.5: 1}, {True: 1}]
    if fmt != 'edn':
        out += [{1}, frozenset(), {2, 3}]
    return out[i % len(out)]


def gen_unsupported(d):
    fmt = d.pick(['edn', 'protobuf', 'graphql'])
    case = gen_tree(d, fmt)
    case.update(path=[d.byte() for _ in range(4)],
                wrap=[d.byte() for _ in range(d.int(0, 3))], bad=d.byte())
    return case


def check_unsupported(case, obs):
    fmt = case['fmt']
    v = unsupported(fmt, case['bad'])
    obs.label(type(v).__name__)
    for b in case['wrap']:
        v = [v] if b % 4 == 0 else [1, v] if b % 4 == 1 else \
            {'a': v} if b % 4 == 2 else {'b': None, 'a': v}

    def put(sel, path):
        if not sel:
            return [('f', 'a', {'o': v}, None)]
        i = path[0] % len(sel)
        e = sel[i]
        if e[0] == 'l' and len(path) > 1 and path[0] & 128:
            e = e[:4] + (put(e[4], path[1:]),)
        else:
            opts = dict(e[2] or {})
            opts['o'] = v
            e = (e[0], e[1], opts) + tuple(e[3:])
        return sel[:i] + [e] + sel[i + 1:]

    query = to_node(put(case['query'], case['path']), False)
    try:
        if fmt == 'edn':
            out = edn.dumps(ex_simple.export(query))
        elif fmt == 'protobuf':
            out = ex_protobuf.export(query).SerializeToString()
        else:
            out = print_ast(ex_graphql.export(query))
    except Exception:
        return True
    fail('%s: a value that the format cannot hold is exported: %r as %r',
         fmt, v, out)


TESTS = [
    Test('edn', lambda d: gen_tree(d, 'edn'), check, 5000, size=600),
    Test('protobuf', lambda d: gen_tree(d, 'protobuf'), check, 4000,
         size=600),
    Test('graphql', lambda d: gen_tree(d, 'graphql'), check, 4000, size=600),
    Test('builder', lambda d: gen_tree(d, 'builder'), check_builder, 4000,
         size=600),
    Test('misuse', gen_misuse, check_misuse, 2500, size=600),
    Test('unsupported', gen_unsupported, check_unsupported, 2500, size=600),
]

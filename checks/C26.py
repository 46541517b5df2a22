"""C26: the type definition dump lists the whole typed graph."""
import collections
import re

from hiku import graph as hg
from hiku.typedef.kinko import dumps

from lib import values as V
from lib.runner import Test, Violation, ensure

PROPERTY = 'C26'
RULE = 'at least four typed fields, one of them with a container type'
ASSUMPTIONS = [
    'names are identifiers, different for nodes and data types, and not the '
    'words of the format (List, Integer, ...)',
    'runs of whitespace in descriptions, line breaks among them, count as one '
    'space; empty descriptions as none',
    'untyped fields (and data types) are left out or printed as Unknown',
]

NAMES = ['a', 'b', 'c', 'id', 'name', 'type', '_x', 'A', 'zz9', 'record',
         'list_of', 'N', 'M', 'T0', '__x', 'x_']
WORDS = ['the', 'type', 'a', 'Record', ':a', ';', '; x', '  ; y', '"', '\\',
         'é', '\u2028', '\n', '\r\n', '\t', '\n\n', '\ntype x Integer', '\x85',
         'List\n    :a String', '\x0b', '\x1c', '#', '0', '-', '--', '.', '*',
         '_', "'", '%s', '{}', '$a', '<b>', 'None', 'False', '\x00', '\ud83d']


def draw_desc(d):
    if d.chance(1, 2):
        return None
    return d.pick([' ', '', ' ']).join(d.many(0, 4, lambda: d.pick(WORDS)))


def draw_type(d, refs, depth):
    c = d.int(0, 9)
    if c <= 3 or depth <= 0:
        return d.pick([('int',), ('str',), ('bool',), ('float',), ('any',)])
    if c == 4:
        return ('opt', draw_type(d, refs, depth - 1))
    if c == 5:
        return ('seq', draw_type(d, refs, depth - 1))
    if c == 6:
        return ('map', draw_type(d, refs, depth - 1 if d.bool() else 0),
                draw_type(d, refs, depth - 1))
    if c == 7 and refs:
        return ('ref', d.pick(refs))
    return ('rec', [(n, draw_type(d, refs, depth - 1))
                    for n in d.sample(NAMES, 0, 3)])


def gen(d):
    nodes = d.sample(['N', 'M', 'Node', 'record', '_N', '__n'], 0, 3)
    types = d.sample(['T0', 'T1', 'x_y', 'Typed'], 0, 3)
    refs = nodes + types

    depth = d.pick([3, 3, 3, 3, 8])

    def field(name):
        return {'name': name, 'kind': 'f', 'desc': draw_desc(d),
                'type': None if d.chance(1, 6) else draw_type(d, refs, depth),
                'opts': d.int(0, 2)}

    def items(lo):
        out = []
        for name in d.sample(NAMES, lo, 5):
            if nodes and d.chance(1, 3):
                t = ('ref', d.pick(nodes))
                out.append({'name': name, 'kind': 'l', 'desc': draw_desc(d),
                            'type': d.pick([t, ('opt', t), ('seq', t)]),
                            'opts': d.int(0, 2)})
            else:
                out.append(field(name))
        if d.chance(1, 12):
            # many more
            out += [{'name': 'wide%d' % k, 'kind': 'f', 'opts': 0,
                     'desc': 'the %d' % k if k % 3 else None,
                     'type': d.pick([('int',), ('str',),
                                     ('seq', ('str',))])}
                    for k in range(d.pick([5, 20, 70, 140, 300]))]
        return out
    many = d.pick([5, 9, 17, 33, 65]) if d.chance(1, 12) else 0
    if many and d.bool():
        types = types + ['Data%d' % k for k in range(many)]
        many = 0
    root = items(1)
    k = d.int(0, len(root)) if d.chance(1, 3) else len(root)
    return {'types': [(n, draw_type(d, refs, 3)) for n in types],
            'nodes': [{'name': n, 'desc': draw_desc(d), 'items': items(1)}
                      for n in nodes] +
            [{'name': 'Many%d' % k, 'desc': draw_desc(d) if k % 4 else None,
              'items': [field(n) for n in d.sample(NAMES, 1, 2)]}
             for k in range(many)],
            'roots': [r for r in (root[:k], root[k:]) if r],
            'first': d.bool()}


def build(case):
    def item(i):
        opts = [hg.Option('o%d' % k, V.to_type(('int',)), default=k,
                          description='option') for k in range(i['opts'])]
        if i['kind'] == 'f':
            return hg.Field(i['name'], None if i['type'] is None else
                            V.to_type(i['type']), lambda *a: 1 / 0,
                            options=opts, description=i['desc'])
        return hg.Link(i['name'], V.to_type(i['type']), lambda *a: 1 / 0,
                       requires=None, options=opts, description=i['desc'])
    nodes = [hg.Node(n['name'], [item(i) for i in n['items']],
                     description=n['desc']) for n in case['nodes']]
    roots = [hg.Root([item(i) for i in r]) for r in case['roots']]
    return hg.Graph(roots[:1] + nodes + roots[1:] if case['first']
                    else nodes + roots,
                    data_types={n: V.to_type(t) for n, t in case['types']})


# -- an independent reader of the format

SIMPLE = {'Integer', 'String', 'Boolean', 'Unknown'}


def parse(text):
    """[(name, type, description)]"""
    lines = []
    for n, line in enumerate(re.split('\r\n|\r|\n', text), 1):
        code, sep, desc = line.partition('  ; ')
        if not sep and code.endswith('  ;'):
            code = code[:-3]
        if not code.strip():
            ensure(not sep, 'line %d: a comment alone', n)
            continue
        body = code.lstrip(' ')
        depth, rest = divmod(len(code) - len(body), 2)
        ensure(not rest, 'line %d is indented by %d', n, len(code) -
               len(body))
        words = body.split()
        ensure(';' not in body and body.split(' ') == words, 'line %d: %r', n,
               line)
        lines.append((n, depth, words, desc if sep else None))
    out = []
    pos = 0

    def children(depth):
        """Groups of lines below"""
        nonlocal pos
        found = []
        while pos < len(lines) and lines[pos][1] > depth:
            n, dep, words, desc = lines[pos]
            ensure(dep == depth + 1, 'line %d is too deep', n)
            pos += 1
            found.append((n, words, desc, children(dep)))
        return found

    while pos < len(lines):
        n, depth, words, desc = lines[pos]
        ensure(depth == 0 and words[0] == 'type' and len(words) in (2, 3),
               'line %d: %r instead of a definition', n, words)
        pos += 1
        out.append((words[1], argument(n, words[2:], children(0)), desc))
    return out


def arguments(n, words, kids):
    """Types given in the line, and then below it"""
    out = []
    for w in words:
        ensure(w not in ('List', 'Dict', 'Option', 'Record') and w[0] != ':',
               'line %d: %r', n, words)
        out.append(w if w in SIMPLE else ('ref', w))
    for kn, kwords, kdesc, kkids in kids:
        ensure(kdesc is None, 'line %d has a comment', kn)
        out.append(type_of(kn, kwords, kkids))
    return out


def argument(n, words, kids):
    args = arguments(n, words, kids)
    ensure(len(args) == 1, 'line %d: %d types', n, len(args))
    return args[0]


def type_of(n, words, kids):
    head = words[0]
    if head == 'Record':
        ensure(len(words) == 1, 'line %d: %r', n, words)
        fields = []
        for kn, kwords, kdesc, kkids in kids:
            ensure(kwords[0][0] == ':' and len(kwords) < 3, 'line %d: %r', kn,
                   kwords)
            fields.append((kwords[0][1:], argument(kn, kwords[1:], kkids),
                           kdesc))
        return ('Record', fields)
    if head in ('List', 'Option'):
        return (head, argument(n, words[1:], kids))
    if head == 'Dict':
        args = arguments(n, words[1:], kids)
        ensure(len(args) == 2, 'line %d: Dict of %d types', n, len(args))
        return ('Dict', args[0], args[1])
    ensure(len(words) == 1 and not kids and head[0] != ':', 'line %d: %r', n,
           words)
    return head if head in SIMPLE else ('ref', head)


def wanted(spec):
    k = spec[0]
    if k in ('int', 'str', 'bool', 'float', 'any'):
        return {'int': 'Integer', 'str': 'String', 'bool': 'Boolean'}.get(
            k, 'Unknown')
    if k == 'ref':
        return ('ref', spec[1])
    if k == 'rec':
        return ('Record', [(n, wanted(t), None) for n, t in spec[1]])
    return ({'opt': 'Option', 'seq': 'List', 'map': 'Dict'}[k],) + \
        tuple(map(wanted, spec[1:]))


def freeze(t):
    """Fields of records in any order"""
    if isinstance(t, tuple):
        if t[0] == 'Record':
            return ('Record', tuple(sorted(map(freeze_field, t[1]))))
        return t[:1] + tuple(map(freeze, t[1:]))
    return t


def freeze_field(f):
    return (f[0], repr(freeze(f[1])), text_of(f[2]))


def text_of(desc):
    return ' '.join((desc or '').split())


def untyped(spec):
    return spec is None or spec == ('any',)


def compare(got, want, free, where):
    """free: names which may be there, as Unknown"""
    got = collections.Counter(map(freeze_field, got))
    want = collections.Counter(map(freeze_field, want))
    ensure(not want - got, '%s: missing %r; there is %r', where, want - got,
           got - want)
    seen = set()
    for (name, t, desc), n in (got - want).items():
        ensure(n == 1 and t == repr('Unknown') and name in free and
               name not in seen, '%s: unexpected %r', where, (name, t, desc))
        seen.add(name)


def check(case, obs):
    graph = build(case)
    text = dumps(graph)
    ensure(isinstance(text, str) and dumps(graph) == text,
           'the dump is not repeatable')
    got = parse(text)
    nodes = {n['name']: n for n in case['nodes']}
    want, free = [], {n for n, t in case['types'] if untyped(t)}
    for n, t in case['types']:
        if not untyped(t):
            want.append((n, wanted(t), None))
    for r in case['roots']:
        for i in r:
            if untyped(i['type']):
                free.add(i['name'])
            else:
                want.append((i['name'], wanted(i['type']), i['desc']))
    # nodes: their records are compared field by field
    rest = []
    for name, n in nodes.items():
        fields = [(i['name'], wanted(i['type']), i['desc'])
                  for i in n['items'] if not untyped(i['type'])]
        loose = {i['name'] for i in n['items'] if untyped(i['type'])}
        rest.append((name, n, fields, loose))
    def match(left, nodes):
        """Some definition for each node; a root field can have the name of
        a node"""
        if not nodes:
            compare(left, want, free, 'the dump')
            return
        name, n, fields, loose = nodes[0]
        error = None
        for k, g in enumerate(left):
            if g[0] != name or text_of(g[2]) != text_of(n['desc']) or \
                    g[1][0] != 'Record':
                continue
            try:
                compare(g[1][1], fields, loose, 'node %s' % name)
                return match(left[:k] + left[k + 1:], nodes[1:])
            except Violation as e:
                error = error or e
        if error is not None:
            raise error
        ensure(False, 'no definition of the node %r in %r', name, got)
    match(got, rest)
    typed = [i for r in case['roots'] for i in r if not untyped(i['type'])]
    typed += [i for n in case['nodes'] for i in n['items']
              if not untyped(i['type'])]
    deep = any(i['type'][0] in ('opt', 'seq', 'map', 'rec') for i in typed)
    if len(typed) > 64:
        obs.label('more than 64 fields')
    if any('\n' in (i['desc'] or '') for i in typed):
        obs.label('line breaks')
    if any(t == 'map' for i in typed for t in i['type'][:1]):
        obs.label('maps')
    if case['types']:
        obs.label('data types')
    return len(typed) >= 4 and deep


TESTS = [Test('dump', gen, check, 12000)]

"""GraphQL documents as plain data, their text, and their meaning by the
rules of the specification.

doc = {'ops': [op], 'frags': [(name, selection)], 'order': [int]}
op = {'type', 'name' or None, 'vars': [(name, type text, default or None)],
      'sel'}
selection = list of
    ('field', alias, name, [(arg, value)], directives, selection or None)
    ('spread', name, directives)
    ('inline', condition or None, directives, selection)
directives = [(name, value)]
value = ('var', name) | ('lit', python scalar, text) | ('list', [value])
        | ('obj', [(key, value)])
"""

FIELD_NAMES = ['a', 'b', 'c', 'foo', 'id', '_x', 'query', 'on', 'type',
               'mutation', 'fragment', 'true']
ALIASES = ['a', 'b', 'k', 'm', 'foo', 'null']
ARGS = ['p', 'q', 'if', 'limit', 'input']
# they are apart from all other names
FRAGS = [n for n in FIELD_NAMES if n != 'on'] + ['k', 'm', 'null', 'A', 'B',
                                                 'F1', 'T', 'v0']
VARS = ARGS + FIELD_NAMES + ['k', 'm', 'null', 'A', 'B', 'F1', 'T']

LITERALS = [
    (None, 'null'), (True, 'true'), (False, 'false'), (0, '0'), (1, '1'),
    (-1, '-1'), (123456789012345678901, '123456789012345678901'),
    (1.5, '1.5'), (-0.5, '-0.5'), (1000.0, '1e3'), (0.01, '1E-2'),
    (2.0, '2.0'), (1.5e-20, '1.5e-20'), (0.1, '0.1'), (-0.0, '-0.0'),
    (123456.7891011, '123456.7891011'), (1.7e308, '1.7E+308'),
    (0.30000000000000004, '0.30000000000000004'), (float(10 ** 22), '1e22'),
    (9007199254740993, '9007199254740993'), (-2 ** 63, str(-2 ** 63)),
    ('a\n  b\n\nc', '"""\n    a\n      b\n\n    c\n  """'),
    (' a ', '" a "'), ('', '""'), ('a', '"a"'), ('é', '"é"'), ('é', '"\\u00e9"'),
    ('\n"\\/', '"\\n\\"\\\\\\/"'), ('😀', '"😀"'), ('😀', '"\\ud83d\\ude00"'),
    ('a "b"', '"a \\"b\\""'), ('x y', '"""x y"""'),
    ('', '""""""'), ('ENUM', 'ENUM'), ('enum_1', 'enum_1'), ('a', 'a'),
    ('{ # $v', '"{ # $v"'), ('1', '"1"'), ('true', '"true"'),
    ('\t\b\f\r', '"\\t\\b\\f\\r"'), ('query', 'query'), ('on', 'on'),
]

VAR_VALUES = [None, True, False, 0, 1, -5, 1.5, '', 'a', 'é', [], [1, [2]],
              {}, {'a': {'b': None}}, [None], 'ENUM', {'x-y': 1}, 10 ** 20, 0.1, 5e-324, 1e22,
              ' a ', 'a\n', '\0', '\ud83d']


def literal(d, depth, const):
    c = d.int(0, 9)
    if not const and c >= 7:
        return ('var', 'v%d' % d.int(0, 3))
    if depth > 0 and c == 6:
        return ('list', d.many(0, 3, lambda: literal(d, depth - 1, const)))
    if depth > 0 and c == 5:
        return ('obj', [(k, literal(d, depth - 1, const))
                        for k in d.sample(ARGS + ['true', 'x'], 0, 3)])
    return ('lit',) + d.pick(LITERALS)


def draw_dirs(d):
    c = d.int(0, 9)
    if c < 6:
        return []
    names = [['skip'], ['include'], ['skip', 'include'],
             ['include', 'skip']][c - 6]

    def flag():
        if d.chance(1, 3):
            return ('var', 'b%d' % d.int(0, 1))
        b = d.bool()
        return ('lit', b, 'true' if b else 'false')
    return [(n, flag()) for n in names]


def draw_sel(d, depth, frags, width=4):
    out = []
    for _ in range(d.int(1, width)):
        c = d.int(0, 9)
        if c >= 8 and frags:
            out.append(('spread', d.pick(frags), draw_dirs(d)))
        elif c >= 6 and depth > 0:
            out.append(('inline', d.pick([None, 'T', 'on1']), draw_dirs(d),
                        draw_sel(d, depth - 1, frags, width)))
        else:
            alias = d.pick([None, None, None] + ALIASES)
            args = [(n, literal(d, 2, False))
                    for n in (d.sample(ARGS, 1, 3) if d.chance(1, 3) else [])]
            sub = None
            if depth > 0 and d.bool():
                sub = draw_sel(d, depth - 1, frags, width)
            out.append(('field', alias, d.pick(FIELD_NAMES), args,
                        draw_dirs(d), sub))
    return out


def draw_doc(d, types=('query', 'query', 'mutation', 'subscription'),
             rename=True):
    names = d.sample(FRAGS, 0, 4) if d.bool() else [
        'F%d' % i for i in range(d.int(0, 4))]
    # a fragment may use the ones after it: no cycles
    frags = [(n, draw_sel(d, 2, names[i + 1:], 3))
             for i, n in enumerate(names)]
    ops = []
    nops = d.pick([1, 1, 1, 2, 3])
    onames = d.sample(['A', 'B', 'query', 'C'], nops, nops)
    if d.bool():
        onames[d.below(nops)] = None
    for name in onames:
        variables = []
        for v in ['v0', 'v1', 'v2', 'v3']:
            t = d.pick(['Int', 'String!', '[Int!]!', 'Any', 'In!'])
            default = literal(d, 1, True) if d.chance(1, 3) else None
            variables.append((v, t, default))
        for v in ['b0', 'b1']:
            b = d.bool()
            default = ('lit', b, 'true' if b else 'false') \
                if d.bool() else None
            variables.append((v, d.pick(['Boolean!', 'Boolean']), default))
        ops.append({'type': d.pick(types), 'name': name, 'vars': variables,
                    'sel': draw_sel(d, 3, names)})
    doc = {'ops': ops, 'frags': frags,
           'order': d.perm(range(len(ops) + len(frags)))}
    if rename and d.chance(1, 3):
        olds = ['v0', 'v1', 'v2', 'v3', 'b0', 'b1']
        news = dict(zip(olds, d.sample(VARS, 6, 6)))
        doc = renamed(doc, news)
        for op in doc['ops']:
            op['vars'] = [(news[v], t, x) for v, t, x in op['vars']]
    return doc


def large_doc(d, types=('query', 'query', 'mutation', 'subscription')):
    """A document which is large in one way."""
    doc = draw_doc(d, types, rename=False)
    op = d.pick(doc['ops'])
    kind = d.pick(['fields', 'deep', 'chain', 'spreads', 'fragments', 'vars',
                   'ops', 'args', 'value', 'text', 'inline'])
    n = d.pick([9, 17, 33, 65, 100, 130, 260])

    def field(name, sub=None, args=(), alias=None, dirs=()):
        return ('field', alias, name, list(args), list(dirs), sub)

    def lit(i):
        return ('lit', i, str(i))
    new = []
    if kind == 'fields':
        step = d.int(1, 3)
        new = [field('f%d' % (i // step), alias=d.pick([None, 'k%d' % i]),
                     dirs=draw_dirs(d) if d.chance(1, 8) else ())
               for i in range(n)]
    elif kind in ('deep', 'inline'):
        new = draw_sel(d, 1, [])
        for i in range(min(n, 60)):
            below = [field('b%d' % i)] if d.bool() else []
            if kind == 'deep':
                new = [field('d%d' % (i % 3), new)] + below
            else:
                new = [('inline', d.pick([None, 'T']), [], new)] + below
            if d.bool():
                new.reverse()
    elif kind == 'chain':
        n = min(n, 60)
        names = ['C%d' % i for i in range(n)]
        frags = [(c, [field('c%d' % i)] +
                  ([('spread', names[i + 1], [])] if i + 1 < n else []))
                 for i, c in enumerate(names)]
        if d.bool():
            frags.reverse()
        doc['frags'] = doc['frags'] + frags
        new = [('spread', names[0], [])]
    elif kind == 'spreads':
        doc['frags'] = doc['frags'] + [('C', draw_sel(d, 1, []))]
        new = [field('s%d' % i, [('spread', 'C', [])]) if d.bool() else
               ('spread', 'C', []) for i in range(n)]
    elif kind == 'fragments':
        names = ['C%d' % i for i in range(n)]
        doc['frags'] = doc['frags'] + [(c, [field('c%d' % i)])
                                       for i, c in enumerate(names)]
        new = [('spread', c, []) for c in names]
        if d.bool():
            new.reverse()
    elif kind == 'vars':
        op['vars'] = op['vars'] + [
            ('w%d' % i, 'Int', lit(-i) if i % 3 else None) for i in range(n)]
        new = [field('f', None, [('p', ('var', 'w%d' % i))], 'k%d' % i)
               for i in range(0, n, d.int(1, 3))]
    elif kind == 'ops':
        if op['name'] is None:
            op['name'] = 'Main'
        doc['ops'] = doc['ops'] + [
            {'type': d.pick(types), 'name': 'Op%d' % i, 'vars': op['vars'],
             'sel': [field('f%d' % i)]} for i in range(min(n, 33))]
        for i, o in enumerate(doc['ops']):
            if o['name'] is None:
                o['name'] = 'Main%d' % i
    elif kind == 'args':
        new = [field('f', None, [('a%d' % i, literal(d, 1, False))
                                 for i in range(min(n, 65))])]
    elif kind == 'value':
        how = d.int(0, 3)
        v = lit(1)
        if how == 0:
            v = ('list', [lit(i) for i in range(n)])
        elif how == 1:
            v = ('obj', [('a%d' % i, lit(i)) for i in range(n)])
        else:
            for i in range(min(n, 65)):
                v = ('list', [v]) if how == 2 or i % 2 else ('obj', [
                    ('a', v)])
        new = [field('f', None, [('p', v)])]
    else:
        t = d.pick(['a', 'é', ' ', '😀', 'ab ']) * n * d.pick([1, 10, 40])
        new = [field('f', None, [('p', ('lit', t, '"%s"' % t))])]
    op['sel'] = new + op['sel'] if d.bool() else op['sel'] + new
    doc['order'] = d.perm(range(len(doc['ops']) + len(doc['frags'])))
    doc['large'] = kind
    return doc


def renamed(x, news):
    """With other names of variables where they are used"""
    if isinstance(x, tuple) and len(x) == 2 and x[0] == 'var' and \
            isinstance(x[1], str):
        return ('var', news[x[1]])
    if isinstance(x, (list, tuple)):
        return type(x)(renamed(i, news) for i in x)
    if isinstance(x, dict):
        return {k: renamed(v, news) for k, v in x.items()}
    return x


def draw_variables(d, op):
    """Variables with which the operation can be read."""
    out = {}
    for name, t, default in op['vars']:
        if t.startswith('Boolean'):
            need = default is None
            if need or d.bool():
                out[name] = d.bool()
        else:
            need = default is None and t.endswith('!')
            if need or d.bool():
                out[name] = d.pick(VAR_VALUES)
    if d.chance(1, 4):
        out['unknown'] = 1
    return out


# ---------------------------------------------------------------------- text

def value_text(v):
    if v[0] == 'var':
        return '$' + v[1]
    if v[0] == 'lit':
        return v[2]
    if v[0] == 'list':
        return '[%s]' % ' '.join(map(value_text, v[1]))
    return '{%s}' % ', '.join('%s: %s' % (k, value_text(i)) for k, i in v[1])


def dirs_text(dirs):
    return ''.join(' @%s(if: %s)' % (n, value_text(v)) for n, v in dirs)


def sel_text(sel, sep):
    out = []
    for e in sel:
        if e[0] == 'field':
            _, alias, name, args, dirs, sub = e
            t = ('%s: ' % alias if alias else '') + name
            if args:
                t += '(%s)' % ', '.join('%s: %s' % (n, value_text(v))
                                        for n, v in args)
            t += dirs_text(dirs)
            if sub is not None:
                t += ' ' + sel_text(sub, sep)
        elif e[0] == 'spread':
            t = '... %s%s' % (e[1], dirs_text(e[2]))
        else:
            t = '...%s%s %s' % (' on ' + e[1] if e[1] else '',
                                dirs_text(e[2]), sel_text(e[3], sep))
        out.append(t)
    return '{ %s }' % sep.join(out)


def used_vars(doc, sel, seen=None):
    seen = set() if seen is None else seen
    frags = dict(doc['frags'])
    out = set()

    def val(v):
        if v[0] == 'var':
            out.add(v[1])
        elif v[0] == 'list':
            for i in v[1]:
                val(i)
        elif v[0] == 'obj':
            for _, i in v[1]:
                val(i)
    for e in sel:
        for _, v in e[4] if e[0] == 'field' else e[2]:
            val(v)
        if e[0] == 'field':
            for _, v in e[3]:
                val(v)
            if e[5] is not None:
                out |= used_vars(doc, e[5], seen)
        elif e[0] == 'spread':
            if e[1] not in seen:
                seen.add(e[1])
                out |= used_vars(doc, frags[e[1]], seen)
        else:
            out |= used_vars(doc, e[3], seen)
    return out


def op_text(doc, op, sep='\n'):
    head = op['type']
    if op['name']:
        head += ' ' + op['name']
    variables = ', '.join('$%s: %s%s' % (
        n, t, '' if default is None else ' = ' + value_text(default))
        for n, t, default in op['vars'])
    if variables:
        head += '(%s)' % variables
    elif op['type'] == 'query' and not op['name']:
        head = ''
    return '%s %s' % (head, sel_text(op['sel'], sep))


def text(doc, sep='\n'):
    parts = [op_text(doc, op, sep) for op in doc['ops']] + [
        'fragment %s on T %s' % (n, sel_text(s, sep))
        for n, s in doc['frags']]
    return '\n'.join(parts[i] for i in doc['order'])


# ------------------------------------------------------------------- meaning

def value_of(v, env):
    if v[0] == 'var':
        return env[v[1]]
    if v[0] == 'lit':
        return v[1]
    if v[0] == 'list':
        return [value_of(i, env) for i in v[1]]
    return {k: value_of(i, env) for k, i in v[1]}


def environment(op, variables):
    return {n: variables[n] if n in variables else
            None if default is None else value_of(default, {})
            for n, t, default in op['vars']}


def kept(dirs, env):
    for name, v in dirs:
        b = value_of(v, env)
        if b is (name == 'skip'):
            return False
    return True


def meaning(doc, sel, env):
    """Selection (as in lib.world) with fragments expanded in place, not
    merged."""
    frags = dict(doc['frags'])
    out = []
    for e in sel:
        if not kept(e[4] if e[0] == 'field' else e[2], env):
            continue
        if e[0] == 'field':
            opts = {n: value_of(v, env) for n, v in e[3]} or None
            if e[5] is None:
                out.append(('f', e[2], opts, e[1]))
            else:
                out.append(('l', e[2], opts, e[1],
                            meaning(doc, e[5], env)))
        elif e[0] == 'spread':
            out += meaning(doc, frags[e[1]], env)
        else:
            out += meaning(doc, e[3], env)
    return out

"""C15: malformed queries are rejected by every reader."""
from hiku import edn
from hiku.protobuf import query_pb2
from hiku.query import Field, Link, Node
from hiku.readers import graphql as rd_graphql
from hiku.readers import protobuf as rd_protobuf
from hiku.readers import simple as rd_simple

from lib import gqldoc as G
from lib.runner import Test, ensure, fail

PROPERTY = 'C15'
RULE = ('faulty documents: the document is accepted without the fault; fuzz: '
        'the text or bytes are not empty')
ASSUMPTIONS = [
    'faults are in the operation that is read or in fragments that it uses, '
    'and not inside of a selection left out by its directives',
    'termination means 40 s of CPU time for an input below 2 kB',
]

FAULTS = ['no operation', 'several operations', 'unknown operation',
          'duplicated operation', 'duplicated anonymous',
          'duplicated fragment', 'cyclic fragment', 'undefined fragment',
          'undefined variable', 'missing variable', 'directive without args',
          'directive with two args', 'directive arg name', 'syntax']


def gen_large(d):
    return gen_graphql(d, G.large_doc)


def gen_graphql(d, draw=G.draw_doc):
    doc = draw(d, ('query', 'query', 'mutation'))
    i = d.below(len(doc['ops']))
    op = doc['ops'][i]
    if op['name'] is None and len(doc['ops']) > 1:
        op['name'] = 'Z'
    return {'doc': doc, 'op': i, 'variables': G.draw_variables(d, op),
            'fault': d.pick(FAULTS), 'bytes': [d.byte() for _ in range(24)],
            'reader': d.bool()}


def dirless(e):
    return not (e[4] if e[0] == 'field' else e[2])


def kept_places(doc, sel, env, prefix=(), out=None):
    """Paths of the selections (of one operation) that are kept."""
    out = [] if out is None else out
    out.append(prefix)
    for i, e in enumerate(sel):
        if not G.kept(e[4] if e[0] == 'field' else e[2], env):
            continue
        if e[0] == 'field' and e[5] is not None:
            kept_places(doc, e[5], env, prefix + (i,), out)
        elif e[0] == 'inline':
            kept_places(doc, e[3], env, prefix + (i,), out)
    return out


def kept_frags(doc, sel, env, out):
    """Names of fragments that are reached and kept."""
    for e in sel:
        if not G.kept(e[4] if e[0] == 'field' else e[2], env):
            continue
        if e[0] == 'field' and e[5] is not None:
            kept_frags(doc, e[5], env, out)
        elif e[0] == 'inline':
            kept_frags(doc, e[3], env, out)
        elif e[0] == 'spread' and e[1] not in out:
            out.append(e[1])
            kept_frags(doc, dict(doc['frags'])[e[1]], env, out)
    return out


def insert(sel, path, new, pos):
    if not path:
        p = pos % (len(sel) + 1)
        return sel[:p] + [new] + sel[p:]
    e = list(sel[path[0]])
    k = 5 if e[0] == 'field' else 3
    e[k] = insert(e[k], path[1:], new, pos)
    return sel[:path[0]] + [tuple(e)] + sel[path[0] + 1:]


def make_faulty(case):
    """(text, variables, operation name) or None."""
    from lib.gen import D
    d = D(bytes(case['bytes']))
    doc = dict(case['doc'], ops=list(case['doc']['ops']),
               frags=list(case['doc']['frags']))
    i = case['op']
    op = doc['ops'][i] = dict(doc['ops'][i])
    variables = dict(case['variables'])
    name = op['name'] if len(doc['ops']) > 1 else None
    env = G.environment(op, variables)
    fault = case['fault']
    frags = kept_frags(doc, op['sel'], env, [])

    def plant(new):
        """Into the operation or a fragment it uses."""
        if frags and d.bool():
            f = d.pick(frags)
            k = [n for n, _ in doc['frags']].index(f)
            sel = doc['frags'][k][1]
            path = d.pick(kept_places(doc, sel, env))
            doc['frags'][k] = (f, insert(sel, path, new, d.byte()))
        else:
            path = d.pick(kept_places(doc, op['sel'], env))
            op['sel'] = insert(op['sel'], path, new, d.byte())

    def holder(dirs):
        k = d.int(0, 2)
        if k == 0:
            return ('field', None, 'a', [], dirs, None)
        if k == 1:
            return ('inline', None, dirs, [('field', None, 'a', [], [],
                                            None)])
        doc['frags'].append(('Ok', [('field', None, 'a', [], [], None)]))
        return ('spread', 'Ok', dirs)

    extra = ''
    if fault == 'no operation':
        doc['ops'] = []
        if not doc['frags']:
            doc['frags'].append(('X', [('field', None, 'a', [], [], None)]))
        if d.bool():
            name = d.pick([None, op['name']])
    elif fault == 'several operations':
        if len(doc['ops']) == 1:
            doc['ops'].append(dict(op, name='Other', sel=[
                ('field', None, 'a', [], [], None)]))
        name = None
    elif fault == 'unknown operation':
        name = d.pick(['Nope', 'a', '', 'F0', 'queryy'])
    elif fault == 'duplicated operation':
        op['name'] = name = op['name'] or 'Dup'
        doc['ops'].append(dict(op, type=d.pick(['query', 'mutation'])))
    elif fault == 'duplicated anonymous':
        doc['ops'] += [dict(op, name=None), dict(op, name=None)]
    elif fault == 'duplicated fragment':
        if not doc['frags']:
            doc['frags'].append(('X', [('field', None, 'a', [], [], None)]))
        doc['frags'].append(d.pick(doc['frags']))
    elif fault == 'cyclic fragment':
        n = d.pick([1, 2, 3, 1, 2, 3, 8, 20, 40])
        for k in range(n):
            s = ('spread', 'Cy%d' % ((k + 1) % n), [])
            wrap = d.int(0, 2)
            if wrap == 1:
                s = ('inline', None, [], [s])
            elif wrap == 2:
                s = ('field', None, 'b', [], [], [s])
            doc['frags'].append(('Cy%d' % k, [
                ('field', None, 'a', [], [], None), s]))
        plant(('spread', 'Cy%d' % d.below(n), []))
    elif fault == 'undefined fragment':
        plant(('spread', 'Nope', d.pick([[], [
            ('skip', ('lit', False, 'false'))]])))
    elif fault == 'undefined variable':
        where = d.int(0, 3)
        v = ('var', 'nope')
        if where == 0:
            plant(('field', None, 'a', [('p', v)], [], None))
        elif where == 1:
            plant(('field', None, 'a', [('p', ('list', [('obj', [
                ('x', v)])]))], [], None))
        else:
            plant(holder([(d.pick(['skip', 'include']), v)]))
        variables['nope'] = True    # given, but not declared
        if d.bool():
            del variables['nope']
    elif fault == 'missing variable':
        op['vars'] = op['vars'] + [('must', d.pick(['Int!', '[Int]!', 'X!']),
                                    None)]
        if d.bool():
            plant(('field', None, 'a', [('p', ('var', 'must'))], [], None))
        if not variables and d.bool():
            variables = None
    elif fault.startswith('directive'):
        which = d.pick(['skip', 'include'])
        ok = {'skip': '(if: false)', 'include': '(if: true)'}[which]
        args = {'directive without args': '',
                'directive with two args': d.pick([
                    '(if: %s, x: 1)', '(x: 1, if: %s)', '(if: %s, if: %s)']
                ).replace('%s', ok[5:-1]),
                'directive arg name': ok.replace(
                    'if', d.pick(['iff', 'unless', 'x', 'If', 'IF', 'when', 'value',
                                  'i', 'f', '_if', 'if_', 'cond', 'condition',
                                  'skip', 'include']))}[fault]
        other = d.pick(['', '', ' @skip(if: false)', ' @include(if: true)'])
        if other.startswith(' @' + which):
            other = ''
        plant(holder([('@BAD@', ('lit', None, ''))]))
        text = G.text(dict(doc, order=range(
            len(doc['ops']) + len(doc['frags']))))
        bad = '@%s%s' % (which, args)
        text = text.replace('@@BAD@(if: )', d.pick([
            bad + other, (other + ' ' + bad).strip()]))
        return text, variables, name
    elif fault == 'syntax':
        text = G.text(doc)
        # (a fault at the ends cannot be inside of a string)
        k = d.int(0, 5)
        if k == 0:
            text = text.rstrip()
            while not text.endswith('}'):       # trailing comment
                text = text[:text.rindex('\n')].rstrip()
            text = text[:-1]
        elif k == 1:
            text += d.pick(['\n}', '\n {', '\n { a', '\n foo', '\n { }',
                            '\n fragment on on T { a }',
                            '\n query ( { a }', '\n)', '\n"'])
        elif k == 2:
            text = d.pick(['', ' ', '# only', '{', '}', '{}', '{ a(x: ) }',
                           '{ a() }', '{ a: }', '{ ... }', '{ a "b" }',
                           '{ a(x: $) }', '{ a(x: 01) }', '{ a(x: "b) }',
                           '{ a(x: 1.) }', '{ a(x: .5) }', '{ a(: 1) }',
                           '{ a @ }', '{ a: b: c }', '{ a(x: "\n") }',
                           '{ a(x: "\\q") }', '{ a(x: "\\u12") }',
                           '{ ...on }', 'query { a } { b',
                           'query Q($a) { a }', 'query Q($a: ) { a }',
                           'query Q() { a }', 'fragment F { a } { a }',
                           '{ a(x: {y}) }', '{ a(x: [1) }', '{ a } ...F'])
        elif k == 3:
            text = d.pick(['{ }', '{', '} ', '( ', '... ', ') ',
                           '@skip(if: true) ', '$v ', '1 ']) + text
        elif k == 4:
            text = text[:text.rindex('}')] + '{ }}'
        else:
            text = text + '\n\x00'
        return text, variables, name
    order = range(len(doc['ops']) + len(doc['frags']))
    return G.text(dict(doc, order=d.perm(order))) + extra, variables, name


def check_graphql(case, obs):
    doc = case['doc']
    op = doc['ops'][case['op']]
    name = op['name'] if len(doc['ops']) > 1 else None
    # without the fault the document is read
    rd_graphql.read_operation(G.text(doc), case['variables'], name)
    text, variables, name = make_faulty(case)
    readers = [rd_graphql.read_operation]
    if op['type'] == 'query':
        readers.append(rd_graphql.read)
    for read in readers:
        try:
            got = read(text, variables, name)
        except Exception:
            continue
        fail('%s: %s accepts %s\nvariables: %r, operation: %r\nread as %r',
             case['fault'], read.__name__, text, variables, name,
             getattr(got, 'query', got))
    obs.label(case['fault'])
    return True


# -- EDN

EDN_FAULTS = ['member', 'link name', 'link value', 'root', 'tuple arity',
              'tuple name', 'options form', 'option name', 'link tuple',
              'text']
BAD_MEMBERS = ['1', '"a"', 'sym', 'nil', 'true', '[]', '[:a]', '#{:a}',
               '1.5', '#t :a', '#{}', '\\a']
BAD_NAMES = ['1', '"a"', 'sym', 'nil', '[:a]', 'true', '#{:a}', '{:a 1}',
             '#t :a', '(:a)', '(:a {} {})', '("a" {})', '()']
BAD_OPTIONS = ['1', '"a"', 'sym', 'nil', '[]', '[:a 1]', ':a', '#{}', '()',
               '#t {:a 1}', '{:a}', '{:a 1 :b}']
BAD_OPTION_NAMES = ['1', '"a"', 'sym', 'nil', '[:a]', 'true', '#t :a']


def gen_edn(d):
    def name():
        n = ':' + d.pick(['a', 'b', 'foo/bar', 'a-b'])
        if d.chance(1, 3):
            return ['(', n, '{', ' '.join(d.many(0, 2, lambda: ':%s %s' % (
                d.pick('op'), d.pick(['1', '[]', '"x"', '{:a 1}', ':k'])))),
                '}', ')']
        return [n]

    def node(depth):
        out = ['[']
        for _ in range(d.int(0, 3)):
            if depth and d.bool():
                out += [['{', name(), node(depth - 1), '}']]
            else:
                out.append(name())
        return out + [']']
    fault = d.pick(EDN_FAULTS)
    tree = node(3)
    bad = {'member': d.pick(BAD_MEMBERS),
           'link name': '{%s [:a]}' % d.pick(BAD_NAMES),
           'link value': '{:a %s}' % d.pick(
               BAD_MEMBERS[:5] + ['{:a [:b]}', ':a', '(:a)', '#{:a}']),
           'tuple arity': d.pick(['()', '(:a)', '(:a {} {})', '(:a {} 1)']),
           'tuple name': '(%s {:x 1})' % d.pick(BAD_NAMES[:7]),
           'options form': '(:a %s)' % d.pick(BAD_OPTIONS),
           'option name': '(:a {%s 1 :b 2})' % d.pick(BAD_OPTION_NAMES),
           'link tuple': '{%s [:a]}' % d.pick(
               ['(:a)', '(:a {} {})', '(:a %s)' % d.pick(BAD_OPTIONS),
                '(%s {})' % d.pick(BAD_NAMES[:7]),
                '(:a {%s 1})' % d.pick(BAD_OPTION_NAMES)]),
           'root': d.pick(['{:a [:b]}', ':a', '(:a)', '1', 'nil', '#{:a}',
                           '"[:a]"', '(:a {:x 1})', 'a', '()', '{}']),
           'text': d.pick(['', ' ', ';', '[', ']', '[:a', '[:a] [:b]', ':a]',
                           '[:a}', '[{:a}]', '[{:a [:b] :c}]', '[(:a {:b})]', '["a]', '[#]',
                           '[:a] 1', '[(:a {:b)]', '[1.2.3]', '[@]'])}
    return {'tree': tree, 'fault': fault, 'bad': bad[fault],
            'at': d.int(0, 200)}


def flat(t):
    return t if isinstance(t, str) else ' '.join(map(flat, t))


def nodes_of(t, out=None):
    """Lists of the tree that are nodes."""
    out = [] if out is None else out
    if isinstance(t, list):
        if t and t[0] == '[':
            out.append(t)
        for i in t:
            nodes_of(i, out)
    return out


def check_edn(case, obs):
    import copy
    good = flat(case['tree'])
    ensure(isinstance(rd_simple.read(good), Node), '%r is not read', good)
    tree = copy.deepcopy(case['tree'])
    if case['fault'] in ('root', 'text'):
        text = case['bad']
    else:
        nodes = nodes_of(tree)
        node = nodes[case['at'] % len(nodes)]
        node.insert(1 + case['at'] % (len(node) - 1), case['bad'])
        text = flat(tree)
    try:
        got = rd_simple.read(text)
    except Exception:
        obs.label(case['fault'])
        return True
    fail('%s: %r is read as %r', case['fault'], text, got)


# -- Protocol Buffers

def gen_pb(d):
    def node(depth):
        out = []
        for _ in range(d.int(0, 3)):
            name = d.pick(['a', 'b', 'é'])
            opts = d.pick([None, {}, {'o': 1}])
            if depth and d.bool():
                out.append(('l', name, opts, node(depth - 1)))
            else:
                out.append(('f', name, opts))
        return out
    return {'tree': node(3), 'fault': d.pick([
        'empty item', 'field name', 'link name', 'field name with options',
        'link name with node']), 'at': d.int(0, 200)}


def pb(sel, path=None, bad=None):
    out = query_pb2.Node()

    def options(msg, opts):
        if opts is not None:
            msg.options.Clear()
            for k, v in opts.items():
                msg.options[k] = v
            msg.options.SetInParent()
    pos = None if bad is None or path[0] else path[1] % (len(sel) + 1)
    for i in range(len(sel) + 1):
        if i == pos:
            item = out.items.add()
            if bad == 'field name':
                item.field.SetInParent()
            elif bad == 'field name with options':
                item.field.options['x'] = 1
            elif bad == 'link name':
                item.link.SetInParent()
            elif bad == 'link name with node':
                item.link.node.items.add().field.name = 'a'
        if i == len(sel):
            break
        e = sel[i]
        item = out.items.add()
        if e[0] == 'f':
            item.field.name = e[1]
            options(item.field, e[2])
        else:
            item.link.name = e[1]
            options(item.link, e[2])
            below = (path[0][1:], path[1]) \
                if bad and path[0] and path[0][0] == i else None
            item.link.node.CopyFrom(pb(e[3], below, bad if below else None))
    return out


def pb_places(sel, prefix=()):
    out = [prefix]
    for i, e in enumerate(sel):
        if e[0] == 'l':
            out += pb_places(e[3], prefix + (i,))
    return out


def check_pb(case, obs):
    sel = case['tree']
    good = pb(sel).SerializeToString()
    ensure(isinstance(rd_protobuf.read(good), Node), '%r is not read', good)
    places = pb_places(sel)
    msg = pb(sel, (places[case['at'] % len(places)], case['at']),
             case['fault'])
    data = msg.SerializeToString()
    for read, value in [(rd_protobuf.read, data),
                        (rd_protobuf.transform, msg)]:
        try:
            got = read(value)
        except Exception:
            continue
        fail('%s: %r is read as %r', case['fault'], value, got)
    obs.label(case['fault'])
    return True


# -- fuzzing: termination, and nothing but a query or an exception

GQL_TOKENS = ['{', '}', '(', ')', '[', ']', ':', '$', '@', '...', '!', '=',
              '"', '"""', '#', '\n', ' ', ',', 'query', 'mutation', 'fragment',
              'on', 'a', 'b', 'F', 'T', 'Int', '1', '-1', '1.5', '1e', 'true',
              'null', '@skip(if: true)', '@include(if: $b)', '{ a }',
              '...F', 'fragment F on T { a }', 'query ($a: Int) { a(x: $a) }',
              '\\', '\\u', '\x00', 'é', '\ufeff', '&', '|', 'subscription',
              'schema', 'type A { a: Int }', '...on T { b }']
EDN_TOKENS = ['[', ']', '{', '}', '(', ')', '#', '#{', '"', '\\', ';', '\n',
              ' ', ',', ':', ':a', 'a', '1', '-', '.', '-1', '1.5', '1e',
              'nil', 'true', '#foo', '#inst', '#uuid', '"x"', '\\u', '\\n',
              '\\newline', 'M', 'N', '+', '/', '[:a {:b [:c]}]', '(:a {:b 1})',
              '\x00', 'é', '\ufeff', '@', '^', '~', '_', '#_', '\\u00e9',
              '"2011-01-01T00:00:00.0Z"']


def gen_text(d):
    which = d.pick(['graphql', 'edn'])
    tokens = GQL_TOKENS if which == 'graphql' else EDN_TOKENS
    if d.bool():
        text = ''.join(d.many(0, 24, lambda: d.pick(tokens)))
    else:
        # a valid text with a few edits
        if which == 'graphql':
            text = G.text(G.draw_doc(d), d.pick(['\n', ' ']))
        else:
            text = flat(gen_edn(d)['tree'])
        for _ in range(d.int(1, 4)):
            i, j = d.int(0, max(1, len(text))), d.int(0, 6)
            text = text[:i] + d.pick(tokens) * d.int(0, 2) + text[i + j:]
    return {'which': which, 'text': text,
            'variables': d.pick([None, {}, {'a': 1, 'v0': None, 'b0': True}]),
            'name': d.pick([None, None, 'A', 'F'])}


def is_query(node):
    if type(node) is not Node:
        return False
    for f in node.fields:
        if type(f) not in (Field, Link) or not isinstance(f.name, str):
            return False
        if type(f) is Link and not is_query(f.node):
            return False
    return True


def check_text(case, obs):
    text = case['text']
    ok = False
    if case['which'] == 'graphql':
        for read in (rd_graphql.read, rd_graphql.read_operation):
            try:
                got = read(text, case['variables'], case['name'])
            except Exception:
                continue
            ok = True
            ensure(is_query(getattr(got, 'query', got)), 'read as %r', got)
    else:
        try:
            edn.loads(text)
        except Exception:
            pass
        try:
            got = rd_simple.read(text)
        except Exception:
            got = None
        if got is not None:
            ok = True
            ensure(is_query(got), 'read as %r', got)
    obs.label(case['which'] + (' accepted' if ok else ' refused'))
    return bool(text)


def gen_bytes(d):
    if d.bool():
        data = bytes(d.many(0, 40, d.byte))
    else:
        data = bytearray(pb(gen_pb(d)['tree']).SerializeToString())
        for _ in range(d.int(1, 4)):
            i = d.int(0, max(1, len(data)))
            data[i:i + d.int(0, 3)] = bytes(d.many(0, 3, d.byte))
        data = bytes(data)
    return {'data': data}


def check_bytes(case, obs):
    try:
        got = rd_protobuf.read(case['data'])
    except Exception:
        obs.label('refused')
        return bool(case['data'])
    ensure(is_query(got), 'read as %r', got)
    obs.label('accepted')
    return bool(case['data'])


TESTS = [
    Test('graphql', gen_graphql, check_graphql, 5000, size=1500),
    Test('large', gen_large, check_graphql, 500, size=1500),
    Test('edn', gen_edn, check_edn, 4000, size=300),
    Test('protobuf', gen_pb, check_pb, 3000, size=200),
    Test('text', gen_text, check_text, 6000, size=400),
    Test('bytes', gen_bytes, check_bytes, 4000, size=100),
]

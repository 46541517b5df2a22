"""C14: GraphQL documents are read with their specified meaning."""
from hiku.readers import graphql as rd
from hiku.readers.graphql import OperationType

from lib import gqldoc as G
from lib.runner import Test, ensure, fail
from .C09 import by_position, describe, norm, ref_merge

PROPERTY = 'C14'
RULE = ('the read operation uses a fragment, a variable or a directive and '
        'its meaning is not empty')
ASSUMPTIONS = ['values of @skip and @include are booleans',
               'the GraphQL text is parsed by graphql-core']

TYPES = {'query': OperationType.QUERY, 'mutation': OperationType.MUTATION,
         'subscription': OperationType.SUBSCRIPTION}


def gen(d):
    doc = G.draw_doc(d)
    return {'doc': doc, 'variables': [G.draw_variables(d, op)
                                      for op in doc['ops']],
            'sep': d.pick(['\n', ' ', ', ', ' # c } ...\n', '\r\n'])}


def gen_large(d):
    doc = G.large_doc(d)
    return {'doc': doc, 'variables': [G.draw_variables(d, op)
                                      for op in doc['ops']],
            'sep': d.pick(['\n', ' ', ', '])}


def to_ref(sel):
    return [e[:4] + ((False, to_ref(e[4])) if e[0] == 'l' else ())
            for e in sel]


def features(doc, sel, out, seen):
    for e in sel:
        if e[0] == 'spread':
            out.add('fragment')
            if e[1] not in seen:
                seen.add(e[1])
                features(doc, dict(doc['frags'])[e[1]], out, seen)
            else:
                out.add('fragment used twice')
        elif e[0] == 'inline':
            out.add('inline fragment')
            features(doc, e[3], out, seen)
        elif e[5] is not None:
            features(doc, e[5], out, seen)
        for _, v in e[4] if e[0] == 'field' else e[2]:
            out.add('directive')


def check(case, obs):
    doc = case['doc']
    text = G.text(doc, case['sep'])
    nontrivial = False
    if doc.get('large'):
        obs.label('large ' + doc['large'])
    for op, variables in zip(doc['ops'], case['variables']):
        names = [op['name']] if len(doc['ops']) > 1 else [None, op['name']]
        if len(doc['ops']) > 1 and op['name'] is None:
            continue        # cannot be chosen
        env = G.environment(op, variables)
        sel = G.meaning(doc, op['sel'], env)
        ordered = op['type'] == 'mutation'
        want = by_position(ref_merge([(to_ref(sel), ordered)]))
        for name in names:
            before = repr(variables)
            got = rd.read_operation(text, variables, name)
            ensure(repr(variables) == before, 'variables were changed')
            ensure(by_position(norm(got.query)) == want,
                   'operation %r of %s\nvariables: %r\n got: %r\nwant: %r',
                   name, text, variables, norm(got.query), want)
            ensure(got.type is TYPES[op['type']], 'operation type %r of %s',
                   got.type, text)
            ensure(got.name == op['name'], 'operation name %r of %s',
                   got.name, text)
            ensure(bool(got.query.ordered) is ordered, 'ordered=%r for %s',
                   got.query.ordered, op['type'])
            if op['type'] == 'query':
                q = rd.read(text, variables, name)
                ensure(describe(q) == describe(got.query),
                       'read differs from read_operation\n%r\n%r', q,
                       got.query)
            else:
                try:
                    rd.read(text, variables, name)
                except TypeError:
                    pass
                else:
                    fail('read() accepts a %s', op['type'])
        used = set()
        features(doc, op['sel'], used, set())
        if G.used_vars(doc, op['sel']):
            used.add('variable')
        obs.label(op['type'], *used)
        if used and sel:
            nontrivial = True
    return nontrivial


# -- each selection is kept or left out by its directives: all combinations

def gen_directives(d):
    def flag():
        b = d.bool()
        how = d.int(0, 3)
        return (b, how)
    combo = d.sample(['skip', 'include'], 1, 2)
    return {'dirs': [(n, flag()) for n in combo],
            'place': d.pick(['field', 'link', 'spread', 'inline',
                             'in fragment']),
            'mutation': d.bool()}


def check_directives(case, obs):
    variables, decls, texts = {}, [], []
    keep = True
    for i, (name, (b, how)) in enumerate(case['dirs']):
        if b is (name == 'skip'):
            keep = False
        word = 'true' if b else 'false'
        if how == 0:
            texts.append('@%s(if: %s)' % (name, word))
        else:
            v = '$w%d' % i
            texts.append('@%s(if: %s)' % (name, v))
            if how == 1:
                decls.append(v + ': Boolean!')
                variables[v[1:]] = b
            elif how == 2:
                decls.append(v + ': Boolean = ' + word)
            else:
                decls.append(v + ': Boolean = %s' % (
                    'false' if b else 'true'))
                variables[v[1:]] = b
    t = ' '.join(texts)
    frag = ''
    if case['place'] == 'field':
        body = 'a x ' + t
    elif case['place'] == 'link':
        body = 'a x %s { y }' % t
    elif case['place'] == 'spread':
        body, frag = 'a ...F %s' % t, 'fragment F on T { x }'
    elif case['place'] == 'inline':
        body = 'a ... %s { x }' % t
    else:
        body, frag = 'a ...F', 'fragment F on T { x %s }' % t
    text = '%s %s { %s } %s' % (
        'mutation' if case['mutation'] else 'query',
        '(%s)' % ', '.join(decls) if decls else '', body, frag)
    got = rd.read_operation(text, variables).query
    names = [f.name for f in got.fields]
    ensure(names == (['a', 'x'] if keep else ['a']), '%s with %r gives %r',
           text, variables, names)
    obs.label('kept' if keep else 'left out', case['place'])
    return True


TESTS = [
    Test('document', gen, check, 7000, size=1500),
    Test('large', gen_large, check, 500, size=1500),
    Test('directives', gen_directives, check_directives, 1500, size=64),
]

"""C12: query validation reports every invalid query without crashing."""
from hiku import edn
from hiku.query import merge
from hiku.readers import simple
from hiku.validate.query import validate

from lib import values as V
from lib import world as wd
from lib.edit import random_edit
from lib.invalid import make_invalid, revive
from lib.runner import Test, ensure
from .C11 import check_validate

PROPERTY = 'C12'
RULE = ('faulty: the fault is below the root selection or inside an option '
        'value or record; garbage: the query was refused')
ASSUMPTIONS = ['whether an integer is a value of a Float option is not '
               'decided (a boolean as an Integer value neither)',
               'types of fields refer only to data types of the graph']


def gen_faulty(d):
    case = wd.world_and_query(d, odd=True, depth=3, dups=d.bool())
    w = wd.W(case['world'])
    made = make_invalid(d, w, case['query'])
    if made is not None and d.chance(1, 6):
        # a second fault must not hide the first
        kind, sel = made
        again = random_edit(d, w, sel)
        case['edited'] = again
    case['faulty'] = made
    return case


def gen_large(d):
    case = wd.big_case(d)
    case['faulty'] = make_invalid(d, wd.W(case['world']), case['query'])
    return case


def check_faulty(case, obs):
    if case['faulty'] is None:
        return False
    kind, sel = case['faulty']
    run = wd.Run(case['world'])
    graph = run.graph()
    errors = check_validate(graph, wd.to_node(case['query']), run)
    ensure(errors == [], 'the query before the fault is refused: %r', errors)
    for ordered in (False, True):
        query = wd.to_node(sel, ordered=ordered)
        for how, q in [('as is', query), ('merged', merge([query]))]:
            errors = check_validate(graph, q, run)
            ensure(errors, 'query with a fault (%s, %s) is accepted: %r',
                   kind, how, sel)
            ensure(all(isinstance(e, str) and e for e in errors),
                   'errors: %r', errors)
    if 'edited' in case:
        validate(graph, wd.to_node(case['edited']))
    obs.label(kind)
    return sel[:len(sel)] != case['query'] and below_root(sel, case['query'])


def below_root(a, b):
    """The difference is not only a new plain item at the root."""
    new = [e for e in a if e not in b]
    return any(e[0] == 'l' or e[2] for e in new)


# -- faults in option values: every declared type, any depth

def gen_options(d):
    from lib.invalid import bad_value
    types = {'T0': ('rec', V.draw_rec(d, [], 2))}
    spec = V.draw_type(d, list(types), 3, True, False)
    v, ok = bad_value(d, spec, types, 3, True)
    place = d.pick(['field', 'link', 'complex', 'nested field',
                    'nested link', 'nested complex'])
    return {'types': types, 'spec': spec, 'bad': v, 'ok': ok, 'place': place,
            'good': V.draw_value(d, spec, types),
            'default': d.bool(), 'many': d.bool()}


def check_options(case, obs):
    if not case['ok']:
        return False
    o = {'n': 'o', 't': case['spec']}
    if case['default']:
        o['d'] = case['good']
    items = [
        {'k': 'f', 'name': 'a', 'type': ('int',), 'fn': 'f0', 'opts': [o]},
        {'k': 'f', 'name': 'c', 'type': ('rec', [('f', ('int',))]),
         'fn': 'f0', 'opts': [o]},
        {'k': 'f', 'name': 'b', 'type': ('int',), 'fn': 'f0', 'opts': []},
        {'k': 'l', 'name': 'x', 'node': 'N', 'fn': 'l0', 'req': None,
         'card': 'many' if case['many'] else 'one', 'opts': [o]},
        {'k': 'l', 'name': 'y', 'node': 'N', 'fn': 'l1', 'req': None,
         'card': 'maybe', 'opts': []}]
    root = [dict(i, fn='r' + i['fn']) for i in items]
    world = {'types': sorted(case['types'].items()), 'ctx': [], 'salt': 1,
             'nodes': [{'name': 'N', 'ids': [1], 'items': items}],
             'roots': [root]}
    run = wd.Run(world)
    graph = run.graph()

    def sel(value):
        opts = {'o': value}
        p = case['place'].split()[-1]
        if p == 'field':
            e = ('f', 'a', opts, None)
        elif p == 'complex':
            e = ('l', 'c', opts, None, [('f', 'f', None, None)])
        else:
            e = ('l', 'x', opts, None, [('f', 'b', None, None)])
        if 'nested' in case['place']:
            return [('f', 'b', None, None), ('l', 'y', None, None, [e])]
        return [e]
    good = check_validate(graph, wd.to_node(sel(case['good'])), run)
    ensure(good == [], 'good value %r of %r: %r', case['good'], case['spec'],
           good)
    bad = check_validate(graph, wd.to_node(sel(revive(case['bad']))), run)
    ensure(bad, 'value %r is accepted for an option of type %r (%s)',
           case['bad'], case['spec'], case['place'])
    obs.label(case['spec'][0])
    return True


# -- never raises

EDN_TEXTS = ['#foo 1', '#{1 2}', ':k', 'sym', '(1 2)', '{1 2}', '{:a [1]}',
             '#inst "2011-01-01T00:00:00.0Z"', '1.5', 'nil', '""',
             '#uuid "678d88b2-87b0-403b-b63d-5da7465aecc3"', '#{#foo [1]}',
             '{[1] 2, nil 3}', '[[[]]]', '\\a', '#a #b {}']


def gen_garbage(d):
    case = wd.world_and_query(d, odd=True, depth=2, dups=True)
    w = wd.W(case['world'])
    sel = case['query']
    for _ in range(d.int(1, 10)):
        sel = random_edit(d, w, sel)
    case['query'] = sel
    case['edn'] = [d.pick(EDN_TEXTS) for _ in range(3)]
    case['how'] = d.int(0, 3)
    return case


def spoil(sel, values, count):
    """Option values become values that the EDN reader makes."""
    out = []
    for e in sel:
        opts = e[2]
        if opts is not None:
            opts = {k: values[(count + len(k)) % len(values)] for k in opts}
        elif count % 3 == 0:
            opts = {'o': values[0]}
        count += 1
        out.append(e[:2] + (opts,) + e[3:4] +
                   ((spoil(e[4], values, count),) if e[0] == 'l' else ()))
    return out


def check_garbage(case, obs):
    run = wd.Run(case['world'])
    graph = run.graph()
    sel = case['query']
    if case['how'] >= 2:
        sel = spoil(sel, [edn.loads(t) for t in case['edn']], case['how'])
        obs.label('edn values')
    query = wd.to_node(sel)
    if case['how'] % 2:
        query = merge([query])
    before = repr(query)
    errors = validate(graph, query)
    ensure(isinstance(errors, list) and
           all(isinstance(e, str) and e for e in errors), 'errors: %r',
           errors)
    ensure(errors == validate(graph, query), 'differs the second time')
    ensure(repr(query) == before, 'validation changed the query')
    return bool(errors)


def gen_text(d):
    """An EDN query over the names of a world, as text."""
    case = wd.world_and_query(d, depth=2)
    names = ['a', 'b', 'c', 'id', 'x', 'y', 'z', 'f', 'g', '__typename']

    def name():
        n = ':' + d.pick(names)
        if d.chance(1, 3):
            pairs = d.many(0, 2, lambda: ':%s %s' % (
                d.pick(wd.OPTION_NAMES), d.pick(EDN_TEXTS)))
            return '(%s {%s})' % (n, ' '.join(dict.fromkeys(pairs)))
        return n

    def node(depth):
        out = []
        for _ in range(d.int(0, 3)):
            if depth and d.bool():
                out.append('{%s %s}' % (name(), node(depth - 1)))
            else:
                out.append(name())
        return '[%s]' % ' '.join(out)
    return {'world': case['world'], 'text': node(3)}


def check_text(case, obs):
    run = wd.Run(case['world'])
    graph = run.graph()
    query = simple.read(case['text'])
    errors = validate(graph, query)
    ensure(isinstance(errors, list), 'errors: %r', errors)
    return bool(errors)


TESTS = [
    Test('faulty', gen_faulty, check_faulty, 9000),
    Test('large', gen_large, check_faulty, 1000, size=700),
    Test('options', gen_options, check_options, 6000, size=300),
    Test('garbage', gen_garbage, check_garbage, 4000),
    Test('text', gen_text, check_text, 3000),
]

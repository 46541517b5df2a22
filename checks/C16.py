"""C16: EDN text round-trips."""
import datetime
import math
import uuid

from hiku import edn

from lib.runner import Test, ensure, fail

PROPERTY = 'C16'
RULE = ('the value has at least two levels, or is a string, keyword or '
        'symbol of two characters or more')
ASSUMPTIONS = [
    'numbers are integers and floats (the reader has no decimals)',
    'names of keywords, symbols and tags have the form that EDN allows: '
    'letters, digits and .*+!-_?$%&=<>/ with a letter first; symbols also '
    'with another character first if it is not taken for a number']

CHARS = ['a', 'b', 'z', 'n', 'u', 't', '0', '1', ' ', ',', '"', '\\', '\n',
         '\r', '\t', '\b', '\f', '\v', '\a', '\0', '\x1f', '\x7f', '\x85',
         'é', 'ß', 'я', '中', '\u2028', '\ufeff', '\uffff', '😀', '\U0010ffff',
         '\udc00', '\udfff', ';', '{', '}', '[', ']', '(', ')', '#',
         ':', '/', "'"]
MORE = ['\xa0', '\xad', '\u200b', '\u2003', '\u3000', '\u2029', '\u1680',
        '\u0300', '\u202e', '\x1c', '\x1e'] + list('^~@`|%&*!?.-+_<>=$AZ9')
FIRST = 'abmntuxzNM'
SIGNS = '+-.'
OTHERS = '*!_?$%&=<>/'
REST = list('abnt019.*+!-_?$%&=<>/') + ['é', ':', '#']
INTS = [0, 1, -1, 7, 10, -10, 123456789, 2 ** 31, -2 ** 63, 2 ** 64, 10 ** 30]
FLOATS = [0.0, -0.0, 1.0, -1.5, 0.1, 1e16, 1e-7, -1e100, 1.5e300, 5e-324,
          123456.789, 1 / 3, 2.0 ** 53, 1e22, 3e-5]


def char(d):
    c = d.int(0, 11)
    if c == 0:
        return chr(d.below(0x300) if d.bool() else d.below(0x110000))
    return d.pick(MORE if c == 1 else CHARS)


def name(d):
    return d.pick(FIRST) + ''.join(d.many(0, 4, lambda: d.pick(REST)))


def draw(d, depth):
    """Plain data that describes a value: (kind, content)."""
    c = d.int(0, 17)
    if depth <= 0:
        c %= 11
    if c == 0:
        return ('nil',)
    if c == 1:
        return ('bool', d.bool())
    if c == 2:
        return ('int', d.pick(INTS) if d.bool() else
                d.int(0, 2 ** 16) - 2 ** 15)
    if c == 3:
        return ('float', d.pick(FLOATS) if d.bool() else
                (d.int(0, 2 ** 16) - 2 ** 15) / 2 ** d.int(0, 40))
    if c in (4, 5):
        return ('str', ''.join(d.many(0, 6, lambda: char(d))))
    if c == 6:
        return ('keyword', name(d))
    if c == 7:
        n = name(d)
        if n in ('true', 'false', 'nil'):
            n = 'x'
        c = d.int(0, 5)
        # .5 is read as a number
        return ('symbol', d.pick(SIGNS) + d.pick(['', '', 'a', n])
                if c == 0 else d.pick(OTHERS) + d.pick(['', '1', 'a', n])
                if c == 1 else n)
    if c == 8:
        return ('inst', (d.pick([1, 999, 1970, 2011, 2024, 9999]),
                         d.int(1, 12), d.int(1, 28), d.int(0, 23),
                         d.int(0, 59), d.int(0, 59),
                         d.pick([0, 1, 999999, 120000])))
    if c == 9:
        return ('uuid', d.int(0, 2 ** 64) * d.pick([1, 2 ** 60]))
    if c == 10 and depth <= 0:
        return ('list', ())
    if c == 10 or c >= 16:
        n = name(d).replace('#', '-')
        return ('tag', (n if d.int(0, 3) else n + '/' + d.pick('abc'),
                        draw(d, depth - 1)))
    kind = ['list', 'tuple', 'set', 'map', 'list'][c - 11]
    n = d.int(0, 4)
    if kind == 'map':
        items = []
        for _ in range(n):
            key = twin(items[-1][0]) if items and d.chance(1, 4) else \
                draw(d, depth - 1)
            items.append((key, draw(d, depth - 1)))
    else:
        items = []
        for _ in range(n):
            items.append(twin(items[-1]) if items and d.chance(1, 4) else
                         draw(d, depth - 1))
    return (kind, tuple(items))


def twin(spec):
    """Another kind of value with the same content."""
    k = spec[0]
    if k == 'str':
        v = spec[1]
        if v and v[0] in FIRST and all(c in REST for c in v):
            return ('keyword', v)
        return ('list', (spec,))
    if k == 'keyword':
        return ('symbol', spec[1]) if len(spec[1]) % 2 and spec[1] not in (
            'true', 'false', 'nil') else ('str', spec[1])
    if k == 'symbol':
        return ('str', spec[1]) if len(spec[1]) % 2 or \
            spec[1][0] not in FIRST else ('keyword', spec[1])
    if k in ('list', 'tuple', 'set'):
        other = {'list': 'tuple', 'tuple': 'set', 'set': 'list'}[k]
        return (other, spec[1])
    if k == 'tag':
        return spec[1][1]
    if k == 'bool':
        return ('symbol', 'True') if spec[1] else ('int', 0)
    if k == 'nil':
        return ('str', 'nil')
    return ('tag', ('a', spec))


class Own:
    """A value of a user's own kind."""

    def __init__(self, value):
        self.value = value

    def __eq__(self, other):
        return isinstance(other, Own) and self.value == other.value

    def __hash__(self):
        return hash((Own, self.value))


def make(spec, native):
    """The value; with native, containers are Python's own where they can
    be (not inside sets and keys)."""
    k = spec[0]
    if k == 'nil':
        return None
    v = spec[1]
    if k in ('bool', 'int', 'float', 'str'):
        return v
    if k == 'inf':
        return float(v)
    if k == 'keyword':
        return edn.Keyword(v)
    if k == 'symbol':
        return edn.Symbol(v)
    if k == 'inst':
        return datetime.datetime(*v)
    if k == 'uuid':
        return uuid.UUID(int=v % 2 ** 128)
    if k == 'tag':
        return edn.TaggedElement(v[0], make(v[1], False))
    if k == 'own':
        return Own(make(v, False))
    if k == 'list':
        return (list if native else edn.List)(make(i, native) for i in v)
    if k == 'tuple':
        return (tuple if native else edn.Tuple)(make(i, native) for i in v)
    if k == 'set':
        return (set if native else edn.Set)(make(i, False) for i in v)
    if k == 'map':
        return (dict if native else edn.Dict)(
            (make(a, False), make(b, native)) for a, b in v)
    raise ValueError(k)


def norm(v):
    """Plain data that is equal exactly for equal values of equal kinds."""
    if v is None:
        return ('nil',)
    if v is True or v is False:
        return ('bool', v)
    if isinstance(v, edn.Keyword):
        return ('keyword', str(v))
    if isinstance(v, edn.Symbol):
        return ('symbol', str(v))
    if isinstance(v, str):
        return ('str', v)
    if isinstance(v, int):
        return ('int', v)
    if isinstance(v, float):
        return ('float', repr(v))
    if isinstance(v, (list, edn.List)):
        return ('list',) + tuple(map(norm, v))
    if isinstance(v, tuple):
        return ('tuple',) + tuple(map(norm, v))
    if isinstance(v, dict):
        return ('map',) + tuple(sorted(
            ((norm(a), norm(b)) for a, b in v.items()), key=repr))
    if isinstance(v, (set, frozenset)):
        return ('set',) + tuple(sorted(map(norm, v), key=repr))
    if isinstance(v, datetime.datetime):
        return ('inst', v.isoformat())
    if isinstance(v, uuid.UUID):
        return ('uuid', v.int)
    if isinstance(v, Own):
        return ('own', norm(v.value))
    if isinstance(v, edn.TaggedElement):
        return ('tag', v.name, norm(v.value))
    return ('other', type(v).__name__, repr(v))


def levels(spec):
    if spec[0] == 'tag':
        return 1 + levels(spec[1][1])
    if spec[0] == 'own':
        return 1 + levels(spec[1])
    if spec[0] == 'map':
        return 1 + max([0] + [levels(i) for p in spec[1] for i in p])
    if spec[0] in ('list', 'tuple', 'set'):
        return 1 + max([0] + [levels(i) for i in spec[1]])
    return 1


def gen_value(d):
    value = draw(d, 4)
    return {'value': value, 'native': d.bool(),
            'other': twin(value) if d.bool() else draw(d, 1)}


def gen_large(d):
    """Long or deep values."""
    v = draw(d, 2)
    n = d.pick([10, 30, 63, 64, 65, 100, 127, 128, 255, 256, 257, 500, 1000])
    kind = d.int(0, 5)
    if kind == 0:
        rest = [draw(d, 1) for _ in range(3)]
        v = (d.pick(['list', 'tuple']), tuple(rest) * (n // 3) + (v,))
    elif kind == 1:
        v = ('map', tuple((('int', i), draw(d, 0)) for i in range(n)) +
             ((v, v),))
    elif kind == 2:
        v = ('set', tuple(('keyword', 'k%d' % i) for i in range(n)) + (v,))
    elif kind == 3:
        s = ''.join(d.many(1, 6, lambda: char(d)))
        v = ('list', (('str', s * n), v, ('str', 'x' * n + s)))
    elif kind == 4:
        for i in range(min(n, 64)):
            k = d.pick(['list', 'tuple', 'tag', 'map', 'list'])
            v = ('tag', ('t', v)) if k == 'tag' else \
                (k, ((('int', i), v),)) if k == 'map' else (k, (v,))
    else:
        v = ('list', (('keyword', name(d) + 'a' * n), ('int', 10 ** n + 1),
                      ('symbol', 's' * n), ('tag', ('t' * n, v))))
    return {'value': v, 'native': d.bool()}


def check_value(case, obs):
    v = make(case['value'], case['native'])
    want = norm(v)
    for ascii_ in (True, False):
        text = edn.dumps(v, ensure_ascii=ascii_)
        ensure(isinstance(text, str), 'dumps returned %r', text)
        if ascii_ and not has_non_ascii_name(case['value']):
            ensure(text.isascii(), 'not ASCII: %r', text)
        got = edn.loads(text)
        ensure(norm(got) == want, 'round trip, text %r\n got: %r\nwant: %r',
               text, norm(got), want)
        if not case['native']:
            ensure(got == v and not got != v, 'read value %r != %r', got, v)
        ensure(norm(edn.loads(edn.dumps(got, ensure_ascii=ascii_))) == want,
               'second round trip of %r', text)
    ensure(norm(v) == want, 'dumps changed the value')
    if 'other' in case:
        w = make(case['other'], False)
        a, b = edn.TaggedElement('t', v), edn.loads(edn.dumps(
            edn.TaggedElement('t', w)))
        ensure((a == b) is (v == w) and (a != b) is not (v == w),
               'tagged values %r and %r compare as %r', v, w, a == b)
        ensure(a != v and a != edn.TaggedElement('u', v), 'a tag is lost')
    obs.label(case['value'][0])
    return levels(case['value']) >= 2 or (
        case['value'][0] in ('str', 'keyword', 'symbol') and
        len(case['value'][1]) > 1)


def has_non_ascii_name(spec):
    k = spec[0]
    if k in ('keyword', 'symbol'):
        return not spec[1].isascii()
    if k == 'tag':
        return not spec[1][0].isascii() or has_non_ascii_name(spec[1][1])
    if k == 'map':
        return any(has_non_ascii_name(i) for p in spec[1] for i in p)
    if k in ('list', 'tuple', 'set'):
        return any(map(has_non_ascii_name, spec[1]))
    return False


# -- layout: the same value written with any separators

ESCAPES = {'"': '\\"', '\\': '\\\\'}


def spell_int(d, v):
    return d.pick(['', '', '+'] if v >= 0 else ['']) + str(v) + \
        d.pick(['', '', 'N'])


def spell_float(d, v):
    """One of the ways to write a number."""
    s = repr(v)
    if 'e' in s:
        m, e = s.split('e')
        sign = e[0] if e[0] in '+-' else ''
        e = e.lstrip('+-')
    elif d.chance(1, 3):
        m, e, sign = s, '0', ''
    else:
        return s
    if sign != '-':
        sign = d.pick(['+', ''])
    return m + d.pick('eE') + sign + d.pick(['', '0']) + e


def tokens(spec, d):
    """The value as a list of tokens; between any two of them there may be
    separators."""
    k = spec[0]
    if k == 'nil':
        return ['nil']
    v = spec[1]
    if k == 'bool':
        return ['true' if v else 'false']
    if k == 'int':
        return [spell_int(d, v)]
    if k == 'float':
        return [spell_float(d, v)]
    if k == 'str':
        return ['"%s"' % ''.join(ESCAPES.get(c, c) for c in v)]
    if k == 'keyword':
        return [':' + v]
    if k == 'symbol':
        return [v]
    if k == 'inst':
        return ['#inst', '"%04d-%02d-%02dT%02d:%02d:%02d.%06dZ"' % v]
    if k == 'uuid':
        return ['#uuid', '"%s"' % uuid.UUID(int=v % 2 ** 128)]
    if k == 'tag':
        return ['#' + v[0]] + tokens(v[1], d)
    o, c = {'list': '[]', 'tuple': '()', 'map': '{}'}.get(k, ('#{', '}'))
    items = [i for p in v for i in p] if k == 'map' else v
    return [o] + [t for i in items for t in tokens(i, d)] + [c]


SEPS = [' ', ',', '\n', '\t', '\r', '  ', ', ', ' ; c\n', ';"[#\n', ' ;\n',
        ' ;; a (b\n ']


def separator(d, a, b):
    """A drawn separator; none where the tokens cannot run together."""
    closed = not a or a in ('[', '(', '{', '#{', ']', ')', '}') or \
        a.endswith('"')
    opens = not b or b in ('[', '(', '{', ']', ')', '}')
    # numbers and names end at brackets; a tag ends at an opening bracket or
    # a quote
    if a.startswith('#') and a != '#{':
        may = b in ('[', '(', '{') or b.startswith('"')
    else:
        may = closed or opens
    if may and d.bool():
        return ''
    sep = d.pick(SEPS)
    if a.startswith('#') and a != '#{' and ';' in sep:
        sep = ' ' + sep         # a name may hold any other character
    return sep


def gen_layout(d):
    value = draw(d, 3)
    toks = tokens(value, d)
    out = [separator(d, '', toks[0])]
    for a, b in zip(toks, toks[1:] + ['']):
        out.append(a)
        out.append(separator(d, a, b))
    return {'value': value, 'text': ''.join(out)}


def check_layout(case, obs):
    want = norm(make(case['value'], False))
    got = norm(edn.loads(case['text']))
    ensure(got == want, 'text %r\n got: %r\nwant: %r', case['text'], got,
           want)
    obs.label('comment' if ';' in case['text'] else 'plain')
    return levels(case['value']) >= 2


# -- values of a user's own kinds, with an encoder and a tag handler

def plant(d, spec, parts):
    """The value with some of its parts made values of the user's kind."""
    k = spec[0]
    if k == 'tag':
        spec = (k, (spec[1][0], plant(d, spec[1][1], parts)))
    elif k == 'map':
        spec = (k, tuple((plant(d, a, parts), plant(d, b, parts))
                         for a, b in spec[1]))
    elif k in ('list', 'tuple', 'set'):
        spec = (k, tuple(plant(d, i, parts) for i in spec[1]))
    if d.chance(1, parts):
        spec = ('own', spec) if d.int(0, 3) else \
            ('inf', d.pick(['inf', '-inf']))
    return spec


def gen_custom(d):
    value = plant(d, draw(d, 3), d.pick([2, 4, 8]))
    if "('own'" not in repr(value) and "('inf'" not in repr(value):
        value = ('list', (('own', ('int', 1)), value))
    return {'value': value, 'native': d.bool(), 'ascii': d.bool()}


def unown(v):
    if v[:1] == ('float',) and v[1] in ('inf', '-inf', 'nan'):
        return ('tag', 'num', ('str', v[1]))
    if v[:1] == ('own',):
        return ('tag', 'own', unown(v[1]))
    return tuple(unown(i) if isinstance(i, tuple) else i for i in v)


def check_custom(case, obs):
    v = make(case['value'], case['native'])
    want = norm(v)
    seen = []

    def encode(obj):
        seen.append(obj)
        if isinstance(obj, float):
            return edn.TaggedElement('num', repr(obj))
        return edn.TaggedElement('own', obj.value)

    text = edn.dumps(v, default=encode, ensure_ascii=case['ascii'])
    ensure(all(isinstance(i, Own) or isinstance(i, float) and
               not math.isfinite(i) for i in seen),
           'the encoder was called for %r', seen)
    got = edn.loads(text, tag_handlers={'own': Own, 'num': float})
    ensure(norm(got) == want, 'round trip, text %r\n got: %r\nwant: %r',
           text, norm(got), want)
    plain = norm(edn.loads(text))
    ensure(repr(resort(plain)) == repr(resort(unown(want))),
           'read without handlers, text %r\n got: %r\nwant: %r', text, plain,
           unown(want))
    ensure(bool(seen) == any(t in repr(want) for t in (
        "('own',", "('float', 'inf')", "('float', '-inf')",
        "('float', 'nan')")), 'encoded: %r', seen)
    if not seen:
        return False            # lost under an equal key
    try:
        text = edn.dumps(v, ensure_ascii=case['ascii'])
    except ValueError:
        pass
    else:
        fail('no error without an encoder, but %r', text)
    obs.label('%d own' % min(len(seen), 4))
    return levels(case['value']) >= 2


def resort(v):
    if not isinstance(v, tuple):
        return v
    v = tuple(map(resort, v))
    if v[:1] in (('map',), ('set',)):
        return v[:1] + tuple(sorted(v[1:], key=repr))
    return v


TESTS = [
    Test('value', gen_value, check_value, 16000, size=400),
    Test('large', gen_large, check_value, 1500, size=700),
    Test('custom', gen_custom, check_custom, 5000, size=400),
    Test('layout', gen_layout, check_layout, 10000, size=400),
]

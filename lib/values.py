"""Plain values: strict equality, canonical text, deterministic values of a
type, drawn values of a type.

Type specs are plain data: ('int',) ('str',) ('bool',) ('float',) ('any',)
('none',) -- no declared type -- ('opt', t) ('seq', t) ('map', k, v)
('rec', [(name, t), ...]) ('ref', 'TypeName').
"""
from zlib import crc32

from hiku import types as ht


def canon(v):
    """Text that is equal exactly for values of equal type and content."""
    if isinstance(v, bool):
        return 'b%d' % v
    if v is None:
        return 'n'
    if isinstance(v, int):
        return 'i%d' % v
    if isinstance(v, float):
        return 'f%r' % v
    if isinstance(v, str):
        return 's%r' % v
    if isinstance(v, (list, tuple)):
        return '[%s]' % ','.join(canon(i) for i in v)
    if isinstance(v, dict):
        return '{%s}' % ','.join(sorted('%s:%s' % (canon(k), canon(i))
                                        for k, i in v.items()))
    if isinstance(v, (set, frozenset)):
        return '#{%s}' % ','.join(sorted(canon(i) for i in v))
    if hasattr(v, 'items'):
        return canon(dict(v))
    return 'o%r' % (v,)


def same(a, b):
    """Equal including types (True is not 1, 1 is not 1.0), any dict order;
    tuples and lists are told apart only by content."""
    return canon(a) == canon(b)


def same_order(a, b):
    """same() and dict keys in the same order at every depth."""
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(same_order(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(map(same_order, a, b))
    return same(a, b)


def h(*parts):
    return crc32('|'.join(map(str, parts)).encode('utf-8', 'surrogatepass'))


def resolve(spec, types):
    while spec[0] == 'ref':
        spec = types[spec[1]]
    return spec


def record_of(spec, types):
    """(wrapping, fields) if the type can be queried as a record: a record,
    an optional record or a sequence of records; else None."""
    spec = resolve(spec, types)
    wrap = None
    if spec[0] in ('opt', 'seq'):
        wrap = spec[0]
        spec = resolve(spec[1], types)
    if spec[0] == 'rec':
        return wrap, spec[1]
    return None


def det_value(spec, types, key, falsy=True):
    """A value of the type, determined by the text `key`."""
    n = h(key, spec[0])
    k = spec[0]
    low = falsy and n % 7 == 0
    if k == 'int':
        return 0 if low else n - 2 ** 31
    if k == 'str':
        return '' if low else 's%x' % n
    if k == 'bool':
        return bool(n >> 3 & 1)
    if k == 'float':
        return 0.0 if low else n / 8.0
    if k in ('any', 'none'):
        c = n % 9
        return [n, 'v%x' % n, None, [n, None], {'k%d' % (n % 3): n}, True,
                False, [], n / 4.0][c]
    if k == 'opt':
        if n % 3 == 0:
            return None
        return det_value(spec[1], types, key + '?')
    if k == 'seq':
        size = (n >> 4) % 4
        if n % 59 == 0 and '#' not in key:
            size = 8 + (n >> 4) % 40
        return [det_value(spec[1], types, '%s#%d' % (key, i))
                for i in range(size)]
    if k == 'map':
        return {det_value(spec[1], types, '%s@%d' % (key, i), False):
                det_value(spec[2], types, '%s:%d' % (key, i))
                for i in range((n >> 4) % 3)}
    if k == 'rec':
        return {f: det_value(t, types, '%s.%s' % (key, f))
                for f, t in spec[1]}
    if k == 'ref':
        return det_value(types[spec[1]], types, key)
    raise ValueError(spec)


INTS = [0, 1, -1, -2, 2, 3, 10, -10, 255, 2 ** 31, 2 ** 61 - 1]
STRS = ['', 'a', 'b', 'ab', '0', '1', 'None', 'é', 'x y', '"', '1-2']
FLOATS = [0.0, 1.0, -1.0, 0.5, 2.0, 1e20, -2.0, 1.5e-20, 0.1, 123456.7891011,
          1.7e308, 5e-324]


def draw_value(draw, spec, types=None, depth=2):
    """A drawn value of the type (option values)."""
    k = spec[0]
    if k == 'int':
        return draw.pick(INTS)
    if k == 'str':
        return draw.pick(STRS)
    if k == 'bool':
        return draw.bool()
    if k == 'float':
        return draw.pick(FLOATS)
    if k in ('any', 'none'):
        return draw_any(draw, depth)
    if k == 'opt':
        if draw.int(0, 2) == 0:
            return None
        return draw_value(draw, spec[1], types, depth)
    if k == 'seq':
        return [draw_value(draw, spec[1], types, depth - 1)
                for _ in range(draw.int(0, 2))]
    if k == 'map':
        return {draw_value(draw, spec[1], types, 0):
                draw_value(draw, spec[2], types, depth - 1)
                for _ in range(draw.int(0, 2))}
    if k == 'rec':
        return {f: draw_value(draw, t, types, depth - 1)
                for f, t in spec[1]}
    if k == 'ref':
        return draw_value(draw, types[spec[1]], types, depth)
    raise ValueError(spec)


SCALARS = [None, True, False, 0, 1, -1, -2, 2, 1.0, 0.0, '', 'a', 'b', '1']


def draw_any(draw, depth=2):
    c = draw.int(0, 5)
    if c <= 3 or depth <= 0:
        return draw.pick(SCALARS)
    n = draw.int(0, 2)
    if c == 4:
        return [draw_any(draw, depth - 1) for _ in range(n)]
    return {draw.pick(['a', 'b', 'c', '']):
            draw_any(draw, depth - 1) for _ in range(n)}


SIMPLE = [('int',), ('str',), ('bool',), ('float',), ('any',), ('none',)]


def draw_type(draw, types=(), depth=2, top=True, allow_none=True,
              records=True):
    """A drawn type spec; `types` are the names that may be referenced."""
    c = draw.int(0, 9)
    if c <= 3 or depth <= 0:
        pool = SIMPLE if (allow_none and top) else SIMPLE[:5]
        return draw.pick(pool)
    if c == 4:
        return ('opt', draw_type(draw, types, depth - 1, False, False,
                                 records))
    if c == 5:
        return ('seq', draw_type(draw, types, depth - 1, False, False,
                                 records))
    if c == 6:
        return ('map', draw.pick([('str',), ('int',)]),
                draw_type(draw, types, depth - 1, False, False, records))
    if c == 7 and types:
        return ('ref', draw.pick(list(types)))
    if records:
        return ('rec', draw_rec(draw, types, depth - 1))
    return ('str',)


REC_NAMES = ['f', 'g', 'h', 'a', 'id']
OTHER_REC_NAMES = ['f', 'F', 'ff', 'obj', 'items', 'keys', 'get', 'name']


def draw_rec(draw, types, depth):
    names = draw.sample(OTHER_REC_NAMES if draw.chance(1, 8) else REC_NAMES,
                        1, 3)
    return [(n, draw_type(draw, types, depth, False, False)) for n in names]


def to_type(spec):
    k = spec[0]
    if k == 'int':
        return ht.Integer
    if k == 'str':
        return ht.String
    if k == 'bool':
        return ht.Boolean
    if k == 'float':
        return ht.Float
    if k == 'any':
        return ht.Any
    if k == 'none':
        return None
    if k == 'opt':
        return ht.Optional[to_type(spec[1])]
    if k == 'seq':
        return ht.Sequence[to_type(spec[1])]
    if k == 'map':
        return ht.Mapping[to_type(spec[1]), to_type(spec[2])]
    if k == 'rec':
        return ht.Record[[(n, to_type(t)) for n, t in spec[1]]]
    if k == 'ref':
        return ht.TypeRef[spec[1]]
    raise ValueError(spec)

"""Edits of a valid selection that make it invalid in one known way."""
import collections
import decimal
import fractions
import pathlib

from . import values as V
from . import world as wd


def places(w, sel, node=None, path=()):
    """All selections of the query: (path, 'node', node name) or
    (path, 'rec', record fields). path is a tuple of entry indexes."""
    out = [(path, 'node', node)]
    for i, e in enumerate(sel):
        if e[0] != 'l':
            continue
        item = w.items[node].get(e[1])
        if item is None:
            continue
        if item['k'] == 'l':
            out += places(w, e[4], item['node'], path + (i,))
            continue
        rec = V.record_of(item['type'], w.types)
        if rec:
            out += rec_places(w, e[4], rec[1], path + (i,))
    return out


def rec_places(w, sel, fields, path):
    out = [(path, 'rec', fields)]
    ft = dict(fields)
    for i, e in enumerate(sel):
        rec = e[0] == 'l' and e[1] in ft and V.record_of(ft[e[1]], w.types)
        if rec:
            out += rec_places(w, e[4], rec[1], path + (i,))
    return out


def at(sel, path):
    for i in path:
        sel = sel[i][4]
    return sel


def replace(sel, path, new):
    if not path:
        return new
    e = sel[path[0]]
    return sel[:path[0]] + [e[:4] + (replace(e[4], path[1:], new),)] + \
        sel[path[0] + 1:]


def used_keys(sel):
    return {e[3] or e[1] for e in sel}


def fresh(sel, d):
    keys = used_keys(sel)
    for n in ['zz', 'qq', 'q1', 'q2', 'q3', 'q4', 'q5']:
        if n not in keys:
            return n


class Like:
    """Not a value of any declared type, whatever it may be turned into."""

    def __index__(self):
        return 1

    __int__ = __len__ = __hash__ = __index__

    def __float__(self):
        return 1.0

    def __str__(self):
        return 'a'

    def __bool__(self):
        return True

    def __eq__(self, other):
        return isinstance(other, Like)


ODD = {
    'like': Like,
    'decimal': lambda: decimal.Decimal(1),
    'fraction': lambda: fractions.Fraction(1),
    'complex': lambda: 1j,
    'bytes': lambda: b'1',
    'no bytes': lambda: b'',
    'text': lambda: collections.UserString('a'),
    'set': lambda: frozenset(['a']),
    'no set': frozenset,
    'generator': lambda: (i for i in ()),
    'type': lambda: str,
    'path': lambda: pathlib.PurePath('a'),
}
# cases hold them by name
ODD_NAMES = ['\0odd ' + n for n in sorted(ODD)]


def revive(v):
    if isinstance(v, str) and v.startswith('\0odd '):
        return ODD[v[len('\0odd '):]]()
    if isinstance(v, list):
        return [revive(i) for i in v]
    if isinstance(v, dict):
        return {revive(k): revive(i) for k, i in v.items()}
    return v


def bad_value(d, spec, types, depth=2, odd=False):
    """A value which is not of the type, at a drawn depth; None if every
    value is of the type. With `odd`, it is to be given to revive()."""
    if odd and spec[0] not in ('any', 'none', 'ref', 'opt') and \
            d.chance(1, 4):
        # collections.UserString is a sequence
        return d.pick([n for n in ODD_NAMES if spec[0] != 'seq' or
                       n != '\0odd text']), True
    return _bad_value(d, spec, types, depth, odd)


def _bad_value(d, spec, types, depth, odd):
    """A value which is not of the type, at a drawn depth; None if every
    value is of the type."""
    k = spec[0]
    pools = {
        'int': ['1', '', None, [], {}, 1.5, [1]],
        'str': [1, None, True, [], {}, 0, 1.5, ['a']],
        'bool': [1, 0, 'true', None, [], {}],
        'float': ['1.0', None, [], {}, True, 'x'],
    }
    if k in pools:
        return d.pick(pools[k]), True
    if k in ('any', 'none'):
        return None, False
    if k == 'opt':
        v, ok = bad_value(d, spec[1], types, depth, odd)
        if ok and v is None:
            v = {'int': '', 'str': 0, 'bool': 1, 'float': '',
                 'seq': 1, 'map': 1, 'rec': 1}.get(
                     V.resolve(spec[1], types)[0])
            ok = v is not None
        return v, ok
    if k == 'ref':
        return bad_value(d, types[spec[1]], types, depth, odd)
    inner = d.chance(2, 3)
    if k == 'seq':
        if inner:
            v, ok = bad_value(d, spec[1], types, depth - 1, odd)
            if ok:
                good = [V.draw_value(d, spec[1], types, 1)
                        for _ in range(d.int(0, 2))]
                if good and d.chance(1, 6):
                    good = good * d.int(5, 60)
                    good.insert(d.int(0, len(good)), v)
                    return good, True
                good.insert(d.int(0, len(good)), v)
                return good, True
        return d.pick([1, None, {}, True, 0.5, 'a', '']), True
    if k == 'map':
        if inner:
            v, ok = bad_value(d, spec[2], types, depth - 1, odd)
            if ok:
                out = V.draw_value(d, spec, types, 1)
                if out and d.chance(1, 6):
                    one = next(iter(out.values()))
                    out.update((i if spec[1][0] == 'int' else 'k%d' % i, one)
                               for i in range(d.int(5, 60)))
                out[V.draw_value(d, spec[1], types, 0)] = v
                return out, True
            if d.bool():
                key = 1 if spec[1][0] == 'str' else 'k'
                return {key: V.draw_value(d, spec[2], types, 1)}, True
        return d.pick([1, None, [], 'a', True]), True
    if k == 'rec':
        good = V.draw_value(d, spec, types, 1)
        c = d.int(0, 3)
        if c == 0:
            return d.pick([1, None, [], 'a', [1]]), True
        if c == 1:
            good['unknown'] = 1
            return good, True
        if c == 2:
            good.pop(d.pick(sorted(good)))
            return good, True
        for name, t in d.perm(spec[1]):
            v, ok = bad_value(d, t, types, depth - 1, odd)
            if ok:
                good[name] = v
                return good, True
        good['unknown'] = None
        return good, True
    raise ValueError(spec)


KINDS = ['unknown-field', 'unknown-link', 'link-as-field', 'field-as-link',
         'unknown-option', 'missing-option', 'bad-option', 'conflict-name',
         'conflict-options', 'record-option']


def make_invalid(d, w, sel, kind=None):
    """(kind, invalid selection) or None when the drawn kind does not apply
    anywhere."""
    kinds = d.perm(KINDS) if kind is None else [kind]
    ps = d.perm(places(w, sel))
    for kind in kinds:
        for path, what, ctx in ps:
            here = list(at(sel, path))
            new = apply(d, w, kind, here, what, ctx)
            if new is not None:
                return kind + ('/' + what), replace(sel, path, new)
    return None


def apply(d, w, kind, here, what, ctx):
    key = fresh(here, d)
    pos = d.int(0, len(here))

    def put(e):
        return here[:pos] + [e] + here[pos:]

    if what == 'node':
        items = list(w.items[ctx].values())
        links = [i for i in items if i['k'] == 'l']
        fields = [i for i in items if i['k'] == 'f']

        def valid_sub(item):
            if item['k'] == 'l':
                for i in w.items[item['node']].values():
                    if i['k'] == 'f' and all('d' in o for o in i['opts']):
                        return [('f', i['name'], None, None)]
                return None
            return None
    else:
        ft = dict(ctx)
        complex_ = {n: V.record_of(t, w.types) for n, t in ctx}

    if kind == 'unknown-field':
        return put(('f', 'zzz', None, d.pick([None, key])))
    if kind == 'unknown-link':
        return put(('l', 'zzz', None, d.pick([None, key]),
                    [('f', d.pick(['a', 'zz']), None, None)]))
    if kind == 'link-as-field':
        if what == 'node':
            if not links:
                return None
            i = d.pick(links)
            return put(('f', i['name'], wd.draw_opts(d, i, w.types), key))
        names = [n for n, _ in ctx if complex_[n]]
        if not names:
            return None
        return put(('f', d.pick(names), None, key))
    if kind == 'field-as-link':
        sub = [('f', d.pick(['a', 'f', 'g']), None, None)]
        if what == 'node':
            plain = [i for i in fields
                     if not V.record_of(i['type'], w.types)]
            if not plain:
                return None
            i = d.pick(plain)
            return put(('l', i['name'], wd.draw_opts(d, i, w.types), key,
                        sub))
        names = [n for n, _ in ctx if not complex_[n]]
        if not names:
            return None
        return put(('l', d.pick(names), None, key, sub))
    if kind == 'record-option':
        if what != 'rec':
            return None
        for j in d.perm(range(len(here))):
            e = here[j]
            e = e[:2] + ({'o': d.pick([1, None, 'a'])},) + (key,) + e[4:]
            return here[:j] + [e] + here[j + 1:] if d.bool() else put(e)
        return None
    if kind in ('unknown-option', 'missing-option', 'bad-option'):
        if what != 'node':
            return None
        for j in d.perm(range(len(here))):
            e = here[j]
            item = w.items[ctx].get(e[1])
            if item is None:        # __typename
                continue
            opts = dict(e[2] or {})
            if kind == 'unknown-option':
                opts[d.pick(['zz', 'o', 'p', 'q', ''])] = d.pick([1, None])
                if set(opts) <= {o['n'] for o in item['opts']}:
                    continue
            elif kind == 'missing-option':
                req = [o['n'] for o in item['opts'] if 'd' not in o]
                if not req:
                    continue
                opts.pop(d.pick(req), None)
                opts = opts or d.pick([None, {}])
            else:
                if not item['opts']:
                    continue
                o = d.pick(item['opts'])
                v, ok = bad_value(d, o['t'], w.types)
                if not ok:
                    continue
                opts[o['n']] = v
            return here[:j] + [e[:2] + (opts,) + (key,) + e[4:]] + \
                here[j + 1:]
        return None
    if kind == 'conflict-name':
        if not here:
            return None
        e = here[d.below(len(here))]
        rkey = e[3] or e[1]
        if what == 'node':
            other = [i for i in items if i['name'] != e[1] and i['k'] == 'f'
                     and not any('d' not in o for o in i['opts'])]
            if not other:
                other = []
                for i in items:
                    if i['name'] != e[1] and i['k'] == 'l' and \
                            not any('d' not in o for o in i['opts']) and \
                            valid_sub(i):
                        other.append(i)
                if not other:
                    return None
                i = d.pick(other)
                return put(('l', i['name'], None, rkey, valid_sub(i)))
            return put(('f', d.pick(other)['name'], None, rkey))
        names = [n for n, _ in ctx if n != e[1] and not complex_[n]]
        if not names:
            return None
        return put(('f', d.pick(names), None, rkey))
    if kind == 'conflict-options':
        if what != 'node':
            return None
        for j in d.perm(range(len(here))):
            e = here[j]
            item = w.items[ctx].get(e[1])
            if item is None:        # __typename
                continue
            if not item['opts']:
                continue
            a = w.full_options(item, e[2])
            for _ in range(3):
                opts = wd.draw_opts(d, item, w.types)
                b = w.full_options(item, opts)
                # differ also for Python's ==
                if V.canon(a) != V.canon(b) and a != b:
                    new = e[:2] + (opts, e[3] or e[1]) + e[4:]
                    rec = V.record_of(item['type'], w.types) \
                        if item['k'] == 'f' else None
                    if rec and d.bool():
                        # once as a whole, once with a selection
                        names = [n for n, t in rec[1]
                                 if not V.record_of(t, w.types)]
                        if e[0] == 'l':
                            new = ('f',) + new[1:4]
                        elif names:
                            new = ('l',) + new[1:4] + (
                                [('f', names[0], None, None)],)
                    return put(new)
        return None
    raise ValueError(kind)

"""Random edits of a selection (no promise of validity)."""
from . import values as V
from . import world as wd
from .invalid import places, at, replace


def random_edit(d, w, sel):
    ps = places(w, sel)
    path, what, ctx = d.pick(ps)
    here = list(at(sel, path))
    names = ['a', 'b', 'id', 'x', 'y', 'z', 'f', 'g', 'zz']
    if what == 'node':
        names = names + list(w.items[ctx]) * 3
    else:
        names = names + [n for n, _ in ctx] * 3
    c = d.int(0, 6)
    j = d.below(len(here)) if here else None
    if c == 0 or j is None:
        here.insert(d.int(0, len(here)),
                    ('f', d.pick(names), None, d.pick([None, 'a', 'r', 'q'])))
    elif c == 1:
        here.insert(d.int(0, len(here)),
                    ('l', d.pick(names), None, d.pick([None, 'a', 'r', 'q']),
                     [('f', d.pick(names), None, None)]))
    elif c == 2:
        e = here[j]
        here[j] = e[:3] + (d.pick([None, 'a', 'r', 'b', 'x']),) + e[4:]
    elif c == 3:
        e = here[j]
        opts = {d.pick(wd.OPTION_NAMES): V.draw_any(d)
                for _ in range(d.int(0, 2))}
        here[j] = e[:2] + (opts or None,) + e[3:]
    elif c == 4:
        e = here[j]
        if e[0] == 'l':
            here[j] = ('f',) + e[1:4]
        else:
            here[j] = ('l',) + e[1:4] + ([('f', d.pick(names), None, None)],)
    elif c == 5:
        e = here[j]
        here[j] = e[:1] + (d.pick(names),) + e[2:]
    else:
        here.append(here[j][:2] + (here[j][2], d.pick([None, 'a', 'r'])) +
                    here[j][4:])
    return replace(sel, path, here)

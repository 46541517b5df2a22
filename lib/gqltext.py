"""GraphQL documents for a selection: text, variables; the meaning of the
document is the selection itself (fragments expanded in place)."""
import json
import re

# names of fragments and variables are apart from all other names
OTHER_NAMES = ['a', 'b', 'r', 's', 'id', 'x', 'f', 'query', 'type', 'input',
               'if', 'A', 'F0', 'v0', '_', 'Any', 'true', 'null']
NAME = re.compile(r'^[_A-Za-z][_0-9A-Za-z]*$')


class Unprintable(Exception):
    pass


def string_lit(s):
    out = []
    for c in s:
        o = ord(c)
        if c in '"\\':
            out.append('\\' + c)
        elif c == '\n':
            out.append('\\n')
        elif o < 0x20:
            out.append('\\u%04x' % o)
        else:
            out.append(c)
    return '"%s"' % ''.join(out)


def literal(v):
    if v is None:
        return 'null'
    if v is True:
        return 'true'
    if v is False:
        return 'false'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, float):
        return repr(v)
    if isinstance(v, str):
        return string_lit(v)
    if isinstance(v, list):
        return '[%s]' % ', '.join(map(literal, v))
    if isinstance(v, dict):
        if not all(isinstance(k, str) and NAME.match(k) for k in v):
            raise Unprintable
        return '{%s}' % ', '.join('%s: %s' % (k, literal(i))
                                  for k, i in v.items())
    raise Unprintable


class Doc:
    """Renders selections with drawn spelling: variables or literals, inline
    and named fragments, @skip/@include, commas and comments."""

    def __init__(self, d, fancy=True, directives=True, prefix='',
                 cond='Any'):
        self.d = d
        self.fancy = fancy
        self.directives = directives
        self.prefix = prefix
        self.cond = cond
        self.fragments = []     # (name, text)
        self.var_defs = []      # texts
        self.variables = {}
        self.nvars = 0
        self.nfrag = 0
        self.other_names = fancy and d.chance(1, 3)
        self.var_names = set()
        self.frag_names = set()
        self.uses = set()

    def var(self, value, type_='Any', default=None):
        """A variable that has this value: given, or by default, or null."""
        name = '%sv%d' % (self.prefix, self.nvars)
        names = [n for n in OTHER_NAMES if n not in self.var_names]
        if self.other_names and names and self.d.chance(1, 2):
            name = self.d.pick(names)
        while name in self.var_names:
            name += '_'
        self.var_names.add(name)
        self.nvars += 1
        c = self.d.int(0, 3)
        if value is None and c == 3:
            self.var_defs.append('$%s: %s' % (name, type_))
            self.uses.add('missing variable')
            return '$' + name
        if c in (1, 2):
            try:
                lit = literal(value)
            except Unprintable:
                lit = None
            if lit is not None:
                if c == 1:
                    self.var_defs.append('$%s: %s = %s' % (name, type_, lit))
                    self.uses.add('variable default')
                    return '$' + name
                other = self.d.pick(['null', '1', '"other"', '[]'])
                self.var_defs.append('$%s: %s = %s' % (name, type_, other))
                self.variables[name] = value
                self.uses.add('default overridden')
                return '$' + name
        self.var_defs.append('$%s: %s%s' % (
            name, type_, '!' if value is not None and c == 0 else ''))
        self.variables[name] = value
        self.uses.add('variable')
        return '$' + name

    def value(self, v):
        d = self.d
        if self.fancy and d.chance(1, 4):
            return self.var(v)
        try:
            if self.fancy and isinstance(v, list) and d.bool():
                return '[%s]' % ' '.join(self.value(i) for i in v)
            if self.fancy and isinstance(v, dict) and d.bool() and \
                    all(isinstance(k, str) and NAME.match(k) for k in v):
                return '{%s}' % ' '.join('%s: %s' % (k, self.value(i))
                                         for k, i in v.items())
            return literal(v)
        except Unprintable:
            return self.var(v)

    def args(self, opts):
        if not opts:
            return ''
        items = list(opts.items())
        if self.fancy:
            items = self.d.perm(items)
        return '(%s)' % self.d.pick([', ', ' ', ',\n']).join(
            '%s: %s' % (k, self.value(v)) for k, v in items)

    def flag(self, b):
        return self.var(b, 'Boolean') if self.d.chance(1, 3) else \
            ('true' if b else 'false')

    def directive(self, keep):
        d = self.d
        if not self.fancy or not self.directives:
            assert keep
            return ''
        if keep:
            c = d.int(0, 9)
            combos = {7: [('skip', False)], 8: [('include', True)],
                      9: [('skip', False), ('include', True)]}.get(c, [])
        else:
            combos = d.pick([[('skip', True)], [('include', False)],
                             [('skip', True), ('include', True)],
                             [('skip', False), ('include', False)],
                             [('skip', True), ('include', False)]])
        if len(combos) == 2 and d.bool():
            combos.reverse()
        if combos:
            self.uses.add('directive')
        if len(combos) == 2:
            self.uses.add('both directives')
        return ''.join(' @%s(if: %s)' % (n, self.flag(v)) for n, v in combos)

    def junk(self, keys):
        """A selection that is left out by its directives."""
        self.uses.add('excluded')
        k = self.d.int(0, 2)
        if k == 0:
            return 'junk%s' % self.directive(False)
        if k == 1:
            return '...%s { junk }' % self.directive(False)
        return 'junk: junk%s { junk }' % self.directive(False)

    def entry(self, e):
        d = self.d
        out = ''
        if e[3] is not None:
            out = '%s: ' % e[3]
        elif self.fancy and d.chance(1, 12):
            pass
        out += e[1] + self.args(e[2]) + self.directive(True)
        if e[0] == 'l':
            out += ' ' + self.selection(e[4])
        return out

    def selection(self, sel):
        return '{ %s }' % self.entries(sel, 0)

    def entries(self, sel, level):
        d = self.d
        parts = []
        i = 0
        while i < len(sel):
            c = d.int(0, 9) if self.fancy and level < 3 else 0
            if c <= 5:
                parts.append(self.entry(sel[i]))
                i += 1
                continue
            n = d.int(1, len(sel) - i)
            body = self.entries(sel[i:i + n], level + 1)
            i += n
            if c <= 7:
                self.uses.add('inline fragment')
                cond = d.pick(['', ' on ' + self.cond])
                parts.append('...%s%s { %s }' % (cond, self.directive(True),
                                                 body))
            else:
                self.uses.add('named fragment')
                # names of fragments are apart from those of fields
                names = [n for n in OTHER_NAMES if n not in self.frag_names]
                name = '%sF%d' % (self.prefix, self.nfrag)
                if self.other_names and names and d.chance(1, 2):
                    name = d.pick(names)
                while name in self.frag_names:
                    name += '_'
                self.frag_names.add(name)
                self.nfrag += 1
                self.fragments.append('fragment %s on %s { %s }' % (
                    name, self.cond, body))
                parts.append('...%s%s' % (name, self.directive(True)))
                if d.chance(1, 4):
                    # again: merging must make it the same query
                    self.uses.add('fragment used twice')
                    parts.append('...%s' % name)
        if self.fancy and self.directives and d.chance(1, 8):
            parts.insert(d.int(0, len(parts)), self.junk(None))
        sep = d.pick(['\n', ' ', ', ', ' # c } ...\n']) if self.fancy else ' '
        return sep.join(parts)


def operation(doc, kind, sel, name=None):
    """Text of one operation definition."""
    body = doc.selection(sel)
    head = kind
    if name:
        head += ' ' + name
    if doc.var_defs:
        head += '(%s)' % ', '.join(doc.var_defs)
    elif kind == 'query' and not name and doc.d.bool():
        head = ''
    return '%s %s' % (head, body)


def assemble(d, operations, fragments):
    """Document text from definitions in drawn order."""
    defs = list(operations) + list(fragments)
    return '\n'.join(d.perm(defs))


def has_json_names(v):
    if isinstance(v, dict):
        return all(isinstance(k, str) and NAME.match(k) and has_json_names(i) for k, i in v.items())
    if isinstance(v, list):
        return all(map(has_json_names, v))
    return True


__all__ = ['Doc', 'operation', 'assemble', 'literal', 'json', 'Unprintable']

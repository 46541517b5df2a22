"""C21: SQL sources return what the tables contain."""
import asyncio
import collections
import datetime

import sqlalchemy as sa
from sqlalchemy.dialects import postgresql
from sqlalchemy.pool import StaticPool
from sqlalchemy.sql import operators, visitors

from hiku import graph as hg
from hiku import query as hq
from hiku import types as ht
from hiku.engine import Engine, Nothing
from hiku.result import denormalize
from hiku.sources import aiopg as src_aiopg
from hiku.sources import sqlalchemy as src_sync
from hiku.sources import sqlalchemy_async as src_async

from lib import values as V
from lib.execs import (AsyncIOExecutor, Schedule, ScheduledExecutor,
                       SyncExecutor, run_async)
from lib.runner import Test, ensure

PROPERTY = 'C21'
RULE = ('the table has rows, and the request has a repeated, missing or null '
        'identifier, several columns, or more rows than one fetch')
ASSUMPTIONS = [
    'one-links are asked only for values which have a target',
    'if a value has several targets, a one or maybe link may give any of them',
    'the order of the targets of a many-link is not specified',
    'SQLite stands for the database; stand-ins with the interfaces of '
    'SQLAlchemy 1.4 asyncio and aiopg engines over it run the asynchronous '
    'sources',
    'identifiers are of the type of the column, or None',
]

KEY = 'sa-key'
COLS = {
    'int': (sa.Integer, [0, 1, -1, 2 ** 40, None]),
    'str': (sa.Unicode, ['', 'a', "it's", 'Ж', 'A', None]),
    'text': (sa.Text, ['', 'x\ny', '%s', ':p', None]),
    'bool': (sa.Boolean, [False, True, None]),
    'float': (sa.Float, [0.0, 1.5, -2.25, None]),
    'date': (sa.Date, [datetime.date(2000, 1, 1), datetime.date(1, 1, 1),
                       None]),
    'time': (sa.DateTime, [datetime.datetime(2000, 1, 1),
                           datetime.datetime(1999, 12, 31, 23, 59, 59, 5),
                           None]),
    'big': (sa.BigInteger, [0, 2 ** 62, -5, None]),
}
TYPES = {'int': ht.Integer, 'big': ht.Integer, 'str': ht.String}


# -- stand-ins for asynchronous engines

def portable(expr):
    """x = ANY(list) as x IN list, for SQLite."""
    def replace(el):
        if isinstance(el, sa.sql.elements.BinaryExpression) and \
                isinstance(el.right, sa.sql.elements.CollectionAggregate):
            ensure(el.operator is operators.eq and
                   el.right.operator is operators.any_op,
                   'unexpected expression %s', el)
            arg = el.right.element
            while isinstance(arg, sa.sql.elements.Grouping):
                arg = arg.element
            # psycopg2 adapts lists, and nothing else, to arrays
            ensure(isinstance(arg.value, list), 'ANY(%r)', arg.value)
            return el.left.in_(arg.value)
        return None
    return visitors.replacement_traverse(expr, {}, replace)


class FakeResult:
    """Rows are given in full buckets, and only while the connection is
    open."""

    def __init__(self, conn, rows):
        self._conn = conn
        self._rows = collections.deque(rows)
        self.rowcount = len(rows)

    async def _take(self, n):
        await self._conn.pause()
        ensure(self._conn.open, 'rows fetched from a closed connection')
        return [self._rows.popleft() for _ in range(min(n, len(self._rows)))]

    async def fetchmany(self, size=1):
        return await self._take(size)

    async def fetchall(self):
        return await self._take(len(self._rows))

    all = fetchall

    async def fetchone(self):
        row = await self._take(1)
        return row[0] if row else None

    async def close(self):
        self._rows.clear()

    async def partitions(self, size=100):
        while self._rows:
            yield await self._take(size)

    async def __aiter__(self):
        while self._rows:
            yield (await self._take(1))[0]


class FakeConnection:

    def __init__(self, engine):
        self.engine = engine
        self.open = False

    async def pause(self):
        for _ in range(self.engine.sched.next(4)):
            await asyncio.sleep(0)

    async def __aenter__(self):
        await self.pause()
        self.open = True
        self.engine.taken += 1
        return self

    async def __aexit__(self, *exc):
        await self.pause()
        self.open = False
        self.engine.taken -= 1

    async def execute(self, expr, *args, **kwargs):
        await self.pause()
        ensure(self.open, 'a closed connection is used')
        # it would be accepted by PostgreSQL
        str(expr.compile(dialect=postgresql.dialect()))
        rows = self.engine.sync.execute(portable(expr), *args,
                                        **kwargs).fetchall()
        self.engine.queries += 1
        return FakeResult(self, rows)

    stream = execute


class FakeEngine:

    def __init__(self, sync, data):
        self.sync = sync
        self.sched = Schedule(data)
        self.taken = 0
        self.queries = 0

    def connect(self):
        return FakeConnection(self)

    acquire = connect


SOURCES = [('sync', src_sync), ('async', src_async), ('aiopg', src_aiopg)]


def open_db(metadata, rows):
    engine = sa.create_engine('sqlite://', poolclass=StaticPool,
                              connect_args={'check_same_thread': False})
    metadata.create_all(engine)
    for table, content in rows:
        if content:
            engine.execute(table.insert(), content)
    return engine


def in_graph(item):
    graph = hg.Graph([
        hg.Node('N', [hg.Field('i', None, lambda f, i: []), item]),
        hg.Root([hg.Field('r', None, lambda f: [])])])
    return graph.nodes_map['N'].fields_map[item.name]


def run_sources(db, data, call):
    """call(module) -> value or coroutine, for every kind of source"""
    def sync(module, ctx):
        return call(module, ctx)

    out = [('sync', call(src_sync, {KEY: db}))]
    for name, module in SOURCES[1:]:
        fake = FakeEngine(db, data)
        value = run_async(lambda loop: call(module, {KEY: fake}))
        ensure(fake.taken == 0, '%s: a connection is not released', name)
        out.append((name, value))

    # several loads at once
    async def together():
        fakes = [FakeEngine(db, data[i:]) for i in range(3)]
        return await asyncio.gather(*(
            call(module, {KEY: f}) for f, (_, module) in
            zip(fakes, SOURCES[1:] * 2)))
    for value in run_async(lambda loop: together()):
        out.append(('concurrent', value))
    return out


# -- fields

def draw_ids(d, kind, n):
    """n distinct non-null values"""
    if kind == 'int':
        start = d.pick([0, 1, -1, -2, 2 ** 40])
        return [start + i for i in range(n)]
    if kind == 'str':
        base = ['', 'a', 'A', "it's", 'Ж', 'a ', '1', '0', '%', 'n']
        return (base + ['k%d' % i for i in range(n)])[:n]
    base = datetime.date(2000, 2, 27)
    return [base + datetime.timedelta(i) for i in range(n)]


def draw_count(d, many):
    if many:
        return d.pick([99, 100, 101, 199, 200, 201, 230, 300, 501, 700, 999,
                       1000, 1001, 1100])
    return d.int(0, 6)


def request_ids(d, present, absent, many, none=True):
    """Identifiers: present, missing, repeated, None; in any order"""
    if many:
        ids = list(present) + list(absent if d.bool() else absent[:2])
        k = d.int(0, len(ids))
        ids = ids[k:] + ids[:k]
        if d.bool():
            ids.reverse()
        ids += ids[:d.int(0, 5)]
    else:
        pool = list(present) + list(absent[:2])
        ids = [d.pick(pool) for _ in range(d.int(0, 7))] if pool else []
    if none and d.chance(1, 4):
        ids.insert(d.int(0, len(ids)), None)
    return ids


def gen_fields(d):
    many = d.chance(1, 12)
    kind = d.pick(['int', 'int', 'str', 'date'])
    cols = [('c%d' % i, d.pick(sorted(COLS))) for i in range(d.int(1, 4))]
    n = draw_count(d, many)
    ids = draw_ids(d, kind, n + 2)
    shift = d.int(0, 2)
    present, absent = ids[shift:shift + n], ids[:shift] + ids[shift + n:]
    salt = d.byte()
    rows = [dict([('id', i)] + [
        (name, COLS[k][1][(V.h('r', i, name, salt)) % len(COLS[k][1])]
         if many else d.pick(COLS[k][1])) for name, k in cols])
        for i in present]
    insert = d.perm(range(len(rows))) if not many else range(len(rows))[::-1]
    names = [c for c, _ in cols] + ['id']
    shape = d.pick(['table', 'table', 'alias', 'subquery', 'join'])
    return {
        'kind': kind, 'cols': cols, 'rows': rows, 'insert': list(insert),
        'shape': shape, 'explicit': d.bool(),
        'other': d.bool(),
        'fields': [d.pick(names + (['side c0', 'side sid']
                                   if shape == 'join' else []))
                   for _ in range(d.int(1, 5))],
        'ids': request_ids(d, present, absent, many),
        'data': [d.byte() for _ in range(8)]}


def check_fields(case, obs):
    metadata = sa.MetaData()
    pk_type = COLS[case['kind']][0]
    # either the primary key identifies rows, or another unique column
    other = case['other']
    columns = [sa.Column('id', pk_type, primary_key=not other)]
    columns += [sa.Column(name, COLS[k][0]) for name, k in case['cols']]
    if other:
        columns.insert(0, sa.Column('pk', sa.Integer, primary_key=True))
    table = sa.Table('t', metadata, *columns)
    side = sa.Table('side', metadata,
                    sa.Column('sid', pk_type, primary_key=True),
                    sa.Column('c0', sa.Integer))
    db = open_db(metadata, [
        (table, [dict(case['rows'][i], **({'pk': 1000 - i} if other else {}))
                 for i in case['insert']]),
        (side, [{'sid': r['id'], 'c0': 7} for r in case['rows']])])
    shape = case['shape']
    prefix = ''
    source = table
    if shape == 'alias':
        source = table.alias('al')
    elif shape == 'subquery':
        source = sa.select([table]).alias('sub')
    elif shape == 'join':
        source = table.join(side, table.c.id == side.c.sid)
        prefix = 't_'
    key = source.c[prefix + 'id']

    def column(f):
        return f.replace(' ', '_') if f.startswith('side ') else prefix + f
    explicit = case['explicit'] or other or shape in ('join', 'subquery')
    types = dict(case['cols'], id=case['kind'])
    types.update({'side c0': 'int', 'side sid': case['kind']})
    by_id = {r['id']: dict(r, **{'side c0': 7, 'side sid': r['id']})
             for r in case['rows']}
    want = [[by_id[i][f] if i in by_id else None for f in case['fields']]
            for i in case['ids']]
    fields = [hq.Field(column(f)) for f in case['fields']]
    ids = list(case['ids'])

    def call(module, ctx):
        q = module.FieldsQuery(KEY, source, primary_key=key) if explicit \
            else module.FieldsQuery(KEY, source)
        return q(ctx, fields, ids)

    for name, got in run_sources(db, case['data'], call):
        ensure(isinstance(got, (list, tuple)) and
               [list(r) for r in got] == want and
               V.same([list(r) for r in got], want),
               '%s: %r, expected %r', name, got, want)
    ensure(V.same(ids, case['ids']), 'identifiers are changed')

    # types of the fields, declared or taken from the columns
    q = src_sync.FieldsQuery(KEY, source, primary_key=key)
    for f in case['fields']:
        field = in_graph(hg.Field(column(f), None, q))
        ensure(field.type is TYPES.get(types[f]), 'type of %r: %r', f,
               field.type)
        field = in_graph(hg.Field(column(f), ht.Sequence[ht.Any], q))
        ensure(field.type == ht.Sequence[ht.Any], 'declared type of %r: %r',
               f, field.type)
    got = set(case['ids'])
    if len(case['rows']) > 90:
        obs.label('many rows')
    obs.label(shape)
    if len(got) < len(case['ids']):
        obs.label('repeated')
    if got - set(by_id):
        obs.label('missing')
    return bool(case['rows']) and bool(case['ids']) and (
        len(got) < len(case['ids']) or bool(got - set(by_id)) or
        len(case['fields']) > 1 or len(case['rows']) > 90)


# -- links

LINK_TYPES = {'one': ht.TypeRef['N'], 'maybe': ht.Optional[ht.TypeRef['N']],
              'many': ht.Sequence[ht.TypeRef['N']]}


def gen_links(d):
    many = d.chance(1, 12)
    card = d.pick(['one', 'maybe', 'many'])
    kinds = [d.pick(['int', 'int', 'str', 'date']) for _ in range(2)]
    n = draw_count(d, many)
    sources = draw_ids(d, kinds[0], max(2, n if d.bool() else n // 3) + 1)
    targets = draw_ids(d, kinds[1], 6)
    salt = d.byte()
    rows = []
    for i in range(n):
        a = sources[V.h('s', i, salt) % (len(sources) - 1)] if many else \
            d.pick([d.pick(sources[:-1]), None] if d.chance(1, 4)
                   else sources[:-1])
        b = targets[V.h('t', i, salt) % 6] if many else d.pick(targets)
        if card != 'one' and (V.h('n', i, salt) % 5 == 0 if many
                              else d.chance(1, 5)):
            b = None
        rows.append((a, b))
    same = kinds[0] == kinds[1] and d.chance(1, 6)
    if same:
        rows = [(a, a) for a, _ in rows]
    have = {a for a, b in rows if b is not None} - {None}
    order = sorted(have, key=repr)
    absent = [i for i in sources if i not in have] if card != 'one' else []
    return {'kinds': kinds, 'card': card, 'rows': rows, 'same': same,
            'ids': request_ids(d, order, absent, many, card != 'one'),
            'data': [d.byte() for _ in range(8)],
            'also': d.sample(['one', 'maybe', 'many'], 0, 2)}


def check_links(case, obs):
    metadata = sa.MetaData()
    table = sa.Table('t', metadata,
                     sa.Column('n', sa.Integer, primary_key=True),
                     sa.Column('a', COLS[case['kinds'][0]][0]),
                     sa.Column('b', COLS[case['kinds'][1]][0]))
    db = open_db(metadata, [(table, [
        {'n': i, 'a': a, 'b': b} for i, (a, b) in enumerate(case['rows'])])])
    targets = collections.defaultdict(list)
    for a, b in case['rows']:
        if a is not None and b is not None:
            targets[a].append(b)
    card = case['card']
    ids = list(case['ids'])

    def call(module, ctx):
        q = module.LinkQuery(KEY, from_column=table.c.a,
                             to_column=table.c['a' if case['same'] else 'b'])
        # the same source may be used for links of other types
        for t in case['also']:
            in_graph(hg.Link('w', LINK_TYPES[t], q, requires='i'))
        link = in_graph(hg.Link('x', LINK_TYPES[card], q, requires='i'))
        for t in case['also'][:1]:
            in_graph(hg.Link('w', LINK_TYPES[t], q, requires='i'))
        return link.func(ctx, ids)

    for name, got in run_sources(db, case['data'], call):
        ensure(isinstance(got, (list, tuple)) and len(got) == len(ids),
               '%s: %r for %r', name, got, ids)
        for i, v in zip(ids, got):
            t = targets.get(i, [])
            if card == 'many':
                ok = isinstance(v, (list, tuple)) and V.same(
                    sorted(v, key=repr), sorted(t, key=repr))
            elif t:
                ok = any(V.same(v, x) for x in t)
            else:
                ok = v is Nothing
            ensure(ok, '%s: %r for %r, the table has %r', name, v, i, t)
    ensure(V.same(ids, case['ids']), 'values are changed')
    obs.label(card)
    if len(case['rows']) > 90:
        obs.label('many rows')
    if None in ids:
        obs.label('None')
    if any(b is None for _, b in case['rows']):
        obs.label('null targets')
    return bool(case['rows']) and (
        len(set(ids)) < len(ids) or len(case['rows']) > 90 or
        bool(set(ids) - set(targets)))


# -- graphs over several tables

def gen_graph(d):
    """Tables t0..tn with an id, columns, and references fk0.. to tables."""
    n = d.int(1, 3)
    tables = []
    kinds = [d.pick(['int', 'str']) for _ in range(n)]
    ids = [draw_ids(d, k, d.int(0, 4)) for k in kinds]
    for t in range(n):
        cols = [('c%d' % i, d.pick(sorted(COLS))) for i in range(d.int(0, 2))]
        fks = [('f%d' % i, d.int(0, n - 1)) for i in range(d.int(0, 2))]
        rows = []
        for i in ids[t]:
            row = {'id': i}
            for c, k in cols:
                row[c] = d.pick(COLS[k][1])
            for f, to in fks:
                row[f] = d.pick([None] + ids[to] + draw_ids(
                    d, kinds[to], 5)[4:])
            rows.append(row)
        tables.append({'cols': cols, 'fks': fks, 'rows': d.perm(rows)})
    links = []      # (node, name, kind, ...)
    for t, table in enumerate(tables):
        for f, to in table['fks']:
            if d.bool():
                # through the referenced table: only existing targets
                links.append((t, 'to_' + f, 'maybe', f, to))
            else:
                links.append((t, 'to_' + f, 'follow', f, to))
            links.append((to, 'from_%d_%s' % (t, f), 'many', t, f))
    roots = [(t, 'all%d' % t, ids[t] if d.bool() else
              request_ids(d, ids[t], [], False, False)) for t in range(n)]

    def draw_sel(t, depth):
        names = ['id'] + [c for c, _ in tables[t]['cols']] + \
            [f for f, _ in tables[t]['fks']]
        sel = [('f', c, a) for c, a in zip(
            d.sample(names, 1, 3), ['p', None, None])]
        if depth:
            for k in d.sample([x for x in links if x[0] == t], 0, 2):
                to = k[3] if k[2] == 'many' else k[4]
                sel.append(('l', k[1], None, draw_sel(to, depth - 1)))
        return d.perm(sel)
    return {'kinds': kinds, 'tables': tables, 'links': links, 'roots': roots,
            'query': [('l', name, None, draw_sel(t, 3)) for t, name, _ in
                      d.sample(roots, 1, 3)],
            'data': [d.byte() for _ in range(8)]}


def build_graph(case, tables, module):
    async_ = module is not src_sync
    nodes = []
    for t, spec in enumerate(case['tables']):
        q = module.FieldsQuery(KEY, tables[t])
        items = [hg.Field(c.name, None, q) for c in tables[t].c]
        for k in case['links']:
            if k[0] != t:
                continue
            if k[2] == 'many':
                lq = module.LinkQuery(KEY, from_column=tables[k[3]].c[k[4]],
                                      to_column=tables[k[3]].c.id)
                items.append(hg.Link(
                    k[1], ht.Sequence[ht.TypeRef['t%d' % k[3]]], lq,
                    requires='id'))
            else:
                # through the own table, or through the referenced one
                a, b = (tables[k[4]].c.id, tables[k[4]].c.id) \
                    if k[2] == 'maybe' else \
                    (tables[t].c.id, tables[t].c[k[3]])
                lq = module.LinkQuery(KEY, from_column=a, to_column=b)
                items.append(hg.Link(
                    k[1], ht.Optional[ht.TypeRef['t%d' % k[4]]], lq,
                    requires=k[3] if k[2] == 'maybe' else 'id'))
        nodes.append(hg.Node('t%d' % t, items))

    def root(ids):
        async def acall():
            return ids
        return acall if async_ else lambda: ids
    return hg.Graph(nodes + [hg.Root([
        hg.Link(name, ht.Sequence[ht.TypeRef['t%d' % t]], root(ids),
                requires=None) for t, name, ids in case['roots']])])


def evaluate(case, t, ident, sel):
    tables = case['tables']
    row = next((r for r in tables[t]['rows'] if r['id'] == ident), None)
    out = {}
    for kind, name, alias, *sub in sel:
        key = alias or name
        if kind == 'f':
            out[key] = row[name] if row is not None else None
            continue
        k = next(x for x in case['links'] if x[0] == t and x[1] == name)
        if k[2] == 'many':
            of = row['id'] if row is not None else None
            out[key] = unordered(
                evaluate(case, k[3], r['id'], sub[0])
                for r in tables[k[3]]['rows']
                if of is not None and r[k[4]] == of)
        else:
            to = row[k[3]] if row is not None else None
            known = any(r['id'] == to for r in tables[k[4]]['rows'])
            out[key] = evaluate(case, k[4], to, sub[0]) if to is not None \
                and (known or k[2] == 'follow') else None
    return out


def unordered(values):
    return sorted(values, key=lambda v: repr(V.canon(v)))


def sort_many(case, t, value, sel):
    """Lists of many-links in the order of unordered()"""
    if value is None:
        return None
    out = dict(value)
    for kind, name, alias, *sub in sel:
        if kind == 'l':
            k = next(x for x in case['links'] if x[0] == t and x[1] == name)
            v = out[alias or name]
            if k[2] == 'many':
                ensure(isinstance(v, list), '%s is %r', name, v)
                out[alias or name] = unordered(
                    sort_many(case, k[3], i, sub[0]) for i in v)
            else:
                out[alias or name] = sort_many(case, k[4], v, sub[0])
    return out


def to_query(sel):
    return hq.Node([hq.Field(e[1], alias=e[2]) if e[0] == 'f' else
                    hq.Link(e[1], to_query(e[3]), alias=e[2]) for e in sel])


def check_graph(case, obs):
    metadata = sa.MetaData()
    tables = []
    for t, spec in enumerate(case['tables']):
        cols = [sa.Column('id', COLS[case['kinds'][t]][0], primary_key=True)]
        cols += [sa.Column(c, COLS[k][0]) for c, k in spec['cols']]
        cols += [sa.Column(f, COLS[case['kinds'][to]][0])
                 for f, to in spec['fks']]
        tables.append(sa.Table('t%d' % t, metadata, *cols))
    db = open_db(metadata, [(tables[t], spec['rows'])
                            for t, spec in enumerate(case['tables'])])
    roots = {name: (t, ids) for t, name, ids in case['roots']}
    want = {}
    for _, name, _, sel in case['query']:
        t, ids = roots[name]
        want[name] = [evaluate(case, t, i, sel) for i in ids]
    query = to_query(case['query'])
    for name, module in SOURCES:
        graph = build_graph(case, tables, module)
        if module is src_sync:
            ex = SyncExecutor() if case['data'][0] & 1 else \
                ScheduledExecutor(case['data'])
            result = Engine(ex).execute(graph, query, {KEY: db})
        else:
            fake = FakeEngine(db, case['data'])
            result = run_async(lambda loop: Engine(AsyncIOExecutor()).execute(
                graph, query, {KEY: fake}))
            ensure(fake.taken == 0, '%s: a connection is not released', name)
        got = denormalize(graph, result)
        ensure(set(got) == set(want), '%s: %r', name, got)
        for _, root, _, sel in case['query']:
            got[root] = [sort_many(case, roots[root][0], v, sel)
                         for v in got[root]]
        ensure(V.same(got, want), '%s: %r, expected %r', name, got, want)
    nested = any(e[0] == 'l' for _, _, _, s in case['query'] for e in s)
    if nested:
        obs.label('links between tables')
    return nested and any(want.values())


TESTS = [Test('fields', gen_fields, check_fields, 2500),
         Test('links', gen_links, check_links, 2500),
         Test('graph', gen_graph, check_graph, 2500)]

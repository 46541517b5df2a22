"""C04: ordered (mutation) queries run their fields strictly in order."""
from hiku.engine import Engine
from hiku.query import merge
from hiku.readers.graphql import read_operation, OperationType
from hiku.result import denormalize

from lib import gqltext
from lib import world as wd
from lib.execs import (SyncExecutor, AsyncIOExecutor, ScheduledExecutor,
                       run_async, async_pause)
from lib.runner import Test, ensure
from lib.values import canon, same

PROPERTY = 'C04'
RULE = ('a case is non-trivial when the ordered query has at least three '
        'top-level items served by at least two loaders')


def gen(d):
    data = [d.byte() for _ in range(16)]
    case = wd.world_and_query(d, depth=2, dups=d.chance(1, 2), max_items=7,
                              max_nodes=2)
    case['schedule'] = data
    return case


def gen_large(d):
    data = [d.byte() for _ in range(16)]
    case = wd.big_case(d)
    case['schedule'] = data
    return case


def gen_doc(d):
    case = gen(d)
    doc = gqltext.Doc(d)
    op = gqltext.operation(doc, 'mutation', case['query'])
    case['text'] = gqltext.assemble(d, [op], doc.fragments)
    case['variables'] = doc.variables
    return case


def expected_tokens(w, sel):
    """[(loader, item, optional)]; a required field that an earlier item has
    already loaded need not be loaded again."""
    out, seen = [], set()
    for e in wd.merge_sel(sel):
        item = w.items[None][e[1]]
        opts = canon(w.full_options(item, e[2]))
        if item['k'] == 'f':
            out.append((item['fn'], e[1] + opts, False))
            seen.add(e[1] + opts)
            continue
        if item['req'] is not None:
            f = w.items[None][item['req']]
            t = f['name'] + canon(w.full_options(f, None))
            out.append((f['fn'], t, t in seen))
            seen.add(t)
        # a function can be of several links
        out.append((item['fn'], item['fn'] + opts, False))
    return out


class Watch:
    """Start and completion events of root-level loader calls."""

    def __init__(self, run):
        self.run = run
        self.events = []
        run.before = lambda c: self.note('start', c)
        run.after = lambda c: self.note('end', c)

    def note(self, what, call):
        if call.kind == 'f' and len(call.args) == 1:
            names = [f.name + canon(dict(f.options or {}))
                     for f in call.args[0]]
        elif call.kind == 'l' and call.fn in self.run.link_root:
            item = self.run.by_fn[call.fn]
            opts = dict(call.args[-1]) if item['opts'] else {}
            names = [call.fn + canon(opts)]
        else:
            return
        self.events.append((what, call.fn, names))


def judge(watch, w, sel, name):
    tokens = []
    running = None
    for what, fn, names in watch.events:
        if what == 'start':
            ensure(running is None, '%s: %s is started before %s has '
                   'completed', name, fn, running)
            running = fn
            tokens.extend((fn, n) for n in names)
        else:
            running = None
    exp = expected_tokens(w, sel)
    i = 0
    for fn, n, optional in exp:
        if i < len(tokens) and tokens[i] == (fn, n):
            i += 1
        elif not optional:
            ensure(False, '%s: order of loading\n got: %r\nwant: %r', name,
                   tokens, exp)
    ensure(i == len(tokens), '%s: order of loading\n got: %r\nwant: %r', name,
           tokens, exp)
    return len(exp) >= 3 and len({t[0] for t in exp}) >= 2


def execute(case, run, graph, query, want):
    kind = case['schedule'][0] % 3
    if kind == 0:
        ex = SyncExecutor()
        result = Engine(ex).execute(graph, query)
    elif kind == 1:
        ex = ScheduledExecutor(case['schedule'])
        result = Engine(ex).execute(graph, query)
    else:
        run.pause = async_pause(case['schedule'])

        async def main(loop):
            return await Engine(AsyncIOExecutor(loop)).execute(graph, query)
        result = run_async(main)
    got = denormalize(graph, result)
    ensure(same(got, want), 'result of the ordered query\n got: %r\nwant: %r',
           got, want)
    return ['sync', 'scheduled', 'asyncio'][kind]


def check_engine(case, obs):
    run = wd.Run(case['world'], async_=case['schedule'][0] % 3 == 2)
    graph = run.graph()
    watch = Watch(run)
    query = wd.to_node(case['query'], ordered=True)
    if case['query'] != wd.merge_sel(case['query']):
        query = merge([query])
        obs.label('merged')
    want = wd.evaluate(run.w, case['query'])
    name = execute(case, run, graph, query, want)
    obs.label(name)
    return judge(watch, run.w, case['query'], name)


def check_mutation(case, obs):
    run = wd.Run(case['world'], async_=case['schedule'][0] % 3 == 2)
    if not case['query']:
        return False
    graph = run.graph()
    watch = Watch(run)
    op = read_operation(case['text'], dict(case['variables']))
    ensure(op.type is OperationType.MUTATION, 'operation type')
    want = wd.evaluate(run.w, case['query'])
    name = execute(case, run, graph, op.query, want)
    obs.label(name)
    if '...' in case['text']:
        obs.label('fragments')
    return judge(watch, run.w, case['query'], name)


TESTS = [
    Test('engine', gen, check_engine, 9000),
    Test('large', gen_large, check_engine, 800, size=700),
    Test('mutation', gen_doc, check_mutation, 6000, size=1400),
]

"""Mutation testing: which small changes of hiku do neither its tests nor the
checks notice?

usage: mutate.py list [FILE ...]
       mutate.py run OUT.json [--jobs N] [--scale X] [--sample N] FILE ...
       mutate.py full OUT.json [--jobs N]    survivors again, at full scale
       mutate.py show OUT.json               the survivors

Works in scratch copies of /repo under /tmp/mut.
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import threading
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = '/tmp/mut'
ENV = dict(os.environ, HOME='/root', LANG='C.UTF-8',
           PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
           PIP_NO_INDEX='1')

RUN = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C10', 'C24',
       'C27', 'C28', 'C19', 'C20']
CHECKS = {
    'engine.py': RUN + ['C22', 'C21'],
    'query.py': ['C29', 'C09', 'C17', 'C08', 'C01', 'C14', 'C15', 'C19', 'C28',
                 'C25', 'C24', 'C20'],
    'result.py': ['C01', 'C10', 'C05', 'C28', 'C25', 'C03', 'C22', 'C20'],
    'graph.py': ['C29', 'C13', 'C01', 'C18', 'C19', 'C26', 'C11', 'C12', 'C28',
                 'C24', 'C22', 'C27', 'C10', 'C20'],
    'types.py': ['C29', 'C12', 'C11', 'C18', 'C13', 'C26', 'C23', 'C22', 'C10',
                 'C19', 'C28'],
    'utils.py': ['C01', 'C09', 'C24', 'C21', 'C28', 'C22'],
    'edn.py': ['C16', 'C15', 'C17', 'C14', 'C26', 'C25'],
    'builder.py': ['C17', 'C09', 'C01', 'C28'],
    'compat.py': ['C20'],
    'console/ui.py': ['C25', 'C28'],
    'denormalize/base.py': ['C10', 'C25', 'C20', 'C11'],
    'denormalize/graphql.py': ['C10', 'C20', 'C18', 'C25'],
    'endpoint/graphql.py': ['C20', 'C28', 'C06', 'C18', 'C27'],
    'executors/asyncio.py': ['C07', 'C02', 'C06', 'C20', 'C28', 'C04'],
    'executors/queue.py': ['C02', 'C06', 'C04', 'C03', 'C07', 'C28'],
    'executors/sync.py': ['C02', 'C06', 'C04'],
    'executors/threads.py': ['C02', 'C06', 'C04', 'C28'],
    'export/graphql.py': ['C17', 'C28'],
    'export/protobuf.py': ['C17', 'C28'],
    'export/simple.py': ['C17', 'C28'],
    'expr/checker.py': ['C23', 'C22', 'C28'],
    'expr/compiler.py': ['C22', 'C23', 'C28'],
    'expr/core.py': ['C22', 'C23', 'C28', 'C08'],
    'expr/nodes.py': ['C22', 'C23'],
    'expr/refs.py': ['C22', 'C23', 'C28'],
    'introspection/graphql.py': ['C18', 'C20', 'C28', 'C10'],
    'readers/graphql.py': ['C14', 'C15', 'C17', 'C20', 'C28'],
    'readers/protobuf.py': ['C15', 'C17', 'C14'],
    'readers/simple.py': ['C15', 'C17', 'C14', 'C25'],
    'sources/aiopg.py': ['C21'],
    'sources/graph.py': ['C22', 'C24', 'C19', 'C28', 'C27'],
    'sources/sqlalchemy.py': ['C21', 'C28'],
    'sources/sqlalchemy_async.py': ['C21'],
    'telemetry/prometheus.py': ['C24', 'C28', 'C19'],
    'typedef/kinko.py': ['C26'],
    'typedef/types.py': ['C26'],
    'validate/errors.py': ['C12'],
    'validate/graph.py': ['C13'],
    'validate/query.py': ['C12', 'C11', 'C20', 'C25', 'C28'],
}


class Muts(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.out = []       # (lineno, start, end, new text, kind)
        self.lines = [0]
        for ln in src.splitlines(True):
            self.lines.append(self.lines[-1] + len(ln))
        self.quiet = 0

    def pos(self, n):
        # columns are in bytes; the sources are ASCII
        return (self.lines[n.lineno - 1] + n.col_offset,
                self.lines[n.end_lineno - 1] + n.end_col_offset)

    def text(self, n):
        a, b = self.pos(n)
        return self.src[a:b]

    def add(self, n, new, kind):
        if self.quiet:
            return
        a, b = self.pos(n)
        if self.src[a:b] != new:
            self.out.append((n.lineno, a, b, new, kind))

    # --- statements
    def body(self, stmts):
        for s in stmts:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise,
                              ast.Continue, ast.Break, ast.Delete,
                              ast.Assert)):
                self.add(s, 'pass', 'delete')
            if isinstance(s, ast.Continue):
                self.add(s, 'break', 'break')
            if isinstance(s, ast.Return) and s.value is not None \
                    and not (isinstance(s.value, ast.Constant) and
                             s.value.value is None):
                self.add(s, 'return None', 'return')

    def visit_Module(self, n):
        self.generic_visit(n)

    def visit_ImportFrom(self, n):
        pass

    def _func(self, n):
        self.body(n.body)
        for d in n.args.defaults + n.args.kw_defaults:
            if d is not None:
                self.visit(d)
        for s in n.body:
            self.visit(s)

    visit_FunctionDef = visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, n):
        for s in n.body:
            self.visit(s)

    def visit_If(self, n):
        if isinstance(n.test, ast.Name) and n.test.id == 'TYPE_CHECKING':
            return
        self.body(n.body)
        self.body(n.orelse)
        self.add(n.test, 'True', 'if-true')
        self.add(n.test, 'False', 'if-false')
        self.generic_visit(n)

    def visit_While(self, n):
        self.body(n.body)
        self.generic_visit(n)

    def visit_With(self, n):
        self.body(n.body)
        self.generic_visit(n)

    def visit_Try(self, n):
        self.body(n.body)
        self.body(n.orelse)
        self.body(n.finalbody)
        for h in n.handlers:
            self.body(h.body)
        self.generic_visit(n)

    def _loop(self, n):
        self.body(n.body)
        self.iters(n.iter)
        self.generic_visit(n)

    visit_For = visit_AsyncFor = _loop

    def iters(self, it):
        t = self.text(it)
        for new in ('list(%s)[:1]', 'list(%s)[1:]', 'list(%s)[:-1]',
                    'list(%s)[::-1]'):
            self.add(it, new % t, 'iter')

    def visit_comprehension(self, n):
        self.iters(n.iter)
        for i in n.ifs:
            self.add(i, 'True', 'comp-if')
            self.add(i, 'False', 'comp-if')
        self.generic_visit(n)

    def visit_Raise(self, n):
        self.quiet += 1
        self.generic_visit(n)
        self.quiet -= 1

    def visit_Assert(self, n):
        pass

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        self.generic_visit(n)

    # --- expressions
    def visit_Compare(self, n):
        if len(n.ops) == 1:
            op = type(n.ops[0])
            left, right = self.text(n.left), self.text(n.comparators[0])
            none = right == 'None'
            rep = {ast.Eq: ['!=', 'is'], ast.NotEq: ['=='],
                   ast.Lt: ['<=', '>='],
                   ast.LtE: ['<', '>'], ast.Gt: ['>=', '<='],
                   ast.GtE: ['>', '<'], ast.In: ['not in'],
                   ast.NotIn: ['in'], ast.Is: ['is not', '=='],
                   ast.IsNot: ['is', '!=']}[op]
            for r in rep:
                if none and r in ('==', '!='):
                    continue
                self.add(n, '(%s %s %s)' % (left, r, right), 'compare')
            if none:
                self.add(n, '(not %s)' % left if op is ast.Is else
                         'bool(%s)' % left, 'none-falsy')
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        vals = [self.text(v) for v in n.values]
        op = ' and ' if isinstance(n.op, ast.And) else ' or '
        other = ' or ' if isinstance(n.op, ast.And) else ' and '
        self.add(n, '(%s)' % other.join('(%s)' % v for v in vals), 'boolop')
        for i in range(len(vals)):
            self.add(n, '(%s)' % op.join(
                '(%s)' % v for j, v in enumerate(vals) if j != i), 'operand')
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            self.add(n, '(%s)' % self.text(n.operand), 'not')
        self.generic_visit(n)

    def visit_BinOp(self, n):
        left, right = self.text(n.left), self.text(n.right)
        if isinstance(n.op, ast.Add):
            self.add(n, '(%s)' % left, 'add')
            self.add(n, '(%s)' % right, 'add')
        if isinstance(n.op, ast.Sub):
            self.add(n, '(%s + %s)' % (left, right), 'sub')
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant):
            return
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.add(n, '(%s)' % self.text(n.body), 'ifexp')
        self.add(n, '(%s)' % self.text(n.orelse), 'ifexp')
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if isinstance(v, bool):
            self.add(n, repr(not v), 'const')
        elif isinstance(v, int):
            self.add(n, repr(v + 1), 'const')
            if v:
                self.add(n, repr(v - 1), 'const')
        elif isinstance(v, str):
            if ' ' in v and len(v) > 12:
                return          # a message
            self.add(n, repr(v + 'X'), 'const')

    def visit_JoinedStr(self, n):
        pass

    def visit_Attribute(self, n):
        self.generic_visit(n)

    def visit_Subscript(self, n):
        self.generic_visit(n)

    def visit_Starred(self, n):
        self.generic_visit(n)

    def visit_Call(self, n):
        f = self.text(n.func)
        if f in ('warnings.warn', 'TypeVar', 'isinstance'):
            if f == 'isinstance' and isinstance(n.args[1], ast.Tuple):
                els = [self.text(e) for e in n.args[1].elts]
                for i in range(len(els)):
                    self.add(n.args[1], '(%s,)' % ', '.join(
                        e for j, e in enumerate(els) if j != i), 'type')
            return
        if f.endswith('errors.report') or f.endswith('format'):
            return
        if f in ('list', 'tuple', 'set', 'frozenset', 'dict', 'sorted',
                 'iter', 'str', 'int', 'bool', 'partial') \
                and len(n.args) == 1:
            self.add(n, '(%s)' % self.text(n.args[0]), 'unwrap')
        if f in ('any', 'all'):
            self.add(n.func, 'all' if f == 'any' else 'any', 'anyall')
        a = [self.text(x) for x in n.args]
        k = ['%s=%s' % (x.arg, self.text(x.value)) if x.arg else
             '**' + self.text(x.value) for x in n.keywords]
        if len(a) >= 2:
            for i in range(len(a) - 1):
                if '*' in a[i][:1] + a[i + 1][:1]:
                    continue
                b = list(a)
                b[i], b[i + 1] = b[i + 1], b[i]
                self.add(n, '%s(%s)' % (f, ', '.join(b + k)), 'swap')
            self.add(n, '%s(%s)' % (f, ', '.join(a[:-1] + k)), 'drop-arg')
        for i in range(len(k)):
            self.add(n, '%s(%s)' % (f, ', '.join(a + k[:i] + k[i + 1:])),
                     'drop-kw')
        self.generic_visit(n)

    def _seq(self, n):
        if isinstance(getattr(n, 'ctx', None), ast.Store):
            return
        els = [self.text(e) for e in n.elts]
        o, c = ('[', ']') if isinstance(n, ast.List) else ('(', ')')
        if isinstance(n, ast.Set):
            o, c = '{', '}'
        for i in range(len(els)):
            rest = els[:i] + els[i + 1:]
            if isinstance(n, ast.Set) and not rest:
                continue
            t = ', '.join(rest) + (',' if o == '(' and rest else '')
            self.add(n, o + t + c, 'element')
        self.generic_visit(n)

    visit_List = visit_Tuple = visit_Set = _seq

    def visit_Dict(self, n):
        items = ['%s: %s' % (self.text(k), self.text(v)) if k is not None
                 else '**' + self.text(v)
                 for k, v in zip(n.keys, n.values)]
        for i in range(len(items)):
            self.add(n, '{%s}' % ', '.join(items[:i] + items[i + 1:]),
                     'entry')
        self.generic_visit(n)

    def visit_AnnAssign(self, n):
        if n.value is not None:
            self.visit(n.value)

    def visit_arg(self, n):
        pass


def mutants(name):
    src = open(os.path.join('/repo/hiku', name)).read()
    m = Muts(src)
    m.visit(ast.parse(src))
    seen = set()
    out = []
    for line, a, b, new, kind in m.out:
        code = src[:a] + new + src[b:]
        try:
            tree = ast.dump(ast.parse(code))
        except SyntaxError:
            continue
        if tree in seen:
            continue
        seen.add(tree)
        out.append({'file': name, 'line': line, 'a': a, 'b': b,
                    'old': src[a:b], 'new': new, 'kind': kind})
    return out


def sh(cmd, cwd, timeout, env):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, text=True,
                         start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        return 'timeout', ''


def judge(m, k, scale, workers, checks):
    repo = '%s/w%d' % (WORK, k)
    path = os.path.join(repo, 'hiku', m['file'])
    src = open(os.path.join('/repo/hiku', m['file'])).read()
    with open(path, 'w') as f:
        f.write(src[:m['a']] + m['new'] + src[m['b']:])
    try:
        rc, _ = sh(['/opt/venv/bin/python', '-m', 'pytest', '-x', '-q', '-p',
                    'no:cacheprovider', '--ignore=docs/test_asyncio.py',
                    'tests', 'docs'], repo, 60, ENV)
        if rc != 0:
            return 'tests'
        env = dict(ENV, HIKU_REPO=repo, VERIF_OUT='%s/o%d' % (WORK, k),
                   VERIF_WORKERS=str(workers), VERIF_SCALE=str(scale))
        odd = []
        for c in checks:
            rc, out = sh(['bash', os.path.join(ROOT, 'check.sh'), c], ROOT,
                         900, env)
            if rc == 1:
                return c
            if rc != 0:
                odd.append('%s:%s' % (c, rc))
        return 'SURVIVED' + ''.join(' ' + o for o in odd)
    finally:
        shutil.copyfile(os.path.join('/repo/hiku', m['file']), path)


def work(todo, res, out, jobs, scale, workers):
    lock = threading.Lock()
    it = iter(todo)
    t0 = time.time()

    def loop(k):
        repo = '%s/w%d' % (WORK, k)
        shutil.rmtree(repo, ignore_errors=True)
        shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns(
            '.git', '__pycache__', 'node_modules'), symlinks=True)
        while True:
            with lock:
                m = next(it, None)
            if m is None:
                break
            r = judge(m, k, scale, workers, CHECKS[m['file']])
            with lock:
                m['result'] = r
                if m not in res:
                    res.append(m)
                json.dump(res, open(out + '.tmp', 'w'))
                os.rename(out + '.tmp', out)
        shutil.rmtree(repo, ignore_errors=True)

    ts = [threading.Thread(target=loop, args=(k,)) for k in range(jobs)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    print('%d mutants in %.0f s' % (len(todo), time.time() - t0))


def arg(argv, name, default):
    if name in argv:
        i = argv.index(name)
        v = argv[i + 1]
        del argv[i:i + 2]
        return type(default)(v)
    return default


def show(res):
    for m in sorted(res, key=lambda m: (m['file'], m['line'])):
        if m['result'].startswith('SURVIVED'):
            print('%s:%d [%s] %s\n     %r\n  -> %r' % (
                m['file'], m['line'], m['kind'], m['result'][8:],
                m['old'][:160], m['new'][:160]))


def main():
    argv = sys.argv[1:]
    cmd = argv.pop(0)
    jobs = arg(argv, '--jobs', 8)
    scale = arg(argv, '--scale', 0.1)
    sample = arg(argv, '--sample', 0)
    if cmd == 'list':
        n = 0
        for f in argv or sorted(CHECKS):
            ms = mutants(f)
            n += len(ms)
            print(f, len(ms))
        print(n)
    elif cmd == 'run':
        out, files = argv[0], argv[1:]
        res = json.load(open(out)) if os.path.exists(out) else []
        done = {(m['file'], m['a'], m['b'], m['new']) for m in res}
        todo = [m for f in files for m in mutants(f)
                if (f, m['a'], m['b'], m['new']) not in done]
        random.Random(1).shuffle(todo)
        if sample:
            todo = todo[:sample]
        os.makedirs(WORK, exist_ok=True)
        work(todo, res, out, jobs, scale, 1)
        show(res)
    elif cmd == 'full':
        out = argv[0]
        res = json.load(open(out))
        todo = [m for m in res if m['result'].startswith('SURVIVED')]
        work(todo, res, out, jobs, 1.0, 4)
        show(res)
    elif cmd == 'show':
        res = json.load(open(argv[0]))
        import collections
        print(collections.Counter(m['result'] for m in res))
        show(res)


if __name__ == '__main__':
    main()

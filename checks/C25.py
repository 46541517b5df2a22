"""C25: the console answers every request properly."""
import atexit
import io
import json
import os
import shutil
import subprocess
import sys
import tempfile
from wsgiref.util import setup_testing_defaults
from wsgiref.validate import validator

import hiku.console
from hiku import edn
from hiku.console.ui import ConsoleApplication
from hiku import query as hq
from hiku.engine import Engine
from hiku.export import simple as export
from hiku.readers.simple import read
from hiku.typedef.kinko import dumps
from hiku.validate.query import validate

from lib import boot
from lib import values as V
from lib import world as wd
from lib.edit import random_edit
from lib.execs import ScheduledExecutor, SyncExecutor
from lib.runner import Test, ensure

PROPERTY = 'C25'
RULE = ('a query was posted and answered with 200 and at least two values, '
        'or refused with 400 or 500; script: a script of two bytes or more '
        'was asked for')
ASSUMPTIONS = [
    'the posted text is read by hiku.readers.simple and validated by '
    'hiku.validate.query (decided by C15 to C17, C11 and C12)',
    'the environment has what PEP 3333 requires; names in it are ASCII',
    '/console.js is a build product: asked for with GET only where it exists '
    '(script: in a scratch copy of the package)',
    'executors are synchronous',
]

METHODS = ['POST', 'POST', 'POST', 'POST', 'POST', 'POST', 'POST', 'POST', 'GET', 'HEAD', 'PUT', 'DELETE',
           'OPTIONS', 'PATCH', 'TRACE']
PATHS = ['/', '/', '/', '/', '/', '/', '/', '/', '/', '/', '/', '/', '', None, '/docs', '/console.js', '/docs/',
         '//', '/Docs', '/other', '/docs/x', '/index.html']
LIMIT = 2 ** 20
SECRET = 'secret of the loader'


def draw_body(d, w):
    sel = strip(wd.draw_selection(d, w, None, 3))
    kind = d.pick(['valid', 'valid', 'valid', 'edited', 'edited', 'mutated',
                   'bytes', 'garbage', 'big'])
    if kind == 'edited':
        for _ in range(d.int(1, 2)):
            sel = strip(random_edit(d, w, sel))
    try:
        text = edn.dumps(export.export(wd.to_node(sel)))
    except (TypeError, ValueError):
        text = '[]'
    if kind == 'mutated':
        for _ in range(d.int(1, 3)):
            i = d.int(0, len(text))
            c = d.pick('[]{}():" #\\aé0;,')
            text = d.pick([text[:i] + c + text[i:], text[:i] + text[i + 1:],
                           text[:i], text[:i] + c + text[i + 1:]])
    body = text.encode('utf-8')
    if kind == 'bytes':
        i = d.int(0, len(body))
        body = body[:i] + d.pick([b'\xff', b'\xc3', b'\xed\xa0\x80', b'\0',
                                  b'\xe2\x82']) + body[i:]
    if kind == 'garbage':
        body = d.pick([b'', b' ', b'[', b'[' * 40, b'nil', b'1', b'{}', b'[]',
                       b'{:a 1}', b'[1]', b'[:a :a]', b'"a"', b'[nil]',
                       b'[{:a 1}]', b'[(:a)]', b'[{1 2}]', b'[[:a]]',
                       b'[' * 100000, b'; comment', b'[(:a {:o 1} 2)]',
                       b'[{:x [:a] :y [:a]}]', b'\xef\xbb\xbf[]', b':a'])
    if kind == 'big':
        pad = b' ' * d.pick([1, 100, 5000, 9000, 17000, 70000])
        body = pad + body if d.bool() else body + pad
    return body


def strip(sel):
    """The simple format has no aliases."""
    return [e[:3] + (None,) + ((strip(e[4]),) if e[0] == 'l' else ())
            for e in sel]


def draw_request(d, w):
    body = draw_body(d, w)
    length = d.pick(['exact', 'exact', 'exact', 'exact', 'int', 'none',
                     'empty', 'more', 'less', 'negative', 'word', 'limit',
                     'over', 'huge'])
    return {'method': d.pick(METHODS), 'path': d.pick(PATHS),
            'script': d.pick([None, '', '/app', '/app/', '/a/b']),
            'body': body, 'length': length, 'cut': d.byte(),
            'fault': d.pick([None, None, None, None, None, 'raise', 'value'])}


def gen(d):
    world = wd.worlds(d, ctx=True, typed=d.bool(), options=d.bool())
    w = wd.W(world)
    for items in [n['items'] for n in world['nodes']] + world['roots']:
        for i in items:
            if d.chance(1, 6):
                i['desc'] = d.pick(['about', 'über', '\u2028', '\U0001f600',
                                    'a\nb', '"', '<b>'])
    return {'world': world, 'debug': d.bool(), 'ctx': d.bool(),
            'requests': d.many(1, 4, lambda: draw_request(d, w)),
            'data': [d.byte() for _ in range(8)]}


class Input(io.BytesIO):
    """Counts the bytes which are read"""
    taken = 0

    def _note(self, data):
        self.taken += len(data)
        return data

    def read(self, *a):
        return self._note(super().read(*a))

    def readline(self, *a):
        return self._note(super().readline(*a))


def length_of(req):
    n = len(req['body'])
    return {'exact': str(n), 'int': n, 'none': None, 'empty': '',
            'more': str(n + 1 + req['cut']), 'less': str(max(0, n - 1 -
                                                             req['cut'] % 9)),
            'negative': '-%d' % req['cut'], 'word': 'abc',
            'limit': str(LIMIT), 'over': str(LIMIT + 1),
            'huge': '9' * 20}[req['length']]


def request(app, req):
    """(status, headers, body, bytes read)"""
    env = {}
    setup_testing_defaults(env)
    env['REQUEST_METHOD'] = req['method']
    env['QUERY_STRING'] = ''
    for key, v in [('PATH_INFO', req['path']), ('SCRIPT_NAME',
                                                req['script'])]:
        if v is None:
            env.pop(key, None)
        else:
            env[key] = v
    length = length_of(req)
    if length is not None:
        env['CONTENT_LENGTH'] = length
    stream = env['wsgi.input'] = Input(req['body'])
    started = []

    def start_response(status, headers, exc_info=None):
        ensure(exc_info is None and not started, 'started again: %r', status)
        started.append((status, headers))
        return lambda data: ensure(False, 'write() is used')

    strict = (req['length'] not in ('word', 'negative', 'int', 'empty') and
              req['path'] and req['path'] != '//' and
              req['script'] not in (None, '/app/'))
    run = validator(app) if strict else app
    result = run(env, start_response)
    try:
        chunks = list(result)
    finally:
        if hasattr(result, 'close'):
            result.close()
    ensure(len(started) == 1, 'start_response is not called')
    ensure(all(type(c) is bytes for c in chunks), 'body %r', chunks)
    (status, headers), body = started[0], b''.join(chunks)
    ensure(all(type(k) is str and type(v) is str for k, v in headers),
           'headers %r', headers)
    names = [k.lower() for k, _ in headers]
    ensure(len(set(names)) == len(names), 'headers %r', headers)
    return status, {k.lower(): v for k, v in headers}, body, stream.taken


REASONS = {200: 'OK', 400: 'Bad Request', 404: 'Not Found',
           405: 'Method Not Allowed', 500: 'Internal Server Error'}


def expect_post(case, req, graph, w):
    """(status, data or None for any, kind)"""
    try:
        length = int(length_of(req) or 0)
    except ValueError:
        return 400, None, 'bad length'
    if length > LIMIT:
        return 400, None, 'too big'
    body = req['body'][:max(0, length)]
    try:
        query = read(body.decode('utf-8'))
        errors = validate(graph, query)
    except Exception:
        return 500, None, 'unreadable'
    if errors:
        return 400, {'errors': errors}, 'invalid'
    sel = wd.from_node(query)
    if both_ways(sel):
        return 200, None, 'both ways'
    calls = wd.expected_calls(w, sel)
    if req['fault'] == 'raise' and calls:
        return 500, None, 'failing'
    if req['fault'] == 'value' and any(e[0] == 'f' for e in sel):
        return 500, None, 'not JSON'
    return 200, wd.evaluate(w, sel), 'data'


def both_ways(sel):
    """A record is asked for as a whole and by fields: not decided here"""
    kinds = {}
    for e in sel:
        kinds.setdefault(e[1], set()).add(e[0])
    subs = {}
    for e in sel:
        if e[0] == 'l':
            subs.setdefault(e[1], []).extend(e[4])
    return any(len(k) > 1 for k in kinds.values()) or \
        any(both_ways(s) for s in subs.values())


def check(case, obs):
    run = wd.Run(case['world'])
    graph = run.graph()
    oracle = wd.Run(case['world']).graph()
    docs = dumps(oracle).encode('utf-8')
    ctx = {'key': 'value'} if case['ctx'] else None
    ex = SyncExecutor() if case['data'][0] & 1 else \
        ScheduledExecutor(case['data'])
    app = ConsoleApplication(graph, Engine(ex), ctx, debug=case['debug']) \
        if case['ctx'] else ConsoleApplication(graph, Engine(ex),
                                               debug=case['debug'])
    good = False
    for n, req in enumerate(case['requests']):
        if req['path'] == '/console.js' and req['method'] == 'GET' and \
                not os.path.exists(os.path.join(
                    os.path.dirname(hiku.console.__file__), 'assets',
                    'console.js')):
            continue
        run.log.clear()
        run.before = run.change = None
        if req['fault'] == 'raise':
            def before(call):
                raise RuntimeError(SECRET)
            run.before = before
        elif req['fault'] == 'value' and \
                expect_post(case, req, oracle, run.w)[2] == 'not JSON':
            bad = [set(), b'x', object(), {(1, 2): 1}, 1j, float('nan'),
                   [float('inf')], {'a': -float('inf')}][req['cut'] % 8]

            def change(call, result):
                # only what is asked for directly at the root
                if call.kind != 'f' or len(call.args) != 1:
                    return result
                return [bad if isinstance(f, hq.Field) else v
                        for f, v in zip(call.args[0], result)]
            run.change = change
        what = 'request %d: %s %s' % (n, req['method'], req['path'])
        status, headers, body, taken = request(app, req)
        path = req['path'] or '/'
        kind = 'page'
        data = None
        if path not in ('/', '/docs', '/console.js'):
            code = 404
        elif req['method'] == 'POST' and path == '/':
            code, data, kind = expect_post(case, req, oracle, run.w)
        elif req['method'] == 'GET':
            code = 200
        else:
            code = 405
        if kind == 'both ways':
            ensure(status[:3] in ('200', '500'), '%s: status %r', what,
                   status)
            continue
        ensure(status == '%d %s' % (code, REASONS[code]),
               '%s: status %r, expected %d (%s); body %r', what, status, code,
               kind, body[:300])
        ensure(headers.get('content-length') == str(len(body)),
               '%s: Content-Length %r of %d bytes', what,
               headers.get('content-length'), len(body))
        ctype, _, params = headers.get('content-type', '').partition(';')
        if kind in ('data', 'invalid', 'unreadable', 'failing', 'not JSON'):
            ensure(ctype == 'application/json', '%s: Content-Type %r', what,
                   ctype)
            got = json.loads(body.decode('utf-8'))
        if kind == 'data':
            want = json.loads(json.dumps(data))
            ensure(V.same(got, want), '%s: %r, expected %r', what, got, want)
            for call in run.log:
                ensure(call.ctx is None if call.fn not in run.ctx_fns else
                       dict(call.ctx) == (ctx or {}), 'context %r', call.ctx)
            good = good or len(run.log) > 1
        elif kind == 'invalid':
            ensure(got == data, '%s: %r, expected %r', what, got, data)
            ensure(not run.log, '%s: loaders are called', what)
            good = True
        elif kind in ('unreadable', 'failing', 'not JSON'):
            ensure(isinstance(got, dict) and set(got) == {'traceback'},
                   '%s: %r', what, got)
            if case['debug']:
                ensure(isinstance(got['traceback'], str) and
                       'Traceback' in got['traceback'], '%s: %r', what, got)
                ensure(kind != 'failing' or SECRET in got['traceback'],
                       '%s: %r', what, got)
            else:
                ensure(got['traceback'] is None, '%s: %r', what, got)
            good = True
        elif kind in ('too big', 'bad length') or code in (404, 405):
            ensure(ctype == 'text/plain' and body, '%s: %r, %r', what, ctype,
                   body)
            ensure(not taken, '%s: %d bytes are read', what, taken)
        elif path == '/docs':
            ensure(ctype == 'text/plain' and body == docs, '%s: %r, %r', what,
                   headers, body)
        elif path == '/':
            script = (req['script'] or '').rstrip('/')
            ensure(ctype == 'text/html' and all(
                ("'%s'" % u).encode() in body or ('"%s"' % u).encode() in body
                for u in (script + '/', script + '/docs',
                          script + '/console.js')), '%s: %r, %r', what,
                   headers, body)
        if kind not in ('data', 'failing', 'not JSON'):
            ensure(not run.log, '%s: loaders are called', what)
        obs.label(kind if kind != 'page' else str(code))
    return good


def gen_large(d):
    """Queries with many objects, items or levels."""
    case = wd.big_case(d)
    sel = strip(case['query'])
    try:
        body = edn.dumps(export.export(wd.to_node(sel))).encode('utf-8')
    except (TypeError, ValueError):
        body = b'[]'
    req = {'method': 'POST', 'path': '/', 'script': None, 'body': body,
           'length': d.pick(['exact', 'exact', 'int', 'limit']), 'cut': 0,
           'fault': d.pick([None] * 5 + ['raise', 'value'])}
    return {'world': case['world'], 'debug': d.bool(), 'ctx': d.bool(),
            'requests': [req], 'data': [d.byte() for _ in range(8)]}


# -- the script, which is there when the console was built

class Assets:
    """Answers of a console that runs in a scratch copy of the package."""
    process = None

    def ask(self, case):
        if self.process is None:
            self.dir = tempfile.mkdtemp(prefix='verif-c25-')
            atexit.register(shutil.rmtree, self.dir, True)
            shutil.copytree(os.path.join(boot.REPO, 'hiku'),
                            os.path.join(self.dir, 'hiku'),
                            ignore=shutil.ignore_patterns('__pycache__'))
            self.process = subprocess.Popen(
                [sys.executable, '-W', 'ignore',
                 os.path.join(boot.VERIF, 'lib', 'console_assets.py')],
                env=dict(os.environ, HIKU_REPO=self.dir),
                stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
            atexit.register(self.process.kill)
        self.process.stdin.write(json.dumps(case) + '\n')
        self.process.stdin.flush()
        line = self.process.stdout.readline()
        if not line:
            self.process = None
            raise RuntimeError('the helper process has ended')
        return json.loads(line)


assets = Assets()


def gen_assets(d):
    content = b''.join(d.many(0, 6, lambda: d.pick([
        b'alert("hi")', b'\n', b'\r\n', 'é 😀'.encode(), b'\xff\xfe', b'\0',
        b'x' * 1000, b'y' * 70000, bytes([d.byte()])])))
    return {'content': content.hex(), 'requests': d.many(1, 4, lambda: [
        d.pick(['GET', 'GET', 'GET', 'HEAD', 'POST', 'PUT']),
        d.pick(['/console.js', '/console.js', '/console.js', '/console.css',
                '/console.js/', '/']),
        d.pick(['', '/app'])])}


def check_assets(case, obs):
    got = assets.ask(case)
    ensure(isinstance(got, list), 'an exception: %s', got)
    good = False
    for (method, path, script), (status, headers, body) in zip(
            case['requests'], got):
        what = '%s %s' % (method, path)
        body = bytes.fromhex(body)
        headers = {k.lower(): v for k, v in headers}
        if path not in ('/', '/console.js'):
            code = 404
        elif method == 'GET':
            code = 200
        elif method == 'POST' and path == '/':
            code = 500          # nothing can be read
        else:
            code = 405
        ensure(status == '%d %s' % (code, REASONS[code]),
               '%s: status %r, expected %d', what, status, code)
        ensure(headers.get('content-length') == str(len(body)),
               '%s: Content-Length %r of %d bytes', what,
               headers.get('content-length'), len(body))
        ensure(headers.get('content-type'), '%s: no Content-Type', what)
        obs.label(str(code))
        if code == 200 and path == '/console.js':
            ensure(body.hex() == case['content'], '%s: %r', what, body)
            ensure(headers['content-type'].partition(';')[0] in (
                'text/javascript', 'application/javascript'),
                '%s: Content-Type %r', what, headers['content-type'])
            good = good or len(body) > 1
    return good


TESTS = [Test('requests', gen, check, 6000),
         Test('large', gen_large, check, 600, size=700),
         Test('script', gen_assets, check_assets, 1000, size=300)]

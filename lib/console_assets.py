"""A helper process of C25: answers requests to a console whose package is a
scratch copy, where the build product assets/console.js exists.

stdin: JSON lines {"content": hex, "requests": [[method, path, script]]}
stdout: JSON lines [[status, headers, body as hex]] or {"error": text}
"""
import json
import os
import sys
import traceback
from wsgiref.util import setup_testing_defaults

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import boot  # noqa: E402
from hiku.console.ui import ConsoleApplication  # noqa: E402
from hiku.engine import Engine  # noqa: E402
from hiku.executors.sync import SyncExecutor  # noqa: E402
from hiku.graph import Field, Graph, Root  # noqa: E402


def ask(app, method, path, script):
    env = {}
    setup_testing_defaults(env)
    env.update({'REQUEST_METHOD': method, 'PATH_INFO': path,
                'SCRIPT_NAME': script, 'QUERY_STRING': ''})
    started = []
    result = app(env, lambda status, headers, exc_info=None: started.append(
        (status, headers)))
    body = b''.join(result)
    (status, headers), = started
    return [status, headers, body.hex()]


def main():
    name = os.path.join(boot.REPO, 'hiku', 'console', 'assets', 'console.js')
    for line in sys.stdin:
        case = json.loads(line)
        with open(name, 'wb') as f:
            f.write(bytes.fromhex(case['content']))
        try:
            app = ConsoleApplication(
                Graph([Root([Field('a', None, lambda fields: [
                    1 for _ in fields])])]), Engine(SyncExecutor()))
            out = [ask(app, *r) for r in case['requests']]
        except Exception:
            out = {'error': traceback.format_exc()}
        print(json.dumps(out), flush=True)


if __name__ == '__main__':
    main()

"""C23: ill-typed expressions are refused when the graph is built."""
import copy

from lib import exprs as X
from lib.gen import D
from lib.runner import Test, Violation

PROPERTY = 'C23'
RULE = ('a well-typed expression was changed, and the reference type checker '
        'finds it ill-typed')
ASSUMPTIONS = [
    'undecided (not judged): untyped and computed values (literals, results '
    'of calls, each, if) iterated, unpacked or used as objects; Boolean, '
    'Integer and Float for each other',
]


def gen(d):
    stack, uses = X.stacks(d)
    k = d.int(1, len(stack['levels']))
    node = d.pick(sorted(n for n, items in stack['levels'][k - 1].items()
                         if items))
    i = d.int(0, len(stack['levels'][k - 1][node]) - 1)
    mutant = copy.deepcopy(stack)
    item = mutant['levels'][k - 1][node][i]
    tc = X.TypeChecker(d, X.Level(stack, k - 1), mutant['fns'])
    env = tc.root_env(node, item['opts'])
    e = item['expr']
    for _ in range(d.int(1, 2)):
        for _ in range(4):
            e2 = tc.mutate(e, env)
            if e2 is not None:
                e = e2
                break
    item['expr'] = e
    return {'stack': stack, 'mutant': mutant, 'where': [k, node, i],
            'uses': sorted(uses)}


def judge(stack, where):
    k, node, i = where
    item = stack['levels'][k - 1][node][i]
    tc = X.TypeChecker(None, X.Level(stack, k - 1), stack['fns'])
    _, bad = tc.verdict(item['expr'], tc.root_env(node, item['opts']))
    return bad


def check(case, obs):
    bad = judge(case['stack'], case['where'])
    if bad:
        raise AssertionError('generator: %r' % bad)
    X.StackRun(case['stack'])        # well-typed: must be accepted
    bad = judge(case['mutant'], case['where'])
    ill = [b for b in bad if isinstance(b, X.IllTyped)]
    if bad and not ill:
        obs.label('undecided')
        return False
    try:
        X.StackRun(case['mutant'])
    except Exception as e:
        if not ill:
            raise
        obs.label(*{str(b) for b in ill})
        obs.label(type(e).__name__)
        return True
    if ill:
        raise Violation('an ill-typed expression was accepted: %s'
                        % ', '.join(map(str, ill)))
    obs.label('still well-typed')
    return False


TESTS = [Test('expressions', gen, check, 12000, size=2000)]

"""Shared runner: seeded cases, monitors' counters, verdicts, evidence, replay.

A check module in ``checks/`` provides
    RULE      how cases are made and what makes one non-trivial
    CASES     {'quick': n, 'thorough': n}
    FLOORS    {counter: minimum}  (per quick run) below which the run is
              inconclusive: the deciding monitor was not reached
    run_case(ctx)   one case; reports with ctx.fail(...)
    findings(ctx)   optional: yields (finding id, still_failing, text)
"""
import collections
import faulthandler
import hashlib
import importlib
import json
import os
import random
import resource
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, 'evidence')
REPO = '/repo'


class Violation(Exception):
    """The oracle refuted the property on an observed execution"""


class Inconclusive(Exception):
    """The run cannot decide (harness limits)"""


class StepLimit(BaseException):
    """Too many events executed inside the library: not terminating"""


class Ctx(object):
    """What one case sees: randomness, counters, reporting"""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.counts = collections.Counter()
        self.sigs = set()
        self.samples = []
        self.case = None
        self.rng = None
        self.log = []
        self._sig = None

    def begin(self, i):
        self.case = i
        self.rng = random.Random('%s:%s:%s' % (self.pid, self.seed, i))
        self.log = []
        self._sig = None

    def note(self, *parts):
        """Append to this case's history (goes into replays and samples)"""
        if len(self.log) < 400:
            self.log.append(' '.join(short(p) for p in parts))

    def count(self, name, n=1):
        self.counts[name] += n

    def nontrivial(self, *sig):
        """Mark this evaluation as non-trivial, with its signature"""
        text = '|'.join(short(s, 300) for s in sig)
        self.sigs.add(hashlib.md5(text.encode('utf-8', 'replace')).digest())

    def fail(self, message, *details):
        raise Violation(message + ''.join(
            '\n    %s' % short(d, 600) for d in details))

    def check(self, cond, message, *details):
        self.counts['oracle_checks'] += 1
        if not cond:
            self.fail(message, *details)

    def sample(self):
        if self.log and len(self.samples) < 6:
            self.samples.append({'case': self.case, 'history': self.log[:30]})


def short(obj, limit=200):
    if isinstance(obj, str):
        text = obj
    else:
        try:
            text = repr(obj)
        except Exception as err:                     # pragma: no cover
            text = '<unprintable %s: %r>' % (type(obj).__name__, err)
    return text if len(text) <= limit else text[:limit // 2] + ' ... ' + \
        text[-limit // 2:]


# ------------------------------------------------------------ line coverage

LINES = collections.defaultdict(set)
_PKG = os.path.join(REPO, 'properties') + os.sep


def start_coverage():
    mon = sys.monitoring
    mon.use_tool_id(mon.COVERAGE_ID, 'vcov')

    def on_line(code, line):
        if code.co_filename.startswith(_PKG):
            LINES[code.co_filename[len(_PKG):]].add(line)
        return mon.DISABLE
    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, on_line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)


class step_limit(object):
    """Bound the number of function entries and backward jumps in /repo code

    Termination is decided on logical steps, never on wall-clock time.
    """
    TOOL = 4

    def __init__(self, limit):
        self.limit = limit
        self.steps = 0

    def __enter__(self):
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, 'vsteps')

        def bump(code, *_):
            if not code.co_filename.startswith(_PKG):
                return mon.DISABLE
            self.steps += 1
            if self.steps > self.limit:
                raise StepLimit('more than %d library steps' % self.limit)
        for evt in (mon.events.PY_START, mon.events.JUMP):
            mon.register_callback(self.TOOL, evt, bump)
        mon.set_events(self.TOOL, mon.events.PY_START | mon.events.JUMP)
        mon.restart_events()
        return self

    def __exit__(self, *exc):
        mon = sys.monitoring
        mon.set_events(self.TOOL, 0)
        mon.free_tool_id(self.TOOL)
        return False


# ------------------------------------------------------------------ runner

def load_known(pid):
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    out = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding: '):
                head, text = line[len('finding: '):].split(' :: ', 1)
                fields = dict(kv.split('=', 1) for kv in head.split())
                if fields['property'] == pid:
                    out[fields['id']] = text
    return out


def prepare():
    """Import the code under test from /repo's working tree, and only it"""
    sys.dont_write_bytecode = True
    warnings.simplefilter('ignore')
    sys.path.insert(0, REPO)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    # dependencies may come from byte code, the code under test never does
    import numpy, vectormath, png, six, traitlets, json, uuid, socket  # noqa: E401,F401
    from six.moves.urllib import parse  # noqa: F401
    sys.pycache_prefix = '/nonexistent-vcache'
    import properties
    where = os.path.realpath(properties.__file__)
    if not where.startswith(_PKG):
        print('ERROR: properties imported from', where)
        sys.exit(2)
    import properties.extras  # noqa: F401  pylint: disable=unused-import


def run(pid, tier, seed, replay=None, only=None, cases=None):
    start = time.time()
    start_coverage()
    prepare()
    # a generous watchdog: its firing is inconclusive, never a violation
    faulthandler.dump_traceback_later(
        840 if tier == 'quick' else 3000, exit=True, file=sys.stderr)
    mod = importlib.import_module('checks.' + pid.lower())
    ctx = Ctx(pid, tier, seed)
    if replay:
        rec = json.load(open(replay))
        ctx.seed = rec['seed']
        only = rec['case']
    if hasattr(mod, 'setup'):
        mod.setup(ctx)
    total = cases or mod.CASES[tier]
    todo = [only] if only is not None else list(range(total))
    violations = []
    done = 0
    budget = 600 if tier == 'quick' else 1500
    for i in todo:
        if time.time() - start > budget:
            break
        ctx.begin(i)
        try:
            mod.run_case(ctx)
        except Violation as err:
            violations.append((i, str(err), list(ctx.log)))
        except Inconclusive:
            raise
        except (KeyboardInterrupt, MemoryError):
            raise
        except BaseException as err:     # pylint: disable=broad-except
            # An exception nobody expected: every operation of a case has a
            # predicted outcome, so this outcome refutes the property
            text = ''.join(traceback.format_exception(err)[-6:])
            violations.append((i, 'unexpected %s escaped:\n%s' % (
                type(err).__name__, text), list(ctx.log)))
        done += 1
        ctx.sample()
        if len(violations) >= 3:
            break
    findings = []
    if only is None and hasattr(mod, 'findings'):
        known = load_known(pid)
        for fid, failing, text in mod.findings(ctx):
            if not failing:
                continue
            if fid in known:
                findings.append((fid, known[fid]))
            else:
                violations.append(('finding:' + fid, text, []))
    os.makedirs(EVID, exist_ok=True)
    for i, msg, log in violations:
        path = os.path.join(EVID, 'replay_%s_%s.json' % (pid, i))
        with open(path, 'w') as fid:
            json.dump({'property': pid, 'tier': tier, 'seed': ctx.seed,
                       'case': i, 'message': msg, 'history': log}, fid,
                      indent=1)
        print('---- %s case %s\n%s' % (pid, i, msg))
        for line in log[-25:]:
            print('    >', line)
        print('VIOLATION property=%s replay=%s' % (pid, path))
    for fid, text in findings:
        print('KNOWN-FINDING: property=%s %s: %s' % (pid, fid, text))
    low = {}
    if only is None and not violations and cases is None:
        scale = done / float(mod.CASES['quick'])
        for name, floor in mod.FLOORS.items():
            if ctx.counts[name] < floor * min(1.0, scale):
                low[name] = (ctx.counts[name], floor)
    evidence = {
        'property': pid, 'tier': tier, 'seed': ctx.seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': done,
            'distinct_nontrivial': len(ctx.sigs),
            'rule': mod.RULE,
            'monitor_events': dict(sorted(ctx.counts.items())),
            'library_lines_executed': {
                k: len(v) for k, v in sorted(LINES.items())},
            'samples': ctx.samples[:5] or [{'case': None, 'history': []}],
            'inconclusive': {k: list(v) for k, v in low.items()},
            'known_findings_reproduced': [f for f, _ in findings],
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + [
            'Held on the executions of this run only; CPython 3.12, numpy 2, '
            'single thread.'],
        'wall_s': round(time.time() - start, 3),
        'violations': len(violations),
    }
    if not replay:
        with open(os.path.join(EVID, pid + '.json'), 'w') as fid:
            json.dump(evidence, fid, indent=1, default=short)
    print('%s %s seed=%s: %d cases, %d distinct non-trivial, %d oracle checks,'
          ' %d violations, %.1fs' % (
              pid, tier, ctx.seed, done, len(ctx.sigs),
              ctx.counts['oracle_checks'], len(violations),
              time.time() - start))
    if violations:
        return 1
    if low:
        print('INCONCLUSIVE: monitors observed too little: %r' % low)
        return 2
    return 0

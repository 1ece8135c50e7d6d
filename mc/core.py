"""
The exploration engine shared by all checks.

A check module enumerates *cases* (a finite, deterministic, simplest-first
sequence: inputs, operation sequences, schedules or crash points up to the stated
bounds) and runs every one of them against the real code of /repo, comparing what
was observed with an independent reference model.

    PROPERTY    id
    LEVEL       level for the evidence file
    BOUNDS      callable(tier) -> dict describing the completed bounds
    ASSUMPTIONS list of strings
    cases(tier) generator of JSON serialisable cases
    run(case, ctx)   raises Violation (any other exception counts as one, too)
"""
import hashlib
import json
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.abspath(os.environ.get('VERIF_REPO', '/repo'))

CASE_TIMEOUT = 120
MAX_VIOLATIONS_PER_WORKER = 2


class Violation(Exception):
    pass


class CaseTimeout(BaseException):
    pass


def check(condition, message, *args):
    if not condition:
        raise Violation(message % args if args else message)


def check_equal(actual, expected, what):
    if actual != expected:
        raise Violation('%s:\n  actual:   %r\n  expected: %r' % (what, actual, expected))


def canonical(obj) -> str:
    return json.dumps(obj, sort_keys=True, default=repr)


class Context:
    def __init__(self, scratch, tier):
        self.scratch = scratch
        self.tier = tier
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.nontrivial = 0
        self.samples = []
        self._counter = 0

    def state(self, obj):
        """a (canonical form of a) state observed in the implementation"""
        self.states.add(hashlib.blake2b(
            canonical(obj).encode('utf-8', 'surrogatepass'), digest_size=8
        ).digest())

    def step(self, count=1):
        """operations executed on the implementation"""
        self.transitions += count

    def trace(self, count=1):
        """a complete execution of the implementation compared with the model"""
        self.traces += count

    def new_dir(self):
        self._counter += 1
        path = os.path.join(self.scratch, 'd%d' % self._counter)
        os.makedirs(path)
        return path

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(obj)


def quiet():
    import logging
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter('ignore')


def setup_repo():
    sys.path.insert(0, REPO)
    os.chdir(REPO)  # default config paths are relative
    quiet()
    import sciencebeam_trainer_grobid_tools as package
    package_file = os.path.abspath(package.__file__)
    assert package_file.startswith(REPO + os.sep), package_file
    quiet()


def in_child(fn):
    """runs fn in a forked process and returns its result, Violations are passed on"""
    read_fd, write_fd = os.pipe()
    pid = os.fork()
    if not pid:
        code = 1
        try:
            os.close(read_fd)
            signal.alarm(0)
            try:
                data = ('result', fn())
            except Violation as exc:
                data = ('violation', str(exc))
            except BaseException as exc:  # pylint: disable=broad-except
                data = ('violation', 'unexpected exception\n' + describe_exception(exc))
            with os.fdopen(write_fd, 'wb') as fp:
                pickle.dump(data, fp)
            code = 0
        finally:
            os._exit(code)
    os.close(write_fd)
    try:
        with os.fdopen(read_fd, 'rb') as fp:
            data = fp.read()
        _, status = os.waitpid(pid, 0)
        pid = None
    finally:
        if pid:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
    if not data:
        raise Violation('process ended with status %r' % status)
    kind, value = pickle.loads(data)
    if kind == 'violation':
        raise Violation(value)
    return value


def parallel(fns, count=8):
    """runs the functions in forked processes, concurrently"""
    fns = list(fns)
    groups = [list(range(i, len(fns), count)) for i in range(min(count, len(fns)))]
    handles = []
    for group in groups:
        read_fd, write_fd = os.pipe()
        pid = os.fork()
        if not pid:
            code = 1
            try:
                os.close(read_fd)
                devnull = os.open(os.devnull, os.O_WRONLY)
                os.dup2(devnull, 1)
                os.dup2(devnull, 2)
                data = []
                for i in group:
                    try:
                        data.append((i, 'result', in_child(fns[i])))
                    except Violation as exc:
                        data.append((i, 'violation', str(exc)))
                with os.fdopen(write_fd, 'wb') as fp:
                    pickle.dump(data, fp)
                code = 0
            finally:
                os._exit(code)
        os.close(write_fd)
        handles.append((pid, read_fd))
    results = {}
    for pid, read_fd in handles:
        with os.fdopen(read_fd, 'rb') as fp:
            data = fp.read()
        os.waitpid(pid, 0)
        for i, kind, value in pickle.loads(data):
            if kind == 'violation':
                raise Violation(value)
            results[i] = value
    return [results[i] for i in range(len(fns))]


def describe_exception(exc):
    return ''.join(traceback.format_exception(type(exc), exc, exc.__traceback__))[-6000:]


def run_case(module, case, ctx, timeout=None):
    """returns None or the description of the violation"""
    timeout = timeout or getattr(module, 'CASE_TIMEOUT', CASE_TIMEOUT)

    def on_alarm(*_):
        raise CaseTimeout()

    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(timeout)
    try:
        module.run(case, ctx)
        return None
    except Violation as exc:
        return str(exc)
    except CaseTimeout:
        return 'no result within %d s' % timeout
    except SystemExit as exc:
        return 'unexpected exit (%r)\n%s' % (exc.code, describe_exception(exc))
    except Exception as exc:  # pylint: disable=broad-except
        return 'unexpected exception\n' + describe_exception(exc)
    finally:
        signal.alarm(0)


def worker(module, tier, index, count, scratch, deadline, result_file, stop_file):
    worker_scratch = os.path.join(scratch, 'w%d' % index)
    os.makedirs(worker_scratch)
    tempfile.tempdir = None
    os.environ['TMPDIR'] = worker_scratch
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 2)
    os.dup2(devnull, 1)
    sys.stdout = open(os.devnull, 'w')
    sys.stderr = open(os.devnull, 'w')
    ctx = Context(worker_scratch, tier)
    violations = []
    done = 0
    capped = False
    first_case = last_case = None
    for case_index, case in enumerate(module.cases(tier)):
        if case_index % count != index:
            continue
        if time.time() > deadline:
            capped = True
            break
        if os.path.exists(stop_file):
            break
        if first_case is None:
            first_case = case
        last_case = case
        counter = ctx._counter
        traces = ctx.traces
        message = run_case(module, case, ctx)
        if ctx.traces == traces:
            ctx.traces += 1
        done += 1
        for i in range(counter + 1, ctx._counter + 1):
            shutil.rmtree(os.path.join(worker_scratch, 'd%d' % i), ignore_errors=True)
        if message is not None:
            violations.append((case_index, case, message))
            if len(violations) >= MAX_VIOLATIONS_PER_WORKER:
                open(stop_file, 'w').close()
                break
    with open(result_file, 'wb') as fp:
        pickle.dump({
            'states': ctx.states,
            'transitions': ctx.transitions,
            'traces': ctx.traces,
            'cases': done,
            'violations': violations,
            'capped': capped,
            'samples': ctx.samples + [c for c in (first_case, last_case) if c is not None]
        }, fp)


def run_workers(module, tier, budget):
    count = int(os.environ.get('VERIF_WORKERS', '0')) or min(8, os.cpu_count() or 1)
    deadline = time.time() + budget
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % module.PROPERTY)
    stop_file = os.path.join(scratch, 'stop')
    try:
        pids = []
        for index in range(count):
            result_file = os.path.join(scratch, 'result%d' % index)
            pid = os.fork()
            if not pid:
                code = 3
                try:
                    worker(
                        module, tier, index, count, scratch, deadline, result_file, stop_file
                    )
                    code = 0
                except BaseException as exc:  # pylint: disable=broad-except
                    with open(result_file + '.error', 'w') as fp:
                        fp.write(describe_exception(exc))
                finally:
                    os._exit(code)
            pids.append((pid, result_file))
        results = []
        for pid, result_file in pids:
            _, status = os.waitpid(pid, 0)
            if status != 0:
                error = 'worker ended with status %r' % status
                if os.path.exists(result_file + '.error'):
                    with open(result_file + '.error') as fp:
                        error += '\n' + fp.read()
                results.append({
                    'states': set(), 'transitions': 0, 'traces': 0, 'cases': 0,
                    'violations': [(-1, {'worker': 'ended unexpectedly'}, error)],
                    'capped': False, 'samples': []
                })
                continue
            with open(result_file, 'rb') as fp:
                results.append(pickle.load(fp))
        return results
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def load_known_findings(property_id):
    """lines: known: property=<id> case=<json> <what fails>"""
    result = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if not os.path.exists(path):
        return result
    with open(path) as fp:
        for line in fp:
            prefix = 'known: property=%s case=' % property_id
            if line.startswith(prefix):
                case, end = json.JSONDecoder().raw_decode(line[len(prefix):])
                result.append((canonical(case), line[len(prefix) + end:].strip()))
    return result


def write_replay(module, tier, number, case, message):
    directory = os.path.join(VERIF, 'replays')
    os.makedirs(directory, exist_ok=True)
    path = os.path.join(directory, '%s-%d.json' % (module.PROPERTY, number))
    with open(path, 'w') as fp:
        json.dump({
            'property': module.PROPERTY,
            'tier': tier,
            'case': case,
            'message': message,
            'replay': './check.sh %s replay %s' % (module.PROPERTY, path)
        }, fp, indent=1, default=repr)
    return path


def write_evidence(module, tier, coverage, wall_s, violation_count):
    directory = os.path.join(VERIF, 'evidence')
    os.makedirs(directory, exist_ok=True)
    with open(os.path.join(directory, module.PROPERTY + '.json'), 'w') as fp:
        json.dump({
            'property': module.PROPERTY,
            'tier': tier,
            'seed': int(os.environ.get('VERIF_SEED') or 0),
            'level': module.LEVEL,
            'coverage': coverage,
            'assumptions': list(module.ASSUMPTIONS),
            'wall_s': round(wall_s, 2),
            'violations': violation_count
        }, fp, indent=1, default=repr)


def main(module, tier):
    start = time.time()
    budget = 780 if tier == 'quick' else float(os.environ.get('VERIF_BUDGET', 6 * 3600))
    results = None
    if hasattr(module, 'prepare'):
        try:
            module.prepare(tier)
        except Exception as exc:  # pylint: disable=broad-except
            message = str(exc) if isinstance(exc, Violation) else describe_exception(exc)
            results = [{
                'states': set(), 'transitions': 0, 'traces': 1, 'cases': 1,
                'violations': [(-1, {'prepare': True}, message)],
                'capped': False, 'samples': []
            }]
    if results is None:
        results = run_workers(module, tier, budget)
    states = set()
    for r in results:
        states |= r['states']
    violations = sorted(
        (v for r in results for v in r['violations']), key=lambda v: v[0]
    )
    known = dict(load_known_findings(module.PROPERTY))
    unlisted = []
    for _, case, message in violations:
        key = canonical(json.loads(canonical(case)))
        if key in known:
            print('KNOWN-FINDING: property=%s %s' % (module.PROPERTY, known[key]))
        else:
            unlisted.append((case, message))
    capped = any(r['capped'] for r in results)
    samples = []
    for r in results:
        for s in r['samples']:
            if s not in samples and len(samples) < 5:
                samples.append(s)
    coverage = {
        'states': len(states),
        'transitions': sum(r['transitions'] for r in results),
        'traces_validated_against_impl': sum(r['traces'] for r in results),
        'cases': sum(r['cases'] for r in results),
        'exhaustive': not capped and not violations,
        'bounds': module.BOUNDS(tier),
        'what_is_a_state': getattr(
            module, 'STATE',
            'canonical form of the observable result of the implementation for one case'
        ),
        'what_is_a_transition': getattr(
            module, 'TRANSITION', 'one operation executed on the implementation'
        ),
        'samples': samples
    }
    if capped:
        coverage['cap'] = 'time budget of %d s was reached, cases above were not run' % budget
    wall_s = time.time() - start
    write_evidence(module, tier, coverage, wall_s, len(unlisted))
    print('%s %s: cases=%d states=%d transitions=%d traces=%d exhaustive=%s (%.1f s)' % (
        module.PROPERTY, tier, coverage['cases'], coverage['states'], coverage['transitions'],
        coverage['traces_validated_against_impl'], coverage['exhaustive'], wall_s
    ))
    if unlisted:
        for number, (case, message) in enumerate(unlisted[:3]):
            path = write_replay(module, tier, number, case, message)
            print('case: %s\n%s' % (canonical(case)[:2000], message[:3000]))
            print('VIOLATION property=%s replay=%s' % (module.PROPERTY, path))
        return 1
    return 0


def replay(module, path):
    with open(path) as fp:
        data = json.load(fp)
    scratch = tempfile.mkdtemp(prefix='verif-replay-')
    try:
        os.environ['TMPDIR'] = scratch
        tempfile.tempdir = None
        if hasattr(module, 'prepare'):
            module.prepare(data.get('tier', 'quick'))
        message = run_case(module, data['case'], Context(scratch, data.get('tier', 'quick')))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if message is None:
        print('no violation')
        return 0
    print(message)
    print('VIOLATION property=%s replay=%s' % (module.PROPERTY, path))
    return 1

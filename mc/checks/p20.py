"""P20: a document that cannot be processed does not affect any other document."""
import itertools
import os
import shutil
import tempfile

from mc import docs, sched
from mc.core import check, check_equal
from mc.checks.p03 import SECOND_TARGETS
from mc.pipelines import PIPELINES, Workspace, list_files, write_file

sched.install()

PROPERTY = 'P20'
LEVEL = 'model_checking'
ASSUMPTIONS = [
    'documents fail because of missing, empty or unreadable (not XML) targets or sources, or '
    'because of fields that cannot be checked',
    'without --skip-errors, whether the other documents are processed is not specified'
]
STATE = 'output files of a run'
TRANSITION = 'a document processed, failed or skipped'

# what is wrong with a document
DEFECTS = ['', 'no target', 'empty target', 'target is text', 'empty source', 'source is text',
           'no container']
MANY = 14


def BOUNDS(tier):
    return {
        'pipelines': sorted(PIPELINES),
        'documents': 'all combinations of %d defects for %d documents' % (
            len(DEFECTS), 2 if tier == 'quick' else 3
        ) + ', one defect at each position of 3 documents; %d documents' % MANY,
        'options': 'with and without --skip-errors; 1 to 3 workers, multiple processes',
        'schedules': 'every preemption at a file operation or call of the processing, of 2 '
                     'documents with 1 defect',
        'repaired': 'resuming after the defects have been repaired'
    }


def cases(tier):
    for name in PIPELINES:
        for first, second in itertools.product(range(len(DEFECTS)), repeat=2):
            for skip in (True, False):
                yield ['run', name, [first, second], skip, 1 + (first + second) % 2]
        for defect in range(1, len(DEFECTS)):
            for position in range(3):
                defects = [0, 0, 0]
                defects[position] = defect
                for skip in (True, False):
                    for workers in (1, 2, 3):
                        yield ['run', name, defects, skip, workers]
        for defects in ([0, 1, 0], [4, 0, 0]):
            yield ['run', name, defects, True, 0]
        # many documents
        for defect in range(1, len(DEFECTS)):
            for workers in (1, 4):
                yield ['run', name, [0, defect] * (MANY // 2), True, workers]
                yield ['run', name, [defect] * (MANY - 2) + [0, 0], True, workers]
            yield ['run', name, [0] * (MANY - 2) + [defect, 0], False, 4]
        yield ['run', name, ([0] + list(range(1, len(DEFECTS)))) * 2, True, 0]
        for defects in ([0, 1, 0], [4, 0, 0], [0, 0, 6]):
            yield ['run', name, defects, False, 0]
    if tier != 'quick':
        for name in PIPELINES:
            for defects in itertools.product(range(len(DEFECTS)), repeat=3):
                for skip in (True, False):
                    yield ['run', name, list(defects), skip, 1 + sum(defects) % 3]
    for name in PIPELINES:
        for defects in ([1, 0], [0, 2], [5, 0], [0, 3]):
            yield ['schedules', name, defects, 1 if tier == 'quick' else 3]


def contents(name):
    atoms = docs.atoms_of(name)
    return [
        (atoms[4] + '<lb/>' + atoms[0], docs.TARGETS[name]),
        ('second word<lb/>' + atoms[7] + '<lb/>Alpha', SECOND_TARGETS[name]),
        (atoms[6], docs.TARGETS[name])
    ]


def write_document(workspace, number, defect):
    name = workspace.pipeline.name
    content, target = contents(name)[number % 3]
    doc = 'doc%d' % (number + 1)
    source_path = os.path.join(workspace.source, workspace.pipeline.filename(doc))
    target_path = os.path.join(workspace.xml, doc + '.xml')
    workspace.add(content, target, name=doc)
    kind = DEFECTS[defect]
    if kind == 'no target':
        os.remove(target_path)
    elif kind == 'empty target':
        write_file(target_path, '')
    elif kind == 'target is text':
        write_file(target_path, 'not a document')
    elif kind == 'empty source':
        write_file(source_path, '')
    elif kind == 'source is text':
        write_file(source_path, 'not a document')
    elif kind == 'no container':
        write_file(source_path, '<other/>')


def build(directory, name, defects):
    workspace = Workspace(directory, PIPELINES[name])
    for number, defect in enumerate(defects):
        write_document(workspace, number, defect)
    return workspace


def results(workspace):
    return {
        key: data.decode('utf-8', 'replace')
        for path in (workspace.output, workspace.failed)
        for key, data in list_files(path).items()
    }


_CACHE = {}


def single_result(name, number):
    """the output of the document processed alone"""
    key = (name, number)
    if key not in _CACHE:
        scratch = tempfile.mkdtemp(prefix='verif-p20-')
        try:
            workspace = Workspace(os.path.join(scratch, 'x'), PIPELINES[name])
            write_document(workspace, number, 0)
            workspace.main()
            _CACHE[key] = results(workspace)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    return _CACHE[key]


def is_failing(name, defect):
    """whether the tool cannot process such a document, as opposed to finding it empty"""
    key = ('failing', name, defect)
    if key not in _CACHE:
        scratch = tempfile.mkdtemp(prefix='verif-p20-')
        try:
            workspace = build(os.path.join(scratch, 'x'), name, [defect])
            try:
                workspace.main()
                found = results(workspace)
            except Exception:  # pylint: disable=broad-except
                check_equal(results(workspace), {}, 'output of %s' % DEFECTS[defect])
                found = True
            check(found, '%s: neither an error nor an output', DEFECTS[defect])
            _CACHE[key] = found
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    return _CACHE[key] is True


def expected_results(name, defects):
    expected = {}
    for number, defect in enumerate(defects):
        if not defect:
            expected.update(single_result(name, number))
        elif not is_failing(name, defect):
            # e.g. recovered as an empty document
            for key, data in _CACHE[('failing', name, defect)].items():
                expected[key.replace('doc1', 'doc%d' % (number + 1))] = data
    return expected


def run_tool(workspace, skip, workers):
    """returns the error message, or None"""
    options = ['--failed-output-path', workspace.failed]
    if skip:
        options.append('--skip-errors')
    if not workers:
        options.append('--multi-processing')
    try:
        workspace.main(*options, num_workers=workers or 2)
        return None
    except Exception as exc:  # pylint: disable=broad-except
        return str(exc)


def verify(workspace, name, defects, skip, error, what):
    expected = expected_results(name, defects)
    failing = [
        number for number, defect in enumerate(defects) if defect and is_failing(name, defect)
    ]
    actual = results(workspace)
    if skip or not failing:
        check(error is None, '%s: failed: %s', what, error)
        check_equal(actual, expected, what)
        return
    check(error is not None, '%s: no error reported', what)
    check(
        any(workspace.pipeline.filename('doc%d' % (n + 1)) in error for n in failing),
        '%s: error does not name the document: %s', what, error
    )
    for key, data in actual.items():
        check(expected.get(key) == data, '%s: %s is wrong: %r', what, key, data)


def run(case, ctx):
    if case[0] == 'schedules':
        run_schedules(case, ctx)
        return
    _, name, defects, skip, workers = case
    workspace = build(ctx.new_dir() + '/x', name, defects)
    what = 'documents %r (skip-errors: %s)' % ([DEFECTS[d] for d in defects], skip)
    error = run_tool(workspace, skip, workers)
    ctx.step(len(defects))
    ctx.state([name, results(workspace)])
    verify(workspace, name, defects, skip, error, what)
    # repair and resume
    failed = [n for n, d in enumerate(defects) if d and is_failing(name, d)]
    for number in failed:
        write_document(workspace, number, 0)
    workspace.main('--failed-output-path', workspace.failed, '--resume')
    ctx.step(len(failed))
    repaired = [0 if n in failed else d for n, d in enumerate(defects)]
    check_equal(results(workspace), expected_results(name, repaired), what + ', repaired')


def run_schedules(case, ctx):
    _, name, defects, occurrences = case
    expected_results(name, defects)

    def run_one(deviations, trace):
        directory = ctx.new_dir()
        workspace = build(directory + '/x', name, defects)
        scheduler = sched.Scheduler(
            deviations, trace=trace,
            files=('auto_annotate_utils.py', 'auto_annotate_%s.py' % name,
                   'annotation/annotator.py', 'utils/io.py', 'utils/xml.py')
        )
        with sched.activate(scheduler):
            error = run_tool(workspace, True, 2)
        ctx.step(scheduler.passed)
        ctx.trace()
        ctx.state([name, defects, deviations])
        verify(workspace, name, defects, True, error, 'schedule %r' % (deviations,))
        shutil.rmtree(directory)
        return scheduler

    points = sched.explore_points(run_one([], 'call').points, occurrences)
    for label, worker, occurrence, others in points:
        for other in others:
            run_one([[label, worker, occurrence, other]], 'none')

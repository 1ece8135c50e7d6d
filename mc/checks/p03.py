"""P03: processing files concurrently gives the same result as processing them one by one."""
import functools
import os
import shutil
import tempfile

from mc import docs, sched
from mc.core import check, check_equal, in_child, parallel
from mc.pipelines import PIPELINES, Workspace, list_files
from mc.targets import jats

PROPERTY = 'P03'
LEVEL = 'model_checking'
ASSUMPTIONS = [
    'threads are switched at lines of the code under test and at file system operations only',
    'with more than one preemption, only at file system operations and function calls of the '
    'modules coordinating the processing (auto_annotate_*.py, annotation/annotator.py, '
    'utils/io.py)',
    'repeated visits of the same point are represented by the first and the last visit(s), '
    'those of the matching algorithms by the first one',
    '--multi-processing: worker processes share no memory, only the default schedule is run'
]
STATE = 'a distinct complete schedule (list of preemptions) and its output'
TRANSITION = 'a scheduling point passed by a worker thread'

OPTIONS = {
    'header': ['--require-matching-fields=title', '--use-line-number-annotator'],
    'segmentation': ['--required-fields=title'],
    'fulltext': ['--require-matching-fields=reference_list_title'],
    'figure': ['--segment-figures', '--preserve-sub-tags'],
    'table': ['--segment-tables', '--preserve-sub-tags'],
    'reference_segmenter': [],
    'reference': ['--segment-references', '--remove-invalid-references'],
    'affiliation_address': ['--segment-affiliation', '--preserve-sub-tags',
                            '--remove-invalid-affiliations'],
}

COMPLEX = ['--matcher=complex']
COORDINATION = ('annotation/annotator.py', 'utils/io.py', 'auto_annotate_utils.py') + tuple(
    'auto_annotate_%s.py' % name for name in PIPELINES
)

SECOND_TARGETS = {
    'header': jats(title='Different heading', abstract='zz'),
    'segmentation': jats(abstract='Alpha', body='<sec><title>second word</title></sec>'),
    'fulltext': jats(
        body='<sec><title>second word</title><p>Alpha</p></sec>', refs=['<title>x</title>'],
        back='<ref-list><title>Bibliography list</title></ref-list>'
    ),
    'figure': jats(figs=['<label>second</label><caption><p>word</p></caption>']),
    'table': jats(tables=['<label>second</label><caption><p>word</p></caption>']),
    'reference_segmenter': jats(
        refs=['<label>second</label> <mixed-citation>word Alpha</mixed-citation>']),
    'reference': jats(
        refs=['<label>second</label> <mixed-citation><year>word</year></mixed-citation>']),
    'affiliation_address': jats(
        affs=['<label>second</label> <institution>word</institution>']),
}

_PLAN = []
_EXPECTED = {}


def BOUNDS(tier):
    return {
        'pipelines': sorted(PIPELINES),
        'documents x workers': sorted({'%d x %d' % (c[1], c[2]) for c, _ in _PLAN}),
        'preemptions': 'first_preemptions: [granularity, preemptions, visits of a point, documents]',
        'first_preemptions': {
            '%s %d docs %d workers %s' % tuple(c): len(s) for c, s in _PLAN
        }
    }


def _configs(tier):
    for name in PIPELINES:
        # [granularity, preemptions, occurrences of the same point]
        if tier == 'quick':
            yield [name, 2, 2, ['line', 1, 1]]
            yield [name, 2, 2, ['call', 2, 1]]
            yield [name, 2, 2, ['line', 1, 1, 'twins']]
        else:
            yield [name, 2, 2, ['call', 2, 1, 'twins']]
            yield [name, 2, 2, ['line', 1, 3, 'twins']]
            yield [name, 2, 2, ['line', 1, 4]]
            yield [name, 3, 2, ['line', 1, 1]]
            yield [name, 3, 3, ['line', 1, 1]]
            yield [name, 2, 2, ['call', 2, 3]]
            yield [name, 3, 2, ['call', 2, 1]]
            yield [name, 2, 2, ['call', 3, 1]]


def _is_twins(config):
    return isinstance(config[3], list) and bool(config[3][3:])


def _key(config):
    return '%s-%d%s' % (config[0], config[1], '-twins' if _is_twins(config) else '')


def _workspace(directory, config):
    name, num_docs = config[:2]
    workspace = Workspace(directory, PIPELINES[name])
    atoms = docs.atoms_of(name)
    workspace.add(atoms[4] + '<lb/>' + atoms[0] + '<lb/>1 zz', docs.TARGETS[name], name='doc1')
    if _is_twins(config):
        # documents that differ by a single letter
        workspace.add(
            atoms[4] + '<lb/>' + atoms[0] + '<lb/>1 zq', docs.TARGETS[name], name='doc2')
    elif num_docs > 1:
        workspace.add(
            'second word<lb/>' + atoms[7] + '<lb/>2 Alpha', SECOND_TARGETS[name], name='doc2'
        )
    if num_docs > 2:
        workspace.add('7 ' + atoms[6], docs.TARGETS[name], name='doc3')
    return workspace


def _run(directory, config, deviations, trace='none', controlled=True, options=()):
    workspace = _workspace(directory, config)
    temp_dir = os.path.join(directory, 'tmp')
    os.makedirs(temp_dir)
    previous_temp_dir = tempfile.tempdir
    tempfile.tempdir = temp_dir
    scheduler = sched.Scheduler(deviations, trace=trace, files=COORDINATION)
    if trace == 'line' and not _is_twins(config):
        scheduler.files = None
    args = OPTIONS[config[0]] + COMPLEX * (config[0] in ('header', 'reference_segmenter') and (
        _is_twins(config))) + ['--failed-output-path', workspace.failed] + list(options)
    error = None
    try:
        if controlled:
            with sched.activate(scheduler):
                try:
                    workspace.main(*args, num_workers=config[2])
                except Exception as exc:  # pylint: disable=broad-except
                    error = exc
        else:
            workspace.main(*args, num_workers=config[2] if options else 1)
    finally:
        tempfile.tempdir = previous_temp_dir
    result = {
        'output': _decode(list_files(workspace.output)),
        'failed': _decode(list_files(workspace.failed)),
        'error': None if error is None else repr(error)
    }
    leftover = os.listdir(temp_dir)
    return result, leftover, scheduler


def _decode(files):
    return {k: v.decode('ascii', 'replace') for k, v in files.items()}


def _record(config, runs):
    """the points of the last one of the given number of runs"""
    scratch = tempfile.mkdtemp(prefix='verif-p03-')
    try:
        for number in range(runs):
            result = _run(
                os.path.join(scratch, 'd%d' % number), config, (), trace=config[3][0]
            )
        points = sched.explore_points(result[2].points, config[3][2])
        if config[3][2] == 1:
            # only the first visit of lines of the matching algorithms
            points = [p for p in points if p[2] == 1 or not (
                '/utils/' in p[0] or '/core/' in p[0] or 'matching' in p[0]
            )]
        return points
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _sequential(config):
    scratch = tempfile.mkdtemp(prefix='verif-p03-')
    try:
        return _run(os.path.join(scratch, 'x'), config, (), controlled=False)[0]
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def prepare(tier):
    """everything is run in child processes, to keep lazily initialised state untouched"""
    configs = list(_configs(tier))
    keys = {_key(config): config for config in configs}
    _EXPECTED.update(zip(keys, parallel(
        [functools.partial(_sequential, config) for config in keys.values()]
    )))
    usual_points = parallel([functools.partial(_record, config, 2) for config in configs])
    line_configs = [c for c in configs if c[3][0] == 'line' and not _is_twins(c)]
    first_points = parallel([functools.partial(_record, config, 1) for config in line_configs])
    for config, points in zip(line_configs, first_points):
        # the first run of a process: lines only run once per process (and the calls)
        usual = {p[:2] for p in usual_points[configs.index(config)]}
        _PLAN.append((config[:3] + [['cold', 1, 1]], [
            [[label, worker, occurrence, other]]
            for label, worker, occurrence, others in points
            for other in others
            if (label, worker) not in usual or (
                label.endswith(')') and label.split(':')[0].endswith(COORDINATION)
            )
        ]))
    for config, points in zip(configs, usual_points):
        schedules = [[]]
        for label, worker, occurrence, others in points:
            for other in others:
                schedules.append([[label, worker, occurrence, other]])
        _PLAN.append((config, schedules))


def cases(tier):
    # cold ones first, see prepare
    for config, schedules in _PLAN:
        if config[3][0] == 'cold':
            for deviations in schedules:
                yield [config, deviations]
    for name in PIPELINES:
        yield [[name, 2, 2, 'processes'], []]
        yield [[name, 2, 2, 'free'], []]
    for config, schedules in _PLAN:
        if config[3][0] != 'cold':
            for deviations in schedules:
                yield [config, deviations]


def _check(result, leftover, config, what):
    expected = _EXPECTED[_key(config)]
    check_equal(result, expected, 'result of ' + what)
    check_equal(leftover, [], 'temporary files left behind by ' + what)


def _get_expected(config):
    key = _key(config)
    if key not in _EXPECTED:  # replay
        _EXPECTED[key] = in_child(functools.partial(_sequential, config))
    return _EXPECTED[key]


def run(case, ctx):
    config, deviations = case
    expected = _get_expected(config)
    check(len(expected['output']) + len(expected['failed']) == config[1], 'missing output')
    mode = config[3]
    if mode in ('processes', 'free'):
        options = ['--multi-processing'] if mode == 'processes' else ['--matcher=simple']
        result, leftover, _ = _run(
            ctx.new_dir() + '/x', config, (), controlled=False, options=options
        )
        _check(result, leftover, config, mode)
        return
    granularity, bound, occurrences = mode[:3]
    if granularity == 'cold':
        directory = ctx.new_dir()
        result, leftover, passed = in_child(lambda: _run_cold(
            directory + '/x', config, deviations
        ))
        ctx.step(passed)
        ctx.trace()
        ctx.state([config, deviations])
        _check(result, leftover, config, 'schedule %r' % deviations)
        return
    _explore(config, deviations, granularity, bound, occurrences, ctx)


def _run_cold(*args):
    result, leftover, scheduler = _run(*args)
    return result, leftover, scheduler.passed


def _explore(config, deviations, granularity, bound, occurrences, ctx):
    more = deviations and len(deviations) < bound
    directory = ctx.new_dir()
    result, leftover, scheduler = _run(
        directory + '/x', config, deviations, trace=granularity if more else 'none'
    )
    shutil.rmtree(directory)
    ctx.step(scheduler.passed)
    ctx.trace()
    ctx.state([config, deviations])
    _check(result, leftover, config, 'schedule %r' % deviations)
    if not more or scheduler.pending:
        return
    last = tuple(deviations[-1][:3])
    after = False
    candidates = {p[:3]: p for p in sched.explore_points(scheduler.points, occurrences)}
    for p in scheduler.points:
        if after and p[:3] in candidates and p[3]:
            for other in p[3]:
                _explore(
                    config, deviations + [[p[0], p[1], p[2], other]], granularity, bound,
                    occurrences, ctx
                )
        if p[:3] == last:
            after = True

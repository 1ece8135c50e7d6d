"""P04: an interrupted run leaves no incomplete output, --resume completes it."""
import gzip
import itertools
import json
import os
import shutil
import tempfile

from mc import docs
from mc.core import check, check_equal, parallel
from mc.faults import Injector, run_child
from mc.pipelines import PIPELINES, Workspace, list_files, read_file, write_file
from mc.checks.p03 import SECOND_TARGETS

PROPERTY = 'P04'
LEVEL = 'model_checking'
ASSUMPTIONS = [
    'crash model: the process ends at any change of the file system; changes made before '
    'persist, a write may be torn (half of the data)',
    'renaming a file is atomic',
    'documents are processed by one worker, in the runs with injected faults'
]
STATE = 'content of the output directories after a fault, and after resuming'
TRANSITION = 'a change of the file system made by the implementation'

KINDS = ['crash-before', 'crash-torn', 'crash-after', 'error-before', 'error-torn']

_PLAN = {}

CONFIGS = [
    # pipeline, number of documents, compressed, options
    [name, 2, False, ['--require-matching-fields=title'] if name == 'header' else []]
    for name in PIPELINES
] + [
    ['header', 2, True, []],
    ['figure', 2, True, []],
    ['segmentation', 2, False, ['--skip-errors']],
    ['reference', 2, False, ['--segment-references', '--remove-invalid-references']],
]


def BOUNDS(tier):
    return {
        'documents': 3 if tier != 'quick' else 2,
        'fault_points': {json.dumps(c): n for c, n in ((json.loads(k), v) for k, v in
                                                       _PLAN.items())},
        'fault_kinds': KINDS,
        'faults_per_history': 1 if tier == 'quick' else 2,
        'existing_output_subsets': 'all subsets of 3 documents, parts of %d documents, for all '
                                   'pipelines' % MANY,
        'existing_files': EXISTING_KINDS,
        'options_of_resumed_runs': RESUME_OPTIONS,
        'actions': ACTIONS,
        'history_length': {name: _history_length(tier, name) for name in PIPELINES}
    }


MANY = 14
EXISTING_KINDS = [
    'none', 'output', 'failed output', 'failed and regular output', 'similar names',
    'compressed output'
]
# further options, to be used together with --resume
RESUME_OPTIONS = [
    ['--skip-errors'], ['--num-workers=3'], ['--num-workers=0'], ['--num-workers=2', '--debug'],
    ['--limit=1'], ['--limit=2'], ['--limit=3'], ['--limit=1', '--skip-errors']
]
ACTIONS = [
    'run', 'resume', 'remove output of doc1', 'change target of doc1', 'remove all output',
    'resume with doc1 only'
]


def _history_length(tier, name):
    if tier == 'quick':
        return 4 if name in ('header', 'figure') else 3
    return 5


def _build(directory, config):
    name, num_docs, compressed, _ = config
    workspace = Workspace(directory, PIPELINES[name])
    atoms = docs.atoms_of(name)
    contents = [
        (atoms[4] + '<lb/>' + atoms[0], docs.TARGETS[name]),
        ('second word<lb/>' + atoms[7] + '<lb/>Alpha', SECOND_TARGETS[name]),
        (atoms[6], docs.TARGETS[name])
    ]
    for number in range(num_docs):
        content, target = contents[number % 3]
        workspace.add(content, target, name='doc%d' % (number + 1))
        if compressed:
            path = os.path.join(
                workspace.source, workspace.pipeline.filename('doc%d' % (number + 1))
            )
            write_file(path + '.gz', gzip.compress(read_file(path)))
            os.remove(path)
    return workspace


def _main(workspace, config, *options):
    temp_dir = os.path.join(workspace.path, 'tmp')
    os.makedirs(temp_dir, exist_ok=True)
    previous = tempfile.tempdir
    tempfile.tempdir = temp_dir
    args = list(config[3]) + list(options)
    if config[2]:
        args += ['--xml-filename-regex', workspace.pipeline.filename_regex.replace(
            r'/\1.xml/', r'\.gz/\1.xml/')]
    try:
        workspace.main('--failed-output-path', workspace.failed, *args)
    finally:
        tempfile.tempdir = previous


def _results(workspace):
    """outputs (by name) as seen by a user; only of the documents"""
    result = {}
    for kind, path in (('output', workspace.output), ('failed', workspace.failed)):
        for name, data in list_files(path).items():
            if not name.startswith('doc'):
                continue
            try:
                if name.endswith('.gz'):
                    data = gzip.decompress(data)
            except (OSError, EOFError):
                data = b'incomplete: ' + data
            result['%s/%s' % (kind, name)] = data.decode('utf-8', 'replace')
    return result


def _record(config):
    """events and expected results of the undisturbed run"""
    scratch = tempfile.mkdtemp(prefix='verif-p04-')
    try:
        workspace = _build(os.path.join(scratch, 'x'), config)
        log_path = os.path.join(scratch, 'log')
        status = run_child(
            lambda: _main(workspace, config), Injector(workspace.path), log_path
        )
        check_equal(status, 'ok', 'undisturbed run')
        with open(log_path) as fp:
            return json.load(fp), _results(workspace)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _configs(tier):
    if tier == 'quick':
        return CONFIGS
    return [[c[0], 3, c[2], c[3]] for c in CONFIGS]


def prepare(tier):
    configs = _configs(tier)
    for config, (events, _) in zip(configs, parallel([
        (lambda c=config: _record(c)) for config in configs
    ])):
        _PLAN[json.dumps(config)] = len(events)


def cases(tier):
    for name in PIPELINES:
        for subset in itertools.product([0, 1], repeat=3):
            for resume in (True, False):
                yield ['existing', [name, 3, False, []], list(subset), resume]
            for options in RESUME_OPTIONS:
                if options == ['--num-workers=0'] and tier == 'quick' and sum(subset) != 1:
                    continue
                yield ['existing', [name, 3, False, []], list(subset), True, options]
        for subset in itertools.product([0, 1], repeat=2):
            for resume in (True, False):
                yield ['existing', [name, 2, True, []], list(subset), resume]
        for subset in itertools.product(range(len(EXISTING_KINDS)), repeat=2):
            if set(subset) - {0, 1}:
                yield ['existing', [name, 2, False, []], list(subset), True]
        # many documents
        for existing in (0, 1, MANY - 1, MANY):
            for options in ([], ['--num-workers=4']):
                for subset in (
                    [1] * existing + [0] * (MANY - existing),
                    [0] * (MANY - existing) + [1] * existing
                ):
                    yield ['existing', [name, MANY, False, []], subset, True, options]
        yield ['existing', [name, MANY, False, []], [0, 1] * (MANY // 2), True]
    for name in PIPELINES:
        for length in range(1, _history_length(tier, name) + 1):
            for history in itertools.product(range(len(ACTIONS)), repeat=length):
                if ACTIONS[history[-1]].startswith('r') and history[-1] not in (2, 4):
                    yield ['history', name, list(history)]
    for key, count in _PLAN.items():
        config = json.loads(key)
        for index in range(count):
            for kind in KINDS:
                yield ['fault', config, [[index, kind]]]
    if tier != 'quick':
        for key, count in _PLAN.items():
            config = json.loads(key)
            for index in range(count):
                for second in range(count):
                    for kind in ('crash-torn', 'crash-after'):
                        yield ['fault', config, [[index, 'crash-torn'], [second, kind]]]


_CACHE = {}


def _expected(config):
    key = json.dumps(config)
    if key not in _CACHE:
        _CACHE[key] = _record(config)
    return _CACHE[key]


def run(case, ctx):
    if case[0] == 'existing':
        run_existing(case, ctx)
        return
    if case[0] == 'history':
        run_history(case, ctx)
        return
    _, config, faults = case
    events, expected = _expected(config)
    workspace = _build(ctx.new_dir() + '/x', config)
    for number, (index, kind) in enumerate(faults):
        options = ['--resume'] if number else []
        status = run_child(
            lambda: _main(workspace, config, *options), Injector(workspace.path, index, kind)
        )
        ctx.step(index + 1)
        results = _results(workspace)
        ctx.state([config, results])
        what = 'after %s at change #%d %r' % (kind, index, events[index:index + 1])
        for name, content in results.items():
            check(
                content == expected.get(name),
                '%s: %s is incomplete or wrong: %r', what, name, content
            )
        if kind.startswith('crash'):
            check(
                status in ('ok', 'crashed'), '%s: unexpected %s', what, status
            )
        elif '--skip-errors' not in config[3] and number == 0:
            # an error that was not reported must not have lost anything
            check(status in ('ok', 'failed'), '%s: unexpected %s', what, status)
            if status == 'ok':
                check_equal(results, expected, what + ', and no error was reported')
    _main(workspace, config, '--resume')
    ctx.state([config, 'resumed', _results(workspace)])
    check_equal(_results(workspace), expected, 'after %r and resuming' % faults)


def run_existing(case, ctx):
    _, config, subset, resume, *options = case
    options = options[0] if options else []
    _, expected = _expected(config)
    workspace = _build(ctx.new_dir() + '/x', config)
    marker = 'existing output'
    for number, existing in enumerate(subset):
        name = workspace.pipeline.filename('doc%d' % (number + 1))
        kind = EXISTING_KINDS[existing]
        if kind in ('output', 'failed and regular output'):
            data = marker
            if config[2]:
                name += '.gz'
                data = gzip.compress(marker.encode('utf-8'))
            write_file(os.path.join(workspace.output, name), data)
            if resume:
                expected = dict(expected, **{'output/' + name: marker})
        if kind in ('failed output', 'failed and regular output'):
            write_file(os.path.join(workspace.failed, name), marker)
            expected = dict(expected, **{'failed/' + name: marker})
        if kind == 'similar names':
            for similar in (name + '.bak', name[:-4], 'old-' + name, 'sub/' + name, name.upper()):
                write_file(os.path.join(workspace.output, similar), marker)
                if similar.startswith('doc'):
                    expected = dict(expected, **{'output/' + similar: marker})
        if kind == 'compressed output':
            write_file(os.path.join(workspace.output, name + '.gz'), gzip.compress(b'x'))
            expected = dict(expected, **{'output/%s.gz' % name: 'x'})
    _main(workspace, config, *(['--resume'] if resume else []), *options)
    ctx.step()
    results = _results(workspace)
    ctx.state([config, subset, resume, results])
    limit = [int(option.split('=')[1]) for option in options if option.startswith('--limit')]
    if limit:
        # which documents are selected by the limit is not specified
        written = [name for name, content in results.items() if content != marker]
        check(len(written) <= limit[0], '%r were written, with limit %d', written, limit[0])
        if limit[0] < len(subset):
            expected = {
                name: content for name, content in expected.items()
                if name in written or content == marker
            }
    check_equal(results, expected, 'existing output %r, resume=%r' % (subset, resume))


HISTORY_OPTIONS = {
    'header': ['--required-fields=title'],
    'segmentation': ['--required-fields=title'],
    'fulltext': ['--required-fields=section_title'],
}


def _set_target(workspace, name, number, changed):
    target = docs.TARGETS[name] if (number == 1) != changed else SECOND_TARGETS[name]
    write_file(os.path.join(workspace.xml, 'doc%d.xml' % number), target)


def _single_result(name, number, changed):
    """result of processing just one document, in a new workspace"""
    key = json.dumps(['single', name, number, changed])
    if key not in _CACHE:
        scratch = tempfile.mkdtemp(prefix='verif-p04-')
        try:
            config = [name, 2, False, HISTORY_OPTIONS.get(name, [])]
            workspace = _build(os.path.join(scratch, 'x'), config)
            _set_target(workspace, name, number, changed)
            os.remove(os.path.join(
                workspace.source, workspace.pipeline.filename('doc%d' % (3 - number))))
            _main(workspace, config)
            (path, content), = _results(workspace).items()
            _CACHE[key] = path.split('/')[0], content
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    return _CACHE[key]


def run_history(case, ctx):
    """a sequence of runs and changes, compared with a model of the output directories"""
    _, name, history = case
    config = [name, 2, False, HISTORY_OPTIONS.get(name, [])]
    workspace = _build(ctx.new_dir() + '/x', config)
    filenames = {n: workspace.pipeline.filename('doc%d' % n) for n in (1, 2)}
    model = {}
    changed = False
    for index in history:
        action = ACTIONS[index]
        ctx.step()
        if action == 'remove output of doc1':
            path = os.path.join(workspace.output, filenames[1])
            if os.path.exists(path):
                os.remove(path)
            model.pop('output/' + filenames[1], None)
        elif action == 'change target of doc1':
            changed = not changed
            _set_target(workspace, name, 1, changed)
        elif action == 'remove all output':
            for directory in (workspace.output, workspace.failed):
                shutil.rmtree(directory, ignore_errors=True)
            model = {}
        else:
            options = []
            numbers = [1, 2]
            if action == 'resume with doc1 only':
                numbers = [1]
                options = ['--source-path', os.path.join(workspace.source, filenames[1])]
            if action != 'run':
                options += ['--resume']
                numbers = [n for n in numbers if 'output/' + filenames[n] not in model]
            _main(workspace, config, *options)
            for number in numbers:
                kind, content = _single_result(name, number, changed and number == 1)
                model['%s/%s' % (kind, filenames[number])] = content
        ctx.state([name, changed, model])
        check_equal(_results(workspace), model, 'after %r' % [ACTIONS[i] for i in history])

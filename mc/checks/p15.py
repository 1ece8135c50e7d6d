"""P15: source files are downloaded (and fixed) in pairs, complete, under all schedules."""
import functools
import gzip
import itertools
import os
import re
import shutil
import tempfile

from mc import sched
from mc.core import check, check_equal, in_child, parallel
from mc.pipelines import list_files, write_file

sched.install()

# pylint: disable=wrong-import-position
from sciencebeam_trainer_grobid_tools.download_source_files import main as download_main  # noqa
from sciencebeam_trainer_grobid_tools.fix_jats_xml import main as fix_jats_main  # noqa

PROPERTY = 'P15'
LEVEL = 'model_checking'
ASSUMPTIONS = [
    'threads are switched at lines of the code under test and at file system operations only',
    'distinct files are copied to distinct output files; both file lists have the same length',
    'entries of a file list are within its base path'
]
STATE = 'output files of a run'
TRANSITION = 'a file copied, or a scheduling point passed'

# [document, target] pairs: sub directories and compression
PAIRS = [
    ['a.pdf', 'a.xml'],
    ['sub/b.pdf', 'xml/b-target.xml.gz'],
    ['sub/deep/c.v2.pdf.GZ', 'c.jats.xml'],
]
# of long lists
PAIRS += [
    ['d%d/doc %d.pdf%s' % (n % 3, n, '.gz' if n % 5 == 4 else ''),
     'd%d/t%d.%s%s' % (n % 2, n, 'xml' if n % 2 else 'nxml', '.gz' if n % 3 == 1 else '')]
    for n in range(40)
]
PATTERNS = [
    None,
    '{dir}{filename}',
    '{name}{ext}',
    '{name}{ext}.gz',
    '{dir}{name}{ext}.gz',
    '{index}{ext}',
    'x-{index}/{filename}',
    '{document.name}-doc{ext}',
    '{target.name}/{filename}',
    '{document.dir}{document.name}{ext}.gz',
]
FORMATS = ['lst', 'csv', 'tsv']
# how entries and the base path are given
PATHS = ['relative', 'absolute', 'absolute+base', 'relative+base', 'absolute+parent']


def BOUNDS(tier):
    return {
        'pairs': '1 to 3 pairs, all subsets of missing files; lists of up to %d pairs' % len(PAIRS),
        'patterns': '%d x %d (document x target)' % (len(PATTERNS), len(PATTERNS)),
        'file lists': '%d formats x %d kinds of paths' % (len(FORMATS), len(PATHS)),
        'sizes of files': SIZES + ([] if tier == 'quick' else MORE_SIZES),
        'limits': 'none, 1 to 4',
        'schedules': _SCHEDULE_BOUNDS[tier],
        'first preemptions': len(_PLAN)
    }


_SCHEDULE_BOUNDS = {
    'quick': ['2 threads: every line x 1 preemption, every call and file operation x 2'],
    'thorough': [
        '2 and 3 threads: every line x 1 preemption, every call and file operation x 2',
        '2 threads: every line x 2 preemptions'
    ]
}

_PLAN = []


# sizes of files: around the sizes of buffers
SIZES = [0, 1, 2, 8191, 8192, 8193, 65535, 65536, 65537, 2 ** 20 + 1, 2 ** 24, 2 ** 24 + 1]
MORE_SIZES = [2 ** 25 + 3, 2 ** 26 + 1]


def content_of(name, size=None):
    line = 'content of %s\n' % name
    if size is None:
        return (line * (1 + len(name) % 3)).encode('utf-8')
    return (line * (1 + size // len(line)))[:size].encode('utf-8')


def write_source(path, data):
    write_file(path, gzip.compress(data) if path.lower().endswith('.gz') else data)


def read_content(path, data):
    return gzip.decompress(data) if path.lower().endswith('.gz') else data


def split_name(path):
    directory, filename = os.path.split(path)
    match = re.match(r'^(.+?)(\.gz|\.GZ)?$', filename)
    stem = match.group(1)
    position = stem.rfind('.')
    return {
        'dir': directory + '/' if directory else '',
        'filename': filename,
        'name': stem[:position],
        'ext': stem[position:]
    }


def expected_name(pattern, path, index, document, target):
    if pattern is None:
        return os.path.basename(path)
    values = split_name(path)
    values['index'] = str(index)
    for key, value in split_name(document).items():
        values['document.' + key] = value
    for key, value in split_name(target).items():
        values['target.' + key] = value
    return re.sub(r'\{([\w.]+)\}', lambda m: values[m.group(1)], pattern)


def write_list(path, file_format, column, entries):
    if file_format == 'lst':
        text = ''.join(entry + '\n' for entry in entries)
    else:
        sep = ',' if file_format == 'csv' else '\t'
        text = sep.join(['id', column, 'other']) + '\n' + ''.join(
            sep.join([str(i), entry, 'x']) + '\n' for i, entry in enumerate(entries)
        )
    write_file(path, text)


def entries_of(paths, base, kind):
    return [p if kind.startswith('relative') else os.path.join(base, p) for p in paths]


class Download:
    def __init__(self, directory, case, size=None):
        self.size = size
        (self.names, self.missing, self.patterns, self.file_format, self.kind, self.limit,
         self.threads) = case
        self.directory = directory
        self.base = os.path.join(directory, 'in')
        self.output = os.path.join(directory, 'out')
        self.pairs = [PAIRS[i] for i in self.names]
        os.makedirs(self.base)
        for pair, missing in zip(self.pairs, self.missing):
            for name, is_missing in zip(pair, missing):
                if not is_missing:
                    write_source(os.path.join(self.base, name), content_of(name, self.size))
        for index, (label, column) in enumerate(self.labels()):
            write_list(
                os.path.join(self.base, '%s-list.%s' % (label, self.file_format)),
                self.file_format, column,
                entries_of([pair[index] for pair in self.pairs], self.base, self.kind)
            )

    def labels(self):
        return [
            ('document', 'source_url'),
            ('target', 'my_xml' if self.kind == 'absolute+base' else 'xml_url')
        ]

    def args(self):
        options = ['--threads', str(self.threads)]
        if self.limit:
            options += ['--limit', str(self.limit)]
        for index, (label, column) in enumerate(self.labels()):
            options += [
                '--%s-file-list' % label,
                os.path.join(self.base, '%s-list.%s' % (label, self.file_format)),
                '--%s-output-path' % label, os.path.join(self.output, label),
            ]
            if column == 'my_xml':
                options += ['--%s-file-column' % label, column]
            if self.kind.endswith('+base'):
                options += ['--%s-base-path' % label, self.base]
            if self.kind.endswith('+parent'):
                options += ['--%s-base-path' % label, self.directory]
            if self.patterns[index] is not None:
                options += [
                    '--%s-output-filename-pattern' % label, self.patterns[index]
                ]
        return options

    def expected(self):
        result = {}
        prefix = 'in/' if self.kind.endswith('+parent') else ''
        pairs = [
            pair
            for pair, missing in list(zip(self.pairs, self.missing))[:self.limit or None]
            if not any(missing)
        ]
        for number, pair in enumerate(pairs):
            for index, (label, _) in enumerate(self.labels()):
                name = label + '/' + expected_name(
                    self.patterns[index], prefix + pair[index], number,
                    prefix + pair[0], prefix + pair[1]
                )
                check(name not in result, 'ambiguous case')
                result[name] = content_of(pair[index], self.size)
        return result

    def run(self):
        """returns the output, or None if the tool said that there are no pairs"""
        before = list_files(self.base)
        try:
            download_main(self.args())
            failed = False
        except ValueError as exc:
            check('none of the file pairs' in str(exc), 'unexpected error: %r', exc)
            failed = True
        check_equal(list_files(self.base), before, 'source files')
        files = list_files(self.output)
        if failed:
            check_equal(files, {}, 'output although there are no pairs')
            return None
        return {name: read_content(name, data) for name, data in files.items()}


class FixJats:
    """three files, to be fixed concurrently"""
    NAMES = ['a.xml', 'sub/b.xml.gz', 'sub/c.xml']

    def __init__(self, directory, count, threads):
        self.base = os.path.join(directory, 'in')
        self.output = os.path.join(directory, 'out')
        self.names = self.NAMES[:count]
        self.threads = threads
        for index, name in enumerate(self.names):
            broken = '&dagger;' if index == 1 else ''
            write_source(os.path.join(self.base, name), (
                '<article><p>%s%s</p><back><ref-list><ref id="r%d"><mixed-citation>PMID: 12%d'
                '</mixed-citation></ref></ref-list></back></article>'
                % (name, broken, index, index)
            ).encode('utf-8'))

    def expected(self):
        return {
            name: (
                ('<p>%s%s</p>' % (name, '&#8224;' if index == 1 else '')),
                'PMID: <pub-id pub-id-type="pmid">12%d</pub-id>' % index,
                str(index == 1).lower(), '1', 'r%d' % index
            )
            for index, name in enumerate(self.names)
        }

    def run(self):
        before = list_files(self.base)
        fix_jats_main([
            '--source-base-path', self.base, '--output-path', self.output,
            '--num-workers', str(self.threads), '--no-log-file'
        ])
        check_equal(list_files(self.base), before, 'source files')
        result = {}
        for name, data in list_files(self.output).items():
            text = read_content(name, data).decode('utf-8')
            text = text.replace('\u2020', '&#8224;')
            meta = dict(re.findall(
                r'<meta-name>([^<]*)</meta-name>\s*<meta-value>([^<]*)</meta-value>', text
            ))
            result[name] = (
                ''.join(re.findall(r'<p>.*?</p>', text)),
                ''.join(re.findall(r'<mixed-citation>(.*?)</mixed-citation>', text)),
                meta.get('fix-jats-malformatted-xml'),
                meta.get('fix-jats-changed-reference-count'),
                meta.get('fix-jats-changed-reference-ids')
            )
        return result


SCHEDULED = [
    ['download', [0, 1], [None, None]],
    ['download', [1, 2], ['{dir}{name}{ext}', '{document.dir}{name}{ext}.gz']],
    ['fix', [0, 1], None],
]


def make_subject(directory, kind, names, patterns, threads):
    if kind == 'fix':
        return FixJats(directory, len(names), threads)
    return Download(directory, [
        names, [[0, 0]] * len(names), patterns, 'lst', 'relative', 0, threads
    ])


def run_scheduled(directory, subject_args, threads, deviations, trace):
    subject = make_subject(directory, *subject_args, threads)
    temp_dir = os.path.join(directory, 'tmp')
    os.makedirs(temp_dir)
    previous = tempfile.tempdir
    tempfile.tempdir = temp_dir
    scheduler = sched.Scheduler(
        deviations, trace=trace,
        files=('download_source_files.py', 'fix_jats_xml.py', 'utils/io.py')
    )
    if trace == 'line':
        scheduler.files = None
    try:
        with sched.activate(scheduler):
            result = subject.run()
    finally:
        tempfile.tempdir = previous
    check_equal(result, subject.expected(), 'files after schedule %r' % (deviations,))
    check_equal(os.listdir(temp_dir), [], 'temporary files')
    return result, scheduler


def _configs(tier):
    for subject_args in SCHEDULED:
        if tier == 'quick':
            yield subject_args, 2, ['line', 1, 1]
            yield subject_args, 2, ['call', 2, 1]
        else:
            yield subject_args, 2, ['line', 1, 4]
            yield subject_args, 2, ['call', 2, 3]
            yield subject_args, 2, ['line', 2, 1]
    if tier != 'quick':
        for subject_args in (
            ['download', [0, 1, 2], ['{dir}{filename}', '{dir}{filename}']],
            ['fix', [0, 1, 2], None]
        ):
            yield subject_args, 3, ['line', 1, 2]
            yield subject_args, 3, ['call', 2, 1]


def _record(config):
    subject_args, threads, (granularity, _, occurrences) = config
    scratch = tempfile.mkdtemp(prefix='verif-p15-')
    try:
        _, scheduler = run_scheduled(
            os.path.join(scratch, 'x'), subject_args, threads, (), granularity
        )
        return sched.explore_points(scheduler.points, occurrences)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def prepare(tier):
    configs = list(_configs(tier))
    for config, points in zip(configs, parallel([
        functools.partial(_record, config) for config in configs
    ])):
        _PLAN.append([list(config), []])
        for label, worker, occurrence, others in points:
            for other in others:
                _PLAN.append([list(config), [[label, worker, occurrence, other]]])


def selections(tier):
    # all patterns
    for first, second in itertools.product(PATTERNS, repeat=2):
        for kind in PATHS:
            if kind in ('relative', 'absolute+parent') or None in (first, second):
                yield [[0, 1, 2], [[0, 0]] * 3, [first, second], 'lst', kind, 0, 2]
    # all subsets
    for count in (1, 2, 3):
        for missing in itertools.product(itertools.product([0, 1], repeat=2), repeat=count):
            for limit in range(0, count + 2):
                yield [
                    list(range(count)), [list(m) for m in missing],
                    ['{index}-{filename}', '{document.name}-{index}{ext}'],
                    FORMATS[(limit + count) % 3], PATHS[limit % 3], limit, 1 + limit % 2
                ]
    for names in itertools.permutations([0, 1, 2]):
        for file_format in FORMATS:
            for kind in PATHS:
                yield [
                    list(names), [[0, 0]] * 3,
                    ['{dir}{document.name}.pdf', '{target.dir}{filename}'],
                    file_format, kind, 0, 3
                ]


    for count in (11, len(PAIRS)):
        for step in (1, 2, 3, 10):
            for threads in (1, 4, 20):
                for limit in (0, 1, count - 1, count + 1):
                    missing = [[n % 2, 1 - n % 2] if step > 1 and n % step == 0 else [0, 0]
                               for n in range(count)]
                    yield [
                        list(range(count)), missing, ['{index}-{name}{ext}', '{dir}{filename}'],
                        FORMATS[(step + limit) % 3], PATHS[threads % 3], limit, threads
                    ]


def cases(tier):
    for case in selections(tier):
        yield ['select', case]
    for size in SIZES + ([] if tier == 'quick' else MORE_SIZES):
        for patterns in ([None, None], ['{name}{ext}', '{name}{ext}'],
                         ['{name}{ext}.gz', '{filename}']):
            yield ['size', [[0, 1, 2], [[0, 0]] * 3, patterns, 'lst', 'relative', 0, 2], size]
    for case in _PLAN:
        yield ['schedule', case]


def _explore(config, deviations, ctx):
    subject_args, threads, (granularity, bound, occurrences) = config
    more = deviations and len(deviations) < bound
    directory = ctx.new_dir()
    result, scheduler = run_scheduled(
        directory + '/x', subject_args, threads, deviations, granularity if more else 'none'
    )
    shutil.rmtree(directory)
    ctx.step(scheduler.passed)
    ctx.trace()
    ctx.state([config, deviations, sorted(result)])
    if not more or scheduler.pending:
        return
    last = tuple(deviations[-1][:3])
    after = False
    candidates = {p[:3] for p in sched.explore_points(scheduler.points, occurrences)}
    for p in scheduler.points:
        if after and p[:3] in candidates:
            for other in p[3]:
                _explore(config, deviations + [[p[0], p[1], p[2], other]], ctx)
        if p[:3] == last:
            after = True


def run(case, ctx):
    if case[0] == 'schedule':
        _explore(case[1][0], case[1][1], ctx)
        return
    download = Download(ctx.new_dir(), *case[1:])
    expected = download.expected()
    actual = in_child(download.run) if case[1][6] == 3 else download.run()
    ctx.step(2 * len(expected) or 1)
    ctx.state([case[1][2], sorted(expected)])
    if not expected:
        check_equal(actual, None, 'result without pairs')
        return
    check_equal(sorted(actual), sorted(expected), 'files')
    for name, data in expected.items():
        if actual[name] != data:
            check_equal(len(actual[name]), len(data), 'size of ' + name)
            check_equal(actual[name][:1000], data[:1000], 'content of ' + name)
            check(False, 'different content of ' + name)

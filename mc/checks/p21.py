"""P21: exactly the selected documents are annotated, each one with its own target."""
import gzip
import itertools
import os
import re

from mc import docs
from mc.core import check, check_equal
from mc.checks.p03 import SECOND_TARGETS
from mc.pipelines import PIPELINES, Workspace, list_files, write_file

PROPERTY = 'P21'
LEVEL = 'model_checking'
ASSUMPTIONS = [
    'source files directly within the source path, names without patterns',
    'which of the documents are selected by --limit is not specified',
    'compressed files (.gz) are compared by their decompressed content'
]
STATE = 'output files of a run'
TRANSITION = 'a document selected and processed, or not selected'

# name, compressed source, number of the content and target
DOCUMENTS = [
    ('a', False, 0),
    ('b', True, 1),
    ('a.b-1', False, 1),
    ('c d', True, 0),
]
# (in addition) of large sets of documents
UNUSUAL_NAMES = [
    'doc', 'doc1', 'doc10', 'DOC1', '1', '0', 'a+b', 'a(1)', '\u00e4\u4e2d', "o'x", 'x&y', '%20', '#1',
    'x,y', 'a=b', '$1', '-x', '_', 'x' * 150, 'tei', 'a.tei.xml', 'xml', '{0}', '%s', '~', '@', 'a.gz'
]
MANY_DOCUMENTS = DOCUMENTS + [
    (name, number % 4 == 3, (number // 2) % 2)
    for number, name in enumerate(UNUSUAL_NAMES + ['d%03d' % n for n in range(20)])
]
# files to be ignored: of other tools, or other formats
OTHER_SUFFIXES = ['.pdf', '.tei.xml', '.txt']

# how to find the target of a document: regular expression, path of the target
TARGETS = {
    'same name': (r'/{source}/\1.xml/', '{name}.xml'),
    'compressed': (r'|{source}|\1.xml\2|', '{name}.xml{gz}'),
    'own directory': (r'#{source}#\1/\1.nxml\2#', '{name}/{name}.nxml{gz}'),
    'other name': (r'/^{source}$/target-\1.jats.gz/', 'target-{name}.jats.gz'),
}

# names with a number of replacements
REPLACED_TARGETS = {
    'replaced dots': (r'/\.[a-z]+/-x/', r'\.[a-z]+', '-x'),
    'removed': (r'|(\.tei)?\.|\1|', r'(\.tei)?\.', r'\1'),
    'swapped': (r'#(\w)\.(\w)#\2_\1#', r'(\w)\.(\w)', r'\2_\1'),
    'anchored': (r'/^(.)/\1-\1/', r'^(.)', r'\1-\1'),
    'none': (r'/nothing/else/', 'nothing', 'else'),
}

MODES = ['1', '2', '3', 'processes', 'beam']
OUTPUTS = ['new', 'nested', 'existing', 'source']


def BOUNDS(tier):
    return {
        'pipelines': sorted(PIPELINES),
        'documents': 'all subsets of 4 (plain and compressed sources and targets), with files of '
                     'other tools and formats; up to %d documents, unusual names' % (
                         len(MANY_DOCUMENTS)),
        'selection': 'all, every single document (also with the base path given), limits from 0 to 5',
        'targets': sorted(TARGETS) + sorted(REPLACED_TARGETS),
        'modes': MODES if tier != 'quick' else MODES[:4] + ['beam (all documents only)'],
        'outputs': OUTPUTS
    }


def cases(tier):
    for name in PIPELINES:
        count = 0
        for subset in itertools.product([1, 0], repeat=len(DOCUMENTS)):
            for kind in sorted(TARGETS):
                for output in OUTPUTS:
                    if output == 'source' and not all(subset) and tier == 'quick':
                        continue
                    mode = MODES[count % 3]
                    count += 1
                    yield [name, list(subset), kind, 'all', mode, output]
        everything = [1] * len(DOCUMENTS)
        for position in range(len(DOCUMENTS)):
            for kind in sorted(TARGETS):
                yield [name, everything, kind, position, '1', 'new']
                yield [name, everything, kind, position, '2', 'existing']
            for suffix in ('path first', 'path last'):
                yield [name, everything, 'same name', '%d, base %s' % (position, suffix),
                       '1', 'new']
        for kind in sorted(REPLACED_TARGETS):
            yield [name, everything, kind, 'all', '2', 'new']
            for position in range(len(DOCUMENTS)):
                yield [name, everything, kind, position, '1', 'new']
        for limit in range(len(DOCUMENTS) + 2):
            for subset in (everything, [1, 0, 1, 0], [0, 1, 1, 1], [0, 0, 0, 0]):
                yield [name, subset, 'same name', 'limit %d' % limit, '2', 'new']
        for count in (11, len(MANY_DOCUMENTS)):
            for selection in ('all', 'limit %d' % (count - 1), 'limit 10'):
                for number, mode in enumerate(('1', '4', 'processes', 'beam')):
                    if selection == 'limit 10' and mode != '4':
                        continue
                    kind = sorted(TARGETS)[number % 4]
                    yield [name, ['many', count], kind, selection, mode, 'new']
        for position in range(len(DOCUMENTS), len(DOCUMENTS) + len(UNUSUAL_NAMES)):
            yield [name, ['many', len(MANY_DOCUMENTS)], 'same name', position, '1', 'new']
        for mode in ('processes', 'beam'):
            yield [name, everything, 'same name', 'all', mode, 'new']
            if tier != 'quick':
                for subset in itertools.product([1, 0], repeat=len(DOCUMENTS)):
                    for kind in sorted(TARGETS):
                        yield [name, list(subset), kind, 'all', mode, 'nested']


def contents(name):
    atoms = docs.atoms_of(name)
    return [
        (atoms[4] + '<lb/>' + atoms[0], docs.TARGETS[name]),
        ('second word<lb/>' + atoms[7] + '<lb/>Alpha', SECOND_TARGETS[name]),
    ]


_CACHE = {}


def expected_content(name, number, ctx):
    """the output of the document, processed alone"""
    key = (name, number)
    if key not in _CACHE:
        workspace = Workspace(ctx.new_dir() + '/x', PIPELINES[name])
        workspace.add(*contents(name)[number])
        workspace.main()
        _CACHE[key] = workspace.output_bytes()
        check(_CACHE[key], 'no output')
    return _CACHE[key]


def compress(data, is_compressed):
    data = data.encode('utf-8')
    return gzip.compress(data) if is_compressed else data


def decompressed(files):
    return {
        name: gzip.decompress(data) if name.endswith('.gz') else data
        for name, data in files.items()
    }


def run(case, ctx):
    name, subset, kind, selection, mode, output = case
    pipeline = PIPELINES[name]
    expected = {}
    for number in (0, 1):
        expected_content(name, number, ctx)
    workspace = Workspace(ctx.new_dir() + '/x', pipeline)
    if subset and subset[0] == 'many':
        all_documents, subset = MANY_DOCUMENTS, [1] * subset[1]
    else:
        all_documents = DOCUMENTS
    selected = [document for document, is_selected in zip(all_documents, subset) if is_selected]
    regex, target_path = TARGETS.get(kind) or (REPLACED_TARGETS[kind][0], None)
    if target_path:
        regex = regex.format(source=r'(.*)%s(\.gz)?' % pipeline.suffix.replace('.', r'\.'))
    for doc, is_compressed, number in selected:
        content, target = contents(name)[number]
        filename = pipeline.filename(doc) + ('.gz' if is_compressed else '')
        write_file(
            os.path.join(workspace.source, filename),
            compress(pipeline.document(content), is_compressed)
        )
        if target_path:
            path = os.path.join(workspace.xml, target_path.format(
                name=doc, gz='.gz' if is_compressed else ''
            ))
        else:
            path = os.path.join(workspace.xml, re.sub(
                REPLACED_TARGETS[kind][1], REPLACED_TARGETS[kind][2], filename
            ))
        write_file(path, compress(target, path.endswith('.gz')))
        expected[filename] = expected_content(name, number, ctx)
    other_files = {}
    for other in PIPELINES.values():
        if not other.suffix.endswith(pipeline.suffix):
            other_files[other.filename('a')] = other.document('other')
            other_files[other.filename('z')] = other.document('other')
    for suffix in OTHER_SUFFIXES:
        other_files['a' + suffix] = 'other'
    for filename, data in other_files.items():
        write_file(os.path.join(workspace.source, filename), data)
    sources = list_files(workspace.source)

    output_path = {
        'new': workspace.output,
        'existing': workspace.output,
        'nested': os.path.join(workspace.path, 'some', 'output'),
        'source': workspace.source
    }[output]
    if output == 'existing':
        # to be overwritten
        for filename in list(expected)[:1]:
            write_file(os.path.join(output_path, filename), 'previous content ' * 100)
        write_file(os.path.join(output_path, 'unrelated'), 'unrelated')

    args = [
        '--output-path', output_path, '--xml-path', workspace.xml, '--xml-filename-regex', regex
    ]
    limit = None
    base_path = []
    if 'base path' in str(selection):
        # a single file is selected, even if the base path is given too
        base_path = ['--source-base-path', workspace.source]
        if 'first' in selection:
            args, base_path = args + base_path, []
        selection = int(selection.split(',')[0])
    if isinstance(selection, int):
        filename = list(expected)[selection]
        expected = {filename: expected[filename]}
        args += ['--source-path', os.path.join(workspace.source, filename)] + base_path
    else:
        args += ['--source-base-path', workspace.source]
        if selection.startswith('limit'):
            limit = int(selection.split()[1])
            args += ['--limit', str(limit)]
    args += {
        'processes': ['--num-workers', '2', '--multi-processing'],
        'beam': ['--num-workers', '0']
    }.get(mode, ['--num-workers', mode])
    before = list_files(output_path)
    pipeline.module.main(args, save_main_session=False)
    ctx.step(len(selected) + len(other_files))

    after = list_files(output_path)
    if limit is not None:
        check_equal(len(after), min(limit, len(expected)), 'number of documents processed')
        expected = {filename: data for filename, data in expected.items() if filename in after}
    for filename, data in before.items():
        if filename not in expected:
            check_equal(after.pop(filename, None), data, 'unrelated file ' + filename)
    ctx.state([name, output, sorted(after), decompressed(after)])
    check_equal(sorted(after), sorted(expected), 'output files')
    check_equal(
        {k: v.decode('utf-8', 'replace') for k, v in decompressed(after).items()},
        {k: v.decode('utf-8', 'replace') for k, v in expected.items()},
        'content of the output files'
    )
    if output != 'source':
        check_equal(list_files(workspace.source), sources, 'source files')
    check_equal(
        sorted(os.listdir(workspace.path)), sorted(
            {'source', 'xml'} | ({os.path.relpath(output_path, workspace.path).split(os.sep)[0]}
                                 if expected or before else set())
        ), 'directories'
    )

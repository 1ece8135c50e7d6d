"""P17: annotations are extended to whole lines and merged as configured, nothing else."""
import itertools

from mc.core import check_equal
from mc.checks.p02 import char_elements
from mc.checks.p07 import short_path
from mc.pipelines import PIPELINES, Workspace, parse
from mc.targets import jats

from sciencebeam_trainer_grobid_tools.annotation.simple_matching_annotator import (
    get_extended_line_token_tags
)

PROPERTY = 'P17'
LEVEL = 'model_checking'
ASSUMPTIONS = [
    'lines whose unannotated start is followed by the continuation of an annotation of a previous '
    'line are not specified',
    'the values are distinct and occur verbatim (see P07 for the matching)'
]
STATE = 'tags of a line before and after'
TRANSITION = 'a token of a line'

TAGS = [None, 'b-a', 'i-a', 'b-c', 'i-c']
PLAIN_TAGS = [None, 'a', 'c']


def BOUNDS(tier):
    return {
        'lines': 'all sequences of up to %d tokens of 5 tags (begin, inside), up to %d of 3 tags' %
                 _lengths(tier)[:2],
        'configurations': 'merge and extension enabled, disabled or default, per tag: 81 (length '
                          'up to 4), 16 (otherwise)',
        'tools': 'header and fulltext: lines of up to %d annotations or gaps of 1 to 3 words' % (
            _lengths(tier)[2]
        )
    }


def _lengths(tier):
    return (6, 8, 3) if tier == 'quick' else (7, 10, 4)


def split(tag):
    if tag is None:
        return None, None
    return (tag[0], tag[2:]) if tag[1:2] == '-' else (None, tag)


def model(tags, extend, merge):
    """
    The annotated tokens are divided into runs of the same tag value; all other tokens belong to
    gaps. extend and merge: functions of the tag value.
    """
    result = list(tags)
    runs = []
    for index, tag in enumerate(tags):
        value = split(tag)[1]
        if value is None:
            continue
        if runs and runs[-1][0] == value and runs[-1][2] == index:
            runs[-1][2] = index + 1
        else:
            runs.append([value, index, index + 1])

    def inside(position, prefix):
        value = split(result[position])[1]
        if prefix:
            return 'i-' + value
        return value

    for value, start, end in runs:
        if merge(value) and split(tags[start])[0]:
            for index in range(start + 1, end):
                result[index] = 'i-' + value
    # gaps between runs
    for (value, _, end), (next_value, next_start, next_end) in zip(runs, runs[1:]):
        if end < next_start and value == next_value and merge(value):
            prefix = split(result[end - 1])[0]
            for index in range(end, next_start):
                result[index] = inside(end - 1, prefix)
            next_prefix = split(result[next_start])[0]
            result[next_start] = inside(next_start, next_prefix)
    if not runs:
        return result
    # the end of the line
    value, start, end = runs[-1]
    size = len(tags) - end
    if size and extend(value) and end - start > size:
        prefix = split(result[end - 1])[0]
        for index in range(end, len(tags)):
            result[index] = 'i-' + value if prefix else value
    # the start of the line
    value, start, end = runs[0]
    if start and extend(value) and end - start > start:
        prefix = split(result[start])[0]
        for index in range(start + 1):
            result[index] = value if not prefix else ('b-' if not index else 'i-') + value
    return result


SETTINGS = [True, False, None]


def as_map(settings):
    return {tag: setting for tag, setting in zip('ac', settings) if setting is not None}


def lookup(mapping):
    return lambda value: mapping.get(value, True)


def is_specified(tags):
    position = 0
    while position < len(tags) and tags[position] is None:
        position += 1
    return not (
        0 < position < len(tags) and tags[position].startswith('i-')
    )


def cases(tier):
    length, plain_length, runs = _lengths(tier)
    for tags, max_length in ((TAGS, length), (PLAIN_TAGS, plain_length)):
        for n in range(1, max_length + 1):
            # one case per start of the sequence
            for start in itertools.product(range(len(tags)), repeat=min(n, 3)):
                yield ['tags', len(tags), n, list(start)]
    # long lines: up to 5 annotations or gaps
    for kinds in itertools.product(range(len(RUNS)), repeat=3):
        yield ['runs', list(kinds)]
    for tool in sorted(TOOLS):
        kinds = TOOLS[tool]['kinds']
        for n in range(1, runs + 1):
            for seq in itertools.product('U' + kinds, repeat=n):
                if any(a == b == 'U' for a, b in zip(seq, seq[1:])) or any(
                    seq.count(kind) > TOOLS[tool]['max'][kind] for kind in kinds
                ):
                    continue
                if len(set(seq)) == 1 and seq[0] == 'U':
                    continue
                for sizes in itertools.product((1, 2, 3), repeat=n):
                    yield ['tool', tool, ''.join(seq), list(sizes)]


def run(case, ctx):
    if case[0] == 'tags':
        run_tags(case, ctx)
    elif case[0] == 'runs':
        run_runs(case, ctx)
    else:
        run_tool(case, ctx)


RUNS = ['', 'a', 'c', 'Aa']
RUN_LENGTHS = [1, 4, 5, 11, 12]


def run_runs(case, ctx):
    settings = [
        [extend, merge]
        for extend in itertools.product((True, False), repeat=2)
        for merge in itertools.product((True, False), repeat=2)
    ]
    kinds = [RUNS[i] for i in case[1]]
    for last in itertools.chain([[]], ([k] for k in RUNS)):
        all_kinds = kinds + last
        for lengths in itertools.product(RUN_LENGTHS, repeat=len(all_kinds)):
            tags = []
            for kind, length in zip(all_kinds, lengths):
                if kind == '':
                    tags += [None] * length
                elif kind == 'Aa':
                    tags += ['b-a'] * length  # separate annotations
                else:
                    tags += ['b-' + kind] + ['i-' + kind] * (length - 1)
            check_tags(tags, settings, ctx)


def run_tags(case, ctx):
    _, count, length, start = case
    alphabet = TAGS if count == len(TAGS) else PLAIN_TAGS
    settings = [
        [extend, merge]
        for extend in itertools.product(SETTINGS, repeat=2)
        for merge in itertools.product(SETTINGS, repeat=2)
        if length <= 4 or not (None in extend or None in merge)
    ]
    prefix = [alphabet[i] for i in start]
    for rest in itertools.product(alphabet, repeat=length - len(start)):
        tags = prefix + list(rest)
        check_tags(tags, settings, ctx)


def check_tags(tags, settings, ctx):
    if not is_specified(tags):
        return
    for extend, merge in settings:
        extend_map, merge_map = as_map(extend), as_map(merge)
        actual = get_extended_line_token_tags(
            list(tags), extend_to_line_enabled_map=extend_map, merge_enabled_map=merge_map
        )
        expected = model(tags, lookup(extend_map), lookup(merge_map))
        ctx.trace()
        ctx.step(len(tags))
        if actual != list(tags):
            ctx.state([tags, actual])
        check_equal(actual, expected, 'tags of line %r (extend: %r, merge: %r)' % (
            tags, extend_map, merge_map
        ))


# --- tools

WORDS = {
    'U': ['0000', '111', '22222', '33', '444', '5555', '6666', '77', '888', '9999', '000', '1111'],
    'T': ['Heraklion', 'bvdfw', 'quijx'],
    'B': ['mnopqr', 'stuvwx', 'Yzabcd'],
    'N': ['\u03b1\u03b2\u03b3\u03b4\u03b5', '\u03b6\u03b7\u03b8\u03b9', '\u03ba\u03bb\u03bc\u03bd\u03be',
          '\u03bf\u03c0\u03c1\u03c3\u03c4', '\u03c5\u03c6\u03c7\u03c8', '\u03b2\u03b4\u03b6\u03b8\u03bb'],
    'F': ['\u0431\u0432\u0433\u0434\u0436', '\u0437\u0438\u0439\u043a\u043b',
          '\u043c\u043d\u043e\u043f\u0440', '\u0441\u0442\u0443\u0444\u0445',
          '\u0446\u0447\u0448\u0449', '\u044a\u044b\u044c\u044d\u044e'],
}
TOOLS = {
    'header': {
        'kinds': 'TBNF',
        'max': {'T': 1, 'B': 1, 'N': 2, 'F': 2},
        'paths': {
            'T': 'docTitle/titlePart', 'B': 'div[abstract]', 'N': 'byline/docAuthor',
            'F': 'byline/affiliation', None: 'note[other]'
        },
        'extend': lambda kind: kind != 'T',
        'merge': lambda kind: kind != 'F',
        'options': []
    },
    'reference_segmenter': {
        'kinds': 'F',
        'max': {'F': 2},
        'paths': {'F': 'listBibl/bibl', None: 'note[other]'},
        'extend': lambda kind: True,
        'merge': lambda kind: False,
        'options': []
    },
    'fulltext': {
        'kinds': 'TB',
        'max': {'T': 1, 'B': 1},
        'paths': {'T': 'head', 'B': 'p', None: 'other'},
        'extend': lambda kind: True,
        'merge': lambda kind: True,
        'options': []
    },
    'fulltext-no-extend': {
        'kinds': 'TB',
        'max': {'T': 1, 'B': 1},
        'paths': {'T': 'head', 'B': 'p', None: 'other'},
        # neither extended nor merged
        'extend': lambda kind: False,
        'merge': lambda kind: False,
        'options': ['--no-extend-to-line']
    }
}


def target_of(tool, values):
    def get(kind):
        return values.get(kind) or ['']
    if tool == 'header':
        return jats(
            title=get('T')[0], abstract=get('B')[0],
            authors=['<surname>%s</surname>' % v for v in values.get('N', [])],
            affs=['<institution>%s</institution>' % v for v in values.get('F', [])]
        )
    if tool == 'reference_segmenter':
        return jats(refs=[
            '<mixed-citation><article-title>%s</article-title></mixed-citation>' % v
            for v in values.get('F', [])
        ])
    return jats(
        body='<sec>%s%s</sec>' % (
            '<title>%s</title>' % get('T')[0] if 'T' in values else '',
            '<p>%s</p>' % get('B')[0] if 'B' in values else ''
        )
    )


def run_tool(case, ctx):
    _, tool, seq, sizes = case
    config = TOOLS[tool]
    name = tool.split('-')[0]
    pipeline = PIPELINES[name]
    used = {}
    values = {}
    words = []
    tags = []
    for kind, size in zip(seq, sizes):
        position = used.get(kind, 0)
        chosen = WORDS[kind][position:position + size]
        used[kind] = position + (3 if kind != 'U' else size)
        words += chosen
        if kind == 'U':
            tags += [None] * size
        else:
            values.setdefault(kind, []).append(' '.join(chosen))
            tags += ['b-' + kind] + ['i-' + kind] * (size - 1)
    expected = model(tags, config['extend'], config['merge'])
    workspace = Workspace(ctx.new_dir(), pipeline)
    # a line before and after, to be left alone
    workspace.add(
        'zz zz<lb/>\n' + ' '.join(words) + '<lb/>\nzz zz', target_of(name, values)
    )
    workspace.main(*config['options'])
    chars = char_elements(pipeline.container(parse(workspace.output_bytes())))
    actual = []
    position = 0
    previous = None
    paths = {path: kind for kind, path in config['paths'].items()}
    for word in ['zz', 'zz'] + words + ['zz', 'zz']:
        part = chars[position:position + len(word)]
        position += len(word)
        check_equal(''.join(c for c, _, _ in part), word, 'text')
        check_equal(len({id_ for _, _, id_ in part}), 1, 'elements of word %r' % word)
        kind = paths.get(short_path(part[0][1]), short_path(part[0][1]))
        element = part[0][2]
        actual.append(kind and ('i-' if element == previous else 'b-') + kind)
        previous = element
    ctx.step(len(words))
    ctx.state([tool, actual])
    check_equal(
        actual, [None] * 2 + expected + [None] * 2, 'tags of line %r (%r)' % (words, tags)
    )

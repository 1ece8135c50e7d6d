"""P10: exactly the line numbers meeting the configured criteria are annotated."""
import itertools

from lxml import etree

from mc.core import check, check_equal
from mc.checks.p02 import char_elements
from mc.checks.p07 import short_path
from mc.pipelines import PIPELINES, Workspace, parse
from mc.targets import jats

from sciencebeam_trainer_grobid_tools.structured_document.grobid_training_tei import (
    GrobidTrainingTeiStructuredDocument
)
from sciencebeam_trainer_grobid_tools.annotation.line_number_annotator import (
    TextLineNumberAnnotatorConfig,
    TextLineNumberAnnotator
)

PROPERTY = 'P10'
LEVEL = 'model_checking'
ASSUMPTIONS = ['all lines are on one page (training documents do not have pages)']
TRANSITION = 'a line inspected for a line number'

# first token of a line (and whether there is more)
KINDS = ['1', '2', '3', '4', '7', 'x', '0', '']
# long series of line numbers
SERIES = {
    'starts': [1, 5, 98, 995], 'steps': [1, 2, 5, 11, 12], 'counts': [1, 2, 5, 9, 10, 11, 25, 60],
    'changes': ['', 'missing', 'repeated', 'swapped', 'lines between', 'blank lines', 'restarted',
                'reversed', 'far number']
}
SERIES_CONFIGS = list(itertools.product([1, 5, 10, 30], [0, 4, 10, 11], [0.1, 0.5]))
CONFIGS = list(itertools.product([1, 2, 3], [0, 2, 3], [0.1, 0.5, 1.0]))
TOOL_OPTIONS = [
    (['--min-line-numbers-per-page=2'], 2, 10, 0.1),
    (['--min-line-numbers-per-page=3', '--max-line-number-gap=0'], 3, 0, 0.1),
    (['--min-line-numbers-per-page=1', '--min-line-number-ratio=0.5'], 1, 10, 0.5),
    (['--min-line-numbers-per-page=2', '--max-line-number-gap=2', '--min-line-number-ratio=0.7'],
     2, 2, 0.7),
]


def BOUNDS(tier):
    return {
        'lines': _length(tier), 'line_kinds': KINDS,
        'configurations (minimum, gap, ratio)': len(CONFIGS),
        'long series': dict(SERIES, configurations=len(SERIES_CONFIGS)),
        'tool': {'lines': _tool_length(tier), 'options': [o[0] for o in TOOL_OPTIONS + TOOL_SERIES_OPTIONS]}
    }


def _length(tier):
    return 4 if tier == 'quick' else 6


def _tool_length(tier):
    return 3 if tier == 'quick' else 4


def cases(tier):
    for length in range(0, _length(tier) + 1):
        for lines in itertools.product(range(len(KINDS)), repeat=length):
            yield ['lines', list(lines)]
    for length in range(1, _tool_length(tier) + 1):
        for lines in itertools.product(range(len(KINDS)), repeat=length):
            yield ['tool', list(lines)]
    for count in (8, 9, 10, 11, 12):
        yield ['defaults', count]
    for start, step, count, change in itertools.product(
        SERIES['starts'], SERIES['steps'], SERIES['counts'], SERIES['changes']
    ):
        yield ['series', start, step, count, change]


    for step, count, change in itertools.product([1, 5, 12], [9, 11, 25, 60], SERIES['changes']):
        yield ['tool-series', 3, step, count, change]


TOOL_SERIES_OPTIONS = [
    (['--min-line-numbers-per-page=%d' % minimum, '--max-line-number-gap=%d' % gap,
      '--min-line-number-ratio=%s' % ratio], minimum, gap, ratio)
    for minimum, gap, ratio in [
        (12, 10, 0.1), (30, 11, 0.1), (61, 20, 0.1), (12, 3, 0.3), (5, 200, 0.9)
    ]
]


def expected_line_numbers(first_tokens, minimum, gap, ratio):
    """indices of the lines with a line number"""
    lines = [(index, text) for index, text in enumerate(first_tokens) if text]
    numbers = sorted(
        (int(text), index) for index, text in lines if text.isdigit() and int(text) > 0
    )
    sequences = []
    for number, index in numbers:
        if not sequences:
            sequences.append([(number, index)])
            continue
        last_number, last_index = sequences[-1][-1]
        if number == last_number or index < last_index:
            continue  # repeated or not in the order of the text
        if number - last_number - 1 <= gap:
            sequences[-1].append((number, index))
        else:
            sequences.append([(number, index)])
    accepted = sorted(
        index for sequence in sequences if len(sequence) >= minimum for _, index in sequence
    )
    if len(accepted) < minimum or (lines and len(accepted) / len(lines) < ratio):
        return []
    return accepted


def run(case, ctx):
    if case[0] == 'lines':
        run_lines(case, ctx)
    elif case[0] == 'series':
        check_lines(series_of(*case[1:]), SERIES_CONFIGS, ctx)
    elif case[0] in ('tool', 'tool-series'):
        run_tool(case, ctx)
    else:
        run_defaults(case, ctx)


def series_of(start, step, count, change):
    texts = [str(start + i * step) for i in range(count)]
    middle = count // 2
    if change == 'missing':
        del texts[middle]
    elif change == 'repeated':
        texts.insert(middle, texts[middle])
    elif change == 'swapped':
        texts[middle:middle + 2] = reversed(texts[middle:middle + 2])
    elif change == 'lines between':
        texts = [x for text in texts for x in (text, 'x', 'y7')]
    elif change == 'blank lines':
        texts = [x for text in texts for x in (text, '')]
    elif change == 'restarted':
        texts = texts + texts
    elif change == 'reversed':
        texts.reverse()
    elif change == 'far number':
        texts.insert(middle, '2001')
        texts.append('3')
    return texts


def run_lines(case, ctx):
    check_lines([KINDS[i] for i in case[1]], CONFIGS, ctx)


def check_lines(texts, configs, ctx):
    # other numbers, not at the start of a line, have to be ignored
    xml = '<tei><text>%s</text></tei>' % ''.join(
        (text + (' w 5' if index % 2 else '') if text else ' ') + '<lb/>'
        for index, text in enumerate(texts)
    )
    for minimum, gap, ratio in configs:
        doc = GrobidTrainingTeiStructuredDocument(
            etree.fromstring(xml), preserve_tags=False, tag_to_tei_path_mapping={},
            container_node_path='text'
        )
        TextLineNumberAnnotator(TextLineNumberAnnotatorConfig(
            min_line_number=minimum, max_line_number_gap=gap, line_number_ratio_threshold=ratio
        )).annotate(doc)
        ctx.step(len(texts))
        ctx.trace()
        actual = []
        lines = [line for page in doc.get_pages() for line in doc.get_lines_of_page(page)]
        for index, line in enumerate(lines):
            tags = [doc.get_tag(t) for t in doc.get_tokens_of_line(line)]
            if tags and tags[0]:
                check_equal(tags[0], 'line_no', 'tag')
                actual.append(index)
            check(not any(tags[1:]), 'only the first token may be a line number')
        ctx.state([texts, actual])
        check_equal(
            actual, expected_line_numbers(texts, minimum, gap, ratio),
            'line numbers of %r, minimum %r, gap %r, ratio %r' % (texts, minimum, gap, ratio)
        )


def observe_tool(ctx, texts, options):
    pipeline = PIPELINES['header']
    space = Workspace(ctx.new_dir(), pipeline)
    lines = [(text + ' wxyz' if text else 'wxyz') for text in texts]
    space.add('<lb/>\n'.join(lines) + '<lb/>', jats(title='unrelated'))
    space.main('--no-preserve-tags', *options)
    ctx.step(len(texts))
    ctx.trace()
    chars = char_elements(pipeline.container(parse(space.output_bytes())))
    position = 0
    actual = []
    for index, (text, line) in enumerate(zip(texts, lines)):
        part = [short_path(p) for _, p, _ in chars[position:position + len(line.replace(' ', ''))]]
        position += len(part)
        number = [p == 'note[line_no]' for p in part]
        if any(number):
            actual.append(index)
            check_equal(
                number, [True] * len(text) + [False] * (len(part) - len(text)),
                'line number of line %r' % line
            )
    ctx.state([texts, options, actual])
    return actual


def run_tool(case, ctx):
    if case[0] == 'tool-series':
        texts, option_list = series_of(*case[1:]), TOOL_SERIES_OPTIONS
    else:
        texts, option_list = [KINDS[i] for i in case[1]], TOOL_OPTIONS
    first_tokens = [text or 'wxyz' for text in texts]
    for options, minimum, gap, ratio in option_list:
        check_equal(
            observe_tool(ctx, texts, ['--use-line-number-annotator'] + options),
            expected_line_numbers(first_tokens, minimum, gap, ratio),
            'line numbers of %r, options %r' % (texts, options)
        )


def run_defaults(case, ctx):
    count = case[1]
    for first in (1, 95):
        texts = [str(first + i) for i in range(count)]
        expected = list(range(count)) if count >= 10 else []
        check_equal(
            observe_tool(ctx, texts, ['--use-line-number-annotator']), expected,
            'default minimum of line numbers'
        )
        check_equal(observe_tool(ctx, texts, []), [], 'not requested')
        check_equal(
            observe_tool(ctx, texts, ['--no-line-number-annotator']), [], 'not requested'
        )
    # ratio: numbers are at the start of few lines only
    for others in (8 * count, 12 * count):
        texts = [str(i + 1) for i in range(count)] + [''] * others
        expected = list(range(count)) if count >= 10 and others == 8 * count else []
        check_equal(
            observe_tool(ctx, texts, ['--use-line-number-annotator']), expected, 'default ratio'
        )

"""P09: every line is assigned to the segment of the field found in it."""
import collections
import itertools
import os

from lxml import etree

from mc.core import check_equal
from mc.checks.p02 import char_elements
from mc.checks.p07 import short_path
from mc.pipelines import PIPELINES, Workspace, parse
from mc.targets import jats

from sciencebeam_trainer_grobid_tools.structured_document.grobid_training_tei import (
    GrobidTrainingTeiStructuredDocument
)
from sciencebeam_trainer_grobid_tools.annotation.segmentation_annotator import (
    SegmentationAnnotator,
    SegmentationConfig
)

PROPERTY = 'P09'
LEVEL = 'model_checking'
ASSUMPTIONS = [
    'lines repeated as page headers are not annotated otherwise',
    'fields are found by the matcher as decided for P07'
]
TRANSITION = 'a line assigned to a segment'

MAPPING = {
    'front': {'title', 'abstract'}, 'body': {'section'}, 'annex': {'appendix'},
    'reference': {'reference'}, 'page': {'page_no'}, 'line_no': {'line_no'}
}
FIELD_SEGMENT = {field: segment for segment, fields in MAPPING.items() for field in fields}

# line: (text, tags of its tokens, existing segment element); None is a unique text
LINES = {
    'T': (None, ['b-title', 'i-title'], None),
    'A': (None, ['b-abstract', 'i-abstract'], None),
    'P': (None, ['b-section', 'i-section'], None),
    'X': (None, ['b-appendix', 'i-appendix'], None),
    'R': (None, ['b-reference', 'i-reference'], None),
    'S': (None, ['b-reference', 'b-reference'], None),
    'U': (None, [None, None], None),
    'M': (None, ['b-title', 'i-title', None], None),
    'm': (None, ['b-title', None, None], None),
    'n': (None, [None, 'b-reference', 'b-section', 'i-section'], None),
    'W': (None, ['b-unknown', 'i-unknown'], None),
    'L': ('17 x', ['line_no', None, None][:2], None),
    'H': ('Running head', [None, None], None),
    'G': ('Other head', [None, None], None),
    'O': ('Single', [None], None),
    'D': ('1. 2', None, None),
    '1': ('1', [None], None),
    '2': ('2', [None], None),
    '4': ('4', [None], None),
    '3': ('3', ['b-page_no'], None),
    '5': ('5', ['b-page_no'], None),
    # page numbers of more than one digit
    '9': ('9', ['b-page_no'], None),
    '8': ('10', [None], None),
    'Y': ('11', [None], None),
    'Z': ('10', ['b-page_no'], None),
    'y': ('101', [None], None),
    '0': ('0', [None], None),
    '7': ('007', [None], None),
    't': ('1234', [None], None),
    'u': ('12345', ['b-page_no'], None),
    'v': ('99999', [None], None),
    'p': ('2', [None], 'page'),
    'q': (None, [None, None], 'body'),
    'f': (None, [None, None], 'front'),
    'E': ('', [], None),
    # a line of which just the second word is a page number
    'r': (None, [None, None], (None, 'page')),
    # other repeated lines
    'a': ('Repeated ay', [None, None], None),
    'b': ('Repeated bee', [None, None], None),
    'c': ('Repeated sea', [None, None], None),
    'd': ('Repeated dee', [None, None], None),
    'e': ('Repeated ee', [None, None], None),
    # lines that are almost the same
    'g': ('Running Head', [None, None], None),
    'h': ('Running head.', [None, None], None),
    'i': ('Running head ' + 'more words ' * 15 + 'end', [None] * 33, None),
    'j': ('Running head ' + 'more words ' * 15 + 'stop', [None] * 33, None),
}
FULL = list('TUPRXMmnWLHp3qSAE')
ALPHABETS = [
    ('TUXRPH3', 4, 5),
    ('3124U5', 5, 6),
    ('HGOUTD1', 5, 6),
    ('RSUnXT', 5, 6),
    ('pqfTU3X', 4, 5),
    ('rpU1T', 4, 5),
    ('98YZUy', 4, 5),
    ('07tuv3Z', 4, 5),
    ('HghijU', 4, 5),
]
# documents of lines repeated as often as stated, in the stated order of lines
REPEATED = ['H', 'G', 'a', 'b', 'c', 'd', 'e', 'O', 'D', '1', '2']
CONFIGS = [
    {}, {'no_merge_references': True}, {'front_max_start_line_index': 1},
    {'page_header_max_first_line_index': 2}
]

PATHS = {
    'body': 'body', 'headnote': 'note[headnote]', 'acknowledgment': 'div[acknowledgment]',
    'annex': 'div[annex]', 'page': 'page', 'line_no': 'note[line_no]', 'reference': 'listBibl',
    'front': 'front'
}

# (text, field, segment)
TOOL_LINES = [
    ('Abcdef ghijkl', 'title', 'front'),
    ('Mnopqr stuvwx', 'body_section_title', 'body'),
    ('\u03b1\u03b2\u03b3\u03b4\u03b5 \u03b6\u03b7\u03b8\u03b9', 'body_section_paragraph', 'body'),
    ('\u0431\u0432\u0433\u0434\u0436 \u0437\u0438\u0439\u043a', 'acknowledgment_section_paragraph',
     'acknowledgment'),
    ('\u0561\u0562\u0563\u0564\u0565 \u0566\u0567\u0568\u0569', 'appendix', 'annex'),
    ('\u05d0\u05d1\u05d2\u05d3\u05d4 \u05d5\u05d6\u05d7\u05d8', 'reference', 'reference'),
    ('\u0e01\u0e02\u0e03\u0e04\u0e05 \u0e06\u0e07\u0e08\u0e09', 'back_section_paragraph', 'annex'),
    ('\u10d0\u10d1\u10d2\u10d3\u10d4 \u10d5\u10d6\u10d7\u10d8', 'reference_list_title',
     'reference'),
    ('\u1200\u1201\u1202\u1203\u1204 \u1205\u1206\u1207', 'body_figure', 'body'),
    ('\u4e00\u4e01\u4e03\u4e04\u4e05 \u4e06\u4e07', 'author', 'front'),
    ('0123 4567 89', None, None),
    ('99 98', None, None),
]
TOOL_TARGET = jats(
    title=TOOL_LINES[0][0],
    authors=['<surname>%s</surname><given-names>%s</given-names>' % tuple(
        TOOL_LINES[9][0].split())],
    body='<sec><title>%s</title><p>%s</p></sec>' % (TOOL_LINES[1][0], TOOL_LINES[2][0]),
    figs=['<label>%s</label><caption><title>%s</title></caption>' % tuple(
        TOOL_LINES[8][0].split())],
    back=(
        '<ack><p>%s</p></ack><sec><p>%s</p></sec><app-group><app>%s</app></app-group>'
        '<ref-list><title>%s</title><ref><mixed-citation>%s</mixed-citation></ref></ref-list>' % (
            TOOL_LINES[3][0], TOOL_LINES[6][0], TOOL_LINES[4][0], TOOL_LINES[7][0],
            TOOL_LINES[5][0]
        )
    )
)


# the same fields, some of them assigned to other segments
TOOL_CONFIGS = [
    ('[tags]\nfront = title\nbody = body_section_title, author\n'
     'annex = body_section_paragraph\nreference=reference,reference_list_title\n',
     {'title': 'front', 'body_section_title': 'body', 'author': 'body',
      'body_section_paragraph': 'annex', 'reference': 'reference',
      'reference_list_title': 'reference'}, {}),
    ('[config]\nfront_max_start_line_index = 1\n[tags]\nfront = title,author\n'
     'reference = reference\n',
     {'title': 'front', 'author': 'front', 'reference': 'reference'},
     {'front_max_start_line_index': 1}),
    ('[config]\npage_header_max_first_line_index = 1\n[tags]\nfront = title\n',
     {'title': 'front'}, {'page_header_max_first_line_index': 1}),
]
CONFIG_LINES = [0, 9, 1, 2, 5, 7, 10, 11]

# existing elements
EXISTING_ELEMENTS = {
    'page': '<page>%s</page>', 'front': '<front>%s</front>', 'body': '<body>%s</body>',
    'headnote': '<note place="headnote">%s</note>', 'reference': '<listBibl>%s</listBibl>',
    'annex': '<div type="annex">%s</div>'
}
# (index of the line, existing segment)
EXISTING_LINES = [
    (0, None), (5, None), (2, None), (4, None), (10, None), ('2', None), ('2', 'page'), ('3', 'page'),
    (10, 'body'), (10, 'front'), (10, 'headnote'), (10, 'reference'), (10, 'annex'), (1, 'front'),
]


def BOUNDS(tier):
    return {
        'all_kinds_of_lines': {'kinds': ''.join(FULL), 'lines': _full_length(tier)},
        'documents of many repeated lines': REPEATED,
        'long documents': 'all pairs of kinds, up to 26 lines',
        'selected_kinds': {a: (q if tier == 'quick' else t) for a, q, t in ALPHABETS},
        'configurations': CONFIGS,
        'preserve_tags': [False, True],
        'tool': {'lines': _tool_length(tier), 'kinds': len(TOOL_LINES)}
    }


def _full_length(tier):
    return 3 if tier == 'quick' else 4


def _tool_length(tier):
    return 3 if tier == 'quick' else 4


def cases(tier):
    for length in range(1, _full_length(tier) + 1):
        for lines in itertools.product(FULL, repeat=length):
            yield ['lines', ''.join(lines)]
    for alphabet, quick, thorough in ALPHABETS:
        for length in range(2, (quick if tier == 'quick' else thorough) + 1):
            for lines in itertools.product(alphabet, repeat=length):
                yield ['lines', ''.join(lines)]
    # long documents
    for lines in itertools.product(FULL, repeat=2):
        yield ['lines', ''.join(lines) * 12]
        yield ['lines', lines[0] * 12 + lines[1] * 12 + lines[0]]
        yield ['lines', lines[0] + lines[1] * 25]
    # lines repeated less often than others
    for first, second, third in itertools.product(range(1, 8), repeat=3):
        yield ['lines', 'H' * first + 'G' * second + 'a' * third + 'U']
        yield ['lines', 'U' + 'Ga' * min(second, third) + 'aG' + 'H' * first]
    # many different repeated lines
    for count in range(3, len(REPEATED) + 1):
        for kinds in (REPEATED[:count], REPEATED[-count:]):
            for more in range(count + 1):
                yield ['lines', ''.join(kinds + kinds[::-1] + kinds[:more])]
                yield ['lines', ''.join(kind * 2 for kind in kinds) + ''.join(kinds[more:]) + 'U']
    for length in range(1, _tool_length(tier) + 1):
        for lines in itertools.product(range(len(TOOL_LINES)), repeat=length):
            if len(set(lines)) == len(lines) or len(lines) < 3:
                yield ['tool', list(lines)]
    for length in range(1, _tool_length(tier) + 1):
        for lines in itertools.product(CONFIG_LINES, repeat=length):
            if len(set(lines)) == len(lines) or {10, 11} & set(lines):
                for number in range(len(TOOL_CONFIGS)):
                    yield ['tool-config', number, list(lines)]
        for lines in itertools.product(range(len(EXISTING_LINES)), repeat=length):
            if len(set(lines)) == len(lines):
                yield ['tool-existing', list(lines)]


class Line:
    def __init__(self, text, tags, existing):
        self.words = text.split()
        self.text = text
        self.tags = list(tags) if tags is not None else [None] * len(self.words)
        self.existing = existing
        self.segment = None

    @property
    def result(self):
        """final tag of the tokens"""
        existing = (
            self.existing if isinstance(self.existing, tuple)
            else [self.existing] * len(self.tags)
        )
        return [tag or old for tag, old in zip(self.tags, existing)]

    def assign(self, segment):
        self.segment = segment
        self.tags = [segment] * len(self.tags)


def value_of(tag):
    return tag[2:] if tag and tag[:2] in ('b-', 'i-') else tag


def model_segments(
    lines, field_segment, preserve_tags, no_merge_references=False, front_max_start_line_index=0,
    page_header_max_first_line_index=50
):
    for line in lines:
        if not line.tags:
            continue
        values = [value_of(tag) for tag in line.tags]
        majority = max(values, key=lambda v: (values.count(v), -values.index(v)))
        segment = field_segment.get(majority)
        if segment:
            if segment == majority and no_merge_references:
                line.segment = segment
            else:
                line.assign(segment)
        elif majority is None:
            line.tags = [None] * len(line.tags)
        line.segment = segment or majority
    # front matter starting late
    if front_max_start_line_index:
        start = None
        for index, line in enumerate(lines):
            if line.segment == 'front':
                if start is None:
                    start = index
                if start > front_max_start_line_index:
                    line.tags = [None] * len(line.tags)
                    line.segment = None
                    # the following line of front is a block of its own, it starts later
                    start = None
            else:
                start = None
    # page numbers
    if preserve_tags:
        for line in lines:
            if not line.segment and 'page' in [value_of(t) for t in line.result]:
                line.assign('page')
    candidates = [i for i, line in enumerate(lines) if not line.segment and line.text.isdigit()]
    known = [
        (i, int(line.text) if line.text.isdigit() else -1)
        for i, line in enumerate(lines) if line.segment == 'page'
    ]
    previous_index, next_number = 0, 1
    for index, number in known:
        for candidate in candidates:
            if (
                previous_index <= candidate <= index
                and next_number <= int(lines[candidate].text) <= number - 1
            ):
                lines[candidate].assign('page')
                next_number += 1
        previous_index, next_number = index, number
    # page headers
    counts = collections.OrderedDict()
    for line in lines:
        if not line.segment:
            counts[line.text] = counts.get(line.text, 0) + 1
    min_count = 2
    for text, count in sorted(counts.items(), key=lambda item: -item[1]):
        is_first = min_count == 2 and not any(line.segment == 'headnote' for line in lines)
        if count < min_count or len(text.split()) < 2:
            continue
        if not text.replace('.', '').replace(' ', '').strip('0123456789'):
            continue
        if [line.text for line in lines].index(text) >= page_header_max_first_line_index:
            continue
        if is_first:
            min_count = max(2, count - 1)
        for line in lines:
            if line.text == text:
                line.assign('headnote')
    # lines between lines of the same segment
    merged = {'front', 'annex'} | (set() if no_merge_references else {'reference'})
    current, waiting = 'front', []
    for line in lines:
        if line.segment in ('headnote', 'page'):
            continue
        if line.segment:
            if line.segment == current and current in merged:
                for other in waiting:
                    other.assign(current)
            current, waiting = line.segment, []
        elif preserve_tags and 'page' in [value_of(t) for t in line.result]:
            continue
        elif current in merged:
            waiting.append(line)
    if current == 'annex':
        for other in waiting:
            other.assign(current)
    if not preserve_tags:
        for line in lines:
            if not line.segment:
                line.assign('body')


def run(case, ctx):
    if case[0] == 'lines':
        run_lines(case, ctx)
    elif case[0] == 'tool-config':
        content, segments, config = TOOL_CONFIGS[case[1]]
        run_tool([(index, None) for index in case[2]], content, segments, config, ctx)
    elif case[0] == 'tool-existing':
        run_tool_existing(case, ctx)
    else:
        run_tool([(index, None) for index in case[1]], None, {
            field: segment for _, field, segment in TOOL_LINES if field
        }, {}, ctx)


def build_lines(kinds):
    result = []
    for index, kind in enumerate(kinds):
        text, tags, existing = LINES[kind]
        if text is None:
            text = ' '.join(
                'w%sx%d' % (chr(ord('a') + index % 26) * (1 + index // 26), i) for i in range(len(tags)))
        result.append((text, tags, existing))
    return result


def with_elements(text, existing):
    if isinstance(existing, tuple):
        return ' '.join(with_elements(*pair) for pair in zip(text.split(), existing))
    return '<%s>%s</%s>' % (existing, text, existing) if existing else text


def run_lines(case, ctx):
    _, kinds = case
    line_data = build_lines(kinds)
    content = '<lb/>'.join(
        with_elements(text, existing) for text, _, existing in line_data
    )
    xml = '<tei><text>%s</text></tei>' % content
    has_existing = any(existing for _, _, existing in line_data)
    for config in CONFIGS:
        for preserve_tags in (False, True):
            if preserve_tags and not has_existing and config:
                continue
            doc = GrobidTrainingTeiStructuredDocument(
                etree.fromstring(xml), preserve_tags=preserve_tags,
                tag_to_tei_path_mapping={
                    'front': 'front', 'body': 'body', 'page': 'page'
                }, container_node_path='text'
            )
            doc_lines = [
                [t for t in doc.get_tokens_of_line(line)]
                for page in doc.get_pages() for line in doc.get_lines_of_page(page)
            ]
            expected = []
            for text, tags, existing in line_data:
                expected.append(Line(text, tags, existing if preserve_tags else None))
            # trailing empty lines are not part of the document
            while expected and not expected[-1].words and len(expected) > len(doc_lines):
                expected.pop()
            check_equal(len(doc_lines), len(expected), 'number of lines')
            for tokens, line in zip(doc_lines, expected):
                texts = [doc.get_text(t) for t in tokens]
                if texts != line.words:
                    line.words = texts
                    line.tags = [None] * len(texts)
                    line.text = ' '.join(texts)
                for token, tag in zip(tokens, line.tags):
                    if tag:
                        doc.set_tag(token, tag)
            SegmentationAnnotator(
                SegmentationConfig(segmentation_mapping=MAPPING, **config),
                preserve_tags=preserve_tags
            ).annotate(doc)
            model_segments(expected, FIELD_SEGMENT, preserve_tags, **config)
            ctx.step(len(expected))
            ctx.trace()
            actual = [
                [doc.get_tag_or_preserved_tag_value(t) for t in tokens] for tokens in doc_lines
            ]
            ctx.state([kinds, actual])
            check_equal(
                actual, [[value_of(t) for t in line.result] for line in expected],
                'segments of the lines %r, %r, preserve_tags=%r' % (kinds, config, preserve_tags)
            )


def run_tool(line_list, config_content, field_segment, config, ctx):
    option_list = [(['--no-preserve-tags'], config)]
    if {5, 7} & {index for index, _ in line_list}:
        option_list.append((
            ['--no-preserve-tags', '--no-merge-references'],
            {'no_merge_references': True, **config}
        ))
    run_tool_with_options(line_list, config_content, field_segment, option_list, False, ctx)


def run_tool_existing(case, ctx):
    run_tool_with_options(
        [EXISTING_LINES[i] for i in case[1]], None,
        {field: segment for _, field, segment in TOOL_LINES if field},
        [([], {}), (['--no-merge-references'], {'no_merge_references': True})], True, ctx
    )


def run_tool_with_options(line_list, config_content, field_segment, option_list, preserve, ctx):
    pipeline = PIPELINES['segmentation']
    space = Workspace(ctx.new_dir(), pipeline)
    seen = set()
    lines = []
    texts = []
    for index, existing in line_list:
        if isinstance(index, str):
            text, field = index, None
        else:
            text, field, _ = TOOL_LINES[index]
        texts.append(text)
        tags = [field if field and index not in seen else None] * len(text.split())
        lines.append((text, tags, existing))
        seen.add(index)
    space.add(''.join(
        (EXISTING_ELEMENTS[existing] % text if existing else text) + '<lb/>\n'
        for text, _, existing in lines
    ), TOOL_TARGET)
    base_options = []
    if config_content:
        path = os.path.join(space.path, 'custom.conf')
        with open(path, 'w', encoding='utf-8') as fp:
            fp.write(config_content)
        base_options = ['--segmentation-config', path]
    for options, kwargs in option_list:
        expected = [Line(text, tags, existing) for text, tags, existing in lines]
        model_segments(expected, field_segment, preserve, **kwargs)
        space.main(*base_options, *options)
        ctx.step(len(lines))
        ctx.trace()
        chars = char_elements(pipeline.container(parse(space.output_bytes())))
        position = 0
        actual = []
        for text in texts:
            length = len(text.replace(' ', ''))
            actual.append(sorted({short_path(p) for _, p, _ in chars[position:position + length]}))
            position += length
        ctx.state([line_list, actual])
        check_equal(
            actual,
            [sorted({PATHS.get(t or 'body', t) for t in line.result}) for line in expected],
            'segments of %r, options %r' % (lines, base_options + options)
        )

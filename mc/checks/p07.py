"""P07: verbatim occurrences of the target values are annotated, and nothing else is."""
import itertools

from lxml import etree

from mc.core import check_equal
from mc.checks.p02 import all_tokens, char_elements
from mc.pipelines import PIPELINES, Workspace, parse, local_name
from mc.targets import jats

from sciencebeam_trainer_grobid_tools.core.annotation.target_annotation import TargetAnnotation
from sciencebeam_trainer_grobid_tools.structured_document.grobid_training_tei import (
    GrobidTrainingTeiStructuredDocument
)
from sciencebeam_trainer_grobid_tools.annotation.simple_matching_annotator import (
    SimpleMatchingAnnotator,
    SimpleTagConfig
)

PROPERTY = 'P07'
LEVEL = 'model_checking'
ASSUMPTIONS = [
    'the words of different values and of the other text share no characters, so that a match is '
    'either exact, has a single different character, or is far below the threshold',
    'the alignment of sciencebeam_alignment itself is trusted, only its use is explored'
]
TRANSITION = 'a target value searched in the document'

A1, A2, B1, B2 = 'abcdef', 'ghijkl', 'mnopqr', 'stuv'
VALUES = {
    'A': A1 + ' ' + A2,
    'B': B1 + ' ' + B2,
    'S': 'wxyz',
    'M': [A1 + ' ' + A2, B1 + ' ' + B2],
    'L': '\u00e4\u00f6\u00fc\u00df\u00e9',
}
FAR = '00000000 ' * 30

# (text, is tagged already) of a part of the document
ATOMS = {
    'A': VALUES['A'],
    'B': VALUES['B'],
    'S': VALUES['S'],
    'F': '0000\u0130\u013000',  # (having a different length in lower case)
    'a': A1,
    'g': A2,
    '/': '<lb/>',
    'J': A1.upper() + A2.title(),
    '~': A1 + ' ' + 'gh0jkl',
    'T': '11111111',  # is tagged already
    'V': '22222222',  # alternative spelling of A
    '_': FAR,
}
ATOM_NAMES = ['A', '/', 'B', 'F', 'S', 'a', 'g', 'T', 'J', '~', 'V', '_']

# (field, value), fields g and h are in the other block
TARGETS = [
    ('f', 'A'), ('f', 'B'), ('g', 'A'), ('g', 'B'), ('f', 'S'), ('h', 'M'), ('v', 'A'),
]
BLOCKS = {'f': 'default', 'v': 'default', 'g': 'other', 'h': 'other'}
LOOKAHEAD = [200, 1, 2]
SEPARATORS = [' ', '  ', '\n', ' \t  ']


def BOUNDS(tier):
    doc_length, target_length = _lengths(tier)
    return {
        'matcher': {
            'parts_per_document': doc_length, 'parts': ATOM_NAMES,
            'targets_per_document': target_length, 'targets': TARGETS,
            'lookahead_lines': LOOKAHEAD, 'separators': SEPARATORS
        },
        'sub_annotations': {'words': _sub_length(tier), 'sub_annotations': 3},
        'tools': {'lines': _line_length(tier), 'pipelines': sorted(FIELD_LINES),
                  'lines between values': GAPS}
    }


def _lengths(tier):
    return (3, 2) if tier == 'quick' else (4, 3)


def _sub_length(tier):
    return 4 if tier == 'quick' else 6


def _line_length(tier):
    return 3 if tier == 'quick' else 4


def cases(tier):
    doc_length, target_length = _lengths(tier)
    for length in range(1, doc_length + 1):
        for atoms in itertools.product(ATOM_NAMES, repeat=length):
            if atoms.count('_') > 1:
                continue
            yield ['match', ''.join(atoms), target_length if length < 4 else 2]
    for length in range(1, _sub_length(tier) + 1):
        for words in itertools.product('pqi/', repeat=length):
            yield ['sub', ''.join(words)]
    for count, max_chunks in itertools.product(range(1, 6), [None, 1, 2, 3, 4, 5]):
        for before, between, spread in itertools.product((0, 1, 3), (2, 4), (False, True)):
            yield ['chunks', count, max_chunks, before, between, spread]
    for name in FIELD_LINES:
        count = len(FIELD_LINES[name]) + 1
        for length in range(1, _line_length(tier) + 1):
            for seq in itertools.product(range(count), repeat=length):
                yield ['tool', name, list(seq)]
        if name not in WHOLE:
            # far apart, in any order
            for gap in GAPS:
                for order in itertools.permutations(range(count - 1), min(3, count - 1)):
                    yield ['tool', name, [
                        i for index in order for i in [count - 1] * gap + [index]
                    ]]


def run(case, ctx):
    if case[0] == 'chunks':
        run_chunks(case, ctx)
    elif case[0] == 'match':
        run_match(case, ctx)
    elif case[0] == 'sub':
        run_sub(case, ctx)
    else:
        run_tool(case, ctx)


def load_document(content):
    return GrobidTrainingTeiStructuredDocument(
        etree.fromstring('<tei><text>%s</text></tei>' % content),
        tag_to_tei_path_mapping={}, container_node_path='text', preserve_tags=False
    )


# --- matcher ---

class Model:
    """the matching of values in lines of tokens, using exact comparison"""
    def __init__(self, lines, lookahead):
        self.lines = lines  # [[token index]]
        self.words = {}
        self.tags = {}
        self.lookahead = lookahead

    def runs(self, sequences):
        result = []
        for sequence in sequences:
            current = []
            for token in sequence:
                if self.tags.get(token):
                    if current:
                        result.append(current)
                    current = []
                else:
                    current.append(token)
            if current:
                result.append(current)
        return result

    def find_value(self, runs, value):
        """first exact match, otherwise first match with a different character"""
        tokens = [token for r in runs for token in r]
        if len(value) < 5:
            for token in tokens:
                if self.words[token] == value:
                    return [token]
            return []
        chars = [(c, token) for token in tokens for c in self.words[token]]
        text = ''.join(c for c, _ in chars)
        for needle in [value, value.replace('i', '0')]:
            needle = needle.replace(' ', '')
            start = text.find(needle)
            if start >= 0:
                return sorted({token for _, token in chars[start:start + len(needle)]})
        return []

    def find(self, runs, field, value):
        if isinstance(value, list):
            found = [f for f in (self.find_value(runs, v) for v in value) if f]
            if not found:
                return []
            found = sorted(found)
            tokens = [token for r in runs for token in r]
            if len(found) == 2:
                between = [t for t in tokens if found[0][-1] < t < found[1][0]]
                if sum(len(self.words[t]) for t in between) > 50:
                    found = [max(found, key=self.length)]  # too far apart
            return [t for t in tokens if found[0][0] <= t <= found[-1][-1]]
        found = self.find_value(runs, value)
        if not found and field == 'v':
            found = self.find_value(runs, ATOMS['V'])
        return found

    def length(self, tokens):
        return sum(len(self.words[t]) for t in tokens)

    def annotate(self, targets):
        while targets:
            remaining = self.annotate_once(targets)
            if len(remaining) == len(targets):
                break
            targets = remaining

    def annotate_once(self, targets):
        pending = [
            [token for token in line if not self.tags.get(token)] for line in self.lines
        ]
        current = pending
        current_block = None
        remaining = []
        for field, value in targets:
            block = BLOCKS[field]
            found = self.find(self.runs(current)[:self.lookahead], field, value)
            if not found and block != current_block:
                runs = self.runs(pending)
                found = self.find(runs, field, value)
                if found:
                    current = [r for r in runs if r[-1] >= found[0]]
                    current_block = block
            if not found:
                remaining.append((field, value))
                continue
            for index, token in enumerate(found):
                self.tags[token] = ('b-' if not index else 'i-') + field
        return remaining


TAG_CONFIG = {
    'f': SimpleTagConfig(extend_to_line_enabled=False),
    'v': SimpleTagConfig(alternative_spellings={VALUES['A']: ['unknown99', ATOMS['V']]}),
    'g': SimpleTagConfig(block_name='other'),
    'h': SimpleTagConfig(block_name='other'),
}


def run_match(case, ctx):
    _, atoms, target_length = case
    target_lists = [
        targets for length in range(1, target_length + 1)
        for targets in itertools.product(TARGETS, repeat=length)
    ]
    for targets in target_lists:
        values = [(field, VALUES[value]) for field, value in targets]
        for lookahead, separator in itertools.chain(
            itertools.product(
                LOOKAHEAD if '/' in atoms and len(targets) < 3 else LOOKAHEAD[:1], SEPARATORS[:1]
            ),
            itertools.product(LOOKAHEAD[:1], SEPARATORS[1:] if len(targets) == 1 else [])
        ):
            doc = load_document(separator.join(ATOMS[a] for a in atoms))
            lines = []
            count = 0
            model = Model(lines, lookahead)
            tokens = []
            for page in doc.get_pages():
                for line in doc.get_lines_of_page(page):
                    line_tokens = [
                        t for t in doc.get_tokens_of_line(line) if doc.get_text(t).strip()
                    ]
                    lines.append(list(range(count, count + len(line_tokens))))
                    for token in line_tokens:
                        model.words[count] = doc.get_text(token).lower()
                        if doc.get_text(token) == ATOMS['T']:
                            doc.set_tag(token, 'b-t')
                            model.tags[count] = 'b-t'
                        tokens.append(token)
                        count += 1
            SimpleMatchingAnnotator(
                [TargetAnnotation(value, field) for field, value in values],
                lookahead_sequence_count=lookahead, extend_to_line_enabled=False,
                tag_config_map=TAG_CONFIG
            ).annotate(doc)
            model.annotate(values)
            ctx.step(len(targets))
            ctx.trace()
            actual = [(doc.get_text(t), doc.get_tag(t)) for t in tokens]
            ctx.state(actual)
            check_equal(
                actual,
                [(doc.get_text(t), model.tags.get(i)) for i, t in enumerate(tokens)],
                'tags of %r, targets %r, lookahead %r, separator %r' % (
                    atoms, targets, lookahead, separator)
            )


# --- sub annotations ---

SUB_WORDS = {'p': A1, 'q': B1, 'i': '\u0130\u0130\u0130\u0130\u0130\u0130'}
SUB_VALUES = {'P': 'p', 'Q': 'q', 'R': 'pq'}


def run_sub(case, ctx):
    _, words = case
    text_words = [w for w in words if w != '/']
    if not text_words:
        return
    content = '00000000 %s 00000000 %s' % (
        ' '.join(SUB_WORDS.get(w, '<lb/>') for w in words), A1
    )
    value = ' '.join(SUB_WORDS[w] for w in text_words)
    for length in range(0, 4):
        for subs in itertools.product('PQR', repeat=length):
            doc = load_document(content)
            SimpleMatchingAnnotator([TargetAnnotation(value, 'f', sub_annotations=[
                TargetAnnotation(
                    ' '.join(SUB_WORDS[w] for w in SUB_VALUES[sub]), 'f-' + sub
                ) for sub in subs
            ])], use_sub_annotations=True, extend_to_line_enabled=False).annotate(doc)
            ctx.step(1 + length)
            ctx.trace()
            tokens = [t for t in all_tokens(doc) if doc.get_text(t).strip()]
            expected = [None] * len(text_words)
            for sub in subs:
                needle = SUB_VALUES[sub]
                start = 0
                while True:
                    start = ''.join(text_words).find(needle, start)
                    if start < 0:
                        break
                    end = start + len(needle)
                    if not any(expected[start:end]):
                        for i in range(start, end):
                            expected[i] = ('b-f-' if i == start else 'i-f-') + sub
                        break
                    start = end
            count = len(text_words)
            check_equal(
                [doc.get_tag(t) for t in tokens],
                [None] + ['b-f'] + ['i-f'] * (count - 1) + [None, None],
                'tags of %r' % words
            )
            actual = [doc.get_sub_tag(t) for t in tokens]
            ctx.state([words, subs, actual])
            check_equal(actual, [None] + expected + [None, None],
                        'sub tags of %r, %r' % (words, subs))


# --- tools, using their default configuration ---

OTHER_LINE = '0123 4567 8901'

# (line, expected path)
FIELD_LINES = {
    'header': [
        ('Abcdef ghijkl', 'docTitle/titlePart'),
        ('Mnopqr stuvwx', 'div[abstract]'),
        ('KeYwo\u00e4 \u00f6\u00fc\u00df', 'note[keywords]'),
        ('\u03b1\u03b2\u03b3\u03b4\u03b5 \u03b6\u03b7\u03b8\u03b9', 'byline/docAuthor'),
        ('\u0431\u0432\u0433\u0434\u0436 \u0437\u0438\u0439\u043a\u043b', 'byline/affiliation'),
    ],
    'fulltext': [
        ('Abcdef ghijkl', 'head'),
        ('Mnopqr stuvwx', 'p'),
        ('\u03b1\u03b2\u03b3\u03b4\u03b5 \u03b6\u03b7\u03b8\u03b9', 'figure'),
        ('\u0431\u0432\u0433\u0434\u0436 \u0437\u0438\u0439\u043a\u043b', 'figure[table]'),
    ],
    'reference_segmenter': [
        ('Abcdef ghijkl', 'listBibl/bibl'),
        ('Mnopqr stuvwx', 'listBibl/bibl'),
        ('\u03b1\u03b2\u03b3\u03b4\u03b5 \u03b6\u03b7\u03b8\u03b9', 'listBibl/bibl'),
    ],
    'figure': [
        ('\u03b1\u03b2\u03b3\u03b4\u03b5', 'figure/head/label'),
        ('Mnopqr stuvwx', 'figure/figDesc'),
    ],
    'table': [
        ('\u03b1\u03b2\u03b3\u03b4\u03b5', 'figure[table]/head/label'),
        ('Mnopqr stuvwx', 'figure[table]/figDesc'),
    ],
    'reference': [
        ('Abcdef ghijkl', 'bibl/author'),
        ('Mnopqr stuvwx', 'bibl/title[a]'),
        ('\u03b1\u03b2\u03b3\u03b4\u03b5 \u03b6\u03b7\u03b8\u03b9', 'bibl/title[j]'),
    ],
    'affiliation_address': [
        ('Abcdef ghijkl', 'affiliation/orgName[department]'),
        ('Mnopqr stuvwx', 'affiliation/orgName[institution]'),
        ('\u03b1\u03b2\u03b3\u03b4\u03b5 \u03b6\u03b7\u03b8\u03b9', 'affiliation/address/country'),
    ],
}


def _line(name, index):
    return FIELD_LINES[name][index][0]


def tool_target(name):
    lines = [line for line, _ in FIELD_LINES[name]]
    if name == 'header':
        return jats(
            title=lines[0], abstract=lines[1],
            meta='<kwd-group><kwd>%s</kwd></kwd-group>' % lines[2],
            authors=['<surname>%s</surname><given-names>%s</given-names>' % tuple(
                reversed(lines[3].split()))],
            affs=['<institution>%s</institution>' % lines[4]]
        )
    if name == 'fulltext':
        return jats(
            body='<sec><title>%s</title><p>%s</p></sec>' % tuple(lines[:2]),
            figs=['<label>%s</label><caption>%s</caption>' % tuple(lines[2].split())],
            tables=['<label>%s</label><caption>%s</caption>' % tuple(lines[3].split())]
        )
    if name == 'reference_segmenter':
        return jats(refs=['<mixed-citation>%s</mixed-citation>' % line for line in lines])
    if name == 'figure':
        return jats(figs=['<label>%s</label><caption>%s</caption>' % tuple(lines)])
    if name == 'table':
        return jats(tables=['<label>%s</label><caption>%s</caption>' % tuple(lines)])
    if name == 'reference':
        return jats(refs=[
            '<mixed-citation><string-name>%s</string-name> <article-title>%s</article-title> '
            '<source>%s</source></mixed-citation>' % tuple(lines)
        ])
    return jats(affs=[
        '<addr-line><named-content content-type="department">%s</named-content></addr-line> '
        '<institution>%s</institution> <country>%s</country>' % tuple(lines)
    ])


def short_path(path):
    result = []
    for tag, attributes in path:
        name = etree.QName(tag).localname
        result.append(name + ('[%s]' % attributes[0][1] if attributes else ''))
    return '/'.join(result)


GAPS = [30, 99, 199, 200, 201, 260]
WHOLE = {
    'figure': ('<figure>%s</figure>', 'figure'),
    'table': ('<figure type="table">%s</figure>', 'figure[table]'),
    'reference': ('<bibl>%s</bibl>', 'bibl'),
    'affiliation_address': ('<affiliation>%s</affiliation>', 'affiliation'),
}


def is_found(name, seq, line_count):
    """whether the lines are near enough to each other (as one value or as several values)"""
    positions = {}
    for position, index in enumerate(seq):
        if index < line_count:
            positions.setdefault(index, position)
    if not positions:
        return False
    first, last = min(positions.values()), max(positions.values())
    if name in ('figure', 'table'):
        return seq[first:first + 2] == [0, 1]
    return last - first + 1 - len(positions) <= 1


def run_tool(case, ctx):
    _, name, seq = case
    pipeline = PIPELINES[name]
    line_count = len(FIELD_LINES[name])
    lines = [_line(name, i) if i < line_count else OTHER_LINE for i in seq]
    content = '<lb/>\n'.join(lines) + '<lb/>'
    field_paths = {path for _, path in FIELD_LINES[name]}
    if name in WHOLE:
        wrapper, other_path = WHOLE[name]
        content = wrapper % content
        options = []
        found = is_found(name, seq, line_count)
    else:
        other_path = 'other' if name == 'fulltext' else 'note[other]'
        options = ['--no-preserve-tags']
        found = True
    space = Workspace(ctx.new_dir(), pipeline)
    space.add(content, tool_target(name))
    space.main(*options)
    ctx.step(line_count)
    output = space.output_bytes()
    chars = char_elements(pipeline.container(parse(output)))
    ctx.state([name, [(c, short_path(path)) for c, path, _ in chars]])
    position = 0
    seen = {}
    for index, line in zip(seq, lines):
        text = ''.join(line.split())
        part = chars[position:position + len(text)]
        position += len(text)
        check_equal(''.join(c for c, _, _ in part), text, 'text')
        actual = {short_path(path) for _, path, _ in part}
        if name == 'affiliation_address' and actual == {'affiliation/address'}:
            actual = {other_path}  # text following the country is part of the address
        if index == line_count:
            check_equal(actual, {other_path}, 'elements of %r in %r' % (line, lines))
        elif index not in seen:
            seen[index] = part[0][2]
            if found:
                check_equal(
                    actual, {FIELD_LINES[name][index][1]},
                    'elements of %r in %r' % (line, lines)
                )
        elif name not in WHOLE or found:
            # the target has only one of it
            check_equal(actual, {other_path}, 'elements of repeated %r in %r' % (line, lines))
    if found:
        check_equal(len(set(map(id, seen.values()))), len(seen), 'elements are separate')


CHUNKS = [
    ' '.join(''.join(chr(0x4e00 + 100 * part + 10 * word + i) for i in range(9)) for word in range(4))
    for part in range(5)
]
DEFAULT_CHUNKS = 2  # of the abstract, see config/xml-mapping.conf
FILLER = '0123 4567 89012345 67890123456789 0123456789 012345678901 23456789'


def run_chunks(case, ctx):
    """a value printed in separate parts, is annotated if not more than the configured number"""
    _, count, max_chunks, before, between, spread = case
    lines = [FILLER] * before
    expected = [None] * before
    is_found = count <= (max_chunks or DEFAULT_CHUNKS)
    for part in CHUNKS[:count]:
        if part != CHUNKS[0]:
            lines += [FILLER] * between
            expected += [None] * between
        part_lines = [part] if not spread else [part[:19], part[20:]]
        lines += part_lines
        expected += [is_found] * len(part_lines)
    pipeline = PIPELINES['header']
    space = Workspace(ctx.new_dir(), pipeline)
    space.add(
        '<lb/>\n'.join(lines) + '<lb/>', jats(title='Unrelated', abstract=' '.join(CHUNKS[:count]))
    )
    space.main(*(
        ['--xml-mapping-overrides', 'abstract.max_chunks=%d' % max_chunks] if max_chunks else []
    ))
    ctx.step()
    ctx.trace()
    chars = char_elements(pipeline.container(parse(space.output_bytes())))
    ctx.state([(c, short_path(path)) for c, path, _ in chars])
    position = 0
    for line, is_annotated in zip(lines, expected):
        text = ''.join(line.split())
        part = chars[position:position + len(text)]
        position += len(text)
        check_equal(''.join(c for c, _, _ in part), text, 'text')
        check_equal(
            {short_path(path) for _, path, _ in part},
            {'div[abstract]' if is_annotated else 'note[other]'},
            'elements of %r in %r' % (line, lines)
        )

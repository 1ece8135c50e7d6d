"""P22: the complex matcher annotates verbatim values, according to the matching flags."""
import itertools
import os

from lxml import etree

from mc.core import check_equal
from mc.checks.p02 import all_tokens, char_elements
from mc.checks.p07 import load_document, short_path
from mc.pipelines import PIPELINES, Workspace, parse
from mc.targets import jats

from sciencebeam_trainer_grobid_tools.core.annotation.fuzzy_match import FuzzyMatchResult
from sciencebeam_trainer_grobid_tools.core.annotation.matching_annotator import MatchingAnnotator
from sciencebeam_trainer_grobid_tools.core.annotation.target_annotation import TargetAnnotation

PROPERTY = 'P22'
LEVEL = 'model_checking'
ASSUMPTIONS = [
    'the words of different values and of the other text share no characters',
    'a value spread over lines occurs once only, starting with a line of its own',
    'the alignment of sciencebeam_alignment itself is trusted, only its use is explored'
]
STATE = 'tags of a document annotated by the complex matcher'
TRANSITION = 'a target value searched in the document'

WORDS = {
    'A': ['abcdef', 'ghijkl'], 'B': ['mnopqr', 'stuv'], 'F': ['000', '11'], 'T': ['22222'],
    'a': ['abcdef'], 'g': ['ghijkl'], 'm': ['mnopqr'], 's': ['stuv'],
    # the same value, different case
    'C': ['ABCdef', 'Ghijkl'],
    'S': ['wxyzwxyz'],
}
VALUES = {'A': ['abcdef', 'ghijkl'], 'B': ['mnopqr', 'stuv'], 'S': ['wxyzwxyz']}

# (field, value, match multiple)
SINGLE_TARGETS = [
    [('f', 'A', False)], [('f', 'A', True)],
    [('f', 'A', False), ('g', 'B', False)], [('g', 'B', False), ('f', 'A', False)],
    [('f', 'A', False), ('g', 'A', False)], [('f', 'A', True), ('g', 'B', True)],
    [('f', 'A', False), ('f', 'A', False)], [('f', 'A', True), ('g', 'A', False)],
]
# a value of a single word, next to other values
WORD_TARGETS = [
    [('f', 'A', False), ('g', 'S', False)], [('g', 'S', False), ('f', 'A', False)],
    [('f', 'A', True), ('g', 'S', True)], [('g', 'S', True)],
]
ATOMS = ['A', 'F', '/', 'B', 'T', 'C', '/a/g/', '/m/s/']
MAX_GAPS = [5, 1, 0]
# lines between two matches of a value
DEFAULT_MAX_GAP = 5
LONG_GAPS = {'quick': [10, 60], 'thorough': [10, 60, 300]}


def BOUNDS(tier):
    return {
        'documents': 'all sequences of up to %d of %d parts' % (_length(tier), len(ATOMS)),
        'long documents': 'values after up to %d lines' % LONG_GAPS[tier][-1],
        'targets': SINGLE_TARGETS,
        'lists of values': 'all sequences of up to %d parts and gaps, bonding or not' % (
            _list_length(tier)),
        'single words': 'all sequences of up to 4 of A, S, F, T and line breaks',
        'values spread over lines': '1 to %d words, all line breaks' % _spread_words(tier),
        'require next': 'same documents, next target or another one',
        'sub annotations': 'all ranges of words',
        'fuzzy match results': 'all alignments of texts of up to %d characters, all splits' % (
            _text_length(tier)),
        'tool': 'header --matcher complex: up to %d lines of 4 kinds' % _line_length(tier)
    }


def _length(tier):
    return 4 if tier == 'quick' else 5


def _list_length(tier):
    return 5 if tier == 'quick' else 7


def _spread_words(tier):
    return 4 if tier == 'quick' else 6


def _text_length(tier):
    return 4 if tier == 'quick' else 5


def _line_length(tier):
    return 4 if tier == 'quick' else 5


def cases(tier):
    for length in range(1, _length(tier) + 1):
        for atoms in itertools.product(ATOMS, repeat=length):
            doc = ''.join(atoms)
            if ('a/g' in doc and (doc.count('a/g') > 1 or 'A' in doc or 'C' in doc)) or (
                'm/s' in doc and (doc.count('m/s') > 1 or 'B' in doc)
            ):
                continue
            yield ['single', doc]
    # values far away from the start, and from each other
    for gap, before, first, second, end in itertools.product(
        LONG_GAPS[tier], ['', 'F', '/'], ['A', '/a/g/', 'C'], ['', 'A', 'B', '/m/s/'], ['', '/F']
    ):
        if not (first == '/a/g/' and second == 'A'):
            yield ['single', before + 'F/' * gap + first + '/F' * gap + '/' + second + end]
    for length in range(1, 5):
        for atoms in itertools.product('ASFT/', repeat=length):
            if 'S' in atoms:
                yield ['word', ''.join(atoms)]
    for count in range(1, _spread_words(tier) + 1):
        for lengths in itertools.product([6, 9], repeat=count):
            for breaks in itertools.product([0, 1], repeat=count - 1):
                yield ['spread', list(lengths), list(breaks)]
    for length in range(1, _list_length(tier) + 1):
        for atoms in itertools.product(['A', 'B', 'F', '/'], repeat=length):
            yield ['list', ''.join(atoms)]
    for gap in range(5, 9):
        for pair in ('AB', 'BA'):
            yield ['list', pair[0] + '/' + 'F/' * gap + pair[1]]
    for length in range(1, 5):
        for atoms in itertools.product(['A', 'B', 'F', '/'], repeat=length):
            yield ['next', ''.join(atoms)]
    for words in range(1, 5):
        for breaks in itertools.product([0, 1], repeat=words - 1):
            yield ['sub', words, list(breaks)]
    for size_a in range(1, _text_length(tier) + 1):
        for size_b in range(1, _text_length(tier) + 1):
            for blocks in alignments(size_a, size_b):
                yield ['fuzzy', size_a, size_b, blocks]
    for length in range(1, _line_length(tier) + 1):
        for lines in itertools.product('TBDU', repeat=length):
            yield ['tool', ''.join(lines)]


def run(case, ctx):
    {
        'single': run_single, 'word': run_word, 'spread': run_spread, 'list': run_list, 'next': run_next, 'sub': run_sub,
        'fuzzy': run_fuzzy, 'tool': run_tool
    }[case[0]](case, ctx)


class Document:
    def __init__(self, parts):
        self.words = []
        self.tags = []
        self.lines = [[]]
        for part in parts:
            if part == '/':
                self.lines.append([])
                continue
            for word in WORDS[part]:
                if part != 'T':
                    # other tokens are not considered
                    self.lines[-1].append(len(self.words))
                self.words.append(word)
                self.tags.append('t' if part == 'T' else None)
        self.lines = [line for line in self.lines if line]
        self.document = load_document(' '.join(
            '<lb/>' if part == '/' else ' '.join(WORDS[part]) for part in parts
        ))
        self.tokens = all_tokens(self.document)
        for token, tag in zip(self.tokens, self.tags):
            if tag:
                self.document.set_tag(token, tag)

    def annotate(self, targets, **kwargs):
        MatchingAnnotator(targets, **kwargs).annotate(self.document)
        return [self.document.get_tag(token) for token in self.tokens]

    def sub_sequences(self):
        """(line number, tokens without tag)"""
        for number, line in enumerate(self.lines):
            for is_tagged, group in itertools.groupby(
                line, key=lambda i: self.tags[i] is not None
            ):
                if not is_tagged:
                    yield number, list(group)

    def matches(self, value):
        """(line number, tokens) of the first match of each part of a line"""
        sequences = list(self.sub_sequences())
        for (number, sequence), (_, following) in zip(sequences, sequences[1:] + [(None, [])]):
            for start in range(len(sequence)):
                candidate = sequence[start:start + len(value)]
                if [self.words[i].lower() for i in candidate] == value:
                    yield number, candidate
                    break
            else:
                if [self.words[i].lower() for i in sequence + following] == value:
                    yield number, sequence + following

    def set_tags(self, tokens, tag, with_prefix):
        for position, token in enumerate(sorted(tokens)):
            prefix = ('i-' if position else 'b-') if with_prefix else ''
            self.tags[token] = prefix + tag


def run_single(case, ctx):
    run_targets(case, SINGLE_TARGETS, ctx)


def run_word(case, ctx):
    run_targets(case, WORD_TARGETS, ctx)


SPREAD_LETTERS = (
    'abcdefghijklmnopqrstuvwxyz\u03b1\u03b2\u03b3\u03b4\u03b5\u03b6\u03b7\u03b8\u03b9\u03ba\u03bb'
    '\u03bc\u03bd\u03be\u03bf\u03c0\u03c1\u03c3\u03c4\u03c5\u03c6\u03c7\u03c8\u03c9'
    '\u0431\u0432\u0433\u0434'
)


def run_spread(case, ctx):
    """a value spread over any number of lines, starting with a line"""
    _, lengths, breaks = case
    words = []
    for length in lengths:
        start = sum(map(len, words))
        words.append(SPREAD_LETTERS[start:start + length])
    text = words[0] + ''.join(
        ('<lb/>' if is_break else ' ') + word for is_break, word in zip(breaks, words[1:])
    )
    for before, after in itertools.product(
        [[], ['000', '11', '/']], [[], ['/', '000'], ['000', '11'], ['000', '/', '11']]
    ):
        for multiple in (False, True):
            document = load_document(''.join(
                [word.replace('/', '<lb/>') + ' ' for word in before] + [text]
                + [' ' + word.replace('/', '<lb/>') for word in after]
            ))
            MatchingAnnotator(
                [TargetAnnotation(' '.join(words), 'f', match_multiple=multiple)],
                use_tag_begin_prefix=True
            ).annotate(document)
            actual = [document.get_tag(token) for token in all_tokens(document)]
            ctx.step()
            ctx.trace()
            ctx.state([text, before, after, actual])
            check_equal(
                actual,
                [None] * len([word for word in before if word != '/'])
                + ['b-f'] + ['i-f'] * (len(words) - 1)
                + [None] * len([word for word in after if word != '/']),
                'tags of %r between %r and %r (match multiple: %s)' % (
                    text, before, after, multiple)
            )


def run_targets(case, all_targets, ctx):
    for targets in all_targets:
        for with_prefix in (True, False):
            document = Document(case[1])
            actual = document.annotate([
                TargetAnnotation(' '.join(VALUES[value]), field, match_multiple=multiple)
                for field, value, multiple in targets
            ], use_tag_begin_prefix=with_prefix)
            for field, value, multiple in targets:
                # the remaining matches are those after the previous one, unless too far away
                found = []
                for number, tokens in list(document.matches(VALUES[value])):
                    if found and number - found[-1] > DEFAULT_MAX_GAP + 1:
                        continue
                    found.append(number)
                    document.set_tags(tokens, field, with_prefix)
                    if not multiple:
                        break
            ctx.step(len(targets))
            ctx.trace()
            ctx.state([case[1], actual])
            check_equal(actual, document.tags, 'tags of %r (targets: %r)' % (case[1], targets))


def run_list(case, ctx):
    for values, bonding, max_gap, field in itertools.product(
        ['AB', 'BA'], [True, False], MAX_GAPS, ['f', 'author', 'co-author']
    ):
        document = Document(case[1])
        actual = document.annotate([TargetAnnotation(
            [' '.join(VALUES[value]) for value in values], field, bonding=bonding
        )], max_gap=max_gap, use_tag_begin_prefix=True)
        found = []
        for value in values:
            for number, tokens in document.matches(VALUES[value]):
                if not max_gap or not found or any(
                    abs(number - other) <= max_gap + 1 for other, _ in found
                ):
                    found.append((number, tokens))
                    break
        # all values of an author are optional
        if not bonding or len(found) > 1 or field == 'author':
            document.set_tags([i for _, tokens in found for i in tokens], field, True)
        ctx.step(len(values))
        ctx.trace()
        ctx.state([case[1], actual])
        check_equal(actual, document.tags, 'tags of %r (values: %s, bonding: %s, gap: %d)' % (
            case[1], values, bonding, max_gap
        ))


def run_next(case, ctx):
    for has_other in (False, True):
        document = Document(case[1])
        actual = document.annotate(
            [TargetAnnotation(' '.join(VALUES['A']), 'f', require_next=True)]
            + ([TargetAnnotation('xxx yyy', 'h')] if has_other else [])
            + [TargetAnnotation(' '.join(VALUES['B']), 'g')],
            use_tag_begin_prefix=True
        )
        first = next(document.matches(VALUES['A']), None)
        second = next(document.matches(VALUES['B']), None)
        if first and second and not has_other and abs(first[0] - second[0]) <= 1:
            document.set_tags(first[1], 'f', True)
        if second:
            document.set_tags(second[1], 'g', True)
        ctx.step(2)
        ctx.trace()
        ctx.state([case[1], actual])
        check_equal(actual, document.tags, 'tags of %r (target in between: %s)' % (
            case[1], has_other))


def run_sub(case, ctx):
    _, count, breaks = case
    words = ['abcdef', 'ghijkl', 'mnopqr', 'stuvwx'][:count]
    text = words[0] + ''.join(
        ('<lb/>' if is_break else ' ') + word for is_break, word in zip(breaks, words[1:])
    )
    ranges = list(itertools.combinations(range(count + 1), 2))
    for first, second in itertools.product(ranges, [None] + ranges):
        if second and not (first[1] <= second[0] or second[1] <= first[0]):
            continue
        document = load_document('000 11<lb/>' + text + '<lb/>000')
        MatchingAnnotator([TargetAnnotation(' '.join(words), 'f', sub_annotations=[
            TargetAnnotation(' '.join(words[start:end]), 'f-' + name)
            for name, (start, end) in zip('pq', [first] + ([second] if second else []))
        ])], use_tag_begin_prefix=True).annotate(document)
        tokens = all_tokens(document)
        tags = [document.get_tag(token) for token in tokens]
        check_equal(
            tags, [None] * 2 + ['b-f'] + ['i-f'] * (count - 1) + [None], 'tags of ' + text)
        expected = [None] * len(tokens)
        for name, index_range in zip('pq', [first, second]):
            for i in range(*(index_range or (0, 0))):
                expected[2 + i] = ('b-f-' if i == index_range[0] else 'i-f-') + name
        actual = [document.get_sub_tag(token) for token in tokens]
        ctx.step(2 if second else 1)
        ctx.trace()
        ctx.state([text, actual])
        check_equal(actual, expected, 'sub tags of %s (%r, %r)' % (text, first, second))


def alignments(size_a, size_b):
    """all sequences of matching blocks, separated in a or b"""
    def extend(start_a, start_b, is_first):
        yield []
        for a in range(start_a, size_a):
            for b in range(start_b, size_b):
                if not is_first and a == start_a and b == start_b:
                    continue
                for size in range(1, min(size_a - a, size_b - b) + 1):
                    for rest in extend(a + size, b + size, False):
                        yield [[a, b, size]] + rest
    return extend(0, 0, True)


def run_fuzzy(case, ctx):
    """splitting a match at any position loses nothing, ratios are those of the matches"""
    _, size_a, size_b, blocks = case
    a = [None] * size_a
    b = [None] * size_b
    letters = iter('abcdefghij')
    for start_a, start_b, size in blocks:
        for i in range(size):
            a[start_a + i] = b[start_b + i] = next(letters)
    a = ''.join(c or 'x' for c in a)
    b = ''.join(c or 'y' for c in b)
    # repeated letters are junk, as far as they did not match
    unmatched_junk = {
        'a': [i for i in range(1, size_a) if a[i - 1:i + 1] == 'xx'],
        'b': [i for i in range(1, size_b) if b[i - 1:i + 1] == 'yy'],
    }
    result = FuzzyMatchResult(a, b, [tuple(block) for block in blocks])
    matched = {
        'a': [i for start, _, size in blocks for i in range(start, start + size)],
        'b': [i for _, start, size in blocks for i in range(start, start + size)],
    }
    count = len(matched['a'])
    what = 'of %r and %r' % (a, b)
    ctx.step()
    ctx.state([a, b, blocks])
    check_equal(result.match_count(), count, 'match count ' + what)
    check_equal(result.has_match(), bool(count), 'has match ' + what)
    index_range = {
        key: (values[0], values[-1] + 1) if values else (0, 0) for key, values in matched.items()
    }
    check_equal(result.a_index_range(), index_range['a'], 'range a ' + what)
    check_equal(result.b_index_range(), index_range['b'], 'range b ' + what)

    def ratio(size):
        return count / size if size else 0.0

    check_equal(result.a_ratio(), ratio(size_a - len(unmatched_junk['a'])), 'a_ratio ' + what)
    check_equal(result.b_ratio(), ratio(size_b - len(unmatched_junk['b'])), 'b_ratio ' + what)
    # unmatched characters within the range of a are added
    gaps = index_range['a'][1] - index_range['a'][0] - count
    junk_in_range = len([
        i for i in unmatched_junk['a'] if index_range['a'][0] <= i < index_range['a'][1]
    ])
    check_equal(
        result.b_gap_ratio(), ratio(size_b + gaps - junk_in_range - len(unmatched_junk['b'])),
        'b_gap_ratio ' + what
    )
    for key, text, split in (('a', a, result.a_split_at), ('b', b, result.b_split_at)):
        for index in range(1, len(text)):
            before, after = split(index)
            ctx.step()
            pairs = list(zip(matched['a'], matched['b']))
            position = 'ab'.index(key)
            for part, expected, offset in (
                (before, [p for p in pairs if p[position] < index], 0),
                (after, [p for p in pairs if p[position] >= index], index)
            ):
                part_what = 'of %r split at %d (%s), %s' % (
                    text, index, 'after' if offset else 'before', what)
                check_equal(getattr(part, key), text[index:] if offset else text[:index],
                            'text ' + part_what)
                check_equal(part.match_count(), len(expected), 'match count ' + part_what)
                actual_range = getattr(part, key + '_index_range')()
                expected_range = (
                    expected[0][position] - offset, expected[-1][position] + 1 - offset
                ) if expected else (0, 0)
                check_equal(actual_range, expected_range, 'range ' + part_what)


LINES = {
    'T': ('Abcdef ghijkl', 'docTitle/titlePart'),
    'B': ('Mnopqr stuvwx', 'div[abstract]'),
    'D': ('\u03b1\u03b2\u03b3\u03b4\u03b5 \u03b6\u03b7\u03b8\u03b9', 'note[doi]'),
    'U': ('000 1111', 'note[other]'),
}


def run_tool(case, ctx):
    pipeline = PIPELINES['header']
    workspace = Workspace(ctx.new_dir(), pipeline)
    workspace.add(
        '<lb/>\n'.join(LINES[kind][0] for kind in case[1]),
        jats(
            title=LINES['T'][0], abstract=LINES['B'][0],
            meta='<article-id pub-id-type="doi">%s</article-id>' % LINES['D'][0]
        )
    )
    debug_file = os.path.join(workspace.path, 'debug.csv')
    options = ['--debug-match', debug_file] if 'U' in case[1] else []
    workspace.main('--matcher', 'complex', '--no-preserve-tags', *options)
    root = parse(workspace.output_bytes())
    chars = char_elements(pipeline.container(root))
    ctx.step(3)
    ctx.state([(c, short_path(path)) for c, path, _ in chars])
    position = 0
    seen = set()
    for kind in case[1]:
        text, path = LINES[kind]
        text = ''.join(text.split())
        part = chars[position:position + len(text)]
        position += len(text)
        check_equal(''.join(c for c, _, _ in part), text, 'text')
        check_equal(
            {short_path(p) for _, p, _ in part}, {path if kind not in seen else LINES['U'][1]},
            'elements of %s in %s' % (kind, case[1])
        )
        seen.add(kind)
    check_equal(position, len(chars), 'length of %s' % etree.tostring(root))

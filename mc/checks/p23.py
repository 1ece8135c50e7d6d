"""P23: configured headings, labels and spellings of a value become part of its annotation."""
import itertools
import re

from mc.core import check_equal
from mc.checks.p02 import char_elements
from mc.checks.p07 import short_path
from mc.pipelines import PIPELINES, Workspace, parse
from mc.targets import esc, jats

PROPERTY = 'P23'
LEVEL = 'model_checking'
ASSUMPTIONS = [
    'labels of several characters are next to the value (elsewhere, they are found by themselves)',
    'the words before a label do not end with it',
    'the values of different fields share no characters, and are not extended to the whole line',
    'no other annotation is between the label (heading) and the value'
]
STATE = 'annotated text of a document'
TRANSITION = 'a value found in the document'

VALUES = [
    'Qwerty uiop', '\u0431\u0432\u0433\u0434\u0436 \u0437\u0438\u0439\u043a\u043b',
    '\u03b1\u03b2\u03b3\u03b4\u03b5 \u03b6\u03b7\u03b8\u03b9'
]
ABSTRACT = 'Lkjhgf dszx'
LABELS = ['1', '2', 'a', '*', '\u2020', 'B', '+', '3']
# separators between the label and the affiliation
LONG_LABELS = ['10', '42', 'ab', '123', '1a', 'Fn', '**']
MANY = {'quick': [3, 12], 'thorough': [3, 12, 26, 60]}
NEAR = [' ', '.', '. ', ' - ', '\n', '.\n', ' .. ', '-.']
FAR = [', ', ' (', ' 77 ', ': ', ')\n']
BEFORE = ['', '000 77\n', '000 77 ', '\n', '000;', '77 (']
HEADINGS = {
    # text, and what belongs to the abstract if followed by it
    'Abstract': 'Abstract', 'ABSTRACT': 'ABSTRACT', 'Summary': 'Summary',
    '77 abstract': 'abstract', 'Summary\nAbstract': 'Abstract', 'Abstract Summary': 'Summary',
    'Abstract:': '', 'Abstract.': '', 'Summary 77': '', 'Abstracts': '', 'Abstra': '', '77': '',
    'Summary\n77': '', 'Summary -': '', '': '',
}
HEADING_SEPARATORS = [' ', '\n', '\n\n', ' \n']
OPTIONS = ['--xml-mapping-overrides', 'abstract.extend-to-line=false|author_aff.extend-to-line=false']
AFFILIATION = 'byline/affiliation'
# layouts of the list of spellings, of two values: {0}: first value, {1}, {2}: its spellings, ...
SPELLINGS = [
    '{0}={1},{2}\n{3}={4}', '\n  {0}={1},{2}\n  {3}={4}\n', '{0} = {1},{2}\n\n {3} = {4}',
    '{3}={4}\n{0}={1},{2}', '{3} ={4} \n\n{0}= {1},{2}', '{0} = {1}, {2}\n{3} = {4}',
    '{0}={1} , {2}\n{3}={4}', '{0}={1}', '{3}={4}', '',
    '{0}={2},{1}\n{3}={4}', '{3}={4},{5}\n{0}={6},{1},{7},{2}', '{0}={2},{7},{1},{6}',
]
SPELLING_WORDS = [
    VALUES[0], 'Zxcv bnm', 'GGGG', VALUES[1], '\u044b\u044c\u044d\u044e \u044f\u0449',
    '0000 888', 'KKKK LLL', 'FFFF DDDD'
]


def BOUNDS(tier):
    return {
        'labels': LABELS + LONG_LABELS,
        'number of affiliations': MANY[tier],
        'separators': NEAR + FAR,
        'affiliations': 'one with all labels, separators, text before; two with own label, that '
                        'of the other one or none' + ('' if tier == 'quick' else '; three'),
        'headings of the abstract': sorted(HEADINGS),
        'tools': ['header', 'affiliation_address (segmenting affiliations)']
    }


def cases(tier):
    # label in the target, label in the text, separator
    for tool in ('header', 'affiliation_address'):
        for own, separator in itertools.product(LABELS, NEAR + FAR):
            for actual in [own] + [x for x in LABELS if x != own]:
                for before in BEFORE:
                    if tier == 'quick' and actual != own and (before or separator != ' '):
                        continue
                    yield [tool, before, [[own, actual, separator]], '']
            yield [tool, '000 77 ', [['', own, separator]], '']
            yield [tool, '000 77\n', [[own, '', '']], '']
        kinds = [
            [own, actual, separator]
            for own in ('1', '')
            for actual in ('1', 'x', '')
            for separator in ((' ', '. ', ', ') if actual else ('',))
        ]
        for count in (2, ) if tier == 'quick' else (2, 3):
            for affiliations in itertools.product(kinds, repeat=count):
                for order in ((0, 1), (1, 0)) if count == 2 else ((0, 1, 2), (2, 0, 1)):
                    if not is_specified(affiliations, order):
                        continue
                    yield [
                        tool, '000 77\n',
                        [list(affiliation) for affiliation in affiliations], list(order)
                    ]
        # labels of more than one character
        for own, separator, before in itertools.product(LONG_LABELS, NEAR, BEFORE):
            yield [tool, before, [[own, own, separator]], '']
        # a number of affiliations, labelled 1, 2, ... or a, b, ...
        for count, kind, order, separator in itertools.product(
            MANY[tier], ('1', 'a'), ('forward', 'reverse'), (' ', '. ', ', ')
        ):
            if not (kind == 'a' and count > 26) and (separator in NEAR or count < 10):
                yield ['many', tool, count, kind, order, separator]
    for heading, separator, before, with_affiliation in itertools.product(
        sorted(HEADINGS), HEADING_SEPARATORS, BEFORE, (False, True)
    ):
        yield ['abstract', before, heading, separator, with_affiliation]
    yield from spelling_cases(tier)


def spelling_cases(tier):
    for layout in range(len(SPELLINGS)):
        used = [i for i in range(8) if i < 6 or '{%d}' % i in SPELLINGS[layout]]
        for first in used + [None]:
            for second in used + [None]:
                for targets in ([0], [3], [0, 3], [3, 0]):
                    for kind in range(3 if tier == 'thorough' or len(targets) == 1 else 1):
                        yield ['spelling', layout, [first, second], targets, kind]


def is_specified(affiliations, order):
    """a label of another affiliation only after that one (with its label)"""
    for number, (_, actual, _) in enumerate(affiliations):
        owner = (number + 1) % len(affiliations)
        if actual == 'x' and affiliations[owner][0] and (
            affiliations[owner][1:] != ['1', ' '] or order.index(owner) > order.index(number)
        ):
            return False
    return True


def text_parts(before, affiliations, order):
    """[(text, number of the affiliation or None)] and the targets"""
    targets = []
    labels = []
    for number, (own, actual, _) in enumerate(affiliations):
        # the labels of several affiliations differ
        if own and number:
            own = (LABELS + ['5', '6'])[(LABELS.index(own) + number) % 10]
        labels.append(own)
        # either as an element, or as text
        content = '<institution>%s</institution>' if number % 2 == 0 else '%s'
        targets.append(
            ('<label>%s</label>' % esc(own) if own else '') + content % VALUES[number]
        )
    parts = [(before, None)]
    for number in order or range(len(affiliations)):
        own, actual, separator = affiliations[number]
        if len(affiliations) > 1 and actual:
            # 'x': label of another affiliation
            actual = labels[(number + (actual == 'x')) % len(labels)] or '9'
        is_own = actual and actual == labels[number] and separator in NEAR
        parts.append((actual + separator, number if is_own else None))
        parts.append((VALUES[number], number))
        parts.append(('\n', None))
    return parts, targets


def run_many(case, ctx):
    _, tool, count, kind, order, separator = case
    labels = [str(i + 1) if kind == '1' else 'abcdefghijklmnopqrstuvwxyz'[i] for i in range(count)]
    # values without common characters
    values = [
        ''.join(chr(0x4e00 + 12 * i + j) for j in range(6)) + ' '
        + ''.join(chr(0x4e00 + 12 * i + j) for j in range(6, 12)) for i in range(count)
    ]
    parts = [('000 77\n', None)]
    for i in range(count) if order == 'forward' else reversed(range(count)):
        parts += [
            (labels[i] + separator, i if separator in NEAR else None), (values[i], i), ('\n', None)
        ]
    run_parts(tool, parts, [
        '<label>%s</label><institution>%s</institution>' % pair for pair in zip(labels, values)
    ], ctx)


def check_parts(container, parts, expected_path, what, ctx):
    chars = char_elements(container)
    ctx.state([(c, short_path(path)) for c, path, _ in chars])
    position = 0
    elements = {}
    for text, number in parts:
        text = ''.join(text.split())
        part = chars[position:position + len(text)]
        position += len(text)
        check_equal(''.join(c for c, _, _ in part), text, 'text of ' + what)
        for c, path, element in part:
            path = short_path(path)
            if number is None:
                check_equal(path.startswith(expected_path), False, '%r annotated in %s' % (
                    text, what))
                continue
            check_equal(path.startswith(expected_path), True, '%r not annotated in %s' % (
                text, what))
            while element.getparent() is not None and not short_path(
                [(element.tag, tuple(sorted(element.attrib.items())))]
            ) == expected_path.split('/')[-1]:
                element = element.getparent()
            elements.setdefault(number, []).append(element)
    check_equal(position, len(chars), 'length of ' + what)
    for number, found in elements.items():
        check_equal(len(set(map(id, found))), 1, 'number of elements of %d in %s' % (
            number, what))
    check_equal(
        len({id(found[0]) for found in elements.values()}), len(elements),
        'separate elements of ' + what
    )


def source(parts):
    return esc(''.join(text for text, _ in parts)).replace('\n', '<lb/>\n')


def run(case, ctx):
    if case[0] == 'abstract':
        run_abstract(case, ctx)
        return
    if case[0] == 'spelling':
        run_spelling(case, ctx)
        return
    if case[0] == 'many':
        run_many(case, ctx)
        return
    tool, before, affiliations, order = case
    parts, targets = text_parts(before, affiliations, order)
    run_parts(tool, parts, targets, ctx)


def run_parts(tool, parts, targets, ctx):
    pipeline = PIPELINES[tool]
    workspace = Workspace(ctx.new_dir(), pipeline)
    workspace.add(source(parts), jats(affs=targets))
    workspace.main(*OPTIONS, *(
        ['--segment-affiliation'] if tool == 'affiliation_address' else []
    ))
    container = pipeline.container(parse(workspace.output_bytes()))
    ctx.step(len(targets))
    ctx.trace()
    check_parts(
        container, parts, AFFILIATION if tool == 'header' else 'affiliation',
        '%r (targets: %r)' % (source(parts), targets), ctx
    )


def run_abstract(case, ctx):
    _, before, heading, separator, with_affiliation = case
    included = HEADINGS[heading]
    parts = [(before, None)]
    if heading:
        parts += [
            (heading[:len(heading) - len(included)], None), (included, 0 if included else None),
            (separator, None)
        ]
    parts += [(ABSTRACT, 0), ('\n', None)]
    if with_affiliation:
        parts += [('1 ' + VALUES[0], None), ('\n', None)]
    pipeline = PIPELINES['header']
    workspace = Workspace(ctx.new_dir(), pipeline)
    workspace.add(source(parts), jats(
        abstract=ABSTRACT, affs=['<label>1</label>' + VALUES[0]] if with_affiliation else []
    ))
    workspace.main(*OPTIONS)
    container = pipeline.container(parse(workspace.output_bytes()))
    ctx.step()
    ctx.trace()
    check_parts(container, parts, 'div[abstract]', repr(source(parts)), ctx)


def spellings_of(layout):
    """{number of the value: numbers of its spellings, in order of preference}"""
    return {
        value: [value] + [
            int(number)
            for line in SPELLINGS[layout].splitlines() if line.strip().startswith('{%d}' % value)
            for number in re.findall(r'\d', line.split('=')[1])
        ] for value in (0, 3)
    }


def run_spelling(case, ctx):
    _, layout, words, targets, kind = case
    spellings = spellings_of(layout)
    annotated = {}
    for target in targets:
        for word in spellings[target]:
            # the first place of the most preferred spelling
            if word in words and target not in annotated.values():
                annotated[words.index(word)] = target
    parts = [('777\n', None)]
    for index, word in enumerate(words):
        if word is not None:
            parts += [(SPELLING_WORDS[word], annotated.get(index)), ('\n', None)]
    parts.append(('777\n', None))
    pipeline = PIPELINES['header']
    workspace = Workspace(ctx.new_dir(), pipeline)
    workspace.add(source(parts), jats(affs=[
        ['%s', '<institution>%s</institution>', '<label>5</label><country>%s</country>'][kind]
        % SPELLING_WORDS[target] for target in targets
    ]))
    workspace.main(
        '--xml-mapping-overrides', '|'.join([
            OPTIONS[-1], 'author_aff.match-multiple=false',
            'author_aff.alternative-spellings=' + SPELLINGS[layout].format(*SPELLING_WORDS)
        ])
    )
    container = pipeline.container(parse(workspace.output_bytes()))
    ctx.step(len(targets))
    ctx.trace()
    check_parts(
        container, parts, AFFILIATION,
        '%r (targets %r of %r)' % (source(parts), targets, SPELLINGS[layout]), ctx
    )

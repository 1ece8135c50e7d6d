"""P16: the annotations within a reference are joined and extended as configured."""
import itertools
import re

from mc.core import check_equal
from mc.pipelines import PIPELINES, Workspace, parse, local_name
from mc.targets import jats, esc

PROPERTY = 'P16'
LEVEL = 'model_checking'
ASSUMPTIONS = [
    'the values within a reference are distinct and occur verbatim (see P07 for the matching)'
]
STATE = 'elements of a reference written by the tool'
TRANSITION = 'a value of a reference annotated'

# unit: (JATS element, output element, values of its first, second, third occurrence)
UNITS = {
    'a': ('<string-name>%s</string-name>', 'author', ['Alphaname', 'Betaname', 'Kuhn']),
    'e': (
        '<person-group person-group-type="editor"><string-name>%s</string-name></person-group>',
        'editor', ['Editorson', 'Fisher', 'Quirk']
    ),
    't': ('<etal>%s</etal>', 'etal', ['et al', 'and others', 'u.a']),
    'y': ('<year>%s</year>', 'date', ['2001', '1999', '1888']),
    'p': ('<fpage>%s</fpage>', 'page', ['123', '456', 'e789']),
    'l': ('<lpage>%s</lpage>', 'page', ['130', '460', 'e800']),
    'i': ('<issue>%s</issue>', 'issue', ['44', '66', '88']),
    'v': ('<volume>%s</volume>', 'volume', ['55', '77', '99']),
    'd': ('<pub-id pub-id-type="doi">%s</pub-id>', 'DOI',
          ['10.1234/abc', '10.9999/xyzxyz', '10.7777/mmm']),
    'b': ('<pub-id pub-id-type="pii">%s</pub-id>', 'PII',
          ['S0140673605', 'B9988776655', 'T1122334455']),
    'm': ('<pub-id pub-id-type="pmid">%s</pub-id>', 'PMID', ['31415926', '27182818', '16180339']),
    's': ('<source>%s</source>', 'j', ['Journal', 'Zeitung', 'Revue']),
}
# other values, in combination with those above
MORE_UNITS = {
    'n': ('<issn>%s</issn>', 'ISSN', ['1234-5679', '2345-6780', '3456-7891']),
    'k': ('<isbn>%s</isbn>', 'ISBN', ['9780306406157', '9781402894626', '9783161484100']),
    'c': ('<pub-id pub-id-type="pmcid">%s</pub-id>', 'PMC', ['PMC5555555', 'PMC6666666', 'PMC8888888']),
    'x': ('<pub-id pub-id-type="arXiv">%s</pub-id>', 'arxiv', ['1501.00001', '1602.00002', '1703.00003']),
    'h': ('<article-title>%s</article-title>', 'a', ['Heading', 'Kopfzeile', 'Titre']),
    'u': ('<publisher-name>%s</publisher-name>', 'publisher', ['Verlag', 'Press', 'Maison']),
    'o': ('<publisher-loc>%s</publisher-loc>', 'pubPlace', ['London', 'Berlin', 'Paris']),
    'w': ('<ext-link>%s</ext-link>', 'web',
          ['http://first.org/fff', 'http://second.org/sss', 'http://third.org/ttt']),
}
UNITS.update(MORE_UNITS)
IDS = {'DOI', 'PII', 'PMID', 'ISSN', 'ISBN', 'PMC', 'arxiv'}
# of references with many values: names
for _number, _unit in enumerate('ae'):
    UNITS[_unit][2].extend(
        ''.join(chr(0x4e00 + 1000 * _number + 20 * n + i) for i in range(6)) for n in range(20)
    )
MANY = [5, 12]
ELEMENTS = {
    'author': ('author', None), 'editor': ('editor', None), 'date': ('date', None),
    'page': ('biblScope', 'page'), 'issue': ('biblScope', 'issue'),
    'volume': ('biblScope', 'volume'), 'DOI': ('idno', 'DOI'), 'PII': ('idno', 'PII'),
    'PMID': ('idno', 'PMID'), 'j': ('title', 'j'), 'ISSN': ('idno', 'ISSN'),
    'ISBN': ('idno', 'ISBN'), 'PMC': ('idno', 'PMC'), 'arxiv': ('idno', 'arxiv'),
    'a': ('title', 'a'), 'publisher': ('publisher', None), 'pubPlace': ('pubPlace', None),
    'web': ('ptr', 'web'),
}
JOINED = {'author', 'editor', 'issue', 'page'}
NAMES = {'author', 'editor'}

GAPS = [
    ', ', '. ', ' ', '-', ' . ', ' word ', ' doi: ', ' DOI ', ' PMID: ', ' pii:', '. doi:',
    '.,', ' X: ', ' (Doi: ', ' doi, ', ' doi :', ' PMID word: ', '\n', ',\nDOI:\n'
]
FEW_GAPS = [', ', '. ', ' word ', ' doi: ']
LEADS = ['', 'word ', 'doi: ', '. ', 'PMID ', 'zz. ']
# gaps in front of ids
ID_GAPS = [' xdoi: ', ' npii:', ' pii ', ' PII: ', ' pii :', ' ISSN ', ' arXiv:', ' PMCID: ', ' of ',
           ' doi. ', ' PII- ', ' doi pii: ', ' a: ', ' doi pii ']
TRAILS = ['', '.', ' word.', '. word', ' doi:']


def BOUNDS(tier):
    return {
        'values': 'all %d kinds, %d of them in fewer combinations' % (len(UNITS), len(MORE_UNITS)),
        'two values': 'all pairs x %d gaps x %d leads, all pairs x %d gaps x %d trails' % (
            (len(GAPS), 2, len(GAPS), 2) if tier == 'quick'
            else (len(GAPS), len(LEADS), len(GAPS), len(TRAILS))),
        'three values': 'all triples x %d x %d gaps' % (
            (2, 2) if tier == 'quick' else (len(GAPS), len(GAPS))),
        'four values': 'none' if tier == 'quick' else 'joined kinds x 4 gaps each',
        'options': 'with and without --include-idno-prefix, with and without segmentation',
        'many names': MANY,
        'two references': 'all pairs of neighbouring values'
    }


def _tokens(text):
    return re.findall(r'\w+|[^\w\s]', text)


def model_reference(case, include_prefix):
    """list of [element or None, text without whitespace] of the reference"""
    lead, units, gaps, trail = case
    values = unit_values(units)
    # runs: [kind or None, tokens]
    runs = [[None, _tokens(lead)]]
    texts = [lead]
    for index, unit in enumerate(units):
        runs.append([UNITS[unit][1], _tokens(values[index])])
        gap = gaps[index] if index < len(gaps) else trail
        runs.append([None, _tokens(gap)])
        texts.append(gap)
    # et al. is part of the list of names it follows
    names = None
    for index in range(1, len(runs), 2):
        kind = runs[index][0]
        if kind in NAMES:
            names = kind
        elif kind == 'etal':
            runs[index][0] = names
            # an unused et al. is kept apart from the text around, although not written
            if not names:
                runs[index][0] = 'etal'
        if runs[index][0] not in NAMES:
            names = None
    # a full stop after names
    for index in range(1, len(runs), 2):
        if runs[index][0] in NAMES and runs[index + 1][1][:1] == ['.']:
            runs[index][1].append(runs[index + 1][1].pop(0))
    # labels of ids
    if include_prefix:
        for index in range(1, len(runs), 2):
            kind = runs[index][0]
            gap = runs[index - 1][1]
            size = label_size(kind, gap, texts[(index - 1) // 2])
            if size:
                runs[index][1] = gap[-size:] + runs[index][1]
                del gap[-size:]
    # same kind in sequence
    result = []
    for index, (kind, tokens) in enumerate(runs):
        if kind == 'etal':
            kind = None
        text = ''.join(tokens)
        if kind in JOINED:
            if result and result[-1][0] == kind:
                result[-1][1] += text
                continue
            if len(result) > 1 and result[-1][0] is None and result[-2][0] == kind and (
                index < 2 or runs[index - 2][0] == kind
            ):
                gap = result.pop()
                result[-1][1] += gap[1] + text
                continue
        if not text:
            continue
        if kind is None and result and result[-1][0] is None:
            result[-1][1] += text
            continue
        result.append([kind, text])
    return [[ELEMENTS.get(kind, (None, None)), text] for kind, text in result]


def label_size(kind, gap, text):
    """number of tokens of the gap that are the label of the id"""
    if not gap or kind not in IDS:
        return 0
    size = 1
    if gap[-1] == ':':
        size = 2
    if len(gap) < size:
        return 0
    word = gap[-size]
    if kind in ('DOI', 'PII'):
        return size if word.upper() == kind else 0
    return size if re.match(r'^[a-zA-Z]{2,}$', word) else 0


def unit_values(units):
    counts = {}
    result = []
    for unit in units:
        result.append(UNITS[unit][2][counts.get(unit, 0)])
        counts[unit] = counts.get(unit, 0) + 1
    return result


def render(case):
    """JATS reference and text"""
    lead, units, gaps, trail = case
    values = unit_values(units)
    gaps = gaps + [trail]
    source = esc(lead)
    text = lead
    for unit, value, gap in zip(units, values, gaps):
        source += UNITS[unit][0] % esc(value) + esc(gap)
        text += value + gap
    return (
        '<mixed-citation>%s</mixed-citation>' % source.replace('\n', ' '),
        esc(text).replace('\n', '<lb/>')
    )


def actual_references(data):
    container = PIPELINES['reference'].container(parse(data))
    result = []
    for bibl in container:
        if local_name(bibl) != 'bibl':
            continue
        parts = []

        def add(element, text):
            text = re.sub(r'\s', '', text or '')
            if not text:
                return
            if element is None and parts and parts[-1][0] == (None, None):
                parts[-1][1] += text
                return
            parts.append([element or (None, None), text])

        add(None, bibl.text)
        for child in bibl:
            if local_name(child) != 'lb':
                key = (
                    local_name(child),
                    child.get('type') or child.get('unit') or child.get('level')
                )
                add(key, ''.join(child.itertext()))
            add(None, child.tail)
        result.append(parts)
    return result


def cases(tier):
    units = [unit for unit in UNITS if unit not in MORE_UNITS]
    more = list(MORE_UNITS)
    ids = [unit for unit in UNITS if UNITS[unit][1] in IDS]
    leads, trails = (LEADS[1:3], TRAILS[:2]) if tier == 'quick' else (LEADS, TRAILS)
    for option in (0, 1):
        for unit in units:
            for lead in LEADS + GAPS:
                for trail in TRAILS:
                    yield [[[lead.strip('\n'), [unit], [], trail]], option]
        for pair in itertools.product(units, repeat=2):
            for gap in GAPS:
                for lead in leads:
                    yield [[[lead, list(pair), [gap], '.']], option]
                for trail in trails:
                    yield [[['', list(pair), [gap], trail]], option]
        for unit in more:
            for lead in LEADS + GAPS:
                for trail in TRAILS[:2]:
                    yield [[[lead.strip('\n'), [unit], [], trail]], option]
        for pair in list(itertools.product(more, units + more)) + list(
                itertools.product(units, more)):
            for gap in FEW_GAPS if tier == 'quick' else GAPS:
                yield [[['', list(pair), [gap], '.']], option]
        for unit in ids:
            for gap in ID_GAPS:
                yield [[[gap, [unit], [], '.']], option]
                for other in units + more if tier != 'quick' else 'sapdm':
                    yield [[['', [other, unit], [gap], '']], option]
    # many names
    for unit, other, count in itertools.product('ae', 'aetypds', MANY):
        for gap in FEW_GAPS:
            for option in (0, 1):
                if other != unit:
                    yield [[['', [unit] * count + [other], [gap] * count, '.']], option]
                    yield [[['1 ', [other] + [unit] * count, [gap] * count, '']], option]
                    yield [[[
                        '', [unit] * count + [other] + [unit] * 3, [gap] * (count + 3), '.'
                    ]], option]
                    yield [[
                        ['', [unit] * count, [gap] * (count - 1), '.'],
                        ['', [other] + [unit], [gap], '']
                    ], option]
    # two references
    for pair in itertools.product(units, repeat=2):
        for gap in FEW_GAPS:
            yield [
                [['1 ', ['s', pair[0]], [gap], ''], [gap.strip() + ' ', [pair[1], 'y'], ['. '], '']],
                0
            ]
            yield [
                [['1 ', ['s', pair[0]], [gap], '.'], ['', [pair[1], 'y'], ['. '], '']], 1
            ]
    gaps3 = [', ', ' doi: '] if tier == 'quick' else GAPS
    for triple in itertools.product(units, repeat=3):
        for gaps in itertools.product(gaps3, repeat=2):
            yield [[['', list(triple), list(gaps), '']], 1]
    if tier != 'quick':
        for four in itertools.product('aetply', repeat=4):
            if four.count('t') > 3 or any(four.count(u) > 3 for u in four):
                continue
            for gaps in itertools.product(FEW_GAPS, repeat=3):
                yield [[['', list(four), list(gaps), '.']], 0]


def run(case, ctx):
    references, option = case
    rendered = [render(reference) for reference in references]
    if len(references) > 1:
        # the values of the second reference have to differ
        second = rendered[1]
        for unit in UNITS.values():
            second = [text.replace(unit[2][0], unit[2][2]) for text in second]
        rendered[1] = second
    for segment in (False, True):
        if segment and (len(references) > 1 or (ctx.tier == 'quick' and option)):
            continue
        workspace = Workspace(ctx.new_dir(), PIPELINES['reference'])
        options = []
        if segment:
            content = '\n'.join('%s<lb/>' % text for _, text in rendered)
            options.append('--segment-references')
        else:
            content = '\n'.join('<bibl>%s</bibl>' % text for _, text in rendered)
        if option:
            options.append('--include-idno-prefix')
        workspace.add(content, jats(refs=[ref for ref, _ in rendered]))
        workspace.main(*options)
        actual = actual_references(workspace.output_bytes())
        expected = [model_reference(reference, bool(option)) for reference in references]
        if len(references) > 1:
            for part in expected[1]:
                for unit in UNITS.values():
                    part[1] = part[1].replace(
                        re.sub(r'\s', '', unit[2][0]), re.sub(r'\s', '', unit[2][2])
                    )
        if segment:
            # unannotated text at the end is not necessarily part of the reference
            actual = [strip_untagged(r) for r in actual]
            expected = [strip_untagged(r) for r in expected]
        ctx.step(sum(len(reference[1]) for reference in references))
        ctx.trace()
        ctx.state(expected)
        check_equal(
            [[[list(k), t] for k, t in r] for r in actual],
            [[[list(k), t] for k, t in r] for r in expected],
            'elements of %r (segment: %s)' % (content, segment)
        )


def strip_untagged(parts):
    parts = list(parts)
    while parts and parts[0][0] == (None, None):
        parts.pop(0)
    while parts and parts[-1][0] == (None, None):
        parts.pop()
    return parts

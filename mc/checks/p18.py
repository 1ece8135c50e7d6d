"""P18: text next to figures, tables, list items and addresses is grouped as configured."""
import itertools
import re

from mc.core import check_equal
from mc.pipelines import PIPELINES, Workspace, parse, local_name
from mc.targets import jats

PROPERTY = 'P18'
LEVEL = 'model_checking'
ASSUMPTIONS = [
    'the values are distinct and occur verbatim (see P07 for the matching)'
]
STATE = 'structure of a document written by the tool'
TRANSITION = 'a line (of a fulltext) or a part (of an affiliation) annotated'

# --- fulltext: one line per atom; values of the first, second... occurrence of an atom
LINES = {
    'P': ['Paragraph eins zwei', 'Kuku momo lili', 'Jedediah bobo', 'Vivaldi rondo', 'Xaver'],
    'H': ['Heading numero', 'Chapter duo', 'Bereich', 'Abschnitt', 'Mekka'],
    'L': ['First thing item', 'zweites ding dabei', 'troisieme chose', 'quarto lugar', 'Osten'],
    'F': ['Figure 71 zzzz yyyy', 'Abbildung 82 vvvv', 'Image 93 uuuu', 'Pic 64', 'Draw 65'],
    'T': ['Table 17 qqqq wwww', 'Tabelle 28 kkkk', 'Tafel 39 hhhh', 'Tab 46', 'Matrix 50'],
    'U': ['0000 000', '1111 11', '22222 2', '333 3333', '4 44444'],
    'N': ['5555 555', '6666 66', '77777 7', '888 8888', '9 99999'],
    # existing annotations, of fields which are not selected
    'x': ['AAAA AA', 'BB BBBBB', 'CCC CCC', 'DDDD DD', 'EE EE'],
    'y': ['FFFF FF', 'GG GGGGG', 'HHH HHH', 'IIII II', 'JJ JJ'],
}
# values of long documents
for _number, _key in enumerate('PHLFT'):
    LINES[_key] += [
        (' %d ' % (300 + n)).join(
            ''.join(chr(0x4e00 + 1000 * _number + 40 * n + 10 * word + i) for i in range(7))
            for word in range(2)
        ) for n in range(20)
    ]
for _number, _key in enumerate('UNxy'):
    LINES[_key] += ['%d%d%d %d' % (_number, n, n, _number) for n in range(10, 35)]
TAGS = {
    'P': ['p'], 'H': ['head'], 'L': ['list', 'item'], 'F': ['figure'], 'T': ['figure[table]'],
    'U': None, 'N': None, 'x': ['p'], 'y': ['list']
}
LONG = [6, 15]
FULLTEXT_OPTIONS = [
    [previous, following]
    for previous in (False, True) for following in (False, True)
]

# --- affiliations
PARTS = {
    'l': ('<label>%s</label>', ['marker'], ['71', '82', '93']),
    'i': ('<institution>%s</institution>', ['orgName[institution]'],
          ['Harvard', 'Oxford', 'Yale']),
    'd': ('<addr-line><named-content content-type="department">%s</named-content></addr-line>',
          ['orgName[department]'], ['Physics', 'Chemistry', 'Botany']),
    'c': ('<addr-line><named-content content-type="city">%s</named-content></addr-line>',
          ['address', 'settlement'], ['Munich', 'Koblenz', 'Perugia']),
    'p': ('<addr-line><named-content content-type="postcode">%s</named-content></addr-line>',
          ['address', 'postCode'], ['80331', '56068', '06121']),
    'o': ('<country>%s</country>', ['address', 'country'], ['Germany', 'Switzerland', 'Italy']),
    'u': ('%s', None, ['kkkk', 'mmmm', 'nnnn']),
}


def BOUNDS(tier):
    return {
        'fulltext': 'all sequences of up to %d lines of 7 kinds x 4 options, up to %d lines of 6 '
                    'kinds including existing annotations' % _lengths(tier)[:2],
        'long fulltexts': 'up to %d lines' % (max(LONG) + 2),
        'affiliations': 'all sequences of up to %d of 7 parts; all pairs of affiliations of 1 or 2 '
                        'parts each, adjacent or apart' % _lengths(tier)[2]
    }


def _lengths(tier):
    return (4, 3, 3) if tier == 'quick' else (5, 5, 4)


def cases(tier):
    all_lines, few_lines, parts = _lengths(tier)
    for length in range(1, all_lines + 1):
        for seq in itertools.product('PHLFTUN', repeat=length):
            for options in FULLTEXT_OPTIONS:
                yield ['fulltext', ''.join(seq), options, False]
    for length in range(1, few_lines + 1):
        for seq in itertools.product('FTUNxy', repeat=length):
            for options in FULLTEXT_OPTIONS:
                yield ['fulltext', ''.join(seq), options, True]
    # long documents
    for first, second, third in itertools.product('PLFTU', 'LFTUN', 'PFTU'):
        for options in FULLTEXT_OPTIONS:
            for count in LONG:
                yield ['fulltext', first + second * count + third, options, False]
            yield ['fulltext', (first + second + third) * 5, options, False]
    for length in range(1, parts + 1):
        for seq in itertools.product(PARTS, repeat=length):
            yield ['affiliation', [''.join(seq)], False]
    short = [
        ''.join(seq) for length in (1, 2) for seq in itertools.product(PARTS, repeat=length)
    ]
    for first, second in itertools.product(short, repeat=2):
        if tier == 'quick' and len(first + second) == 4:
            continue
        for apart in (False, True):
            yield ['affiliation', [first, second], apart]


def run(case, ctx):
    if case[0] == 'fulltext':
        run_fulltext(case, ctx)
    else:
        run_affiliation(case, ctx)


def element_key(element):
    attribute = element.get('type') or element.get('unit') or element.get('level')
    return local_name(element) + ('[%s]' % attribute if attribute else '')


def structure(element):
    """nested lists of [name, content...], without whitespace and line breaks"""
    result = [element_key(element)]

    def add(text):
        text = re.sub(r'\s', '', text or '')
        if not text:
            return
        if len(result) > 1 and isinstance(result[-1], str):
            result[-1] += text
        else:
            result.append(text)

    add(element.text)
    for child in element:
        if local_name(child) != 'lb':
            result.append(structure(child))
        add(child.tail)
    return result


def build(paths):
    """paths: [path, starts at which level or None, text]"""
    root = ['root']
    stack = [root]
    current = []
    for path, keep, text in paths:
        keep = min(keep, len(path))
        common = 0
        while common < min(len(current), keep) and current[common] == path[common]:
            common += 1
        del stack[common + 1:]
        for name in path[common:]:
            node = [name]
            stack[-1].append(node)
            stack.append(node)
        current = path
        if len(stack[-1]) > 1 and isinstance(stack[-1][-1], str):
            stack[-1][-1] += text
        else:
            stack[-1].append(text)
    return root[1:]


# --- fulltext

def target_of(atom, text):
    if atom == 'P':
        return '<sec><p>%s</p></sec>' % text
    if atom == 'H':
        return '<sec><title>%s</title></sec>' % text
    if atom == 'L':
        return '<list><list-item>%s</list-item></list>' % text
    label, caption = re.match(r'^(\w+ \d+) ?(.*)$', text).groups()
    content = '<label>%s</label><caption>%s</caption>' % (label, caption)
    return (
        '<fig>%s</fig>' if atom == 'F' else '<table-wrap>%s</table-wrap>'
    ) % content


def model_fulltext(seq, texts, options):
    previous, following = options
    # [tag, begins]
    tags = [None if TAGS[atom] is None else [TAGS[atom], True] for atom in seq]
    # text after list items is part of the list
    in_list = False
    for index, tag in enumerate(tags):
        if tag:
            in_list = tag[0] == ['list', 'item']
        elif in_list:
            tags[index] = [['list'], False]
    expandable = (['figure'], ['figure[table]'])
    if previous:
        for index in reversed(range(len(tags))):
            if tags[index] is None and index + 1 < len(tags):
                after = tags[index + 1]
                if after and after[0] in expandable and after[1]:
                    tags[index] = [after[0], True]
                    after[1] = False
    if following:
        for index in range(1, len(tags)):
            before = tags[index - 1]
            if tags[index] is None and before and before[0] in expandable:
                tags[index] = [before[0], False]
    paths = []
    for tag, text in zip(tags, texts):
        text = re.sub(r'\s', '', text)
        if tag is None:
            paths.append([['other'], 9, text])
        elif not tag[1]:
            paths.append([tag[0], 9, text])
        elif tag[0] == ['list', 'item']:
            paths.append([tag[0], 1, text])
        else:
            paths.append([tag[0], 0, text])
    return build(paths)


def run_fulltext(case, ctx):
    _, seq, options, selected = case
    counts = {}
    texts = []
    content = []
    body = ''
    for atom in seq:
        text = LINES[atom][counts.get(atom, 0)]
        counts[atom] = counts.get(atom, 0) + 1
        texts.append(text)
        line = {
            'N': '<note type="other">%s</note>', 'x': '<p>%s</p>',
            'y': '<list>%s</list>'
        }.get(atom, '%s') % text
        content.append(line + '<lb/>')
        if atom in 'PHLFT':
            body += target_of(atom, text)
    workspace = Workspace(ctx.new_dir(), PIPELINES['fulltext'])
    workspace.add('\n'.join(content), jats(title='Title', body=body))
    args = []
    if options[0]:
        args.append('--expand-to-previous-untagged-lines')
    if options[1]:
        args.append('--expand-to-following-untagged-lines')
    if selected:
        args += ['--fields', 'figure,table']
    workspace.main(*args)
    actual = structure(PIPELINES['fulltext'].container(parse(workspace.output_bytes())))[1:]
    expected = model_fulltext(seq, texts, options)
    ctx.step(len(seq))
    ctx.state(expected)
    check_equal(actual, expected, 'structure')


# --- affiliations

def model_affiliations(affiliations):
    result = []
    for parts, prefix in affiliations:
        paths = []
        in_address = False
        begins = True
        for kind, text in parts:
            path = PARTS[kind][1] if kind else None
            if path is None:
                path = ['address'] if in_address else []
                keep = 9
            else:
                in_address = path[0] == 'address'
                keep = 1 if in_address else 0
            path = ['affiliation'] + path
            paths.append([path, 0 if begins else keep + 1, re.sub(r'\s', '', text)])
            begins = False
        result += build(paths)
    return result


def run_affiliation(case, ctx):
    _, seqs, apart = case
    counts = {}
    affs = []
    contents = []
    model = []
    for seq in seqs:
        parts = []
        aff = ''
        for index, kind in enumerate(seq):
            source, _, values = PARTS[kind]
            position = counts.get(kind, 0)
            if position >= len(values):
                return
            counts[kind] = position + 1
            if index:
                parts.append([None, ', '])
                aff += ', '
            parts.append([kind, values[position]])
            aff += source % values[position]
        affs.append(aff)
        contents.append(
            '<affiliation>%s</affiliation>' % ''.join(text for _, text in parts)
        )
        model.append([parts, None])
    workspace = Workspace(ctx.new_dir(), PIPELINES['affiliation_address'])
    workspace.add((' zzzz<lb/>\n' if apart else '\n').join(contents), jats(affs=affs))
    workspace.main()
    actual = structure(
        PIPELINES['affiliation_address'].container(parse(workspace.output_bytes()))
    )[1:]
    expected = []
    for index, affiliation in enumerate(model):
        if index and apart:
            expected.append(['note[other]', 'zzzz'])
        expected += model_affiliations([affiliation])
    ctx.step(sum(len(seq) for seq in seqs))
    ctx.state(expected)
    check_equal(actual, expected, 'structure of %r' % affs)

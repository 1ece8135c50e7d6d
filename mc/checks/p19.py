"""P19: removing invalid references or affiliations removes exactly the unannotated text."""
import itertools

from mc.core import check, check_equal
from mc.pipelines import PIPELINES, Workspace, parse, local_name, outside_of
from mc.targets import jats

PROPERTY = 'P19'
LEVEL = 'model_checking'
ASSUMPTIONS = [
    'the references (affiliations) are distinct and occur verbatim (see P07 for the matching)',
    'whitespace is compared within annotated references (affiliations) only'
]
STATE = 'text of the elements written by the tool'
TRANSITION = 'a part of the document kept or removed'

# text of the first, second... occurrence: (first part, second part)
VALUES = [
    ('Alpha', 'bravo charlie'), ('Delta', 'echo foxtrot'), ('Golf', 'hotel india'),
    ('Juliett', 'kilo lima'), ('Mike', 'november oscar')
]
OTHER = ['0000 00', '1111 1', '22 2222', '3 33333', '444 44']
EXISTING = ['5555 55', '6666 6', '77 7777', '8 88888', '999 99']

NOTES = ['0101 01', '2323 2', '45 4545', '6 76767', '898 98']
# of long documents
VALUES += [
    tuple(''.join(chr(0x4e00 + 40 * n + 20 * part + i) for i in range(8 + 4 * part)) for part in range(2))
    for n in range(30)
]
OTHER += ['%d0%d %d' % (n, n, n) for n in range(10, 40)]
EXISTING += ['%d5%d %d' % (n, n, n) for n in range(10, 40)]
NOTES += ['%d9%d %d' % (n, n, n) for n in range(10, 40)]
LONG = [6, 20]

TOOLS = {
    'reference': {
        'element': 'bibl',
        'target': '<mixed-citation><string-name>%s</string-name> <article-title>%s'
                  '</article-title></mixed-citation>',
        'key': 'refs',
        'remove': '--remove-invalid-references',
        'segment': '--segment-references'
    },
    'affiliation_address': {
        'element': 'affiliation',
        'target': '<institution>%s</institution> <country>%s</country>',
        'key': 'affs',
        'remove': '--remove-invalid-affiliations',
        'segment': '--segment-affiliation'
    }
}
# R: value, r: value in two lines, U: other text, E: existing element, not a value,
# e: existing element, a value, N: other existing element, /: line break
ATOMS = 'RrUEeN/'


def BOUNDS(tier):
    return {
        'tools': sorted(TOOLS),
        'parts': 'all sequences of up to %d of 7 kinds' % _length(tier),
        'options': 'with and without segmentation, with and without removal'
    }


def _length(tier):
    return 4 if tier == 'quick' else 5


def cases(tier):
    for length in range(1, _length(tier) + 1):
        for seq in itertools.product(ATOMS, repeat=length):
            for tool in sorted(TOOLS):
                for segment in (True, False):
                    yield [tool, ''.join(seq), segment]
    for first, second, third in itertools.product(ATOMS, repeat=3):
        for tool in sorted(TOOLS):
            for segment in (True, False):
                if third == first:
                    for count in LONG:
                        yield [tool, first + second * count + third, segment]
                yield [tool, (first + second + third) * 5, segment]


def words(text):
    return ' '.join(text.split())


def text_of(element, line_break=' '):
    """line breaks are whitespace"""
    result = element.text or ''
    for child in element:
        if isinstance(child.tag, str):
            if local_name(child) == 'lb':
                result += line_break
            result += text_of(child, line_break)
        result += child.tail or ''
    return result


def build(tool, seq, segment):
    config = TOOLS[tool]
    content = ''
    targets = []
    kept = []  # text of elements
    everything = []
    counts = {'v': 0, 'U': 0, 'E': 0, 'N': 0}
    for atom in seq:
        if atom == '/':
            content += '<lb/>\n'
            continue
        if atom == 'U':
            text = OTHER[counts['U']]
            counts['U'] += 1
            content += text + ' '
        elif atom == 'N':
            text = NOTES[counts['N']]
            counts['N'] += 1
            content += '<formula>%s</formula> ' % text
        elif atom == 'E':
            text = EXISTING[counts['E']]
            counts['E'] += 1
            content += '<{0}>{1}</{0}> '.format(config['element'], text)
            if not segment:
                kept.append(text)
        else:
            value = VALUES[counts['v']]
            counts['v'] += 1
            text = ' '.join(value)
            source = '<lb/>\n'.join(value) if atom == 'r' else text
            if atom == 'e':
                source = '<{0}>{1}</{0}>'.format(config['element'], source)
            content += source + ' '
            targets.append(config['target'] % value)
            if segment or atom == 'e':
                kept.append(text)
        everything.append(text)
    return content, targets, kept, everything


def broken_values(seq):
    """the values divided into two lines"""
    values = [atom for atom in seq if atom in 'Rre']
    return [' '.join(VALUES[i]) for i, atom in enumerate(values) if atom == 'r']


def run(case, ctx):
    tool, seq, segment = case
    config = TOOLS[tool]
    pipeline = PIPELINES[tool]
    content, targets, kept, everything = build(tool, seq, segment)
    if not content.replace('<lb/>', '').strip():
        return
    for remove in (True, False):
        workspace = Workspace(ctx.new_dir(), pipeline)
        workspace.add(content, jats(**{config['key']: targets}))
        options = ([config['segment']] if segment else []) + ([config['remove']] if remove else [])
        workspace.main(*options)
        root = parse(workspace.output_bytes())
        container = pipeline.container(root)
        elements = [words(text_of(e)) for e in container if local_name(e) == config['element']]
        ctx.step(len(seq))
        ctx.trace()
        ctx.state([tool, segment, remove, elements])
        check_equal(elements, kept, '%s elements (%s)' % (config['element'], options))
        broken = [
            words(text_of(e)) for e in container
            if local_name(e) == config['element']
            and '\x00' in text_of(e, '\x00').strip(' \n\x00')
        ]
        check_equal(
            broken, broken_values(seq) if segment else [], 'elements with a line break'
        )
        all_text = words(text_of(container))
        if remove:
            check_equal(
                all_text.replace(' ', ''), ''.join(kept).replace(' ', ''), 'remaining text'
            )
            for child in container:
                if isinstance(child.tag, str):
                    check(
                        local_name(child) in (config['element'], 'lb', 'note'),
                        'element %s', child.tag
                    )
        else:
            check_equal(
                all_text.replace(' ', ''), ''.join(everything).replace(' ', ''), 'text'
            )
        original = parse(pipeline.document(content))
        check_equal(
            outside_of(root, container), outside_of(original, pipeline.container(original)),
            'surroundings'
        )

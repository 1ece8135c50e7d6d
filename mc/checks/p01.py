"""P01: annotating never changes the text or the lines of a document."""
import itertools

from mc import docs
from mc.core import check, check_equal
from mc.pipelines import PIPELINES, Workspace, normalised_lines, outside_of, parse

PROPERTY = 'P01'
LEVEL = 'model_checking'
# what may be found anywhere outside of the annotated container
SURROUNDINGS = [
    '<!--c-->', '<?p q?>', 'text', ' ', '\n    ', '<note>a<lb/>b</note>', '<lb/>', '\u00e4 &amp; &lt;',
    '<x y="1 &amp; 2" xml:space="preserve"> <z/> </x>', '<x y="\u00e4"/>a<x>b</x>c',
    '<n:x xmlns:n="u" n:y="z">t</n:x>', '<figure>f<!--c--><head>h</head></figure>',
    '<x xmlns="">Alpha one beta</x>', '<ref>1</ref> <ref> <!-- --> </ref>', '<x> </x><x></x>',
    '<![CDATA[<c>]]>', '<front2>1</front2>', '<title>Alpha</title><p>one</p>'
]
TRANSITION = 'an atom of a document (or its end) read and written by a tool'
ASSUMPTIONS = [
    'text is compared after parsing the input and the output with lxml',
    'lines are compared without their leading and trailing whitespace, and without the empty '
    'lines at the end of the document',
    'elements within the container have at most one attribute (explicit restriction of the tool)'
]


# characters which are treated differently by string functions (white space, numbers, changes of
# length, separators, ...)
CHARS = [
    '&#9;', '&#13;', '\x85', '\xa0', '\xad', '\u0130', '\u00df', '\ufb01', '\u01c5', '\u1680', '\u180e',
    '\u2000', '\u2003', '\u2009', '\u200a', '\u200b', '\u200d', '\u200e', '\u2028', '\u2029', '\u202f',
    '\u205f', '\u2060', '\u3000', '\ufeff', '\ufffd', '\u0301', '\u20dd', '\u0660', '\u00b2', '\u2460',
    '\u2167', '\u00bd', '\u3007', '\u2010', '\u2013', '\u2014', '\u2212', '\u2018', '\u201c', '\u00ab',
    '\ue000', '\U0001f468', '\U0001d7d8', '\U000e0001', '\U0010fffd', '&amp;', '&lt;', '&gt;', '"', "'",
    '{', '}', '[', ']', '\\', '/', '%', '%s', '{}', '$', '\\1', '&amp;amp;', '&#38;lt;', ']]&gt;', '--',
    '_', '__', '|', '@', '#', '=', '*', '?', '+', '^', '~', '`', ';', ':', '!'
]
REPEATED = [20, 150]
# nodes between any text and white space
NODES = [
    '<!--c-->', '<!---->', '<?p q?>', '<![CDATA[c]]>', '<![CDATA[ \n]]>', '<lb/>', '<lb></lb>',
    '<lb> </lb>', '<empty/>', '<empty> </empty>', '<empty>\n</empty>', '<!--c--><!--d-->',
    '<!--c--><lb/>', '<lb/><!--c-->', '<lb/><empty/>', '<empty/><lb/>', '<empty><lb/></empty>',
    '<empty><!--c--></empty>', '<empty>c<!--d-->e</empty>', '<empty>c</empty>'
]
AROUND_NODES = ['', ' ', '\n', 'Alpha', 'Alpha ', 'q\n', '\nq', ' q', ' \n ', '\n\n']
WRAPPERS = ['%s', '<unknown>%s</unknown>', 'w %s w', '<unknown>w<b>%s</b></unknown>', 'w<lb/>\n%s\n<lb/>w']


def BOUNDS(tier):
    return {
        'characters': len(CHARS),
        'repeated parts': REPEATED,
        'comments, sections, elements next to any text and space': [
            len(NODES), len(AROUND_NODES), len(WRAPPERS)],
        'pipelines': sorted(PIPELINES),
        'atoms': {name: len(docs.atoms_of(name)) for name in PIPELINES},
        'document_length_in_atoms': _max_length(tier),
        'surroundings': SURROUNDINGS,
        'option_sets': {name: docs.options_of(name) for name in PIPELINES},
        'targets': ['matching', 'not matching']
    }


def _max_length(tier):
    return 3 if tier == 'quick' else 4


def cases(tier):
    counts = {name: len(docs.atoms_of(name)) for name in PIPELINES}
    for name in PIPELINES:
        for options in docs.options_of(name):
            yield [name, options, 'empty-target', [0, 1, 4]]
            if name in {'figure', 'table', 'fulltext'}:
                yield [name, options, 'stray-content', [0, 1, 4]]
            if name == 'reference':
                yield [name, options, 'two-containers', [0, 1, 4]]
    for name in PIPELINES:
        for position in range(len(boundaries(PIPELINES[name]))):
            for item in range(len(SURROUNDINGS)):
                for options in docs.options_of(name)[:1 if tier == 'quick' else None]:
                    yield [name, options, 'surroundings', [position, item]]
        for char in range(len(CHARS)):
            if name == 'fulltext' and CHARS[char] == '&#13;':
                continue  # white space, becomes a line feed if the document is repaired
            for options in docs.options_of(name)[:2]:
                yield [name, options, 'char', [char]]
        for seq in itertools.product(
            range(len(AROUND_NODES)), range(len(NODES)), range(len(AROUND_NODES)),
            range(len(WRAPPERS))
        ):
            if tier != 'quick' or sum(seq) % len(WRAPPERS) == 0:
                yield [name, docs.options_of(name)[sum(seq) % 2], 'node', list(seq)]
        for seq in itertools.product(range(13), repeat=2):
            # long documents
            if seq[0] != seq[1]:
                yield [name, docs.options_of(name)[sum(seq) % 2], 'plain', list(seq) * REPEATED[0]]
            else:
                yield [name, docs.options_of(name)[0], 'plain', list(seq[:1]) * REPEATED[1]]
    for length in range(_max_length(tier) + 1):
        for seq in docs.sequences(13, length):
            if len(seq) != length:
                continue
            for name in PIPELINES:
                assert counts[name] == 13
                for index, options in enumerate(docs.options_of(name)):
                    if tier == 'quick' and length == 3 and (
                        (sum(seq) + index) % len(docs.options_of(name))
                    ):
                        # quick: documents of three atoms with one of the option sets each
                        continue
                    yield [name, options, 'plain', list(seq)]


def boundaries(pipeline):
    """(prefix, postfix) of the document to insert something in between, outside the container"""
    result = []
    whole = pipeline.document('\0')
    middle = whole.index('\0')
    # the tags of the container itself
    start, end = whole.rindex('<', 0, middle), whole.index('>', middle)
    for index, char in enumerate(whole):
        if char == '>' and (index < start or index >= end) and 0 < index < len(whole) - 1:
            result.append((whole[:index + 1], whole[index + 1:]))
    return result


def run_surroundings(case, ctx):
    name, options, _, (position, item) = case
    pipeline = PIPELINES[name]
    before, after = boundaries(pipeline)[position]
    # (a number is not a valid xml:id, such documents are repaired, which drops comments)
    raw = (before + SURROUNDINGS[item] + after).replace('xml:id="0"', 'xml:id="_0"')
    content = ''.join(docs.atoms_of(name)[i] for i in (0, 1, 4))
    workspace = Workspace(ctx.new_dir(), pipeline)
    workspace.add(None, docs.TARGETS[name], raw=raw.replace('\0', content))
    workspace.main(*options)
    ctx.step(2)
    output = workspace.output_bytes()
    check(output is not None, 'no output was written')
    # the container, by its position
    template = parse(raw.replace('\0', '<CONTENT/>'))
    node = next(e for e in template.iter('{*}CONTENT')).getparent()
    path = template.getroottree().getpath(node)
    source_root = parse(raw.replace('\0', content))
    output_root = parse(output)
    source_container = source_root.getroottree().xpath(path)[0]
    output_containers = output_root.getroottree().xpath(path)
    check_equal(len(output_containers), 1, 'containers of %r' % output)
    check_equal(
        outside_of(output_root, output_containers[0]), outside_of(source_root, source_container),
        'outside of the annotated part'
    )
    check_equal(
        ''.join(output_containers[0].itertext()), ''.join(source_container.itertext()), 'text'
    )
    ctx.state([name, output.decode('ascii', 'replace')])


def run(case, ctx):
    name, options, variant, seq = case
    if variant == 'surroundings':
        run_surroundings(case, ctx)
        return
    pipeline = PIPELINES[name]
    atoms = docs.atoms_of(name)
    if variant == 'char':
        content = 'q{0}r {0} Alpha{0}one {0}beta<lb/>{0}<lb/>\n{0}x {0}<lb/>{0}{0}'.replace(
            '{0}', CHARS[seq[0]])
    elif variant == 'node':
        before, node, after, wrapper = seq
        content = WRAPPERS[wrapper] % (AROUND_NODES[before] + NODES[node] + AROUND_NODES[after])
    else:
        content = ''.join(atoms[i] for i in seq)
    raw = pipeline.document(content)
    source_raw = raw
    target = docs.TARGETS[name]
    if variant == 'empty-target':
        target = docs.EMPTY_TARGET
    if variant == 'stray-content':
        raw = pipeline.document(content + '</content>')
    if variant == 'two-containers':
        raw = raw.replace('</back>', '<listBibl>last one</listBibl></back>')
        source_raw = raw
    workspace = Workspace(ctx.new_dir(), pipeline)
    workspace.add(None, target, raw=raw)
    workspace.main(*options)
    ctx.step(len(seq) + 1)
    output = workspace.output_bytes()
    check(output is not None, 'no output was written')
    source_root = parse(source_raw)
    output_root = parse(output)
    if variant == 'two-containers':
        check_equal(
            ''.join(output_root.itertext()), ''.join(source_root.itertext()), 'text of document'
        )
        return
    source_container = pipeline.container(source_root)
    output_container = pipeline.container(output_root)
    check_equal(
        ''.join(output_container.itertext()),
        ''.join(source_container.itertext()), 'text'
    )
    check_equal(
        normalised_lines(output_container), normalised_lines(source_container), 'lines'
    )
    check_equal(
        outside_of(output_root, output_container), outside_of(source_root, source_container),
        'outside of the annotated part'
    )
    ctx.state([name, output.decode('ascii', 'replace')])

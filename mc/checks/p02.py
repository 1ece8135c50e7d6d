"""P02: tags are written as the configured elements, and re-reading restores them."""
import itertools

from lxml import etree

from mc.core import check, check_equal
from mc.pipelines import local_name

from sciencebeam_trainer_grobid_tools.structured_document.grobid_training_tei import (
    GrobidTrainingTeiStructuredDocument
)

PROPERTY = 'P02'
LEVEL = 'model_checking'
ASSUMPTIONS = [
    'elements have at most one attribute (explicit restriction of the tool)',
    'only the identity of the element directly containing the text is compared '
    '(parent elements without text may be shared)'
]

NS = '{http://www.tei-c.org/ns/1.0}'

MAPPINGS = {
    'plain': {
        '': 'note[@type="other"]', 't': 'docTitle/titlePart', 'a': 'div[@type="abstract"]',
        't-s': 'docTitle/titlePart/s', 't-r': 'docTitle/titlePart/q/ref[@type="x"]',
        'a-s': 'div[@type="abstract"]/s'
    },
    'nested': {
        '': 'other', 't': 'list', 'a': 'list/item', 't-s': 'list/s', 't-r': 'list/s[@n=""]',
        'a-s': 'list/item/s'
    },
    'namespaced': {
        '': NS + 'note[@type="other"]', 't': NS + 'bibl', 'a': NS + 'p[@url="http://x/y"]',
        't-s': NS + 'bibl/' + NS + 'author', 't-r': NS + 'bibl/' + NS + 'title[@level="a/b"]',
        'a-s': NS + 'p[@url="http://x/y"]/' + NS + 'author'
    },
    'no-default': {
        't': 'front', 'a': 'back', 't-s': 'front/s', 't-r': 'front/r', 'a-s': 'back/s'
    },
    'shared-parent': {
        '': 'note[@type="other"]', 't': 'byline/x', 'a': 'byline/y', 't-s': 'byline/x/s',
        't-r': 'byline/x/r', 'a-s': 'byline/y/s'
    },
    'default-is-tag': {
        '': 'body', 't': 'body', 'a': 'listBibl', 't-s': 'body/s', 't-r': 'body/r',
        'a-s': 'listBibl/s'
    }
}

# (tag, sub tag) of a token
LABELS = [
    (None, None), ('b-t', None), ('i-t', None), ('b-a', None), ('i-a', None),
    ('b-t', 'b-t-s'), ('i-t', 'b-t-s'), ('i-t', 'i-t-s'), ('i-t', 'b-t-r'),
    ('i-t', 'i-t-r'), ('b-a', 'b-a-s'), ('i-a', 'i-a-s'), ('t', None), ('i-t', 'b-a-s')
]
LAYOUTS = [' ', '<lb/>', '', '\n']
WORDS = ['one', 'two', 'three', 'four', 'five'] * 10
LONG = 11  # repetitions in long documents

# round trip: grammar of source documents
LEAF = ['x', ' x', 'x y', 'x ', '<lb/>x', 'x<lb/>y', ' ', '']
TREES = (
    LEAF
    + ['<s>%s</s>' % t for t in LEAF]
    + ['<s>%s</s>v w' % t for t in LEAF[4:]]
    + ['<s> </s><s>x y</s>', '<s>x</s> <r>y</r> <s>z</s>']
    + [
        '<s>x</s><s>y</s>', '<s>x</s> <s> y</s>', 'w<s>x</s>y', 'w <s>x</s> y <s n="1">z</s>',
        '<s>x<r>y</r>z</s>', 'w<s>x<r> y</r> z</s>v', '<s>x</s><lb/>y', 'w<!-- c -->x',
        'w<s>x<!-- c -->y</s>', '<s n="">x</s>', '<s n="http://a/b">x</s>y', '<s>w</s><r>x</r>',
        ' <s>x</s>y', ' <s>x</s> <s>y</s>z', '<lb/> <s>x</s>y', ' <s> x</s> y'
    ]
)
OUTER = ['%s', '<t>%s</t>', '<a k="v">%s</a>', '<t>%s</t><t>u</t>']


def BOUNDS(tier):
    return {
        'tag_sequences': {
            'length': _length(tier), 'repeated': LONG, 'labels': len(LABELS), 'mappings': sorted(MAPPINGS),
            'separators': LAYOUTS
        },
        'round_trip_documents': {
            'top_level_elements': _tree_length(tier), 'contents': len(TREES),
            'enclosing': OUTER
        }
    }


def _length(tier):
    return 3 if tier == 'quick' else 4


def _tree_length(tier):
    return 2 if tier == 'quick' else 3


def cases(tier):
    for length in range(1, _length(tier) + 1):
        for mapping in MAPPINGS:
            for layout in range(len(LAYOUTS)):
                for labels in itertools.product(range(len(LABELS)), repeat=length):
                    yield ['tags', mapping, layout, list(labels)]
    for mapping in MAPPINGS:
        for layout in range(len(LAYOUTS)):
            for labels in itertools.product(range(len(LABELS)), repeat=2):
                yield ['tags', mapping, layout, list(labels) * LONG]
                yield ['tags', mapping, layout, [labels[0]] * LONG + [labels[1]] * LONG]
    for length in range(1, _tree_length(tier) + 1):
        parts = list(itertools.product(range(len(OUTER)), range(len(TREES))))
        if length == 3:
            parts = [p for p in parts if p[1] % 3 == 0]
        for seq in itertools.product(parts, repeat=length):
            yield ['round-trip', [list(p) for p in seq]]


def char_elements(container):
    """[(character, path, element)] of all but white space"""
    result = []

    def expression(node):
        return (node.tag, tuple(sorted(node.attrib.items())))

    def add(text, path, element):
        for c in text or '':
            if not c.isspace():
                result.append((c, path, element))

    def visit(node, path):
        add(node.text, path, node)
        for child in node:
            if isinstance(child.tag, str):
                if local_name(child) == 'lb':
                    visit(child, path)
                else:
                    visit(child, path + (expression(child),))
            add(child.tail, path, node)
    visit(container, ())
    return result


def structure(container):
    """element paths of the characters, and where text elements start"""
    numbers = {}
    keep_alive = []
    result = []
    for c, path, element in char_elements(container):
        keep_alive.append(element)
        if not path:
            number = 0
        else:
            number = numbers.setdefault(element, len(numbers) + 1)
        result.append((c, path, number))
    return result


def path_of(mapping, tag):
    expr = mapping.get(tag or '', None)
    if expr is None:
        return ()
    result = []
    for fragment in _split(expr):
        if '[' in fragment:
            name, rest = fragment.split('[', 1)
            key, value = rest.rstrip(']').split('=', 1)
            result.append((name, ((key.lstrip('@'), value.strip('"')),)))
        else:
            result.append((fragment, ()))
    return tuple(result)


def _split(expr):
    parts, depth, current = [], 0, ''
    for c in expr:
        if c in '{[':
            depth += 1
        elif c in '}]':
            depth -= 1
        if c == '/' and not depth:
            parts.append(current)
            current = ''
        else:
            current += c
    return parts + [current]


def split_prefix(tag):
    if tag and tag[:2] in ('b-', 'i-'):
        return tag[:2], tag[2:]
    return None, tag


def all_tokens(doc):
    return [
        token for page in doc.get_pages() for line in doc.get_lines_of_page(page)
        for token in doc.get_tokens_of_line(line)
    ]


def serialise(root):
    return etree.tostring(root).decode('utf-8')


def load(xml, mapping, **kwargs):
    return GrobidTrainingTeiStructuredDocument(
        etree.fromstring(xml), tag_to_tei_path_mapping=mapping, container_node_path='text',
        **kwargs
    )


def run(case, ctx):
    if case[0] == 'tags':
        run_tags(case, ctx)
    else:
        run_round_trip(case, ctx)


def run_tags(case, ctx):
    _, mapping_name, layout, label_indices = case
    mapping = MAPPINGS[mapping_name]
    labels = [LABELS[i] for i in label_indices]
    words = WORDS[:len(labels)]
    separator = LAYOUTS[layout]
    if separator:
        text = separator.join(words)
    else:
        text = ''.join(w.title() for w in words)  # tokens without separator
        words = [w.title() for w in words]
    doc = load('<tei><text>%s</text></tei>' % text, mapping, preserve_tags=False)
    tokens = all_tokens(doc)
    check_equal([doc.get_text(t) for t in tokens], words, 'tokens')
    for token, (tag, sub_tag) in zip(tokens, labels):
        doc.set_tag(token, tag)
        if sub_tag:
            doc.set_sub_tag(token, sub_tag)
        ctx.step()
    xml = serialise(doc.root)
    ctx.state(xml)
    container = etree.fromstring(xml)[0]
    chars = char_elements(container)
    check_equal(''.join(c for c, _, _ in chars), ''.join(words), 'text')
    position = 0
    previous = None
    for word, (tag, sub_tag) in zip(words, labels):
        part = chars[position:position + len(word)]
        position += len(word)
        prefix, value = split_prefix(tag)
        main_path = path_of(mapping, value)
        path = main_path
        sub_prefix, sub_value = split_prefix(sub_tag)
        if sub_tag:
            sub_path = path_of(mapping, sub_value)
            if sub_path[:len(main_path)] == main_path:
                path = sub_path
            else:
                sub_prefix = sub_value = None
        check_equal({p for _, p, _ in part}, {path}, 'element path of %r' % word)
        elements = {e for _, _, e in part}
        check(len(elements) == 1, 'more than one element for %r', word)
        element = elements.pop()
        main_element = element
        for _ in range(len(path) - len(main_path)):
            main_element = main_element.getparent()
        if previous:
            p_value, p_main_path, p_path, p_main_element, p_element = previous
            if p_main_path == main_path and main_path:
                if prefix == 'b-':
                    check(p_main_element is not main_element,
                          '%r has to start a new element of %r', word, tag)
                elif p_value == value:
                    check(p_main_element is main_element,
                          '%r has to continue the element of %r', word, tag)
            if p_path == path and path != main_path and p_value == value:
                if sub_prefix == 'b-':
                    check(p_element is not element,
                          '%r has to start a new element of %r', word, sub_tag)
                elif prefix != 'b-':
                    check(p_element is element,
                          '%r has to continue the element of %r', word, sub_tag)
        previous = (value, main_path, path, main_element, element)
    if mapping_name == 'nested' and any(label[0] and label[0][2:] == 'a' for label in labels):
        return  # re-reading only supports two levels, that is the field and its sub field
    check_reread(xml, mapping, ctx)


def check_reread(xml, mapping, ctx):
    """re-reading and writing restores the same document"""
    doc = load(xml, mapping)
    again = serialise(doc.root)
    ctx.step()
    expected = structure(etree.fromstring(xml)[0])
    actual = structure(etree.fromstring(again)[0])
    if '' in mapping:
        # text outside of all elements is written using the default element
        default_path = path_of(mapping, None)
        expected = [
            (c, path or default_path, number if path else None)
            for c, path, number in expected
        ]
        actual = [
            (c, path, number if e[2] is not None else None)
            for (c, path, number), e in zip(actual, expected)
        ]
        expected = renumber(expected)
        actual = renumber(actual)
    check_equal(actual, expected, 're-read %s' % xml)


def renumber(items):
    numbers = {}
    return [
        (c, path, number if number is None else numbers.setdefault(number, len(numbers)))
        for c, path, number in items
    ]


def run_round_trip(case, ctx):
    _, seq = case
    content = ''.join(OUTER[outer] % TREES[tree] for outer, tree in seq)
    xml = '<tei><text>%s</text></tei>' % content
    mapping = {'': 'note[@type="other"]', 't': 't', 'a': 'a[@k="v"]', 't-s': 't/s'}
    ctx.state(xml)
    check_reread(xml, mapping, ctx)

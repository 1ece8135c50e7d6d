"""P13: target values are extracted from the target XML as configured."""
import itertools
import re

from lxml import etree

from mc.core import check_equal

from sciencebeam_trainer_grobid_tools.annotation.target_annotation import (
    xml_root_to_target_annotations
)

PROPERTY = 'P13'
LEVEL = 'model_checking'
ASSUMPTIONS = [
    'XPath evaluation by lxml is trusted (the model knows the elements selected by the few '
    'expressions used)'
]
STATE = 'extracted values of an element'
TRANSITION = 'an element whose values are extracted'


class Node:
    def __init__(self, tag, *content):
        self.tag = tag
        self.content = list(content)  # texts and nodes

    def xml(self):
        if self.tag == '#comment':
            return '<!--%s-->' % self.content[0]
        return '<%s>%s</%s>' % (self.tag, ''.join(
            c.xml() if isinstance(c, Node)
            else c.replace('&', '&amp;').replace('\r', '&#13;') for c in self.content
        ), self.tag)

    @property
    def elements(self):
        return [c for c in self.content if isinstance(c, Node) and c.tag != '#comment']

    def descendants(self):
        for child in self.elements:
            yield child
            yield from child.descendants()

    def texts(self, exclude=()):
        for item in self.content:
            if not isinstance(item, Node):
                if item:
                    yield item
            elif item.tag != '#comment' and item not in exclude:
                yield from item.texts(exclude)

    def immediate(self):
        # texts of this element only, divided by child elements (and comments)
        return [c for c in self.content if not isinstance(c, Node)]


def N(tag, *content):
    return lambda: Node(tag, *[c() if callable(c) else c for c in content])


ITEMS = [
    'a', ' b ', ', c', 'd\n e', ' \n', '(',
    N('x', 'p'), N('y', 'q r'), N('x', ' s  t\n u '), N('x'), N('y', '12'), N('x', '10'),
    N('z', N('x', 'g'), N('y', 'h')), N('z', 'i', N('x', 'j'), ' k'), N('y', N('z', N('x', 'm'))),
    N('#comment', 'note'), N('x', ' '),
]
MORE = list(range(len(ITEMS)))
# used in shorter sequences: equal and descending limits of a range, non-digits, numbers in text
ITEMS += [N('y', '10'), N('y', '9'), N('x', '12 '), N('x', '\u00e94'), N('y', 'e11'), 'A1b 2 c',
          N('x', '99999'), N('y', '100001'), N('y', 'v', N('y', 'n'), ' w'), N('x', 'a b'),
          N('x', 'v\rw')]
EXTRA = list(range(len(MORE), len(ITEMS)))

CONCAT = '[[{"xpath": "./x"}, {"value": " "}, {"xpath": "./y"}]]'
CONCAT2 = '[[{"xpath": "./z"}, {"value": "-"}, {"xpath": ".//y"}], [{"xpath": "./x"}]]'
RANGE = '[{"min": {"xpath": "x"}, "max": {"xpath": "y"}}]'
RANGE_STANDALONE = '[{"min": {"xpath": "x"}, "max": {"xpath": "y"}, "standalone": true}]'
CONFIGS = [
    {},
    {'children': './/*'},
    {'children': './/*', 'use-raw-text': 'true'},
    {'children': './/*', 'use-raw-text': 'false'},
    {'children': './x'},
    {'children': './x | ./y', 'children.concat': CONCAT},
    {'children': './/*', 'children.concat': CONCAT2, 'use-raw-text': 'no'},
    {'children': 'x|y', 'children.range': RANGE_STANDALONE, 'require-next': 'true'},
    {'children': 'x|y', 'children.range': RANGE, 'match-multiple': 'true'},
    {'children': './/*', 'unmatched-parent-text': 'true', 'use-raw-text': 'false',
     'bonding': 'true'},
    {'children': './x', 'unmatched-parent-text': 'true'},
    {'ignore': './/x|z'},
    {'ignore': './y', 'children': './/*'},
    {'regex': r'(\w).*'},
    {'extract-regex': r'.*\b(\d+)\b.*'},
    {'sub.s': './x', 'sub.t': './/x', 'sub.u': './z', 'bonding': 'true'},
    {'sub.s': './/*', 'sub.s.extract-regex': r'\b(\w)\b', 'children': './x\n./z'},
    {'children': 'x|y', 'children.range': RANGE_STANDALONE, 'bonding': 'true',
     'match-multiple': 'true', 'sub.s': './x', 'sub.t': './/y'},
]


LONG = 12


def BOUNDS(tier):
    return {
        'long documents': 'pairs repeated %d times' % LONG,
        'content_of_an_element': {'items': len(MORE), 'length': _length(tier)},
        'more_items': {'items': len(ITEMS), 'length': 3 if tier == 'quick' else 4},
        'configurations': len(CONFIGS),
        'documents': 'up to %d elements, two fields, priorities' % _elements(tier)
    }


def _length(tier):
    return 4 if tier == 'quick' else 5


def _elements(tier):
    return 4 if tier == 'quick' else 5


def cases(tier):
    for length in range(0, _length(tier)):
        for seq in itertools.product(MORE, repeat=length):
            yield ['content', list(seq)]
    for length in (1, 2) if tier == 'quick' else (1, 2, 3):
        for seq in itertools.product(MORE + EXTRA, repeat=length):
            yield ['extra', list(seq)]
    for seq in itertools.product(MORE, repeat=2):
        yield ['content', list(seq) * LONG]
    for elements in itertools.product(range(len(ELEMENTS)), repeat=2):
        yield ['document', list(elements) * LONG]
    for count in range(0, _elements(tier) + 1):
        for elements in itertools.product(range(len(ELEMENTS)), repeat=count):
            yield ['document', list(elements)]


def run(case, ctx):
    if case[0] == 'content':
        if not case[1]:
            run_content([], ctx)
        for last in MORE:
            run_content(case[1] + [last], ctx)
    elif case[0] == 'extra':
        for last in MORE + EXTRA:
            if set(EXTRA) & set(case[1] + [last]):
                run_content(case[1] + [last], ctx)
    else:
        run_document(case, ctx)


def collapse(text):
    text = re.sub(r'[\t ]+', ' ', text.replace('\r', '\n'))
    return re.sub(r' ?\n[ \n]*', '\n', text).strip()


def select(node, xpath):
    """elements of the few XPath expressions used here, in document order"""
    result = []
    for part in xpath.split('\n'):
        names = [p.strip() for p in part.split('|')]
        matched = []
        for descendant in node.descendants():
            direct = descendant in node.elements
            for name in names:
                if name.startswith('.//'):
                    if name[3:] in ('*', descendant.tag):
                        matched.append(descendant)
                        break
                elif direct and name.replace('./', '') == descendant.tag:
                    matched.append(descendant)
                    break
        result.extend(matched)
    return result


def without_parents(nodes):
    return [n for n in nodes if not any(m in n.elements for m in nodes)]


def content_text(node):
    return collapse(''.join(node.texts()))


def raw_text(node, exclude=()):
    result = ''
    previous = ''
    for text in node.texts(exclude):
        if re.match(r'\w', text) and re.search(r'\w\Z', previous):
            result += ' '
        result += text
        previous = text
    return result.strip()


def has_raw_text(node):
    for item in node.content:
        if not isinstance(item, Node):
            if item.strip():
                return True
        elif item.elements and has_raw_text(item):
            return True
    return False


def concat_values(node, items):
    values, used = [], []
    for item in items:
        parts, nodes = [], []
        for source in item:
            if source.startswith('='):
                parts.append(source[1:])
                continue
            matched = without_parents(select(node, source))
            if not matched:
                break
            nodes += matched
            parts.append(' '.join(content_text(n) for n in matched))
        else:
            values.append(''.join(parts))
            used += nodes
    return values, used


def apply_extract(pattern, text):
    """the parts found, the texts around them and all of the text"""
    parts = []
    start = 0
    found = False
    for match in re.finditer(pattern, text):
        found = True
        if match.start(1) > start:
            parts.append(text[start:match.start(1)].strip())
        parts.append(match.group(1))
        start = match.end(1) + 1
    if not found:
        return [text]
    if start < len(text):
        parts.append(text[start:].strip())
    return parts if len(parts) == 1 else parts + [text]


def model_values(node, config):
    """(value or None, standalone values)"""
    standalone = []
    children = config.get('children')
    raw_config = config.get('use-raw-text')
    raw = {'true': True, 'false': False, 'no': False}[raw_config] if raw_config else (
        has_raw_text(node)
    )
    exclude = select(node, config['ignore']) if 'ignore' in config else []
    if children and not (children == './/*' and raw):
        values, used = [], []
        if 'children.concat' in config:
            values, used = concat_values(node, {
                CONCAT: [['./x', '= ', './y']], CONCAT2: [['./z', '=-', './/y'], ['./x']],
            }[config['children.concat']])
        if 'children.range' in config:
            limits, nodes = concat_values(node, [['x', '=|', 'y']])
            if limits and re.fullmatch(r'\s*\d+\s*\|\s*\d+\s*', limits[0]):
                first, last = limits[0].split('|')
                numbers = [str(i) for i in range(int(first), int(last) + 1)]
                used += nodes
                if config['children.range'] == RANGE_STANDALONE:
                    standalone = numbers
                else:
                    values += numbers
        others = [n for n in select(node, children) if n not in used]
        leaves = without_parents(others)
        texts = [content_text(n) for n in leaves] + [v.strip() for v in values]
        for other in others:
            if other not in leaves:
                texts += [t.strip() for t in other.immediate()]
        texts = [t for t in texts if t]
        if 'unmatched-parent-text' in config:
            text = collapse(''.join(node.texts(others + used)))
            if text and text not in texts:
                texts.append(text)
    else:
        texts = [t for t in [raw_text(node, exclude)] if t]
    if 'regex' in config:
        texts = [re.sub(r'(?s)^(\w)[^\n]*.*$', r'\1', t) for t in texts]
    if 'extract-regex' in config:
        texts = [v for t in texts for v in apply_extract(config['extract-regex'], t)]
    texts = sorted(texts, key=lambda t: -len(t))
    value = None
    if texts:
        value = texts[0] if len(texts) == 1 else texts
    return value, standalone


def model_sub_annotations(node, config):
    names = [k[4:] for k in config if k.startswith('sub.') and k.count('.') == 1]
    if not names:
        return None
    result = []
    for name in names:
        for matched in select(node, config['sub.' + name]):
            value = content_text(matched)
            if not value:
                continue
            if 'sub.' + name + '.extract-regex' in config:
                values = apply_extract(config['sub.' + name + '.extract-regex'], value)
                value = values[0] if len(values) == 1 else values
            result.append([name, value])
    return result


def describe(annotation):
    sub_annotations = annotation.sub_annotations
    return [
        annotation.name, annotation.value,
        [bool(annotation.match_multiple), bool(annotation.bonding), bool(annotation.require_next)],
        None if sub_annotations is None else [[s.name, s.value] for s in sub_annotations]
    ]


def flags_of(config):
    return [config.get(k) == 'true' for k in ('match-multiple', 'bonding', 'require-next')]


def model_annotations(node, name, config):
    value, standalone = model_values(node, config)
    sub_annotations = model_sub_annotations(node, config)
    result = []
    if value:
        result.append([name, value, flags_of(config), sub_annotations])
    for item in standalone:
        result.append([name, item, flags_of(config)[:2] + [False], sub_annotations])
    return result


def mapping_of(name, xpath, config):
    return dict(
        {name: xpath}, **{'%s.%s' % (name, key): value for key, value in config.items()}
    )


def run_content(seq, ctx):
    node = Node('e', *[ITEMS[i]() if callable(ITEMS[i]) else ITEMS[i] for i in seq])
    # neighbouring texts are one text
    merged = []
    for item in node.content:
        if merged and not isinstance(item, Node) and not isinstance(merged[-1], Node):
            merged[-1] += item
        else:
            merged.append(item)
    node.content = merged
    root = etree.fromstring('<r><o>x</o>%s<o/></r>' % node.xml())
    for config in CONFIGS:
        if '#comment' in [getattr(c, 'tag', None) for c in node.content] and (
            'use-raw-text' not in config
        ):
            # a comment within a word divides it
            index = [getattr(c, 'tag', None) for c in node.content].index('#comment')
            around = [c for c in node.content[max(0, index - 1):index + 2]]
            if len([c for c in around if not isinstance(c, Node)]) == 2:
                continue
        actual = xml_root_to_target_annotations(root, {'r': mapping_of('f', 'e', config)})
        ctx.step()
        ctx.trace()
        actual = [describe(a) for a in actual]
        ctx.state(actual)
        check_equal(
            actual, model_annotations(node, 'f', config),
            'annotations of %s with %r' % (node.xml(), config)
        )


ELEMENTS = [
    lambda: Node('e', 'v%d'), lambda: Node('g', 'v%d'), lambda: Node('w', Node('e', 'v%d')),
    lambda: Node('e', Node('x', '5'), Node('y', '6'), 'v%d'), lambda: Node('o', 'v%d'),
    lambda: Node('e', ' '), lambda: Node('w', 'v%d', Node('g', 'u%d')),
]
DOCUMENT_MAPPINGS = [
    [('f', 'e', {}), ('h', 'g', {})],
    [('f', 'e', {}), ('h', './/g', {'priority': '1'})],
    [('f', './/e', {'priority': '1'}), ('h', 'e', {})],
    [('f', '\n g\n .//e\n', {}), ('h', 'w', {'priority': '-1'})],
    [('h', 'w', {}), ('f', './/e', {
        'children': 'x|y', 'children.range': RANGE_STANDALONE, 'priority': '2'})],
    [('f', 'e', {'children': 'x|y', 'children.range': RANGE_STANDALONE,
                 'unmatched-parent-text': 'true'}), ('h', './/*', {})],
]


def select_document(root, xpath):
    result = []
    for part in xpath.strip().split('\n'):
        result += select(root, part.strip())
    return result


def run_document(case, ctx):
    nodes = []
    for index, element in enumerate(case[1]):
        node = ELEMENTS[element]()
        for n in [node] + list(node.descendants()):
            n.content = [
                c if isinstance(c, Node) else c.replace('%d', str(index)) for c in n.content
            ]
        nodes.append(node)
    root = Node('r', *nodes)
    xml_root = etree.fromstring(root.xml())
    order = {id(n): i for i, n in enumerate(root.descendants())}
    for mapping in DOCUMENT_MAPPINGS:
        xml_mapping = {}
        expected = []
        for name, xpath, config in mapping:
            xml_mapping.update(mapping_of(name, xpath, config))
            for node in select_document(root, xpath):
                for i, item in enumerate(model_annotations(node, name, config)):
                    is_standalone = 'children.range' in config and item[1] in ('5', '6')
                    expected.append((
                        -int(config.get('priority', '0')), order[id(node)],
                        1 + i if is_standalone else 0, len(expected), item
                    ))
        expected.sort(key=lambda item: item[:4])
        actual = xml_root_to_target_annotations(
            xml_root, {'other': {'f': '//o'}, 'r': xml_mapping}
        )
        ctx.step(len(nodes))
        ctx.trace()
        actual = [describe(a) for a in actual]
        ctx.state(actual)
        check_equal(
            actual, [item[4] for item in expected],
            'annotations of %s with %r' % (root.xml(), mapping)
        )

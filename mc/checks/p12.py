"""P12: malformed XML is repaired without losing text or elements, valid XML is not changed."""
import itertools

from lxml import etree

from mc.core import check, check_equal
from mc.pipelines import PIPELINES, Workspace, parse
from mc.targets import jats

from sciencebeam_trainer_grobid_tools.utils.xml import get_fixed_xml_str

PROPERTY = 'P12'
LEVEL = 'model_checking'
ASSUMPTIONS = [
    'the document has one root element; names and attributes are valid (only their case, quoting '
    'and values vary)',
    'comments and processing instructions may be dropped by the repair (the text of CDATA '
    'sections is kept)'
]
TRANSITION = 'a tag or text of the document'

# source, [(kind, data)]
TOKENS = {
    't': ('text', [('text', 'text')]),
    'u': (' \u00e4 ', [('text', ' \u00e4 ')]),
    'A': ('<a>', [('start', 'a', {})]),
    'a': ('</a>', [('end', 'a')]),
    'B': ('<b>', [('start', 'b', {})]),
    'b': ('</b>', [('end', 'b')]),
    'c': ('<c/>', [('start', 'c', {}), ('end', 'c')]),
    'l': ('<lb/>', [('start', 'lb', {}), ('end', 'lb')]),
    'p': ('</p>', [('end', 'p')]),
    '&': (' & ', [('text', ' & ')]),
    ';': ('&amp;&lt;', [('text', '&<')]),
    'n': ('&nbsp;', [('text', '\u00a0')]),
    '#': ('&#228;&#xe4;', [('text', '\u00e4\u00e4')]),
    '<': (' < ', [('text', ' < ')]),
    'X': ('<a x="1 &amp; 2">', [('start', 'a', {'x': '1 & 2'})]),
    'Y': ('<b y>', [('start', 'b', {'y': ''})]),
    'Z': ("<b z=1 xml:lang='i &lt; \"'>", [
        ('start', 'b', {'z': '1', '{http://www.w3.org/XML/1998/namespace}lang': 'i < "'})]),
    'C': ('<!-- </a> -->', []),
    'D': ('<docTitle sameAs="X">', [('start', 'docTitle', {'sameAs': 'X'})]),
    'd': ('</docTitle>', [('end', 'docTitle')]),
    'T': ('<title>', [('start', 'title', {})]),
    'S': ('<script>', [('start', 'script', {})]),
    'R': ('<b q="&lt;a>">', [('start', 'b', {'q': '<a>'})]),
    'E': ('<b kK = "v" mM\n=\n\'w\' >', [('start', 'b', {'kK': 'v', 'mM': 'w'})]),
    'e': ('</b\n>', [('end', 'b')]),
    'K': ('<![CDATA[ <i> & ]]>', [('text', ' <i> & ')]),
}
ALL = ''.join(TOKENS)
TOKENS.update({
    'F': ('<figure>', [('start', 'figure', {})]),
    'f': ('</figure>', [('end', 'figure')]),
    'x': ('</content>', []),
    'G': ('<content>inner</content>', [
        ('start', 'content', {}), ('text', 'inner'), ('end', 'content')]),
})
ALPHABETS = [
    (ALL, 3, 4),
    ('tAaBbp', 6, 7),
    ('tAaBbcp&', 5, 6),
    ('tDdTpSa', 5, 6),
    ('tuABab', 5, 7),
]
ENDINGS = {'closed': '</tei>', 'open': '', 'twice': '</tei></tei>'}
LONG = 15
TOOL_ALPHABET = 'tuAapl&nDdX'


def BOUNDS(tier):
    return {
        'tags_and_texts': {a: (q if tier == 'quick' else t) for a, q, t in ALPHABETS},
        'long documents': 'pairs and triples repeated %d times' % LONG,
        'root_element': sorted(ENDINGS),
        'tool': {'alphabet': TOOL_ALPHABET, 'length': _tool_length(tier)}
    }


def _tool_length(tier):
    return 3 if tier == 'quick' else 4


def cases(tier):
    seen = set()
    for alphabet, quick, thorough in ALPHABETS:
        for length in range(0, (quick if tier == 'quick' else thorough)):
            for tokens in itertools.product(alphabet, repeat=length):
                key = (tokens, alphabet)
                if key not in seen:
                    seen.add(key)
                    yield ['repair', ''.join(tokens), alphabet]
    # long documents, deeply nested elements
    for tokens in itertools.product(ALL, repeat=2):
        yield ['repair', ''.join(tokens) * LONG, ALL]
        yield ['repair', tokens[0] * LONG + tokens[1] * LONG, ALL]
    for tokens in itertools.product('tAaBbp', repeat=3):
        yield ['repair', ''.join(tokens) * LONG, ALL]
    # the end tag of an element many levels above
    for outer, end in (('A', 'a'), ('X', 'a'), ('D', 'd'), ('B', 'b')):
        for inner in 'ABDTSXY':
            for depth in (7, 8, 9, 10, 16, 40):
                for after in ('', 't', 'p', 't' + end, 'cAt'):
                    yield ['repair', 't' + outer + inner * depth + 't' + end + after, ALL]
    for length in range(1, _tool_length(tier) + 1):
        for tokens in itertools.product(TOOL_ALPHABET, repeat=length):
            yield ['tool', 'fulltext', ''.join(tokens)]
    for length in range(1, _tool_length(tier) + 2):
        for tokens in itertools.product('tlFfxG', repeat=length):
            if 'x' in tokens and 'G' in tokens:
                continue
            if is_valid(''.join(['<a>'] + [TOKENS[t][0] for t in tokens if t != 'x'] + ['</a>'])):
                yield ['tool', 'figure', ''.join(tokens)]


def model_repair(items):
    """nested elements: (name, attributes, [children or text])"""
    root = None
    stack = []
    for item in items:
        kind = item[0]
        if kind == 'text':
            if stack:
                children = stack[-1][2]
                if children and isinstance(children[-1], str):
                    children[-1] += item[1]
                else:
                    children.append(item[1])
        elif kind == 'start':
            element = (item[1], item[2], [])
            if stack:
                stack[-1][2].append(element)
            else:
                root = element
            stack.append(element)
        else:
            names = [element[0] for element in stack]
            if item[1] in names:
                # elements which were not closed end with the surrounding one
                del stack[len(names) - 1 - names[::-1].index(item[1]):]
            elif len(stack) > 1:
                # wrong name
                stack.pop()
            # otherwise ignored, it would be the end of the document
    return root


def model_of(element):
    children = []
    if element.text:
        children.append(element.text)
    for child in element:
        if isinstance(child.tag, str):
            children.append(model_of(child))
        if child.tail:
            if children and isinstance(children[-1], str):
                children[-1] += child.tail
            else:
                children.append(child.tail)
    return (element.tag, dict(element.attrib), children)


def is_valid(xml):
    try:
        etree.fromstring(xml.encode('utf-8'))
        return True
    except etree.XMLSyntaxError:
        return False


def items_of(tokens):
    return [item for token in tokens for item in TOKENS[token][1]]


def run(case, ctx):
    if case[0] == 'repair':
        for token in case[2]:
            run_repair(case[1] + token, ctx)
        if not case[1]:
            run_repair('', ctx)
    else:
        run_tool(case, ctx)


def run_repair(tokens, ctx):
    content = ''.join(TOKENS[token][0] for token in tokens)
    for ending_name, ending in ENDINGS.items():
        for declaration in ('', '<?xml version="1.0" encoding="utf-8"?>\n'):
            xml = declaration + '<tei x="y">' + content + ending
            ctx.step(len(tokens))
            ctx.trace()
            fixed = get_fixed_xml_str(xml)
            if is_valid(xml):
                check_equal(fixed, xml, 'valid XML')
                continue
            try:
                actual = model_of(etree.fromstring(fixed.strip().encode('utf-8')))
            except etree.XMLSyntaxError as exc:
                check(False, 'not well-formed: %r (from %r): %r', fixed, xml, exc)
            expected = model_repair(
                [('start', 'tei', {'x': 'y'})] + items_of(tokens)
                + [('end', 'tei')] * {'closed': 1, 'open': 0, 'twice': 2}[ending_name]
            )
            check_equal(actual, expected, 'repaired %r' % xml)
            ctx.state([fixed])


def text_of(model):
    if isinstance(model, str):
        return model
    if model[0] == 'lb':
        return ' '
    return ''.join(text_of(child) for child in model[2])


def run_tool(case, ctx):
    _, name, tokens = case
    pipeline = PIPELINES[name]
    space = Workspace(ctx.new_dir(), pipeline)
    content = ''.join(TOKENS[token][0] for token in tokens)
    target = jats(
        title='unrelated', body='<sec><title>other</title></sec>',
        figs=['<label>other</label>']
    )
    space.add(content, target)
    space.main()
    ctx.step(len(tokens))
    data = space.output_bytes()
    check(data is not None, 'no output for %r', content)
    root = parse(data)
    for element in root.iter():
        if etree.QName(element).localname == 'lb':
            element.text = ' '
    actual = ''.join(root.itertext())
    # an end tag closing the element containing the text does not lose text
    expected = text_of(model_repair(
        [('start', 'tei', {}), ('start', 'text', {})] + items_of(tokens)
        + [('end', 'text'), ('end', 'tei')]
    ))
    check_equal(actual.split(), expected.split(), 'text of %r' % content)
    ctx.state([data.decode('utf-8')])

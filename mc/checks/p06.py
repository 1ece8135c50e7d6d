"""P06: existing annotations are kept or removed exactly as requested."""
import itertools

from lxml import etree

from mc import docs
from mc.core import check, check_equal
from mc.pipelines import PIPELINES, Workspace, parse, local_name
from mc.checks.p02 import all_tokens, char_elements
from mc.targets import jats

from sciencebeam_trainer_grobid_tools.core.annotation.annotator import AbstractAnnotator
from sciencebeam_trainer_grobid_tools.annotation.annotator import (
    annotate_structured_document_inplace
)
from sciencebeam_trainer_grobid_tools.annotation.sub_tag_annotator import SubTagOnlyAnnotator
from sciencebeam_trainer_grobid_tools.annotation.target_annotation import TargetAnnotation
from sciencebeam_trainer_grobid_tools.structured_document.grobid_training_tei import (
    GrobidTrainingTeiStructuredDocument,
    SUB_LEVEL
)

PROPERTY = 'P06'
LEVEL = 'model_checking'
ASSUMPTIONS = [
    'fields listed by --always-preserve-fields are checked together with --no-preserve-tags '
    '(without it, the tool also drops the tags of all other fields)',
    'documents have at most two levels of annotations'
]
TRANSITION = 'an existing annotation (or token) passed through the annotation'

# per pipeline: [(document part, main field, sub field)], texts are replaced by unique words
PARTS = {
    'header': [
        'W', '<docTitle><titlePart>W</titlePart></docTitle>', '<div type="abstract">W</div>',
        '<byline><docAuthor>W W</docAuthor></byline>', '<unknown>W</unknown>',
        '<note type="doi">W</note>', '<byline><docAuthor>W</docAuthor><lb/> '
        '<affiliation>W</affiliation></byline>', '<unknown x="y">W<b>W</b>W</unknown>',
    ],
    'segmentation': [
        '<front>W</front>', '<body>W</body>', '<page>W</page>', '<listBibl>W</listBibl>',
        '<note place="headnote">W</note>', '<div type="annex">W</div>', '<unknown>W</unknown>'
    ],
    'fulltext': [
        'W', '<head>W</head>', '<p>W</p>', '<p>W<ref type="biblio">W</ref>W</p>',
        '<figure>W</figure>', '<unknown>W</unknown>', '<other type="keywords">W</other>',
    ],
    'figure': [
        '<figure>W</figure>', '<figure><head>W</head>W</figure>',
        '<figure><head>W<label>W</label></head>W<figDesc>W</figDesc></figure>',
        '<figure>W<figDesc>W</figDesc>W<unknown>W</unknown></figure>',
    ],
    'table': [
        '<figure type="table">W</figure>', '<figure type="table">W<unknown>W</unknown></figure>',
        '<figure type="table"><head><label>W</label></head>W<figDesc>W W</figDesc></figure>',
        '<figure type="table">W<figDesc>W</figDesc>W</figure>',
    ],
    'reference_segmenter': [
        'W', '<listBibl><bibl>W</bibl></listBibl>', '<unknown>W</unknown>',
        '<listBibl><bibl><label>W</label>W</bibl></listBibl>',
    ],
    'reference': [
        '<bibl>W</bibl>', '<bibl><author>W</author>W</bibl>',
        '<bibl>W<title level="a">W</title>W<unknown>W</unknown></bibl>',
        '<bibl><idno type="DOI">W</idno></bibl>'
    ],
    'affiliation_address': [
        '<affiliation>W</affiliation>', '<affiliation><marker>W</marker>W</affiliation>',
        '<affiliation>W<orgName type="institution">W</orgName>W</affiliation>',
        '<affiliation>W<orgName type="department">W W</orgName>'
        '<orgName type="unknown">W</orgName></affiliation>'
    ],
}

# path of the text -> (main field, main path, sub field), for text within fields
FIELDS = {
    'header': {
        'docTitle/titlePart': 'title', 'div[abstract]': 'abstract', 'byline/docAuthor': 'author',
        'byline/affiliation': 'author_aff', 'note[doi]': 'doi'
    },
    'segmentation': {
        'front': 'front', 'page': 'page', 'listBibl': 'reference',
        'note[headnote]': 'headnote', 'div[annex]': 'annex'
    },
    'fulltext': {
        'head': 'section_title', 'p': 'section_paragraph', 'figure': 'figure',
        'other[keywords]': 'keywords'
    },
    'figure': {'figure': 'figure'},
    'table': {'figure[table]': 'table'},
    'reference_segmenter': {'listBibl/bibl': 'reference'},
    'reference': {'bibl': 'reference'},
    'affiliation_address': {'affiliation': 'author_aff'},
}
SUB_FIELDS = {
    'figure': {'figure/head/label': 'figure-label', 'figure/figDesc': 'figure-caption'},
    'table': {
        'figure[table]/head/label': 'table-label', 'figure[table]/figDesc': 'table-caption'
    },
    'affiliation_address': {
        'affiliation/marker': 'author_aff-label',
        'affiliation/orgName[institution]': 'author_aff-institution',
        'affiliation/orgName[department]': 'author_aff-department',
    }
}
DEFAULT_PATH = {
    name: 'note[other]' for name in PIPELINES
}
DEFAULT_PATH['segmentation'] = 'body'
DEFAULT_PATH['fulltext'] = 'other'

ALL = object()
_ALL_FIELDS = {
    'fulltext': {'section_title', 'section_paragraph', 'figure', 'keywords'},
}

# options -> (fields that are not preserved, fields that are always preserved,
#             sub fields that are preserved)
OPTION_SETS = {
    'header': [
        ([], set(), None, None),
        (['--no-preserve-tags'], ALL, None, None),
        (['--fields=title'], {'title'}, None, None),
        (['--fields=title,author,doi'], {'title', 'author', 'doi'}, None, None),
        (['--no-preserve-tags', '--always-preserve-fields=title,doi'], ALL, {'title', 'doi'},
         None),
        (['--no-preserve-tags', '--fields=title', '--always-preserve-fields=title'],
         ALL, {'title'}, None),
        (['--use-line-number-annotator'], set(), None, None),
        (['--matcher=complex'], set(), None, None),
    ],
    'segmentation': [
        ([], set(), None, None),
        (['--no-preserve-tags'], ALL, None, None),
        (['--no-preserve-fields=page'], {'page'}, None, None),
        (['--no-preserve-fields=reference,headnote,front'], {'reference', 'headnote', 'front'},
         None, None),
        (['--no-merge-references'], set(), None, None),
    ],
    'fulltext': [
        ([], _ALL_FIELDS['fulltext'], None, None),
        (['--no-preserve-tags'], ALL, None, None),
        (['--fields=section_title'], {'section_title'}, None, None),
        (['--fields=figure,keywords', '--no-extend-to-line'], {'figure', 'keywords'}, None,
         None),
        (['--no-preserve-tags', '--always-preserve-fields=section_paragraph'], ALL,
         {'section_paragraph'}, None),
    ],
    'reference_segmenter': [
        ([], {'reference'}, None, None),
        (['--no-preserve-tags'], ALL, None, None),
        (['--fields=author'], {'author'}, None, None),
        (['--no-preserve-tags', '--always-preserve-fields=reference'], ALL, {'reference'}, None),
    ],
    'reference': [
        ([], set(), None, None),
        (['--no-preserve-tags'], ALL, {'reference'}, None),
        (['--segment-references'], {'reference'}, None, None),
        (['--segment-references', '--no-preserve-tags'], ALL, None, None),
        (['--segment-references', '--fields=title'], {'title'}, None, None),
    ],
}
for _name, _field, _segment, _subs in (
    ('figure', 'figure', '--segment-figures', ('figure-label', 'figure-caption')),
    ('table', 'table', '--segment-tables', ('table-label', 'table-caption')),
    ('affiliation_address', 'author_aff', '--segment-affiliation',
     ('author_aff-institution', 'author_aff-department'))
):
    OPTION_SETS[_name] = [
        ([], set(), None, None),
        (['--preserve-sub-tags'], set(), None, set()),
        (['--preserve-sub-tags', '--no-preserve-sub-fields=' + _subs[0]], set(), None,
         {_subs[0]}),
        (['--preserve-sub-tags', '--no-preserve-sub-fields=' + ','.join(_subs)], set(), None,
         set(_subs)),
        (['--no-preserve-sub-fields=' + _subs[0]], set(), None, None),
        (['--no-preserve-tags', '--preserve-sub-tags'], ALL, {_field}, set()),
        ([_segment], {_field}, None, None),
        ([_segment, '--preserve-sub-tags'], {_field}, None, set()),
        ([_segment, '--fields=title', '--preserve-sub-tags'], {'title'}, None, set()),
        ([_segment, '--no-preserve-tags'], ALL, None, None),
    ]


def BOUNDS(tier):
    return {
        'cli': {
            'parts': PARTS, 'parts_per_document': _parts(tier),
            'long documents': 'all pairs of parts, %d times' % LONG[tier], 'separators': SEPARATORS,
            'option_sets': {name: [o[0] for o in sets] for name, sets in OPTION_SETS.items()}
        },
        'api': {
            'tokens': 2 if tier == 'quick' else 3,
            'existing tags of a token': len(TOKEN_STATES), 'lines': [1, 2],
            'options': len(list(_api_options())), 'annotator': ANNOTATIONS
        },
        'annotated again': {
            'tools': {name: parts for name, (_, parts) in OVER_TOOLS.items()},
            'words': len(OVER_WORDS), 'layouts': 3, 'options': 2
        },
        'elements': {'names': ATTR_NAMES, 'attributes': ATTRIBUTES, 'layouts': ATTR_LAYOUTS},
        'sub tags only': {
            'tokens': 4, 'tags set or preserved per token': SUB_TOKEN_TAGS,
            'sub tags': 'every range of tokens', 'lines': [1, 2]
        }
    }


def _parts(tier):
    return 2 if tier == 'quick' else 3


SEPARATORS = ['<lb/>', ' ', '']
# number of times a pair of parts is repeated
LONG = {'quick': 30, 'thorough': 100}

# --- api
TOKEN_STATES = [
    (None, None), ('f', None), ('g', None), ('f', 'f-s'), ('g', 'g-s'), ('g', 'g-r')
]
ANNOTATIONS = [None, (0, 'f'), (0, 'g'), (1, 'f'), (1, 'h')]


def _api_options():
    for preserve_tags in (True, False):
        for fields in (None, ['f'], ['f', 'g'], ['h']):
            for preserve_sub_tags in (True, False):
                for no_preserve_sub in (None, ['g-s']):
                    yield [preserve_tags, fields, None, preserve_sub_tags, no_preserve_sub]
    for fields in (None, ['f'], ['g']):
        for preserve_fields in (['f'], ['f', 'g']):
            yield [False, fields, preserve_fields, True, None]


def cases(tier):
    for length in range(1, _parts(tier) + 1):
        for name in PIPELINES:
            for option_index in range(len(OPTION_SETS[name])):
                for seq in itertools.product(range(len(PARTS[name])), repeat=length):
                    # segments consist of whole lines, always preserved fields are extended to
                    # whole lines (like those that were found)
                    whole_lines = name == 'segmentation' or (
                        name in ('header', 'fulltext', 'reference_segmenter')
                        and OPTION_SETS[name][option_index][2]
                    )
                    count = 1 if length == 1 or whole_lines else len(SEPARATORS)
                    for separator in range(count):
                        yield ['cli', name, option_index, list(seq), separator]
    # long documents
    for name in PIPELINES:
        for option_index in range(len(OPTION_SETS[name])):
            for pair in itertools.product(range(len(PARTS[name])), repeat=2):
                whole_lines = name == 'segmentation' or (
                    name in ('header', 'fulltext', 'reference_segmenter')
                    and OPTION_SETS[name][option_index][2]
                )
                for separator in range(1 if whole_lines else len(SEPARATORS)):
                    yield ['cli', name, option_index, list(pair) * LONG[tier], separator]
    for options in _api_options():
        for length in range(1, (2 if tier == 'quick' else 3) + 1):
            for states in itertools.product(range(len(TOKEN_STATES)), repeat=length):
                for separator in (0, 1):
                    for annotation in range(len(ANNOTATIONS)):
                        yield ['api', options, list(states), separator, annotation]


    for name, (_, parts) in OVER_TOOLS.items():
        for wrappers in itertools.product(range(len(parts)), repeat=len(OVER_WORDS)):
            for layout in range(3):
                for option_index in range(2):
                    yield ['over', name, list(wrappers), layout, option_index]
    for name, (_, _, parts) in OVER_SUB_TOOLS.items():
        for wrappers in itertools.product(range(len(parts)), repeat=len(OVER_WORDS)):
            for layout in range(3):
                for option_index in range(len(OVER_SUB_OPTIONS)):
                    yield ['over-sub', name, list(wrappers), layout, option_index]
    for tags in itertools.product(range(len(SUB_TOKEN_TAGS)), repeat=4):
        yield ['sub', list(tags)]


    for name in ATTR_TOOLS:
        for element, attribute in itertools.product(
            range(len(ATTR_NAMES)), range(len(ATTRIBUTES))
        ):
            for layout in range(len(ATTR_LAYOUTS)):
                yield ['attributes', name, element, attribute, layout]


# --- elements with all kinds of names and attributes, main or sub annotations
ATTR_TOOLS = {
    'header': [], 'fulltext': ['--fields=section_title'], 'segmentation': [],
    'reference_segmenter': [], 'figure': ['--preserve-sub-tags'], 'table': ['--preserve-sub-tags'],
    'affiliation_address': ['--preserve-sub-tags']
}
ATTR_PARENTS = {
    'figure': '<figure>%s</figure>', 'table': '<figure type="table">%s</figure>',
    'affiliation_address': '<affiliation>%s</affiliation>'
}
ATTR_NAMES = ['unknown', 'b-x', 'i-x', 'a.b', 'A', 'b', 'i', 'o', 'x:y', 'lbx', 'text']
ATTRIBUTES = [
    '', 'xml:lang="en"', 'data-x="y"', 'x:y="z"', 'a="x]y"', 'a="[x=\'y\']"', 'a="&quot;z&quot;"',
    'a="x=y"', 'a="/x/y"', 'a="{x"', 'a="x}y"', 'a="@"', 'a=""', 'a=" x  y "', 'a="\u00e9 &amp; &lt;"',
    'a="b-x"', 'a.b="1"', '_a="1"', 'TYPE="other"'
]
ATTR_LAYOUTS = [
    'W<lb/>E<lb/>W', 'E<lb/>E', 'E', 'W<lb/>E<lb/>E<lb/>W<lb/>E'
]


def run_attributes(case, ctx):
    _, name, element, attribute, layout = case
    element = ATTR_NAMES[element]
    attribute = ATTRIBUTES[attribute]
    namespace = ' xmlns:x="urn:x"' if ':' in element or 'x:' in attribute else ''
    markup = '<%s%s%s>W W<lb/> W</%s>' % (
        element, namespace, ' ' + attribute if attribute else '', element
    )
    content = number_words(ATTR_PARENTS.get(name, '%s') % (
        ATTR_LAYOUTS[layout].replace('E', markup)
    ))
    pipeline = PIPELINES[name]
    workspace = Workspace(ctx.new_dir(), pipeline)
    workspace.add(content, docs.EMPTY_TARGET)
    workspace.main(*ATTR_TOOLS[name])
    ctx.step(ATTR_LAYOUTS[layout].count('E'))
    output = workspace.output_bytes()
    check(output is not None, 'no output')
    source = char_elements(pipeline.container(parse(pipeline.document(content))))
    result = char_elements(pipeline.container(parse(output)))
    ctx.state([name, output.decode('utf-8')])
    check_equal(''.join(c for c, _, _ in result), ''.join(c for c, _, _ in source), 'text')
    what = '%s: %s' % (content, output.decode('utf-8'))
    for (c, path, _), (_, actual, _) in zip(source, result):
        if path:
            check_equal(actual, path, 'elements of %r in %s' % (c, what))
        else:
            check_equal(path_string(actual), DEFAULT_PATH[name], 'elements of %r in %s' % (c, what))
    if name != 'segmentation':
        check_equal(
            [a[2] is b[2] for a, b in zip(result, result[1:]) if a[1] == b[1] and a[1]],
            [a[2] is b[2] for (a, b), (x, y) in zip(
                zip(source, source[1:]), zip(result, result[1:])
            ) if x[1] == y[1] and x[1]],
            'separate elements of %s' % what
        )


SUB_TOKEN_TAGS = ['', 'b-g', 'i-g', 'b-f', '<g>']

# --- existing annotations of text that is annotated again
OVER_TOOLS = {
    'header': ('docTitle/titlePart', [
        '%s', '<docTitle><titlePart>%s</titlePart></docTitle>', '<div type="abstract">%s</div>',
        '<unknown>%s</unknown>', '<unknown>%s<b>%s</b></unknown>'
    ]),
    'fulltext': ('head', ['%s', '<head>%s</head>', '<p>%s</p>', '<unknown>%s</unknown>']),
}
OVER_SUB_TOOLS = {
    'affiliation_address': ('affiliation', 'affiliation/orgName[institution]', [
        '%s', '<orgName type="institution">%s</orgName>', '<orgName type="department">%s</orgName>',
        '<unknown>%s</unknown>'
    ]),
    'figure': ('figure', 'figure/figDesc', [
        '%s', '<figDesc>%s</figDesc>', '<head>%s</head>', '<unknown>%s</unknown>'
    ]),
}
OVER_SUB_OPTIONS = [
    [], ['--preserve-sub-tags'], ['--segment'], ['--segment', '--preserve-sub-tags']
]
OVER_WORDS = ['Alpha', 'bravo', 'charlie']


def run_over_sub(case, ctx):
    """likewise for sub annotations"""
    _, name, wrappers, layout, option_index = case
    element, path, parts = OVER_SUB_TOOLS[name]
    content = 'Golf'
    for word, wrapper in zip(OVER_WORDS, wrappers):
        before, separator = ('', ' ') if layout == 0 else (' ', '')
        if layout == 2:
            before, separator = ' ', '<lb/>'
        content += separator + parts[wrapper] % (before + word)
    content = '<%s>%s</%s>' % (element, content, element)
    value = ' '.join(OVER_WORDS)
    target = (
        jats(affs=['<label>Golf</label> <institution>%s</institution>' % value])
        if name == 'affiliation_address'
        else jats(figs=['<label>Golf</label> <caption>%s</caption>' % value])
    )
    segment = {'affiliation_address': '--segment-affiliation', 'figure': '--segment-figures'}[name]
    options = [
        segment if option == '--segment' else option for option in OVER_SUB_OPTIONS[option_index]
    ]
    pipeline = PIPELINES[name]
    workspace = Workspace(ctx.new_dir(), pipeline)
    workspace.add(content, target)
    workspace.main(*options)
    ctx.step(len(wrappers))
    output = workspace.output_bytes()
    chars = char_elements(pipeline.container(parse(output)))[len('Golf'):]
    ctx.state([name, output.decode('utf-8')])
    check_equal(''.join(c for c, _, _ in chars), ''.join(OVER_WORDS), 'text')
    check_equal(
        {path_string(p) for _, p, _ in chars}, {path}, 'elements of %s, %s: %s' % (
            content, options, output.decode('utf-8'))
    )
    check_equal(
        len({element for _, _, element in chars}), 1,
        'number of elements of %s, %s: %s' % (content, options, output.decode('utf-8'))
    )


def run_over(case, ctx):
    """text that is found becomes one annotation, whatever its annotations were before"""
    _, name, wrappers, layout, option_index = case
    path, parts = OVER_TOOLS[name]
    content = ''
    for word, wrapper in zip(OVER_WORDS, wrappers):
        count = parts[wrapper].count('%s')
        before, separator = ('', ' ') if not content or layout == 0 else (' ', '')
        if layout == 2:
            before, separator = ' ', '<lb/>'
        texts = [before + word] if count == 1 else [before, word]
        content += (separator if content else '') + parts[wrapper] % tuple(texts)
    title = ' '.join(OVER_WORDS)
    target = (
        jats(title=title) if name == 'header'
        else jats(body='<sec><title>%s</title></sec>' % title)
    )
    options = [[], ['--no-preserve-tags']][option_index]
    pipeline = PIPELINES[name]
    workspace = Workspace(ctx.new_dir(), pipeline)
    workspace.add(content, target)
    workspace.main(*options)
    ctx.step(len(wrappers))
    output = workspace.output_bytes()
    chars = char_elements(pipeline.container(parse(output)))
    ctx.state([name, output.decode('utf-8')])
    check_equal(''.join(c for c, _, _ in chars), ''.join(OVER_WORDS), 'text')
    check_equal({path_string(p) for _, p, _ in chars}, {path}, 'elements of %s' % content)
    check_equal(
        len({element for _, _, element in chars}), 1,
        'number of elements of %s: %s' % (content, output.decode('utf-8'))
    )


def run_sub(case, ctx):
    """annotating sub tags only: all tags stay, whether they were read or set before"""
    words = ['alpha', 'bravo', 'charlie', 'delta']
    tags = [SUB_TOKEN_TAGS[i] for i in case[1]]
    for separator in (' ', '<lb/>'):
        for start, end in itertools.combinations(range(len(words) + 1), 2):
            xml = '<tei><text>%s</text></tei>' % separator.join(
                '<g>%s</g>' % word if tag == '<g>' else word for word, tag in zip(words, tags)
            )
            doc = GrobidTrainingTeiStructuredDocument(
                etree.fromstring(xml), container_node_path='text',
                tag_to_tei_path_mapping={'f': 'f', 'g': 'g', 'f-s': 'f/s', 'g-s': 'g/s'}
            )
            tokens = all_tokens(doc)
            for token, tag in zip(tokens, tags):
                if tag and tag != '<g>':
                    doc.set_tag(token, tag)
            before = [doc.get_tag_or_preserved_tag(token) for token in tokens]
            SubTagOnlyAnnotator([TargetAnnotation(
                ' '.join(words), 'g', sub_annotations=[
                    TargetAnnotation(' '.join(words[start:end]), 'g-s')
                ]
            )], use_sub_annotations=True).annotate(doc)
            ctx.step(len(words))
            ctx.trace()
            what = 'tags %r, sub tag for tokens %d to %d' % (tags, start, end)
            check_equal(
                [doc.get_tag_or_preserved_tag(token) for token in tokens], before, what
            )
            actual = [doc.get_tag_or_preserved_tag(token, level=SUB_LEVEL) for token in tokens]
            ctx.state([before, actual])
            check_equal(
                actual, [
                    None if not start <= i < end else 'b-g-s' if i == start else 'i-g-s'
                    for i in range(len(words))
                ], what
            )


def run(case, ctx):
    if case[0] == 'sub':
        run_sub(case, ctx)
    elif case[0] == 'over-sub':
        run_over_sub(case, ctx)
    elif case[0] == 'over':
        run_over(case, ctx)
    elif case[0] == 'attributes':
        run_attributes(case, ctx)
    elif case[0] == 'cli':
        run_cli(case, ctx)
    else:
        run_api(case, ctx)


def number_words(content):
    """unique words, not found in any target"""
    result = []
    for i, part in enumerate(content.split('W')):
        if i:
            # words of different length, for a number of words
            letter = 'abcdefghijklmnopqrstuvwxyz'[(i - 1) % 26]
            result.append('w%sx' % (letter * (1 + (i - 1) // 26)))
        result.append(part)
    return ''.join(result)


def path_string(path):
    result = []
    for tag, attrib in path:
        if attrib:
            result.append('%s[%s]' % (etree.QName(tag).localname, attrib[0][1]))
        else:
            result.append(etree.QName(tag).localname)
    return '/'.join(result)


def expected_path(name, path, options):
    _, not_preserved, always, sub_preserved = options
    default = DEFAULT_PATH[name]
    if not path:
        return default
    field = None
    main_path = None
    for known, known_field in FIELDS[name].items():
        if path == known or path.startswith(known + '/'):
            field = known_field
            main_path = known
    if field is None:
        # other annotations, the main one is the first level containing text
        if path.startswith('unknown'):
            field = main_path = path.split('/')[0]
        else:
            field = main_path = path
    keep = (
        field in (always or ())
        or (not_preserved is not ALL and field not in not_preserved)
    )
    if not keep:
        return default
    if path == main_path:
        return main_path
    if sub_preserved is None:
        return main_path
    sub_field = SUB_FIELDS.get(name, {}).get(path, path)
    if sub_field in sub_preserved:
        return main_path
    return path


def run_cli(case, ctx):
    _, name, option_index, seq, separator = case
    options = OPTION_SETS[name][option_index]
    pipeline = PIPELINES[name]
    content = number_words(SEPARATORS[separator].join(PARTS[name][i] for i in seq))
    workspace = Workspace(ctx.new_dir(), pipeline)
    workspace.add(content, docs.EMPTY_TARGET)
    workspace.main(*options[0])
    ctx.step(len(seq))
    output = workspace.output_bytes()
    check(output is not None, 'no output')
    ctx.state([name, option_index, output.decode('utf-8')])
    source = char_elements(pipeline.container(parse(pipeline.document(content))))
    result = char_elements(pipeline.container(parse(output)))
    check_equal(''.join(c for c, _, _ in result), ''.join(c for c, _, _ in source), 'text')
    expected = [(c, expected_path(name, path_string(p), options)) for c, p, _ in source]
    check_equal(
        [(c, path_string(p)) for c, p, _ in result], expected,
        'elements of %s' % content
    )
    # separate annotations stay separate, one annotation stays one element
    main_elements = []
    for (c, p, source_element), (_, result_path, result_element) in zip(source, result):
        if path_string(p) != path_string(result_path):
            main_elements.append(None)
            continue
        main_elements.append((source_element, result_element))
    for previous, current in zip(main_elements, main_elements[1:]):
        if previous and current and previous[0].tag == current[0].tag and (
            path_string_of(previous[0]) != DEFAULT_PATH[name]
        ):
            if (options[2] or name == 'segmentation') and previous[0] is not current[0]:
                # neighbouring annotations of always preserved fields may be merged,
                # like those of other fields with merging enabled, and so may be segments
                continue
            check_equal(
                previous[1] is current[1], previous[0] is current[0],
                'same element in %s' % output.decode('utf-8')
            )


def path_string_of(element):
    return '%s[%s]' % (local_name(element), list(element.attrib.values())[0]) if (
        element.attrib) else local_name(element)


class SetTag(AbstractAnnotator):
    def __init__(self, annotation):
        self.annotation = annotation

    def annotate(self, structured_document):
        if self.annotation:
            index, tag = self.annotation
            tokens = all_tokens(structured_document)
            if index < len(tokens):
                structured_document.set_tag(tokens[index], 'b-' + tag)
        return structured_document


def run_api(case, ctx):
    _, options, state_indices, separator, annotation_index = case
    preserve_tags, fields, preserve_fields, preserve_sub_tags, no_preserve_sub = options
    states = [TOKEN_STATES[i] for i in state_indices]
    annotation = ANNOTATIONS[annotation_index]
    parts = []
    for i, (tag, sub_tag) in enumerate(states):
        text = 'abc'[i]
        if sub_tag:
            text = '<%s>%s</%s>' % (sub_tag[2:], text, sub_tag[2:])
        if tag:
            text = '<%s>%s</%s>' % (tag, text, tag)
        parts.append(text)
    xml = '<tei><text>%s</text></tei>' % ('<lb/>' if separator else ' ').join(parts)
    doc = GrobidTrainingTeiStructuredDocument(
        etree.fromstring(xml), container_node_path='text', tag_to_tei_path_mapping={
            'f': 'f', 'g': 'g', 'f-s': 'f/s', 'g-s': 'g/s', 'g-r': 'g/r'
        }
    )
    if preserve_fields:
        for token in all_tokens(doc):
            if doc.get_tag_or_preserved_tag_value(token) in preserve_fields:
                doc.set_tag(token, doc.get_tag_or_preserved_tag(token))
    annotate_structured_document_inplace(
        doc, annotator=SetTag(annotation), preserve_tags=preserve_tags,
        fields=set(fields) if fields else None,
        preserve_fields=set(preserve_fields) if preserve_fields else None,
        preserve_sub_tags=preserve_sub_tags,
        no_preserve_sub_fields=set(no_preserve_sub) if no_preserve_sub else None
    )
    ctx.step(len(states))
    expected = []
    for tag, sub_tag in states:
        keep = tag is not None and (
            tag in preserve_fields if preserve_fields
            else preserve_tags and tag not in (fields or ())
        )
        keep_sub = bool(
            sub_tag and preserve_sub_tags and sub_tag not in (no_preserve_sub or ())
        )
        expected.append([tag if keep else None, sub_tag if keep_sub else None])
    actual = [
        [
            doc.get_tag_or_preserved_tag_value(token) or None,
            doc.get_tag_or_preserved_tag_value(token, level=SUB_LEVEL) or None
        ]
        for token in all_tokens(doc)
    ]
    ctx.state([xml, actual])
    if annotation and annotation[0] < len(states):
        index, tag = annotation
        check_equal(actual[index][0], tag, 'tag set by the annotator')
        changed = expected[index][0] != tag
        for i, (a, e) in enumerate(zip(actual, expected)):
            if i == index:
                continue
            if changed and not separator and e[0] and e[0] == expected[index][0]:
                # same field on the same line: the preserved annotation is replaced as a whole
                continue
            if changed and not separator and e[1] and e[1] == expected[index][1]:
                continue
            check_equal(a, e, 'token %d of %s' % (i, xml))
        return
    check_equal(actual, expected, 'tags of %s' % xml)

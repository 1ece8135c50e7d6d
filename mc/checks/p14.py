"""P14: exactly the selected fields and sub fields are annotated, using the given overrides."""
import itertools

from mc.core import check_equal
from mc.checks.p02 import char_elements
from mc.checks.p07 import short_path
from mc.checks.p09 import Line, model_segments
from mc.pipelines import PIPELINES, Workspace, parse
from mc.targets import jats

from sciencebeam_trainer_grobid_tools.utils.string import (
    comma_separated_str_to_list,
    plus_minus_comma_separated_str_to_list
)
from sciencebeam_trainer_grobid_tools.auto_annotate_utils import (
    get_filtered_xml_mapping_and_fields,
    get_xml_mapping_with_overrides
)

PROPERTY = 'P14'
LEVEL = 'model_checking'
ASSUMPTIONS = [
    'only values contained in a list are removed from it (others are rejected), and only those '
    'not contained are added',
    'the values of different fields share no characters'
]
TRANSITION = 'a field or sub field selected (or not)'

WORDS = [
    'Abcdef ghijkl', 'Mnopqr stuvwx', '\u4e00\u4e01\u4e03\u4e04\u4e05 \u4e06\u4e07',
    '\u03b1\u03b2\u03b3\u03b4\u03b5 \u03b6\u03b7\u03b8\u03b9',
    '\u0431\u0432\u0433\u0434\u0436 \u0437\u0438\u0439\u043a\u043b',
    '\u0561\u0562\u0563\u0564\u0565 \u0566\u0567\u0568\u0569',
    '\u05d0\u05d1\u05d2\u05d3\u05d4 \u05d5\u05d6\u05d7\u05d8',
]
OTHER = '0123 4567 89'

# field -> expected element
HEADER = [
    ('title', 'docTitle/titlePart'), ('abstract', 'div[abstract]'), ('keywords', 'note[keywords]'),
    ('author', 'byline/docAuthor'), ('author_aff', 'byline/affiliation'),
    ('journal', 'note[journal]'),
]
FULLTEXT = [
    ('section_title', 'head'), ('section_paragraph', 'p'), ('figure', 'figure'),
    ('table', 'figure[table]'), ('appendix_group_title', 'head[appendix-group]'),
    ('reference_list_title', 'other[ref-list-title]'),
]
SEGMENTATION = [
    ('title', 'front'), ('body_section_title', 'body'), ('reference', 'reference'),
    ('appendix_group_title', 'annex'), ('acknowledgment_section_paragraph', 'acknowledgment')
]
AFFILIATION_SUB = [
    ('author_aff-department', 'orgName[department]'),
    ('author_aff-institution', 'orgName[institution]'),
    ('author_aff-address-city', 'address/settlement'),
    ('author_aff-label', 'marker'),
]
FIGURE_SUB = [('figure-label', 'head/label'), ('figure-caption', 'figDesc')]
TABLE_SUB = [('table-label', 'head/label'), ('table-caption', 'figDesc')]
FULLTEXT_SUB = [
    ('section_paragraph-xref-bib', 'ref[biblio]'), ('section_paragraph-xref-figure', 'ref[figure]'),
    ('section_paragraph-xref-table', 'ref[table]'),
    ('section_paragraph-xref-section', 'ref[section]'),
]
REFERENCE_SUB = [
    ('reference-year', 'date'), ('reference-source', 'title[j]'),
    ('reference-article-title', 'title[a]'), ('reference-publisher-name', 'publisher'),
]
SUB_TOOLS = {
    'reference': REFERENCE_SUB,
    'affiliation_address': AFFILIATION_SUB, 'figure': FIGURE_SUB, 'table': TABLE_SUB,
    'fulltext': FULLTEXT_SUB,
}

# override, (field, affected value, expected field)
OVERRIDES = [
    ('title=front/article-meta/custom/a[@k="x=y"]', 'title'),
    ('custom_Value-1=front/article-meta/custom/b[@k != "x"][not(@type="z")]', 'custom'),
    ('title.extend-to-line=true', 'extend'),
    ('abstract=front/none', 'no abstract'),
]


# fields without a known element
CUSTOM_FIELDS = ['custom', 'custom_field', 'Custom', 'custom-Field_2', 'x', 'title2', 'headx']
CUSTOM_XPATHS = [
    'front/article-meta/custom/a', './/custom/a', './/*[@k="v=1"]', 'front//a[@k = "v=1"]/self::a'
]


def BOUNDS(tier):
    return {
        'fields': 'all subsets of %d (header), %d (full text), %d (segmentation) fields, '
                  'as list, added and removed' % (len(HEADER), len(FULLTEXT), len(SEGMENTATION)),
        'sub_fields': {name: len(fields) for name, fields in SUB_TOOLS.items()},
        'overrides': 'all subsets and orders of %d' % len(OVERRIDES),
        'lists': {'items': len(LIST_ITEMS), 'length': _list_length(tier)},
        'custom fields': [CUSTOM_FIELDS, CUSTOM_XPATHS],
        'mappings': 'all subsets of %d keys' % len(KEYS),
    }


def _list_length(tier):
    return 4 if tier == 'quick' else 5


LIST_ITEMS = ['a', 'b', '+a', '-a', '+b', '-b', ' +c', 'c ', ' - a'.replace(' ', ''), '']
KEYS = [
    'f', 'f.children', 'f.sub.s', 'f.sub.t', 'f.sub.s.extract-regex', 'fx', 'fx.sub.s', 'g',
    'g.priority', 'g.sub.f', 'f.sub.sx', 'g.sub.s-y'
]


def subsets(items):
    for count in range(0, len(items) + 1):
        yield from itertools.combinations(items, count)


def cases(tier):
    for length in range(0, _list_length(tier) + 1):
        for items in itertools.product(range(len(LIST_ITEMS)), repeat=length):
            yield ['list', list(items)]
    for keys in subsets(range(len(KEYS))):
        yield ['mapping', list(keys)]
    for name, fields in (
        ('header', HEADER), ('fulltext', FULLTEXT), ('segmentation', SEGMENTATION)
    ):
        for selected in subsets(range(len(fields))):
            for form in ('list', 'minus', 'plus', 'override'):
                yield ['fields', name, list(selected), form]
    for name, fields in SUB_TOOLS.items():
        for selected in subsets(range(len(fields))):
            for form in ('override',) if name == 'reference' else ('list', 'override'):
                yield ['sub', name, list(selected), form]
    for name in ('header', 'fulltext'):
        for field in CUSTOM_FIELDS:
            for xpath in CUSTOM_XPATHS:
                yield ['custom', name, field, xpath]
    for selected in subsets(range(len(OVERRIDES))):
        for order in itertools.permutations(selected):
            for fields in (
                None, ['title'], ['abstract', 'title'], ['custom_Value-1', 'abstract']
            ):
                yield ['overrides', list(order), fields]


def run(case, ctx):
    globals()['run_' + case[0]](case, ctx)


def run_list(case, ctx):
    items = [LIST_ITEMS[i] for i in case[1]]
    text = ','.join(items)
    stripped = [item.strip() for item in items]
    if not text.strip():
        stripped = []
    check_equal(comma_separated_str_to_list(text), stripped, 'list of %r' % text)
    default = ['a', 'b']
    ctx.step(len(items))
    if not stripped or stripped[0][:1] not in ('+', '-'):
        expected = stripped
    else:
        expected = list(default)
        mode = None
        for item in stripped:
            if not item:
                continue
            if item[0] in '+-':
                mode, item = item[0], item[1:]
            if (mode == '+') == (item in expected):
                return  # not specified
            if mode == '+':
                expected.append(item)
            else:
                expected.remove(item)
    actual = plus_minus_comma_separated_str_to_list(text, default)
    ctx.state([text, actual])
    check_equal(actual, expected, 'list of %r with default %r' % (text, default))
    check_equal(default, ['a', 'b'], 'default value')


def run_mapping(case, ctx):
    keys = [KEYS[i] for i in case[1]]
    mapping = {'article': {k: 'value of ' + k for k in keys}, 'other': {'g': 'x', 'h': 'y'}}
    for fields in (None, {'f'}, {'g'}, {'f', 'g'}, {'fx', 'h'}):
        for sub_fields in (None, {'s'}, {'t', 'f'}, {'none'}):
            actual, actual_fields = get_filtered_xml_mapping_and_fields(
                {name: dict(values) for name, values in mapping.items()}, fields,
                sub_fields=sub_fields
            )
            ctx.step()
            ctx.trace()
            expected = {}
            expected_fields = set()
            for name, values in mapping.items():
                expected[name] = {}
                for key, value in values.items():
                    parts = key.split('.')
                    if fields and parts[0] not in fields:
                        continue
                    if sub_fields and parts[1:2] == ['sub'] and parts[2] not in sub_fields:
                        continue
                    expected[name][key] = value
                    if len(parts) == 1:
                        expected_fields.add(key)
            what = 'of %r with fields %r and sub fields %r' % (mapping, fields, sub_fields)
            check_equal(actual, expected, 'mapping ' + what)
            check_equal(set(actual_fields), fields or expected_fields, 'fields ' + what)
            ctx.state([sorted(actual.items()), sorted(actual_fields)])
    for overrides in (None, {}, {'f': 'new'}, {'f.sub.s': 'new', 'z': 'new'}):
        actual = get_xml_mapping_with_overrides(
            {name: dict(values) for name, values in mapping.items()}, overrides
        )
        check_equal(actual, {
            name: dict(values, **(overrides or {})) for name, values in mapping.items()
        }, 'mapping with overrides')


def elements_of_lines(output, pipeline, lines):
    chars = char_elements(pipeline.container(parse(output)))
    position = 0
    result = []
    for line in lines:
        text = ''.join(line.split())
        part = chars[position:position + len(text)]
        position += len(text)
        check_equal(''.join(c for c, _, _ in part), text, 'text')
        paths = [short_path(path) for _, path, _ in part]
        result.append(
            paths[0] if len(set(paths)) == 1 else paths
        )
    return result


def field_target(name):
    words = WORDS
    if name == 'header':
        return jats(
            title=words[0], abstract=words[1],
            meta='<kwd-group><kwd>%s</kwd></kwd-group>' % words[2],
            authors=['<surname>%s</surname><given-names>%s</given-names>' % tuple(
                reversed(words[3].split()))],
            affs=['<institution>%s</institution>' % words[4]]
        ).replace(
            '<front>', '<front><journal-meta><journal-title-group><journal-title>%s'
            '</journal-title></journal-title-group></journal-meta>' % words[5]
        )
    if name == 'fulltext':
        return jats(
            body='<sec><title>%s</title><p>%s</p></sec>' % tuple(words[:2]),
            figs=['<label>%s</label><caption>%s</caption>' % tuple(words[2].split())],
            tables=['<label>%s</label><caption>%s</caption>' % tuple(words[3].split())],
            back=(
                '<app-group><title>%s</title></app-group><ref-list><title>%s</title></ref-list>'
            ) % (words[4], words[5])
        )
    return jats(
        title=words[0], body='<sec><title>%s</title></sec>' % words[1],
        back=(
            '<ack><p>%s</p></ack><app-group><title>%s</title></app-group>'
            '<ref-list><ref><mixed-citation>%s</mixed-citation></ref></ref-list>'
        ) % (words[4], words[3], words[2])
    )


ALL_FIELDS = {'header': HEADER, 'fulltext': FULLTEXT, 'segmentation': SEGMENTATION}
SEGMENT_PATHS = {
    'front': 'front', 'body': 'body', 'reference': 'listBibl', 'annex': 'div[annex]',
    'acknowledgment': 'div[acknowledgment]'
}


def run_fields(case, ctx):
    _, name, selected, form = case
    fields = ALL_FIELDS[name]
    names = [fields[i][0] for i in selected]
    others = [f for f, _ in fields if f not in names]
    if form == 'list':
        if not names:
            return  # all fields
        option = ' ' + ' , '.join(names)
    elif form == 'minus':
        if name == 'header' or not others:
            return  # no default fields
        option = '-' + ','.join(others)
    elif form == 'override':
        if not others:
            return
        option = '|'.join('%s=.//none[@a="b=c"]' % other for other in others)
    else:
        # adding a field to the default ones does not select fewer
        if name != 'header' or not names:
            return
        option = '+' + ',+'.join(names)
    pipeline = PIPELINES[name]
    lines = WORDS[:len(fields)] + [OTHER]
    space = Workspace(ctx.new_dir(), pipeline)
    space.add('<lb/>\n'.join(lines) + '<lb/>', field_target(name))
    space.main('--no-preserve-tags', *(
        ['--xml-mapping-overrides=' + option] if form == 'override' else ['--fields=' + option]
    ))
    ctx.step(len(fields))
    actual = elements_of_lines(space.output_bytes(), pipeline, lines)
    if name == 'segmentation':
        model_lines = [
            Line(line, [field if field in names else None] * 2, None)
            for line, (field, _) in zip(lines, fields)
        ] + [Line(OTHER, None, None)]
        model_segments(model_lines, dict(fields), False)
        expected = [SEGMENT_PATHS[line.segment] for line in model_lines]
    else:
        default = 'other' if name == 'fulltext' else 'note[other]'
        expected = [path if field in names else default for field, path in fields] + [default]
    ctx.state([name, actual])
    check_equal(actual, expected, 'elements with --fields=%r' % option)


def sub_document(name):
    """content, target, text of each sub field, other text"""
    words = WORDS
    if name in ('figure', 'table'):
        values = ['<label>%s</label><caption>%s</caption>' % tuple(words[:2])]
        target = jats(figs=values) if name == 'figure' else jats(tables=values)
        lines = words[:2]
        wrapper = '<figure>%s</figure>' if name == 'figure' else '<figure type="table">%s</figure>'
        return wrapper, lines, target
    if name == 'affiliation_address':
        target = jats(affs=[
            '<label>%s</label> <addr-line><named-content content-type="department">%s'
            '</named-content></addr-line> <institution>%s</institution> <addr-line>'
            '<named-content content-type="city">%s</named-content></addr-line>' % (
                words[3], words[0], words[1], words[2])
        ])
        return '<affiliation>%s</affiliation>', [words[3]] + words[:3], target
    if name == 'reference':
        return '<bibl>%s</bibl>', words[:4], jats(refs=[
            '<mixed-citation><year>%s</year> <source>%s</source> <article-title>%s'
            '</article-title> <publisher-name>%s</publisher-name></mixed-citation>' % tuple(words[:4])
        ])
    kinds = ['bibr', 'fig', 'table', 'sec']
    text = 'Xyz'
    for kind, word in zip(kinds, words):
        text += ' <xref ref-type="%s">%s</xref>' % (kind, word)
    return '%s', words[:4], jats(body='<sec><p>%s</p></sec>' % text)


def run_sub(case, ctx):
    _, name, selected, form = case
    sub_fields = SUB_TOOLS[name]
    names = [sub_fields[i][0] for i in selected]
    wrapper, lines, target = sub_document(name)
    pipeline = PIPELINES[name]
    options = []
    if name == 'fulltext':
        lines = ['Xyz'] + lines
        options = ['--no-preserve-tags']
    content = wrapper % ('<lb/>\n'.join(lines) + '<lb/>')
    space = Workspace(ctx.new_dir(), pipeline)
    space.add(content, target)
    if form == 'override':
        main_field = {'affiliation_address': 'author_aff', 'fulltext': 'section_paragraph'}.get(
            name, name)
        overrides = [
            '%s.sub.%s=.//none[@a="b"]' % (main_field, sub_field)
            for sub_field, _ in sub_fields if sub_field not in names
        ]
        if not overrides:
            return
        space.main('--xml-mapping-overrides=' + '|'.join(overrides), *options)
    elif names:
        space.main('--sub-fields=' + ','.join(names), *options)
    else:
        names = [sub_field for sub_field, _ in sub_fields]
        space.main(*options)
    ctx.step(len(sub_fields))
    actual = elements_of_lines(space.output_bytes(), pipeline, lines)
    ctx.state([name, actual])
    main = {
        'affiliation_address': 'affiliation', 'figure': 'figure', 'table': 'figure[table]',
        'fulltext': 'p', 'reference': 'bibl'
    }[name]
    paths = {
        sub_field: '%s/%s' % (main, path) if sub_field in names else main
        for sub_field, path in sub_fields
    }
    order = [sub_field for sub_field, _ in sub_fields]
    if name == 'affiliation_address':
        order = order[-1:] + order[:-1]
    expected = [paths[sub_field] for sub_field in order]
    if name == 'fulltext':
        expected = [main] + expected
    check_equal(actual, expected, 'elements with sub fields %r' % names)


def run_custom(case, ctx):
    _, name, field, xpath = case
    pipeline = PIPELINES[name]
    space = Workspace(ctx.new_dir(), pipeline)
    space.add('<lb/>\n'.join([OTHER, WORDS[1], WORDS[0], OTHER]) + '<lb/>', jats(
        title=WORDS[0], body='<sec><title>%s</title></sec>' % WORDS[0],
        meta='<custom><a k="v=1">%s</a></custom>' % WORDS[1]
    ))
    other, known_field, known = {
        'header': ('note[other]', 'title', 'docTitle/titlePart'),
        'fulltext': ('other', 'section_title', 'head')
    }[name]
    for fields, known_path in (('%s,%s' % (field, known_field), known), (field, other)):
        space.main(
            '--no-preserve-tags', '--xml-mapping-overrides=%s=%s' % (field, xpath),
            '--fields=' + fields
        )
        ctx.step()
        actual = elements_of_lines(
            space.output_bytes(), pipeline, [OTHER, WORDS[1], WORDS[0], OTHER])
        ctx.state([name, actual])
        check_equal(
            actual, [other, 'note[%s]' % field, known_path, other],
            'elements with field %r, XPath %r' % (field, xpath)
        )


def run_overrides(case, ctx):
    _, order, fields = case
    applied = {OVERRIDES[i][1] for i in order}
    pipeline = PIPELINES['header']
    lines = WORDS[:4] + WORDS[5:7]
    target = jats(
        title=WORDS[0], abstract=WORDS[1],
        meta=(
            '<custom><a>%s</a><a k="x=y">%s</a><b k="x">%s</b><b k="y">%s</b></custom>'
        ) % (WORDS[5], WORDS[2], WORDS[6], WORDS[3])
    )
    space = Workspace(ctx.new_dir(), pipeline)
    tail = '%'
    space.add('<lb/>\n'.join(line + ' ' + tail for line in lines) + '<lb/>', target)
    options = []
    if order:
        options.append('--xml-mapping-overrides=' + ' | '.join(OVERRIDES[i][0] for i in order))
    if fields:
        options.append('--fields=' + ','.join(fields))
    space.main('--no-preserve-tags', *options)
    ctx.step(len(order))
    actual = elements_of_lines(
        space.output_bytes(), pipeline, [part for line in lines for part in (line, tail)]
    )
    ctx.state([actual])
    selected = set(fields) if fields else {'title', 'abstract', 'custom_Value-1'}
    other = 'note[other]'
    title, abstract, custom = 'docTitle/titlePart', 'div[abstract]', 'note[custom_Value-1]'
    expected = [other] * 12
    if 'title' in selected:
        position = 4 if 'title' in applied else 0
        expected[position] = title
        if 'extend' in applied:
            expected[position + 1] = title
    if 'abstract' in selected and 'no abstract' not in applied:
        expected[2] = expected[3] = abstract
    if 'custom_Value-1' in selected and 'custom' in applied:
        expected[6] = expected[7] = custom
    check_equal(actual, expected, 'elements with options %r' % options)

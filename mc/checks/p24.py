"""P24: every kind of content of an article is annotated as its GROBID training element."""
import itertools
import re

from mc.core import check, check_equal
from mc.checks.p02 import char_elements
from mc.checks.p07 import short_path
from mc.pipelines import PIPELINES, Workspace, parse

PROPERTY = 'P24'
LEVEL = 'model_checking'
ASSUMPTIONS = [
    'the default configuration and options of the tools are used',
    'the texts of different parts of the article share no characters, each is printed on its own '
    'line (the parts of a reference or affiliation: separated by a comma)',
    'front matter for the header; a text is of a single kind (text which is part of the front '
    'matter and of another field is not covered)'
]
STATE = 'elements of the text of an annotated document'
TRANSITION = 'a part of the article annotated'

# {1}, {2}, ...: different texts (of two words), {n}: a number or short label
# kind: (place in the article, JATS, [(text, element)])
FRONT = {
    'title': ('meta', '<title-group><article-title>{1}</article-title></title-group>', '{1}'),
    'title, formatted': (
        'meta', '<title-group><article-title><italic>{1}</italic> {2}</article-title>'
        '</title-group>', '{1} {2}'),
    'abstract': ('meta', '<abstract>{1}</abstract>', '{1}'),
    'abstract, paragraphs': ('meta', '<abstract><p>{1}</p> <p>{2}</p></abstract>', '{1} {2}'),
    'keywords title': ('meta', '<kwd-group><title>{1}</title></kwd-group>', '{1}'),
    'keywords': ('meta', '<kwd-group><kwd>{1}</kwd><kwd>{2}</kwd></kwd-group>', '{1} {2}'),
    'keywords, by authors': (
        'meta', '<kwd-group><kwd kwd-group-type="author-keywords">{1}</kwd>'
        '<kwd kwd-group-type="author-keywords">{2}</kwd></kwd-group>', '{1} {2}'),
    'manuscript type': (
        'meta', '<article-categories><subj-group><subject subj-group-type="display-channel">{1}'
        '</subject></subj-group></article-categories>', '{1}'),
    'author notes': ('meta', '<author-notes><fn>{1}</fn></author-notes>', '{1}'),
    'author notes, paragraph': ('meta', '<author-notes><p>{1}</p></author-notes>', '{1}'),
    'corresponding author': ('meta', '<author-notes><corresp>{1}</corresp></author-notes>', '{1}'),
    'author': (
        'meta', '<contrib-group><contrib contrib-type="author"><name><surname>{1}</surname>'
        '<given-names>{2}</given-names></name></contrib></contrib-group>', '{2} {1}'),
    'author, surname first': (
        'meta', '<contrib-group><contrib contrib-type="author"><name><surname>{1}</surname>'
        '<given-names>{2}</given-names></name></contrib></contrib-group>', '{1} {2}'),
    'author, no type': (
        'meta', '<contrib-group><contrib><name><surname>{1}</surname>'
        '<given-names>{2}</given-names></name></contrib></contrib-group>', '{2} {1}'),
    'affiliation of the group': (
        'meta', '<contrib-group><aff><institution>{1}</institution><country>{2}</country></aff>'
        '</contrib-group>', '{1} {2}'),
    'affiliation of the author': (
        'meta', '<contrib-group><contrib><aff><institution>{1}</institution>, '
        '<country>{2}</country></aff></contrib></contrib-group>', '{1} {2}'),
    'affiliation of the article': (
        'meta', '<aff><institution>{1}</institution> <country>{2}</country></aff>', '{1} {2}'),
    'affiliation, text': ('meta', '<aff>{1}</aff>', '{1}'),
}
NOT_FRONT = {
    'editor': (
        'meta', '<contrib-group><contrib contrib-type="editor"><name><surname>{1}</surname>'
        '<given-names>{2}</given-names></name></contrib></contrib-group>', '{2} {1}'),
    'custom meta': (
        'meta', '<custom-meta-group><custom-meta><meta-value>{1}</meta-value></custom-meta>'
        '</custom-meta-group>', '{1}'),
    'funding': ('meta', '<funding-group><funding-statement>{1}</funding-statement>'
                '</funding-group>', '{1}'),
}
HEADER_PATHS = {
    'title': 'docTitle/titlePart', 'abstract': 'div[abstract]', 'author': 'byline/docAuthor',
    'affiliation': 'byline/affiliation', 'keywords title': 'note[keywords_title]',
    'keywords': 'note[keywords]', 'manuscript type': 'note[manuscript_type]',
    'author notes': 'note[author_notes]', 'author notes, paragraph': 'note[author_notes]',
    'corresponding author': 'note[author_notes]',
}
HEADER_ONLY = {
    'journal': (
        'journal', '<journal-title-group><journal-title>{1}</journal-title>'
        '</journal-title-group>', '{1}', 'note[journal]'),
    'issn': ('journal', '<issn pub-id-type="epub">{1}</issn>', '{1}', 'note[issn]'),
    'doi': ('meta', '<article-id pub-id-type="doi">{1}</article-id>', '{1}', 'note[doi]'),
    'copyright': (
        'meta', '<permissions><copyright-statement>{1}</copyright-statement></permissions>',
        '{1}', 'note[copyright_statement]'),
    'other issn': ('journal', '<issn pub-id-type="ppub">{1}</issn>', '{1}', 'note[other]'),
    'other id': (
        'meta', '<article-id pub-id-type="pmid">{1}</article-id>', '{1}', 'note[other]'),
    'reference list title': (
        'back', '<ref-list><title>{1}</title></ref-list>', '{1}', 'note[reference_list_title]'),
    'appendix group title': (
        'back', '<app-group><title>{1}</title></app-group>', '{1}',
        'note[appendix_group_title]'),
}
XREFS = {
    'bibr': 'ref[biblio]', 'fig': 'ref[figure]', 'table': 'ref[table]',
    'disp-formula': 'ref[formula]', 'sec': 'ref[section]', 'boxed-text': 'ref[box]'
}
# title and paragraph of a section
SECTIONS = {
    'body section': ('body', '<sec>%s</sec>'),
    'nested section': ('body', '<sec><sec>%s</sec></sec>'),
    'back section': ('back', '<sec>%s</sec>'),
    'acknowledgment': ('back', '<ack>%s</ack>'),
    'section of the acknowledgment': ('back', '<ack><sec>%s</sec></ack>'),
}
FIGURES = {
    'figure': ('body', '<fig>%s</fig>'), 'figure of a section': ('body', '<sec><fig>%s</fig></sec>'),
    'figure of a paragraph': ('body', '<sec><p>{9}<fig>%s</fig></p></sec>'),
    'figure of a group': ('body', '<fig-group><fig>%s</fig></fig-group>'),
    'figure at the end': ('back', '<sec><fig>%s</fig></sec>'),
    'figure, floating': ('floats', '<fig>%s</fig>'),
}
TABLES = {
    name.replace('figure', 'table'): (place, xml.replace('fig-group', 'table-wrap-group').replace(
        '<fig>', '<table-wrap>').replace('</fig>', '</table-wrap>'))
    for name, (place, xml) in FIGURES.items()
}


def _header_kinds():
    result = {}
    for kind, (place, xml, text) in FRONT.items():
        result[kind] = (place, xml, [(
            text, HEADER_PATHS.get(kind, HEADER_PATHS.get(re.split('[, ]', kind)[0]))
        )])
    for kind, (place, xml, text) in NOT_FRONT.items():
        result[kind] = (place, xml, [(text, 'note[other]')])
    for kind, (place, xml, text, path) in HEADER_ONLY.items():
        result[kind] = (place, xml, [(text, path)])
    return result


def _segmentation_kinds():
    result = {}
    for kind, (place, xml, text) in FRONT.items():
        result[kind] = (place, xml, [(text, 'front')])
    for kind, (place, section) in SECTIONS.items():
        path = 'body' if place == 'body' else (
            'div[acknowledgment]' if 'acknowledg' in kind else 'div[annex]')
        result[kind + ' title'] = (place, section % '<title>{1}</title>', [('{1}', path)])
        result[kind + ' paragraph'] = (place, section % '<p>{1}</p>', [('{1}', path)])
    result['body paragraph'] = ('body', '<p>{1}</p>', [('{1}', 'body')])
    for element in ('boxed-text', 'list/list-item', 'disp-quote', 'statement', 'sec/boxed-text'):
        tags = element.split('/')
        xml = ''.join('<%s>' % tag for tag in tags) + '<p>{1}</p>' + ''.join(
            '</%s>' % tag for tag in reversed(tags))
        result['body paragraph of ' + element] = ('body', xml, [('{1}', 'body')])
        if tags[0] != 'sec':
            result['back paragraph of ' + element] = (
                'back', '<notes>%s</notes>' % xml, [('{1}', 'div[annex]')])
            result['acknowledgment paragraph of ' + element] = (
                'back', '<ack>%s</ack>' % xml, [('{1}', 'div[acknowledgment]')])
    result['back paragraph'] = ('back', '<notes><p>{1}</p></notes>', [('{1}', 'div[annex]')])
    for kind, (place, xml) in list(FIGURES.items()) + list(TABLES.items()):
        if place != 'floats' and '{9}' not in xml:
            result[kind] = (
                place, xml % '<label>{1}</label><caption><title>{2}</title></caption>',
                [('{1} {2}', 'body' if place == 'body' else 'div[annex]')]
            )
    result['appendix group title'] = (
        'back', '<app-group><title>{1}</title></app-group>', [('{1}', 'div[annex]')])
    result['appendix'] = ('back', '<app-group><app>{1}</app></app-group>', [('{1}', 'div[annex]')])
    result['reference list title'] = (
        'back', '<ref-list><title>{1}</title></ref-list>', [('{1}', 'listBibl')])
    result['reference'] = (
        'back', '<ref-list><ref><mixed-citation><article-title>{1}</article-title> '
        '<source>{2}</source></mixed-citation></ref></ref-list>', [('{1} {2}', 'listBibl')])
    return result


def _fulltext_kinds():
    result = {}
    result['keywords'] = (
        'meta', FRONT['keywords'][1], [(FRONT['keywords'][2], 'other[keywords]')])
    for kind, (place, section) in SECTIONS.items():
        result[kind + ' title'] = (place, section % '<title>{1}</title>', [('{1}', 'head')])
        if kind != 'section of the acknowledgment' and kind != 'acknowledgment':
            result[kind + ' title with label'] = (
                place, section % '<label>{n}</label><title>{1}</title>', [('{n} {1}', 'head')])
        result[kind + ' paragraph'] = (place, section % '<p>{1}</p>', [('{1}', 'p')])
    result['body paragraph'] = ('body', '<p>{1}</p>', [('{1}', 'p')])
    for ref_type, path in XREFS.items():
        xref = '<xref ref-type="%s">{2}</xref>' % ref_type
        result['paragraph with ' + ref_type] = ('body', '<sec><p>{1} %s {3}</p></sec>' % xref, [
            ('{1}', 'p'), ('{2}', 'p/' + path), ('{3}', 'p')])
        result['boxed paragraph with ' + ref_type] = (
            'body', '<boxed-text><p>{1} %s {3}</p></boxed-text>' % xref,
            [('{1}', 'p[box]'), ('{2}', 'p[box]/' + path), ('{3}', 'p[box]')])
        result['list item with ' + ref_type] = (
            'body', '<list><list-item>{1} %s {3}</list-item></list>' % xref,
            [('{1}', 'list/item'), ('{2}', 'list/item/' + path), ('{3}', 'list/item')])
    result['paragraph with other reference'] = (
        'body', '<sec><p>{1} <xref ref-type="aff">{2}</xref> {3}</p></sec>', [('{1} {2} {3}', 'p')])
    result['boxed text'] = (
        'body', '<boxed-text><label>{n}</label><caption><title>{1}</title></caption>'
        '</boxed-text>', [('{n} {1}', 'head[box]')])
    result['boxed text paragraph'] = (
        'body', '<boxed-text><p>{1}</p></boxed-text>', [('{1}', 'p[box]')])
    result['list item'] = ('body', '<list><list-item>{1}</list-item></list>', [('{1}', 'list/item')])
    result['list item of a paragraph'] = (
        'body', '<sec><p>{9}<list><list-item>{1}</list-item></list></p></sec>',
        [('{1}', 'list/item')])
    result['list title'] = ('body', '<list><title>{1}</title></list>', [('{1}', 'list')])
    result['appendix group title'] = (
        'back', '<app-group><title>{1}</title></app-group>', [('{1}', 'head[appendix-group]')])
    result['appendix'] = (
        'back', '<app-group><app>{1}</app></app-group>', [('{1}', 'figure[appendix]')])
    for kinds, path in ((FIGURES, 'figure'), (TABLES, 'figure[table]')):
        for kind, (place, xml) in kinds.items():
            result[kind] = (
                place, xml % '<label>{1}</label><caption><title>{2}</title></caption>',
                [('{1} {2}', path)]
            )
            result[kind + ', caption only'] = (
                place, xml % '<caption>{1}</caption>', [('{1}', path)])
    # printed in two parts, e.g. on two pages
    for kind, (xml, path) in {
        'section paragraph': ('<sec><p>{1} {2}</p></sec>', 'p'),
        'body paragraph': ('<p>{1} {2}</p>', 'p'),
        'boxed paragraph': ('<boxed-text><p>{1} {2}</p></boxed-text>', 'p[box]'),
        'list item': ('<list><list-item>{1} {2}</list-item></list>', 'list/item'),
    }.items():
        result[kind + ', in two parts'] = ('body', xml, [
            ('{1}', path), ('\n{7}', 'list' if 'list' in path else 'other'), ('\n{2}', path)])
    # text around a figure, table or list within it ("\n": on another line)
    for outer, (outer_xml, outer_path) in {
        'paragraph': ('<sec><p>%s</p></sec>', 'p'), 'body paragraph': ('<p>%s</p>', 'p'),
        'boxed paragraph': ('<boxed-text><p>%s</p></boxed-text>', 'p[box]'),
        'list item': ('<list><list-item>%s</list-item></list>', 'list/item'),
    }.items():
        for inner, (inner_xml, inner_path) in {
            'figure': ('<fig><label>{1}</label><caption><title>{2}</title></caption></fig>',
                       'figure'),
            'table': ('<table-wrap><label>{1}</label><caption><title>{2}</title></caption>'
                      '</table-wrap>', 'figure[table]'),
            'list': ('<list><list-item>{1} {2}</list-item></list>', 'list/item'),
        }.items():
            if outer == 'list item' and inner == 'list':
                continue  # the text of a nested list is part of the item
            result['%s around %s' % (outer, inner)] = (
                'body', outer_xml % ('{8} ' + inner_xml),
                [('{8}', outer_path), ('\n{1} {2}', inner_path)])
    result['reference list title'] = (
        'back', '<ref-list><title>{1}</title></ref-list>', [('{1}', 'other[ref-list-title]')])
    # not annotated in the full text
    result['title'] = ('meta', FRONT['title'][1], [('{1}', 'other')])
    result['abstract'] = ('meta', FRONT['abstract'][1], [('{1}', 'other')])
    return result


REFERENCE = {
    'label': ('<label>{n}</label>', 'label'),
    'author': ('<string-name><surname>{1}</surname>, <given-names>{2}</given-names></string-name>',
               'author', '{1}, {2}'),
    'editor': ('<person-group person-group-type="editor"><string-name>{1}</string-name>'
               '</person-group>', 'editor'),
    'article-title': ('<article-title>{1}</article-title>', 'title[a]'),
    'source': ('<source>{1}</source>', 'title[j]'),
    'publisher-name': ('<publisher-name>{1}</publisher-name>', 'publisher'),
    'publisher-loc': ('<publisher-loc>{1}</publisher-loc>', 'pubPlace'),
    'issn': ('<issn>{1}</issn>', 'idno[ISSN]'),
    'isbn': ('<isbn>{1}</isbn>', 'idno[ISBN]'),
    'doi': ('<pub-id pub-id-type="doi">{1}</pub-id>', 'idno[DOI]'),
    'pii': ('<pub-id pub-id-type="pii">{1}</pub-id>', 'idno[PII]'),
    'pmid': ('<pub-id pub-id-type="pmid">{1}</pub-id>', 'idno[PMID]'),
    'pmcid': ('<pub-id pub-id-type="pmcid">{1}</pub-id>', 'idno[PMC]'),
    'arxiv': ('<pub-id pub-id-type="arXiv">{1}</pub-id>', 'idno[arxiv]'),
    'other id': ('<pub-id pub-id-type="other">{1}</pub-id>', ''),
    'ext-link': ('<ext-link ext-link-type="uri">{1}</ext-link>', 'ptr[web]'),
    'year': ('<year>{1}</year>', 'date'),
    'volume': ('<volume>{1}</volume>', 'biblScope[volume]'),
    'issue': ('<issue>{1}</issue>', 'biblScope[issue]'),
    'fpage': ('<fpage>{1}</fpage>', 'biblScope[page]'),
    'lpage': ('<lpage>{1}</lpage>', 'biblScope[page]'),
    'comment': ('<comment>{1}</comment>', ''),
}
AFFILIATION = {
    'label': ('<label>{n}</label>', 'marker'),
    'department': (
        '<addr-line><named-content content-type="department">{1}</named-content></addr-line>',
        'orgName[department]'),
    'institution': ('<institution>{1}</institution>', 'orgName[institution]'),
    'city': ('<addr-line><named-content content-type="city">{1}</named-content></addr-line>',
             'address/settlement'),
    'postcode': (
        '<addr-line><named-content content-type="postcode">{1}</named-content></addr-line>',
        'address/postCode'),
    'state': ('<addr-line><named-content content-type="state">{1}</named-content></addr-line>',
              'address/region'),
    'country': ('<country>{1}</country>', 'address/country'),
    'ext-link': ('<ext-link>{1}</ext-link>', ''),
}
FIGURE_PARTS = {
    'label': ('<label>{1}</label>', 'head/label'),
    'caption': ('<caption>{1}</caption>', 'figDesc'),
    'caption, title': ('<caption><title>{1}</title></caption>', 'figDesc'),
    'attribution': ('<attrib>{1}</attrib>', ''),
}
# tool: (parts, JATS, document, element, options)
PART_TOOLS = {
    'reference': (
        REFERENCE, ('back', '<ref-list><ref>%s</ref></ref-list>'), '<bibl>%s</bibl>', 'bibl', [
            [], ['--include-idno-prefix'], ['--segment-references']]),
    'affiliation_address': (
        AFFILIATION, ('meta', '<aff>%s</aff>'), '<affiliation>%s</affiliation>', 'affiliation',
        [[], ['--preserve-sub-tags'], ['--segment-affiliation']]),
    'figure': (
        FIGURE_PARTS, ('body', '<fig>%s</fig>'), '<figure>%s</figure>', 'figure',
        [[], ['--preserve-sub-tags']]),
    'table': (
        FIGURE_PARTS, ('body', '<table-wrap>%s</table-wrap>'),
        '<figure type="table">%s</figure>', 'figure[table]', [[], ['--preserve-sub-tags']]),
    'reference_segmenter': (
        REFERENCE, ('back', '<ref-list><ref>%s</ref></ref-list>'), '%s', 'listBibl/bibl', [[]]),
}
LINE_TOOLS = {
    'header': _header_kinds(), 'segmentation': _segmentation_kinds(), 'fulltext': _fulltext_kinds()
}


def BOUNDS(tier):
    return {
        'kinds of content': {name: len(kinds) for name, kinds in LINE_TOOLS.items()},
        'kinds of parts': {name: sorted(config[0]) for name, config in PART_TOOLS.items()},
        'documents': 'each kind by itself, all pairs' + (
            '' if tier == 'quick' else ' in both orders, all triples of parts'),
    }


def cases(tier):
    for name, kinds in LINE_TOOLS.items():
        for kind in sorted(kinds):
            yield ['lines', name, [kind]]
        for pair in itertools.permutations(sorted(kinds), 2):
            if tier == 'quick' and name == 'fulltext' and pair[0] > pair[1]:
                continue
            yield ['lines', name, list(pair)]
    for name, config in PART_TOOLS.items():
        for length in (1, 2) if tier == 'quick' else (1, 2, 3):
            for parts in itertools.permutations(sorted(config[0]), length):
                if config[0] is FIGURE_PARTS and 'label' in parts and any(
                    'caption' in part for part in parts[:parts.index('label')]
                ):
                    continue  # a caption follows its label
                if parts == ('label', ) and config[0] is not FIGURE_PARTS:
                    continue  # a number by itself is not found
                if len(parts) == 3 and parts[0] > parts[1]:
                    continue
                for options in range(len(config[4])):
                    yield ['parts', name, list(parts), options]


def run(case, ctx):
    if case[0] == 'lines':
        run_lines(case, ctx)
    else:
        run_parts(case, ctx)


def fill(text, number):
    """replaces the placeholders by texts without common characters"""
    def words(match):
        key = match.group(1)
        if key == 'n':
            return '246'[number]
        start = 0x4e00 + 200 * number + 20 * int(key)
        return ' '.join(
            ''.join(map(chr, range(start + i * 6, start + i * 6 + 6))) for i in range(2)
        )
    return re.sub(r'\{(\w)\}', words, text)


def article(places):
    return (
        '<article><front><journal-meta>%(journal)s</journal-meta>'
        '<article-meta>%(meta)s</article-meta></front><body>%(body)s</body>'
        '<back>%(back)s</back><floats-group>%(floats)s</floats-group></article>' % {
            place: ''.join(places.get(place, [])) for place in (
                'journal', 'meta', 'body', 'back', 'floats')
        }
    )


def annotate(name, content, target, options, ctx):
    pipeline = PIPELINES[name]
    workspace = Workspace(ctx.new_dir(), pipeline)
    workspace.add(content, target)
    workspace.main(*options)
    output = workspace.output_bytes()
    check(output is not None, 'no output')
    chars = char_elements(pipeline.container(parse(output)))
    ctx.trace()
    ctx.state([name, output.decode('utf-8')])
    return chars, output.decode('utf-8')


def check_texts(chars, expected, what):
    position = 0
    for text, path in expected:
        text = ''.join(text.split())
        part = chars[position:position + len(text)]
        position += len(text)
        check_equal(''.join(c for c, _, _ in part), text, 'text of ' + what)
        if path is not None:
            check_equal(
                sorted({short_path(p) for _, p, _ in part}), [path],
                'elements of %r in %s' % (text, what)
            )
    check_equal(position, len(chars), 'length of ' + what)


def run_lines(case, ctx):
    _, name, names = case
    places = {}
    lines = []
    expected = []
    for number, kind in enumerate(names):
        place, xml, texts = LINE_TOOLS[name][kind]
        places.setdefault(place, []).append(fill(xml, number))
        texts = [(fill(text, number), path) for text, path in texts]
        for text, path in texts:
            # other text following a list item belongs to the list
            follows_item = expected and expected[-1][1].startswith('list/item')
            expected.append((text, 'list' if path == 'other' and follows_item else path))
        lines.append(' '.join(text for text, _ in texts).replace(' \n', '<lb/>\n'))
    default = {'header': 'note[other]', 'fulltext': 'other'}.get(name)
    if default:
        lines.insert(0, 'zzz yyyy xx')
        expected.insert(0, ('zzz yyyy xx', default))
    target = article(places)
    chars, output = annotate(name, '<lb/>\n'.join(lines), target, [], ctx)
    ctx.step(len(names))
    check_texts(chars, expected, '%s (target: %s)' % (output, target))


def run_parts(case, ctx):
    _, name, parts, options = case
    config, (place, parent), document, path, all_options = PART_TOOLS[name]
    xml = []
    texts = []
    for number, part in enumerate(parts):
        part_xml, sub_path, text = (config[part] + ('{n}' if '{n}' in config[part][0] else '{1}',))[
            :3]
        xml.append(fill(part_xml, number))
        texts.append((fill(text, number), sub_path))
    if name == 'reference_segmenter':
        texts = [(text, sub_path if sub_path == 'label' else '') for text, sub_path in texts]
    expected = []
    for number, (text, sub_path) in enumerate(texts):
        if number:
            is_merged = name == 'reference' and sub_path and sub_path == texts[number - 1][1]
            is_address = sub_path.startswith('address') and texts[number - 1][1].startswith(
                'address')
            # text following (a part of) an address belongs to it
            follows_address = texts[number - 1][1].startswith('address') or (
                number > 1 and not texts[number - 1][1]
                and texts[number - 2][1].startswith('address'))
            expected.append((
                ',', path + '/' + sub_path if is_merged and not is_address
                else path + '/address' if follows_address else path
            ))
            if follows_address and not sub_path:
                sub_path = 'address'
        expected.append((text, path + ('/' + sub_path if sub_path else '')))
    target = article({place: [parent % ', '.join(xml)]})
    chars, output = annotate(
        name, 'zzz yyyy xx<lb/>\n' * (name == 'reference_segmenter')
        + document % ', '.join(text for text, _ in texts), target, all_options[options], ctx
    )
    ctx.step(len(parts))
    if name == 'reference_segmenter':
        expected.insert(0, ('zzz yyyy xx', 'note[other]'))
    check_texts(chars, expected, '%s (target: %s)' % (output, target))

"""P11: fixing JATS XML corrects the annotations of references, and changes nothing else."""
import gzip
import itertools
import os
import re

from lxml import etree

from mc.core import check, check_equal

from sciencebeam_trainer_grobid_tools.fix_jats_xml import fix_jats_xml_file, main

PROPERTY = 'P11'
LEVEL = 'model_checking'
ASSUMPTIONS = [
    'the exact result is specified for references whose parts are separated by other elements; '
    'for adjacent parts (whose texts may form something else) text, valid ids and missing '
    'annotations are checked'
]
STATE = 'reference written by the tool'
TRANSITION = 'a reference fixed, or a file processed'

XLINK = 'xmlns:xlink="http://www.w3.org/1999/xlink"'
DOI = '10.1234/abc'
PII = 'S0140-6736(05)67706-31'
WOS = '123456789012345'


def pub_id(kind, text):
    return '<pub-id pub-id-type="%s">%s</pub-id>' % (kind, text)


def link(text, href=None):
    return '<ext-link ext-link-type="uri" %s xlink:href="%s">%s</ext-link>' % (
        XLINK, href or text, text
    )


class Atom:
    """
    A part of a reference, what it is changed to, which ids are annotated thereafter,
    and ids which are not (marked in the output by {kind:text}).
    """
    def __init__(self, source, output=None, is_comment=False):
        self.source = source
        self.output = output if output is not None else source
        self.is_comment = is_comment

    @property
    def present(self):
        return set(re.findall(r'pub-id-type="(\w+)"', self.output))


def title(text):
    return '<article-title>%s</article-title>' % text


ATOMS = [
    # text
    Atom('Text. '),
    Atom('PMID: 12345. ', 'PMID: {pmid:12345}. '),
    Atom('(PMC67890)', '({pmcid:PMC67890})'),
    Atom('PMID : 12345; pmc67890', 'PMID : {pmid:12345}; {pmcid:pmc67890}'),
    Atom('WOS: %s' % WOS, 'WOS: {wos:%s}' % WOS),
    Atom('doi: ' + DOI + '.', 'doi: {doi:%s}.' % DOI),
    Atom('x ' + PII + ' y', 'x {pii:%s} y' % PII),
    Atom('ab12345 [pii]', '{piio:ab12345} [pii]'),
    Atom('12345'),
    # comments
    Atom('<comment>PMID: 12345.</comment>', '<comment>PMID: {pmid:12345}.</comment>', True),
    Atom('<comment>Epub PMC67890</comment>', '<comment>Epub {pmcid:PMC67890}</comment>', True),
    Atom('<comment>doi: %s</comment>' % DOI),
    Atom('<comment>a <i>b</i> PMID: 12345</comment>'),
    # DOI
    Atom(pub_id('doi', DOI)),
    Atom(pub_id('DOI', DOI), pub_id('doi', DOI)),
    Atom(pub_id('doi', 'doi:' + DOI), 'doi:' + pub_id('doi', DOI)),
    Atom(pub_id('doi', ' ' + DOI + '. ') + 'x', ' ' + pub_id('doi', DOI) + '. x'),
    Atom(pub_id('doi', DOI + ' [doi]'), pub_id('doi', DOI) + ' [doi]'),
    Atom(pub_id('doi', DOI + ' PubMed PMID: 12345.'),
         pub_id('doi', DOI) + ' PubMed PMID: {pmid:12345}.'),
    Atom(pub_id('doi', DOI + ' abc [pii]'), pub_id('doi', DOI) + ' {PIIO} [pii]'),
    Atom(pub_id('doi', DOI + ' ' + DOI), pub_id('doi', DOI) + ' ' + DOI),
    Atom(pub_id('doi', DOI + ']'), pub_id('doi', DOI) + ']'),
    Atom(pub_id('doi', DOI + ';'), pub_id('doi', DOI) + ';'),
    Atom(pub_id('doi', DOI + '[2:d]') + '.'),
    Atom('doi:' + DOI + '[d]]', 'doi:{doi:%s[d]}]' % DOI),
    Atom(pub_id('doi', 'doi: ' + DOI + ' (PMID: 12345) Accessed'),
         'doi: ' + pub_id('doi', DOI) + ' (PMID: {pmid:12345}) Accessed'),
    Atom(pub_id('doi', DOI + ' Epub 2010; PMC67890'),
         pub_id('doi', DOI) + ' Epub 2010; {pmcid:PMC67890}'),
    Atom(link('http://example.org/ahttps://example.org/bhttp://example.org/c'),
         link('http://example.org/a') + link('https://example.org/b')
         + link('http://example.org/c')),
    Atom(pub_id('doi', 'junk'), 'junk'),
    Atom('a' + pub_id('doi', 'junk') + 'b', 'ajunkb'),
    Atom(pub_id('doi', 'PMID: 12345'), 'PMID: {pmid:12345}'),
    Atom(pub_id('doi', 'ju<i>n</i>k') + 'z', 'junkz'),
    Atom(pub_id('doi', DOI + '<i>d</i>e.')),
    Atom(pub_id('doi', 'x ' + DOI + '<i>d</i>e.'), 'x ' + pub_id('doi', DOI + '<i>d</i>e.')),
    Atom('<pub-id pub-id-type="doi"/>'),
    # DOI in a URL
    Atom('at https://doi.org/' + pub_id('doi', DOI) + '.',
         'at ' + link('https://doi.org/' + DOI) + '.'),
    Atom('dx.doi.org/ ' + pub_id('doi', DOI),
         link('dx.doi.org/ ' + DOI, 'https://dx.doi.org/' + DOI)),
    Atom('http://doi.org/' + pub_id('doi', 'doi:' + DOI) + 'x',
         link('http://doi.org/doi:' + DOI) + 'x'),
    Atom('https://doi.org/' + pub_id('doi', DOI + '<i>d</i>e'),
         link('https://doi.org/' + DOI + 'de')),
    # links
    Atom(link('http://example.org/a')),
    Atom(link('see here', 'http://example.org/a')),
    Atom(link('http://example.org/ahttp://example.org/b') + '.',
         link('http://example.org/a') + link('http://example.org/b') + '.'),
    Atom(link('http://example.org/ahttp://example.org/b',
              'http://example.org/awhttp://example.org/b'),
         link('http://example.org/a') + link('http://example.org/b')),
    Atom(link('https://doi.org/%s [%s]' % (DOI, DOI)) + '.',
         link('https://doi.org/%s ' % DOI) + '[{doi:%s}].' % DOI),
    # PII
    Atom(pub_id('pii', PII)),
    Atom(pub_id('Pii', 'pii: ' + PII + '.'), 'pii: ' + pub_id('pii', PII) + '.'),
    Atom(pub_id('pii', 'junk') + ' x', 'junk x'),
    # PMID
    Atom(pub_id('pmid', '12345')),
    Atom(pub_id('PMID', 'PMID: 12345') + '.', 'PMID: ' + pub_id('pmid', '12345') + '.'),
    Atom(pub_id('pmid', 'junk'), 'junk'),
    Atom(pub_id('pmid', '12345 PMC67890') + 'x', pub_id('pmid', '12345') + ' {pmcid:PMC67890x}'),
    # PMCID
    Atom(pub_id('pmcid', 'PMC67890')),
    Atom(pub_id('pmcid', 'pmcid: pmc67890;'), 'pmcid: ' + pub_id('pmcid', 'pmc67890') + ';'),
    Atom('(' + pub_id('pmcid', '67890') + ')', '(67890)'),
    # other ids
    Atom(pub_id('Other', 'junk'), pub_id('other', 'junk')),
    Atom(pub_id('FOO', 'PMID: 1')),
    Atom('<pub-id>PMC1</pub-id>'),
    Atom('<person-group>x ' + pub_id('pmid', 'junk') + ' PMID: 1</person-group>',
         '<person-group>x junk PMID: 1</person-group>'),
    # titles
    Atom(title('Title')),
    Atom(title('"Title"') + '.', '"' + title('Title') + '".'),
    Atom(title('\u2018Title\u2019'), '\u2018' + title('Title') + '\u2019'),
    Atom(title('\u201cTitle\u201d'), '\u201c' + title('Title') + '\u201d'),
    Atom(title('\u201cTitle'), '\u201c' + title('Title')),
    Atom(title('\u201cA\u201d title')),
    Atom(title('Title, ') + 'x', title('Title') + ', x'),
    Atom(title('"Title", '), '"' + title('Title') + '", '),
    Atom(title('Title; PMC67890'), title('Title') + '; {pmcid:PMC67890}'),
    Atom(title('"A <i>b</i> c"'), '"' + title('A <i>b</i> c') + '"'),
    Atom(title('A, <i>b</i> c, '), title('A, <i>b</i> c') + ', '),
    Atom(title('A <i>b</i>')),
    # more comments
    Atom('<comment>PMID: 12345 <i>b</i> c</comment>',
         '<comment>PMID: {pmid:12345} <i>b</i> c</comment>', True),
    Atom('<comment>x</comment>'),
    Atom('<comment>WOS: %s; PMC67890</comment>y' % WOS,
         '<comment>WOS: {wos:%s}; {pmcid:PMC67890}</comment>y' % WOS, True),
    # more titles
    Atom(title('\u201cA <i>b</i>\u201d c')),
    Atom(title('\u201cA <i>b\u201d</i> c')),
    Atom(title('\u2018A <i>b</i> c'), '\u2018' + title('A <i>b</i> c')),
    Atom(title('"Title'), '"' + title('Title')),
    Atom(title('A <i>b,</i>, '), title('A <i>b,</i>') + ', '),
    Atom(title('<i>A</i> b,'), title('<i>A</i> b') + ','),
    Atom(title('<i>A</i>')),
    Atom('x' + title('A "b" c') + 'y'),
    # more DOIs
    Atom(pub_id('doi', DOI + '. Accessed 2 May'), pub_id('doi', DOI) + '. Accessed 2 May'),
    Atom(pub_id('doi', DOI + ' PMCID: PMC67890'), pub_id('doi', DOI) + ' PMCID: {pmcid:PMC67890}'),
    Atom(pub_id('doi', DOI + ' Error in DOI'), pub_id('doi', DOI) + ' Error in DOI'),
    Atom(pub_id('doi', DOI + 'errorepub')),
    Atom(pub_id('doi', '10.1234.56/Abc(1)<i/>')),
    Atom('wos : %s. ' % WOS, 'wos : {wos:%s}. ' % WOS),
    # sizes of ids
    Atom(pub_id('doi', ' 10.123456789/a'), ' ' + pub_id('doi', '10.123456789/a')),
    Atom('(10.1234567/1)', '({doi:10.1234567/1)}'),
    Atom('x 10.123/abc y'),
    Atom(pub_id('doi', '10.123/abc'), '10.123/abc'),
    Atom('PMID:1, ', 'PMID:{pmid:1}, '),
    Atom('PMID: 1234567890, ', 'PMID: {pmid:1234567890}, '),
    Atom('PMID: 12345678901, '),
    Atom(pub_id('pmid', '1234567890')),
    Atom(pub_id('pmid', 'PMID: 123456789 .'), 'PMID: ' + pub_id('pmid', '123456789') + ' .'),
    Atom(pub_id('pmid', '12345678901'), '12345678901'),
    Atom('PMC1, ', '{pmcid:PMC1}, '),
    Atom('PMC1234567890', '{pmcid:PMC1234567890}'),
    Atom(pub_id('pmcid', ' PMC1234567890'), ' ' + pub_id('pmcid', 'PMC1234567890')),
    Atom(pub_id('PMCID', 'PMC1'), pub_id('pmcid', 'PMC1')),
    Atom('WOS: %s1' % WOS),
    Atom('WOS: %s' % WOS[1:]),
    Atom(pub_id('pii', 'B978-0-12-374370-1.00001-X;'), pub_id('pii', 'B978-0-12-374370-1.00001-X') + ';'),
    Atom('pii B978-0-12-374370-1.00001-x.', 'pii {pii:B978-0-12-374370-1.00001-x}.'),
    Atom('S0140-6736(05)6770'),
    Atom('doi:ab123 [pii]', 'doi:{piio:ab123} [pii]'),
    Atom('b123 [pii]'),
    # more URLs
    Atom('https : / / dx . doi . org / ' + pub_id('doi', DOI),
         link('https : / / dx . doi . org / ' + DOI, 'https://dx.doi.org/' + DOI)),
    Atom('http://dx.doi.org/\n' + pub_id('doi', DOI + '.'),
         link('http://dx.doi.org/\n' + DOI, 'http://dx.doi.org/' + DOI) + '.'),
    Atom('doi.org/' + pub_id('DOI', DOI), link('doi.org/' + DOI, 'https://doi.org/' + DOI)),
    Atom(link('doi.org/%s [%s]' % (DOI, DOI)), link('doi.org/%s ' % DOI) + '[{doi:%s}]' % DOI),
    Atom('<comment>see https://doi.org/' + pub_id('doi', DOI) + '.</comment>',
         '<comment>see ' + link('https://doi.org/' + DOI) + '.</comment>'),
    # more titles
    Atom(title('Title , '), title('Title') + ' , '),
    Atom(title('Title;PMC1') + ' x', title('Title') + ';{pmcid:PMC1} x'),
    Atom(title('""')),
    Atom(title('"a"'), '"' + title('a') + '"'),
    Atom(title('"')),
    Atom(title('A\nb,'), title('A\nb') + ','),
    Atom(title('\u201cA\nb\u201d'), '\u201c' + title('A\nb') + '\u201d'),
    Atom(title(', '), title('') + ', '),
    Atom(title('<i>\u201cA</i> b')),
    # more DOIs
    Atom(pub_id('doi', DOI + ' . '), pub_id('doi', DOI) + ' . '),
    Atom(pub_id('doi', DOI + '(pubmed'), pub_id('doi', DOI) + '(pubmed'),
    Atom(pub_id('doi', DOI + ' (Accessed 1)'), pub_id('doi', DOI) + ' (Accessed 1)'),
    Atom(pub_id('doi', DOI + ' EPUB 2'), pub_id('doi', DOI) + ' EPUB 2'),
    Atom(pub_id('doi', '10.1234/abc ab [pii]'), pub_id('doi', '10.1234/abc ab') + ' [pii]'),
    Atom(pub_id('doi', '10.1234/a-b-c-1 abc1 [pii]'),
         pub_id('doi', '10.1234/a-b-c-1') + ' abc1 [pii]'),
    Atom(pub_id('doi', '10.1234/a-b-c-1-2 abc [pii]'),
         pub_id('doi', '10.1234/a-b-c-1-2') + ' abc [pii]'),
    Atom(pub_id('doi', '10.1234/a-b 10.1234/ab'), pub_id('doi', '10.1234/a-b') + ' 10.1234/ab'),
    Atom(pub_id('doi', '10.1234/a-b; 10.1234/a'), pub_id('doi', '10.1234/a-b') + '; 10.1234/a'),
    Atom(pub_id('doi', '10.1234/a-b-c 10.1234/ab'),
         pub_id('doi', '10.1234/a-b-c') + ' 10.1234/ab'),
    Atom(pub_id('doi', '10.1234/a [doi].'), pub_id('doi', '10.1234/a') + ' [doi].'),
]
KNOWN_TYPES = [
    'accession', 'archive', 'ark', 'art-access-id', 'arxiv', 'coden', 'doaj', 'handle', 'index',
    'isbn', 'manuscript', 'medline', 'mr', 'other', 'publisher-id', 'sici', 'std-designation', 'zbl'
]
ATOMS.append(Atom(
    ' '.join(pub_id(change(name), 'PMID: x "1",') for name in KNOWN_TYPES
             for change in (str, str.upper, str.title)),
    ' '.join(pub_id(name, 'PMID: x "1",') for name in KNOWN_TYPES for _ in range(3))
))
# "abc" repeats a part of the DOI, and is too short for another id
ATOMS = [Atom(a.source, a.output.replace('{PIIO}', 'abc'), a.is_comment) for a in ATOMS]
ATOMS = [
    Atom(a.source, a.output.replace('{pmcid:PMC67890x}', '{pmcid:PMC67890}x'), a.is_comment)
    for a in ATOMS
]
TRIPLES = [
    1, 3, 4, 5, 6, 7, 9, 10, 13, 16, 18, 25, 29, 30, 38, 40, 43, 45, 48, 53, 61
]

WRAPPERS = {
    'mixed': '<label>1</label><mixed-citation>%s</mixed-citation>',
    'element': '<element-citation>%s</element-citation>',
    'two': '<mixed-citation>%s</mixed-citation><mixed-citation>%s</mixed-citation>',
}
KIND_ELEMENT = {'wos': 'other', 'piio': 'other'}


def BOUNDS(tier):
    return {
        'parts_of_a_reference': len(ATOMS), 'parts_per_reference': 2 if tier == 'quick' else 3,
        'triples': 'of %d selected parts' % (len(TRIPLES) if tier == 'quick' else len(ATOMS)),
        'separators': ['<year>', 'none', 'space'], 'citations': sorted(WRAPPERS),
        'documents': 'all subsets of files, encodings, locations of references'
    }


def cases(tier):
    for wrapper in ('mixed', 'element'):
        for separated in (True, False):
            yield ['refs', wrapper, separated, []]
            for first in range(len(ATOMS)):
                yield ['refs', wrapper, separated, [first]]
    for first in range(len(ATOMS)):
        yield ['refs', 'two', True, [first]]
    for variant in range(len(DOCUMENTS)):
        yield ['document', variant]
    for files in itertools.product([0, 1], repeat=len(FILES)):
        for mode in range(len(MODES)):
            yield ['files', list(files), mode]
    pairs = itertools.product(
        TRIPLES if tier == 'quick' else range(len(ATOMS)), repeat=2
    )
    for pair in pairs:
        for separated in (True, False):
            yield ['refs', 'mixed', separated, list(pair)]


def expected_reference(wrapper, sequences, separator):
    """XML of a reference, for the parts of each citation"""
    atoms = [atom for sequence in sequences for atom in sequence]
    present = set()
    for atom in atoms:
        present |= atom.present
    chosen = set()
    if wrapper != 'element':
        # text of the citations first, comments of a citation thereafter
        annotated = set(present)
        for kind in ('pmid', 'pmcid', 'pii', 'piio', 'wos', 'doi'):
            present_kind = {'piio': 'pii'}.get(kind, kind)
            if kind != 'wos' and present_kind in annotated:
                continue
            for citation, sequence in enumerate(sequences):
                found = None
                for comments in (False, True):
                    if comments and kind not in ('pmid', 'pmcid', 'wos'):
                        continue
                    for index, atom in enumerate(sequence):
                        if found is None and atom.is_comment == comments and (
                            '{%s:' % kind in atom.output
                        ):
                            found = (citation, index)
                if found:
                    chosen.add((kind, found[0], found[1]))
                    annotated.add(kind)
                    break
    parts = []
    for citation, sequence in enumerate(sequences):
        texts = []
        for index, atom in enumerate(sequence):
            def replace(match):
                kind, text = match.groups()
                if (kind, citation, index) in chosen:  # pylint: disable=cell-var-from-loop
                    result = pub_id(KIND_ELEMENT.get(kind, kind), text)
                    return result
                return text
            text = re.sub(r'\{(\w+):([^}]*)\}', replace, atom.output)
            if atom.is_comment and not re.search(r'<i>', text):
                # an id is added after a comment, not within
                text = re.sub(
                    r'<comment>([^<]*)(<pub-id .*</pub-id>[^<]*)</comment>',
                    r'<comment>\1</comment>\2', text
                )
            texts.append(text)
        parts.append(separator.join(texts))
    return WRAPPERS[wrapper] % tuple(parts)


def source_reference(wrapper, sequences, separator):
    return WRAPPERS[wrapper] % tuple(
        separator.join(atom.source for atom in sequence) for sequence in sequences
    )


def c14n(element):
    return etree.tostring(element, method='c14n', with_tail=False).decode('utf-8')


def canonical_xml(xml):
    return c14n(etree.fromstring(xml))


HEAD = (
    '<front><article-meta><article-id pub-id-type="DOI">PMID: 1</article-id>'
    '<pub-id pub-id-type="DOI">junk</pub-id><article-title>"A"</article-title>'
    '</article-meta></front>'
)


def read_output(path):
    with open(path, 'rb') as fp:
        return fp.read()


def split_output(data):
    """document without the added meta data, and the meta data"""
    root = etree.fromstring(data)
    groups = root.findall('custom-meta-group')
    check_equal(len(groups), 1, 'number of custom-meta-group')
    meta = {}
    for item in list(groups[0]):
        name = item.findtext('meta-name')
        if name.startswith('fix-jats'):
            check(name not in meta, 'repeated meta data %r', name)
            meta[name] = item.findtext('meta-value')
            groups[0].remove(item)
    if not len(groups[0]):
        tail = groups[0].tail
        check(not (tail or '').strip(), 'text added: %r' % tail)
        root.remove(groups[0])
    return root, meta


def run(case, ctx):
    globals()['run_' + case[0]](case, ctx)


def run_refs(case, ctx):
    _, wrapper, separated, prefix = case
    references = []
    for last in range(len(ATOMS)):
        if len(prefix) == 2 and last not in TRIPLES and ctx.tier == 'quick':
            continue
        if separated:
            separators = ['<year>2000</year>']
        else:
            separators = ['', ' '] if prefix else []
        for separator in separators:
            sequence = [ATOMS[i] for i in prefix + [last]]
            sequences = [sequence]
            if wrapper == 'two':
                sequences = [sequence[:-1], sequence[-1:]]
            references.append((
                source_reference(wrapper, sequences, separator),
                expected_reference(wrapper, sequences, separator)
            ))
    if not references:
        return
    path = ctx.new_dir()
    source = '<article %s>%s<back><ref-list>%s</ref-list></back></article>' % (
        XLINK, HEAD, ''.join(
            '<ref id="r%d">%s</ref>' % (i, s) for i, (s, _) in enumerate(references)
        )
    )
    source_path = os.path.join(path, 'in.xml')
    output_path = os.path.join(path, 'out.xml')
    with open(source_path, 'w', encoding='utf-8') as fp:
        fp.write(source)
    fix_jats_xml_file(source_path, output_path)
    ctx.step(len(references))
    root, meta = split_output(read_output(output_path))
    source_root = etree.fromstring(source.encode('utf-8'))
    check_equal(c14n(root.find('front')), c14n(source_root.find('front')), 'front')
    actual_refs = root.findall('back/ref-list/ref')
    source_refs = source_root.findall('back/ref-list/ref')
    check_equal(len(actual_refs), len(source_refs), 'number of references')
    changed = []
    for index, (actual, original) in enumerate(zip(actual_refs, source_refs)):
        actual_xml = c14n(actual)
        ctx.state([actual_xml])
        what = 'of reference %s' % c14n(original)
        check_equal(''.join(actual.itertext()), ''.join(original.itertext()), 'text ' + what)
        if separated:
            check_equal(
                actual_xml,
                canonical_xml('<ref %s id="r%d">%s</ref>' % (XLINK, index, references[index][1])),
                'result ' + what
            )
        check_annotations(actual, wrapper, what)
        if actual_xml != c14n(original):
            changed.append('r%d' % index)
    check_meta(meta, changed)


VALID = {
    'doi': r'10\.\d{4,}(\.\d+)*/.*[^.\s;]',
    'pmid': r'\d{1,10}', 'pmcid': r'(?i)PMC\d+', 'pii': r'[SB].*[\dXx]',
}
FREE = {
    'pmid': r'PMID\s*:\s*\d{1,10}\b', 'pmcid': r'(?i)PMC\d+',
    'doi': r'\b10\.\d{4,}/.'
}


def check_annotations(reference, wrapper, what):
    for element in reference.iter('pub-id'):
        kind = element.get('pub-id-type')
        if kind in VALID and element.text is not None and not len(element):
            check(
                re.fullmatch(VALID[kind], element.text), 'invalid %s %r %s', kind, element.text,
                what
            )
    if wrapper == 'element':
        return
    for kind, pattern in FREE.items():
        if any(e.get('pub-id-type') == kind for e in reference.iter('pub-id')):
            continue
        for citation in reference.iter('mixed-citation'):
            texts = [citation.text] + [child.tail for child in citation]
            for index, text in enumerate(texts):
                match = re.search(pattern, text or '')
                if match and match.end() == len(text) and index + 1 < len(texts):
                    # continued by something that was annotated before
                    continue
                check(not match, 'missing annotation of %s in %r %s', kind, text, what)


def check_meta(meta, changed, malformed='false'):
    timestamp = meta.pop('fix-jats-run-timestamp')
    check(re.fullmatch(r'\d{4}-\d\d-\d\dT[\d:.]+', timestamp), 'timestamp %s', timestamp)
    check(meta.pop('fix-jats-note'), 'no note')
    check_equal(meta, {
        'fix-jats-malformatted-xml': malformed,
        'fix-jats-changed-reference-count': str(len(changed)),
        'fix-jats-changed-reference-ids': ','.join(changed)
    }, 'meta data')


REF = '<ref id="a"><mixed-citation>\u00e4 PMID: 12345</mixed-citation></ref>'
REF_OUT = (
    '<ref id="a"><mixed-citation>\u00e4 PMID: <pub-id pub-id-type="pmid">12345</pub-id>'
    '</mixed-citation></ref>'
)
REF_NO_ID = REF.replace(' id="a"', '')
REF_NO_ID_OUT = REF_OUT.replace(' id="a"', '')
# (declaration, encoding, document, expected, changed, malformed)
DOCUMENTS = [
    ('', 'utf-8', '<article><back><ref-list>%s</ref-list></back></article>' % REF,
     '<article><back><ref-list>%s</ref-list></back></article>' % REF_OUT, ['a'], False),
    ('<?xml version="1.0" encoding="iso-8859-1"?>\n', 'iso-8859-1',
     '<article><back><ref-list>%s</ref-list></back></article>' % REF,
     '<article><back><ref-list>%s</ref-list></back></article>' % REF_OUT, ['a'], False),
    ('<?xml version="1.0"?>\n<!DOCTYPE article PUBLIC "x" "y.dtd">\n', 'utf-8',
     '<article><!-- c --><?pi?><back><ref-list>%s</ref-list></back></article>' % REF,
     '<article><!-- c --><?pi?><back><ref-list>%s</ref-list></back></article>' % REF_OUT,
     ['a'], False),
    ('', 'utf-8', '<article><back>%s</back></article>' % REF,
     '<article><back>%s</back></article>' % REF, [], False),
    ('', 'utf-8', '<article><ref-list>%s</ref-list></article>' % REF,
     '<article><ref-list>%s</ref-list></article>' % REF, [], False),
    ('', 'utf-8', '<article>\n <front/>\n</article>', '<article>\n <front/>\n</article>', [],
     False),
    ('', 'utf-8',
     '<article><custom-meta-group><custom-meta><meta-name>n</meta-name><meta-value>v</meta-value>'
     '</custom-meta></custom-meta-group><back><ref-list>%s</ref-list></back></article>' % REF,
     '<article><custom-meta-group><custom-meta><meta-name>n</meta-name><meta-value>v</meta-value>'
     '</custom-meta></custom-meta-group><back><ref-list>%s</ref-list></back></article>' % REF_OUT,
     ['a'], False),
    ('', 'utf-8', '<article><back><ref-list>%s%s%s</ref-list></back></article>' % (
        REF_NO_ID, REF_OUT, REF),
     '<article><back><ref-list>%s%s%s</ref-list></back></article>' % (
        REF_NO_ID_OUT, REF_OUT, REF_OUT), ['', 'a'], False),
    ('', 'utf-8',
     '<article><back><ref-list>%s</ref-list><ref-list>%s</ref-list></back></article>' % (
         REF, REF.replace('"a"', '"b"')),
     '<article><back><ref-list>%s</ref-list><ref-list>%s</ref-list></back></article>' % (
         REF_OUT, REF_OUT.replace('"a"', '"b"')), ['a', 'b'], False),
    ('\n', 'utf-8',
     '<?xml version="1.0"?><article><back><ref-list>%s</ref-list></back></article>' % REF,
     '<article><back><ref-list>%s</ref-list></back></article>' % REF_OUT, ['a'], True),
    ('', 'utf-8', '<article><x>&dagger;</x><back><ref-list>%s</ref-list></back></article>' % REF,
     '<article><x>\u2020</x><back><ref-list>%s</ref-list></back></article>' % REF_OUT, ['a'],
     True),
]
# references of other parts of the article
DOCUMENTS += [
    ('', 'utf-8', template % (REF, REF.replace('"a"', '"b"')),
     template % (REF_OUT, REF_OUT.replace('"a"', '"b"')), ['a', 'b'], False)
    for template in (
        '<article><back><ref-list><title>PMID: 1</title>%s</ref-list></back><sub-article><body/>'
        '<back><ref-list>%s</ref-list></back></sub-article></article>',
        '<article><sub-article><back><ack/><ref-list>%s</ref-list></back></sub-article><response>'
        '<back><ref-list>%s</ref-list></back></response></article>',
        '<article><front/><back><ref-list>%s<ref><note>PMID: 1</note></ref>%s</ref-list></back>'
        '</article>',
    )
]
# many references
DOCUMENTS += [
    ('', 'utf-8', '<article><back><ref-list>%s</ref-list></back></article>' % ''.join(
        (REF if index % step == 0 else '<ref id="a"><mixed-citation/></ref>').replace(
            '"a"', '"r%d"' % index) for index in range(count)),
     '<article><back><ref-list>%s</ref-list></back></article>' % ''.join(
         (REF_OUT if index % step == 0 else '<ref id="a"><mixed-citation/></ref>').replace(
             '"a"', '"r%d"' % index) for index in range(count)),
     ['r%d' % index for index in range(count) if index % step == 0], False)
    for count in (11, 101, 300) for step in (1, 2, 50)
]


def run_document(case, ctx):
    declaration, encoding, source, expected, changed, malformed = DOCUMENTS[case[1]]
    path = ctx.new_dir()
    source_path = os.path.join(path, 'in.xml')
    output_path = os.path.join(path, 'sub', 'out.xml')
    with open(source_path, 'wb') as fp:
        fp.write((declaration + source).encode(encoding))
    fix_jats_xml_file(source_path, output_path)
    ctx.step()
    data = read_output(output_path)
    root, meta = split_output(data)
    check_equal(c14n(root).replace('\n', ''), canonical_xml(expected).replace('\n', ''),
                'document')
    check_meta(meta, changed, str(malformed).lower())
    if 'DOCTYPE' in declaration:
        check(b'<!DOCTYPE article PUBLIC "x" "y.dtd">' in data, 'no doctype')
    with open(source_path, 'rb') as fp:
        check_equal(fp.read(), (declaration + source).encode(encoding), 'source file')
    ctx.state([re.sub(r'\d\d:\d\d:\d\d.\d+', '', data.decode(encoding))])


FILES = ['a.xml', 'sub/b.xml', 'sub/deep/c.xml', 'sub/d.xml.gz', 'other.txt']
MODES = ['base', 'base+pattern', 'base+limit', 'source', 'list', 'list+base', 'workers']


def run_files(case, ctx):
    _, files, mode_index = case
    mode = MODES[mode_index]
    path = ctx.new_dir()
    base = os.path.join(path, 'in')
    output = os.path.join(path, 'out')
    os.makedirs(base)
    names = [name for name, enabled in zip(FILES, files) if enabled]
    for index, name in enumerate(names):
        full = os.path.join(base, name)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        opener = gzip.open if name.endswith('.gz') else open
        with opener(full, 'wb') as fp:
            fp.write((
                '<article><back><ref-list><ref id="%s%d"><mixed-citation>PMID: 123'
                '</mixed-citation></ref></ref-list></back></article>' % (name[:1], index)
            ).encode('utf-8'))
    xml_names = [name for name in names if '.xml' in name]
    options = ['--output-path', output]
    expected = xml_names
    prefix = ''
    if mode == 'base':
        options += ['--source-base-path', base]
    elif mode == 'workers':
        options += ['--source-base-path', base, '--num-workers', '3', '--no-log-file']
    elif mode == 'base+pattern':
        options += ['--source-base-path', base, '--source-filename-pattern', 'sub/*.xml']
        expected = [name for name in names if name == 'sub/b.xml']
    elif mode == 'base+limit':
        options += ['--source-base-path', base, '--limit', '1']
        expected = None
    elif mode == 'source':
        if not xml_names:
            return
        options += ['--source-path', os.path.join(base, xml_names[0])]
        expected = [os.path.basename(xml_names[0])]
    else:
        if not xml_names:
            return
        list_path = os.path.join(base, 'files.tsv')
        with open(list_path, 'w', encoding='utf-8') as fp:
            fp.write('xml_url\tother\n')
            for name in xml_names:
                fp.write('%s\tx\n' % os.path.join(base, name))
        options += ['--source-file-list', list_path]
        if mode == 'list+base':
            options += ['--source-base-path', path]
            prefix = 'in/'
    main(options)
    ctx.step(len(names))
    actual = {}
    for directory, _, filenames in os.walk(output):
        for filename in filenames:
            full = os.path.join(directory, filename)
            opener = gzip.open if filename.endswith('.gz') else open
            with opener(full, 'rb') as fp:
                root, _ = split_output(fp.read())
            actual[os.path.relpath(full, output)] = c14n(root)
    ctx.state([mode, sorted(actual.items())])
    if expected is None:
        check_equal(len(actual), min(1, len(xml_names)), 'number of files')
        check(set(actual) <= set(xml_names), 'files %r', sorted(actual))
        return
    check_equal(sorted(actual), sorted(prefix + name for name in expected), 'files')
    for name, xml in actual.items():
        check(
            'id="%s' % os.path.basename(name)[:1] in xml or 'id="s' in xml or mode == 'source',
            'content of %s: %s', name, xml
        )
        check('<pub-id pub-id-type="pmid">123</pub-id>' in xml, 'content of %s: %s', name, xml)

"""P05: quality gates: failing documents never reach the output, passing ones always do."""
import itertools
import os

from lxml import etree
from sciencebeam_alignment.levenshtein import get_levenshtein_ratio

from mc.core import check_equal
from mc.pipelines import PIPELINES, Workspace, list_files
from mc.targets import jats

from sciencebeam_trainer_grobid_tools.annotation.checks import (
    is_structured_document_passing_checks
)
from sciencebeam_trainer_grobid_tools.annotation.target_annotation import TargetAnnotation
from sciencebeam_trainer_grobid_tools.structured_document.grobid_training_tei import (
    GrobidTrainingTeiStructuredDocument
)

PROPERTY = 'P05'
LEVEL = 'model_checking'
TRANSITION = 'a document routed by a tool, a token tagged or a decision of the quality check'
ASSUMPTIONS = [
    'every checked field has at most one value in the target XML '
    '(more than one is rejected explicitly)',
    'the target XML provides a value for at least one field',
    'text similarity is the ratio of sciencebeam_alignment'
]

V1 = 'Alpha one beta eta'
V2 = 'Gamma two delta epsilon'
FILLER = 'qqq www vvv'

FIELDS = {
    'header': ('title', 'abstract'),
    'segmentation': ('title', 'body_section_title'),
    'fulltext': ('section_title', 'section_paragraph'),
}


def _target(pipeline, present):
    v1 = V1 if present[0] else None
    v2 = V2 if present[1] else None
    meta = '<article-id pub-id-type="doi">10.1234/1234</article-id>'
    other = '<kwd-group><kwd>keyword first</kwd></kwd-group>'
    if pipeline == 'header':
        return jats(title=v1, abstract=v2, meta=meta)
    if pipeline == 'segmentation':
        return jats(
            title=v1, body='<sec><title>%s</title></sec>' % v2 if v2 else '', meta=other)
    return jats(
        body='<sec>%s%s</sec>' % (
            '<title>%s</title>' % v1 if v1 else '', '<p>%s</p>' % v2 if v2 else ''
        ), meta=other
    )


# documents: which of the values occur
CONTENTS = {
    '': FILLER,
    '1': V1 + '<lb/>' + FILLER,
    '2': FILLER + '<lb/>' + V2,
    '12': V1 + '<lb/>' + FILLER + '<lb/>' + V2,
    '21': V2 + '<lb/>' + V1 + '<lb/>' + FILLER,
    'half': 'Alpha one<lb/>' + FILLER,
}

TAGS = [None, 'b-t', 'i-t', 'b-u']
WORDS = ['one', 'two', 'three', 'four']
VALUES = ['one two', 'two three', 'one', 'one two three four', 'x', 'onetwo', 'two']
# text without spaces between its words: (word, space following it)
DENSE_WORDS = [('a', ''), ('-', ''), ('b', ''), (',', ' '), ('c', '')]
DENSE_VALUES = ['a-b', 'a - b', 'a-b, c', 'b, c', 'b,c', 'b , c']
# equal words, differing in case only
EQUAL_WORDS = [(word, ' ') for word in ('gamma', 'GAMMA', 'gamma', 'delta')]
EQUAL_VALUES = ['gamma', 'gamma gamma', 'GAMMA', 'gamma GAMMA gamma', 'GAMMA GAMMA', 'gamma delta']
MODES = {
    'gate': ([(word, ' ') for word in WORDS], VALUES),
    'dense': (DENSE_WORDS, DENSE_VALUES),
    'equal': (EQUAL_WORDS, EQUAL_VALUES),
}


def BOUNDS(tier):
    return {
        'cli': {
            'pipelines': sorted(FIELDS), 'documents': sorted(CONTENTS),
            'fields present in target': 'all subsets of 2',
            'checked fields': 'all combinations of not checked / matching / required',
            'failed output path': [True, False],
            'pairs of documents per run': 'all (header)',
            'documents per run': 24
        },
        'long values': {'words': LONG[tier], 'part of the words tagged': 'from none to all'},
        'segments': '%d words x %d segments' % (len(SEGMENT_WORDS), len(SEGMENT_TAGS)),
        'gate': {
            'tokens': _tokens(tier), 'tags': TAGS, 'values': VALUES,
            'tokens of text without spaces': _dense_tokens(tier), 'their values': DENSE_VALUES,
            'equal words': [word for word, _ in EQUAL_WORDS]
        }
    }


def _dense_tokens(tier):
    return 4 if tier == 'quick' else 5


def _tokens(tier):
    return 3 if tier == 'quick' else 4


def cases(tier):
    modes = ['', 'matching', 'required']
    for name in FIELDS:
        for checked in itertools.product(modes, repeat=2):
            for present in itertools.product([1, 0], repeat=2):
                for content in CONTENTS:
                    for failed_path in (True, False):
                        yield ['cli', name, list(checked), failed_path,
                               [[list(present), content]]]
    documents = [[list(p), c] for p in itertools.product([1, 0], repeat=2)
                 for c in ('', '1', '12')]
    for checked in (['required', ''], ['matching', 'matching'], ['required', 'matching']):
        for pair in itertools.product(documents, repeat=2):
            yield ['cli', 'header', checked, True, list(pair)]
            if tier != 'quick':
                yield ['cli', 'segmentation', checked, True, list(pair)]
                yield ['cli', 'fulltext', checked, False, list(pair)]
    for length in range(1, _tokens(tier) + 1):
        for tags in itertools.product(range(len(TAGS)), repeat=length):
            for value in range(len(VALUES)):
                for required in (['t'], ['t', 'u'], []):
                    for matching in (['t'], []):
                        if required or matching:
                            yield ['gate', list(tags), value, required, matching]
    for length in range(2, _dense_tokens(tier) + 1):
        for tags in itertools.product(range(len(TAGS)), repeat=length):
            for value in range(len(DENSE_VALUES)):
                yield ['dense', list(tags), value, ['t'], []]
    for length in range(1, len(EQUAL_WORDS) + 1):
        for tags in itertools.product(range(len(TAGS)), repeat=length):
            for value in range(len(EQUAL_VALUES)):
                yield ['equal', list(tags), value, ['t'], []]
    # segments: each of the words
    for tags in itertools.product(range(len(SEGMENT_TAGS)), repeat=len(SEGMENT_WORDS)):
        yield ['segments', list(tags)]
    # long values, of which a part was found
    for count in LONG[tier]:
        for tagged in range(0, count + 1, max(1, count // 40)):
            for start in ('start', 'end', 'both'):
                yield ['long', count, tagged, start]
    # a number of documents
    for name in FIELDS:
        for checked in (['required', ''], ['matching', 'matching'], ['required', 'matching']):
            for failed_path in (True, False):
                yield ['cli', name, checked, failed_path, documents * 2]
    # without preserving the existing annotations
    for name in FIELDS:
        for checked in (['', 'required'], ['matching', ''], ['required', 'matching']):
            for present in itertools.product([1, 0], repeat=2):
                for content in CONTENTS:
                    for failed_path in (True, False):
                        yield ['no-preserve', name, checked, failed_path,
                               [[list(present), content]]]


# words of the title, and another one
SEGMENT_WORDS = [
    'abcdef', '\u03b1\u03b2\u03b3\u03b4\u03b5\u03b6', 'xyz',
    '\u0431\u0432\u0433\u0434\u0436\u0437', '\u0561\u0562\u0563\u0564\u0565\u0566',
    '\u10d0\u10d1\u10d2\u10d3\u10d4\u10d5'
]
SEGMENT_OTHER = 2
SEGMENT_TAGS = ['body', 'b-front', 'i-front']
LONG = {'quick': [10, 40, 200], 'thorough': [10, 40, 200, 1000]}


def run(case, ctx):
    if case[0] == 'segments':
        run_segments(case, ctx)
    elif case[0] == 'long':
        run_long(case, ctx)
    elif case[0] in ('cli', 'no-preserve'):
        run_cli(case, ctx)
    else:
        run_gate(case, ctx)


def run_segments(case, ctx):
    """the segments are checked to contain the values of the fields belonging to them"""
    from sciencebeam_trainer_grobid_tools import auto_annotate_segmentation as tool
    tags = [SEGMENT_TAGS[i] for i in case[1]]
    doc = GrobidTrainingTeiStructuredDocument(
        etree.fromstring('<tei><text>%s</text></tei>' % '<lb/>'.join(SEGMENT_WORDS)),
        preserve_tags=False, container_node_path='text'
    )
    tokens = [
        token for page in doc.get_pages() for line in doc.get_lines_of_page(page)
        for token in doc.get_tokens_of_line(line)
    ]
    check_equal([doc.get_text(t) for t in tokens], SEGMENT_WORDS, 'tokens')
    for token, tag in zip(tokens, tags):
        doc.set_tag(token, tag)
    title = [word for i, word in enumerate(SEGMENT_WORDS) if i != SEGMENT_OTHER]
    found = sum(
        tag.endswith('front') for i, tag in enumerate(tags) if i != SEGMENT_OTHER
    )
    if found == len(title) - 1:
        return  # as similar as required, more or less
    has_other = not tags[SEGMENT_OTHER].endswith('front')
    annotations = [
        TargetAnnotation(name='title', value=' '.join(title)),
        TargetAnnotation(name='body_section_title', value=SEGMENT_WORDS[SEGMENT_OTHER])
    ]
    base = ['--source-base-path=/nowhere', '--output-path=/nowhere', '--xml-path=/nowhere',
            '--xml-filename-regex=/a/b/']
    for options, expected in (
        (['--required-fields=title'], found == len(title)),
        (['--require-matching-fields=title'], found == len(title)),
        (['--required-fields=title', '--require-matching-fields=body_section_title'],
         found == len(title) and has_other),
        (['--required-fields=title,body_section_title'], found == len(title) and has_other),
        (['--required-fields=title,abstract'], False),
        (['--require-matching-fields=abstract'], True),
    ):
        factory = tool.AnnotatePipelineFactory(tool.parse_args(base + options))
        result = factory.is_structured_document_passing_checks(
            doc, target_annotations=annotations)
        ctx.step()
        ctx.state([tags, options, bool(result)])
        check_equal(
            bool(result), expected, 'document with words %r as %r passing the checks %r' % (
                SEGMENT_WORDS, tags, options
            )
        )


def run_long(case, ctx):
    """a value of a number of words, on a number of lines, some of them tagged"""
    _, count, tagged, start = case
    words = ['word%d' % i for i in range(count)]
    before = {'start': tagged, 'end': 0, 'both': tagged // 2}[start]
    is_tagged = [i < before or i >= count - (tagged - before) for i in range(count)]
    doc = GrobidTrainingTeiStructuredDocument(
        etree.fromstring('<tei><text><front>%s</front></text></tei>' % ' <lb/>'.join(
            ' '.join(words[i:i + 7]) for i in range(0, count, 7))),
        preserve_tags=False
    )
    tokens = [
        token for page in doc.get_pages() for line in doc.get_lines_of_page(page)
        for token in doc.get_tokens_of_line(line)
    ]
    check_equal(len(tokens), count, 'number of tokens')
    for i, token in enumerate(tokens):
        if is_tagged[i]:
            doc.set_tag(token, 'i-t' if i and is_tagged[i - 1] else 'b-t')
            ctx.step()
    found = ' '.join(word for word, flag in zip(words, is_tagged) if flag)
    value = ' '.join(words)
    expected = bool(found) and get_levenshtein_ratio(value, found) >= 0.8
    for required, matching in ((['t'], []), ([], ['t']), (['t'], ['t']), (['t', 'u'], [])):
        result = is_structured_document_passing_checks(
            doc, require_matching_fields=matching, required_fields=required,
            target_annotations=[TargetAnnotation(name='t', value=value)]
        )
        ctx.step()
        ctx.state([count, is_tagged, required, matching, result])
        check_equal(
            bool(result), expected and 'u' not in required,
            'document passing the checks (required: %s, matching: %s)' % (required, matching)
        )


def model_passes(checked, present, content):
    for mode, is_present, number in zip(checked, present, '12'):
        if not mode:
            continue
        if not is_present:
            if mode == 'required':
                return False
            continue
        if number not in content:
            return False
    return True


def run_cli(case, ctx):
    mode, name, checked, failed_path, documents = case
    fields = FIELDS[name]
    base_options = ['--no-preserve-tags'] if mode == 'no-preserve' else []
    options = list(base_options)
    matching = [f for f, mode in zip(fields, checked) if mode == 'matching']
    required = [f for f, mode in zip(fields, checked) if mode == 'required']
    if matching:
        options.append('--require-matching-fields=' + ','.join(matching))
    if required:
        options.append('--required-fields=' + ','.join(required))
    workspace = Workspace(ctx.new_dir(), PIPELINES[name])
    expected_output = {}
    expected_failed = {}
    for number, (present, content) in enumerate(documents):
        doc_name = 'Doc-%d.vX' % number
        workspace.add(CONTENTS[content], _target(name, present), name=doc_name)
        filename = workspace.pipeline.filename(doc_name)
        if model_passes(checked, present, content):
            expected_output[filename] = True
        elif failed_path:
            expected_failed[filename] = True
    if failed_path:
        options += ['--failed-output-path', workspace.failed]
    workspace.main(*options)
    ctx.step(len(documents))
    output = list_files(workspace.output)
    failed = list_files(workspace.failed)
    ctx.state([name, case[2:], sorted(output), sorted(failed)])
    check_equal(sorted(output), sorted(expected_output), 'documents passing the checks')
    check_equal(sorted(failed), sorted(expected_failed), 'documents failing the checks')
    # the checks do not change the documents
    ungated = os.path.join(workspace.path, 'ungated')
    workspace.main(*base_options, output=ungated)
    for filename, data in list_files(ungated).items():
        actual = output.get(filename, failed.get(filename))
        if actual is not None:
            check_equal(actual, data, 'content of ' + filename)


def run_gate(case, ctx):
    mode, tags, value, required, matching = case
    words, values = MODES[mode]
    words = words[:len(tags)]
    value = values[value]
    doc = GrobidTrainingTeiStructuredDocument(
        etree.fromstring('<tei><text><front>%s</front></text></tei>' % ''.join(
            word + space for word, space in words).strip()),
        preserve_tags=False
    )
    tokens = [
        token for page in doc.get_pages() for line in doc.get_lines_of_page(page)
        for token in doc.get_tokens_of_line(line)
    ]
    check_equal([doc.get_text(token) for token in tokens], [word for word, _ in words], 'tokens')
    for token, tag in zip(tokens, tags):
        doc.set_tag(token, TAGS[tag])
        ctx.step()
    result = is_structured_document_passing_checks(
        doc, require_matching_fields=matching, required_fields=required,
        target_annotations=[
            TargetAnnotation(name='t', value=value),
            TargetAnnotation(name='v', value='other value')
        ]
    )
    ctx.step()
    entities = []
    current = None
    for word, tag in zip(words, tags):
        tag = TAGS[tag]
        if tag is None or tag[2:] != 't':
            current = None
            continue
        if current is None or tag.startswith('b-'):
            current = []
            entities.append(current)
        current.append(word)
    expected = (
        'u' not in required
        and bool(entities)
        and get_levenshtein_ratio(
            value, ' '.join(
                ''.join(word + space for word, space in entity).rstrip(' ')
                for entity in entities
            )
        ) >= 0.8
    )
    ctx.state([entities, value, required, matching, result])
    check_equal(bool(result), expected, 'document passing the checks')

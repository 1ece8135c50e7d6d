# read by make_properties.py
# pylint: disable=undefined-variable
NOT_APPLICABLE = []

prop(
    'P01', 'Annotating never changes the text, lines or surroundings of a document',
    'For every training document and every target XML, the annotated document written by any of '
    'the auto-annotate tools has the same text in the same order, divided into the same lines, as '
    'the input document, unless the removal of untagged text was requested. Everything outside of the annotated container (header, attributes, other '
    'elements) is the same as in the input.',
    ['inputs', 'configurations'],
    'all documents (text, line breaks, existing annotations, comments, unknown elements), all '
    'targets, all options of the eight tools',
    'The tests annotate a few hand-written documents; text is lost or repeated only for '
    'particular combinations of existing elements, line breaks, whitespace and matches.',
    ['structured_document/grobid_training_tei.py', 'annotation/annotator.py',
     'auto_annotate_header.py', 'auto_annotate_segmentation.py', 'auto_annotate_fulltext.py',
     'auto_annotate_figure.py', 'auto_annotate_table.py', 'auto_annotate_reference.py',
     'auto_annotate_reference_segmenter.py', 'auto_annotate_affiliation_address.py'],
    [('splitting the container into lines and tokens, and writing them back',
      'structured_document/grobid_training_tei.py (_to_text_tokens, _lines_to_tei)'),
     ('annotate_structured_document', 'annotation/annotator.py')],
    ENUM_CLI,
    BOUNDED + 'Lines are compared without whitespace at their start and end; texts, target and '
    'elements are taken from an alphabet of 13 atoms per tool.',
    ['output file']
)

prop(
    'P02', 'Tags are written as the configured elements and read back unchanged',
    'For every sequence of tags and sub tags set on the tokens of a document, every token is '
    'written within exactly the element (path and attribute) configured for its tag, tokens of one '
    'annotation share one element, and a token starting a new annotation starts a new element. '
    'Loading a written document restores the same tags, and writing it again gives the same '
    'document.',
    ['inputs', 'configurations'],
    'all tag sequences, tag to element mappings and layouts of tokens and lines',
    'The tests write a handful of tag sequences; the result depends on every pair of neighbouring '
    'tags, sub tags, line breaks and common element prefixes.',
    ['structured_document/grobid_training_tei.py', 'structured_document/__init__.py'],
    [('longest common path of open elements', 'structured_document/grobid_training_tei.py '
      '(_lines_to_tei, TeiWriter)'),
     ('tag of existing elements', 'structured_document/grobid_training_tei.py (load_xml_root)')],
    ENUM_API,
    BOUNDED + 'The expected elements come from an independent model of the mapping. Re-reading '
    'covers the two levels of tags the tool supports.',
    ['saved document']
)

prop(
    'P03', 'Processing files concurrently gives the result of processing them one by one',
    'For every number of workers and every interleaving of the worker threads, every output file '
    'of an auto-annotate run is the same as if its document had been processed alone, no other '
    'files are written or left behind, and the run ends.',
    ['schedules', 'inputs'],
    'all interleavings of the worker threads of the eight tools',
    'The tests use one worker or trivial runs; the thread schedule is up to the operating system.',
    ['auto_annotate_utils.py', 'annotation/annotator.py', 'utils/io.py',
     'auto_annotate_header.py', 'auto_annotate_segmentation.py', 'auto_annotate_fulltext.py',
     'auto_annotate_figure.py', 'auto_annotate_table.py', 'auto_annotate_reference.py',
     'auto_annotate_reference_segmenter.py', 'auto_annotate_affiliation_address.py'],
    [('documents, annotators and configuration are not shared between documents',
      'auto_annotate_utils.py (annotate_xml_files)')],
    'stateless model checking of the real worker threads under a controlled scheduler, '
    'preemption bounded',
    BOUNDED + 'All schedules with one preemption at any line of the code and file system '
    'operation, and with two preemptions at calls of the coordinating code. Not modelled: switches '
    'within a line (byte code) or within a C extension.',
    ['output directory']
)

prop(
    'P04', 'An interrupted run leaves no incomplete output, and resuming completes it',
    'For every point at which a run ends or a file system operation fails, every file found under '
    'its final name in the output is complete. Running again with --resume processes exactly the '
    'documents without output, leaves the others untouched and ends with the output of an '
    'uninterrupted run.',
    ['crash_points', 'fault_sequences', 'histories'],
    'all file system operations of a run (before, half way through and after each), all subsets '
    'of already existing outputs',
    'The tests never interrupt a run.',
    ['auto_annotate_utils.py', 'annotation/annotator.py', 'utils/io.py', 'utils/tei_xml.py'],
    [('skipping of existing output', 'auto_annotate_utils.py'),
     ('writing under a temporary name', 'utils/io.py, annotation/annotator.py')],
    'exhaustive enumeration of crash and error points of the real tools with a fault injector',
    BOUNDED + 'Crash model: a process ends at any file system change, a write may be torn; '
    'operations performed before are durable and a rename is atomic (no model of the page cache).',
    ['output directory after the fault, and after resuming']
)

prop(
    'P05', 'Only documents passing the requested quality checks reach the output',
    'With required or to be matched fields, a document is written to the output exactly if every '
    'required field is present in the target XML, and every required or to be matched field present '
    'there is found in the annotated text with the required similarity. All other documents are '
    'written to the failed output path, or nowhere if there is none.',
    ['inputs', 'configurations'],
    'all combinations of fields present in the target, fields found in the document, and options',
    'The tests cover the decision for single fields; not its combinations, the routing of documents '
    'and several documents in one run.',
    ['annotation/checks.py', 'annotation/annotator.py', 'auto_annotate_header.py',
     'auto_annotate_segmentation.py', 'auto_annotate_fulltext.py'],
    [('is_structured_document_passing_checks', 'annotation/checks.py'),
     ('choice of the output path', 'annotation/annotator.py')],
    ENUM_CLI,
    BOUNDED + 'The similarity function itself (sciencebeam_alignment) is trusted; fields have at '
    'most one value.',
    ['output and failed output directory']
)

prop(
    'P06', 'Existing annotations are kept or removed exactly as requested',
    'For every training document and every combination of --no-preserve-tags, --fields, '
    '--always-preserve-fields, --no-preserve-fields and the sub tag options (--preserve-sub-tags, '
    '--no-preserve-sub-fields): text not annotated by the tool keeps exactly those existing '
    'annotations (and sub annotations, as separate elements) that are to be preserved, and loses '
    'all others. By default the fields the tool annotates are not preserved, all others are.',
    ['inputs', 'configurations'],
    'all existing annotations in a document and combinations of preserve options of the eight tools',
    'The tests preserve a single annotation per test; not the combinations of options with several '
    'neighbouring or nested annotations.',
    ['annotation/annotator.py', 'structured_document/grobid_training_tei.py',
     'auto_annotate_utils.py', 'auto_annotate_header.py', 'auto_annotate_segmentation.py',
     'auto_annotate_fulltext.py', 'auto_annotate_figure.py', 'auto_annotate_table.py',
     'auto_annotate_reference.py', 'auto_annotate_reference_segmenter.py',
     'auto_annotate_affiliation_address.py'],
    [('annotate_structured_document_inplace', 'annotation/annotator.py'),
     ('preserved tags', 'structured_document/grobid_training_tei.py '
      '(get_tag_or_preserved_tag, clear_preserved_tag...)')],
    ENUM_CLI,
    BOUNDED + 'Documents have one or two levels of annotations, made of up to two (thorough: '
    'three) existing annotations.',
    ['output file', 'tags of tokens']
)

prop(
    'P07', 'Verbatim occurrences of the target values are annotated, and nothing else is',
    'For every document and target XML, text that occurs verbatim as the value of a field (of a '
    'value spread over lines, or printed in up to the configured number of separate parts, within '
    'the lookahead, in any of its alternative spellings, or with a '
    'difference below the threshold) is annotated with that field, and its sub values are annotated '
    'within it with their sub field. Text not similar to any value of the target is not annotated. '
    'Text already annotated is not annotated again.',
    ['inputs', 'configurations'],
    'all documents and targets (order and number of values, their position relative to lines, '
    'lookahead windows and other values)',
    'The tests match single values in short texts; what is found depends on the order of values, '
    'the state of the lookahead and on what was annotated before.',
    ['annotation/simple_matching_annotator.py', 'annotation/matching_utils.py',
     'annotation/target_annotation.py', 'core/annotation/target_annotation.py',
     'auto_annotate_header.py', 'auto_annotate_fulltext.py', 'auto_annotate_figure.py',
     'auto_annotate_table.py', 'auto_annotate_reference.py',
     'auto_annotate_reference_segmenter.py', 'auto_annotate_affiliation_address.py'],
    [('SimpleMatchingAnnotator', 'annotation/simple_matching_annotator.py'),
     ('default configuration', 'config/xml-mapping.conf')],
    ENUM_CLI + '; with a model of the search (order of values, lookahead, blocks) as oracle',
    BOUNDED + 'Values of an alphabet share no characters, so that the expected match is known '
    'independently of the alignment library, which is trusted.',
    ['tags of tokens', 'output file']
)

prop(
    'P08', 'Text searches find every verbatim occurrence, at its exact position',
    'For every text, every searched text contained in it is found at its exact character range, '
    'wherever it is (at the start, end or across the internal search windows), also if divided into '
    'chunks by unrelated text, and all of its separate occurrences are found in order. A text that '
    'is not similar is not found.',
    ['inputs'],
    'all positions, lengths and numbers of occurrences',
    'The tests search short texts; long texts are searched in overlapping windows whose edges are '
    'only reached at particular lengths and offsets.',
    ['utils/fuzzy.py'],
    [('fuzzy_search_index_range, fuzzy_search_index_range_chunks, '
      'iter_fuzzy_search_all_index_ranges', 'utils/fuzzy.py')],
    'exhaustive enumeration of all positions within the length bounds, on the real search '
    'functions, against the known position',
    BOUNDED + 'Searched texts consist of distinct characters, so that the exact position is the '
    'only best match; the alignment library is trusted.',
    ['index ranges']
)

prop(
    'P09', 'Every line is assigned to the segment of the field found in it',
    'For every document, the segmentation tool assigns each line as a whole: to the segment '
    'configured for the field most of its tokens are annotated with, to the headnote if it is an '
    'otherwise unassigned line of two or more words repeated in the document (about as often as the most frequent one), to the page number if '
    'it is a number in sequence with the known page numbers before, otherwise to the body (or the '
    'preserved segment). Unassigned lines before the front or between two parts of the front, annex '
    'or references (unless references are not to be merged) belong to it, as do unassigned lines '
    'following the annex up to the next segment at the end of the document.',
    ['inputs', 'configurations'],
    'all sequences of kinds of lines and segmentation options',
    'The tests use two or three lines; the segment of a line depends on all other lines (repeated '
    'lines, known page numbers, start of the annex).',
    ['annotation/segmentation_annotator.py', 'auto_annotate_segmentation.py'],
    [('SegmentationAnnotator', 'annotation/segmentation_annotator.py'),
     ('segments of the fields', 'config/segmentation.conf')],
    'exhaustive enumeration of line sequences on the real annotator and tool, against an '
    'independent executable model of the segmentation',
    BOUNDED + 'Lines repeated as page headers are not annotated otherwise; fields are found as '
    'decided for P07.',
    ['tags of tokens', 'output file']
)

prop(
    'P10', 'Exactly the line numbers meeting the configured criteria are annotated',
    'For every document, with --use-line-number-annotator the first tokens of lines which form an '
    'increasing sequence of numbers (with gaps not larger than --max-line-number-gap) of at least '
    '--min-line-numbers-per-page lines, and at least --min-line-number-ratio of all lines, are '
    'annotated as line number, and no other token is. Without it, none is.',
    ['inputs', 'configurations'],
    'all sequences of line starts and all options',
    'The tests use a few regular numberings; not gaps, repeated or descending numbers at each of '
    'the thresholds.',
    ['annotation/line_number_annotator.py', 'auto_annotate_utils.py'],
    [('TextLineNumberAnnotator', 'annotation/line_number_annotator.py')],
    'exhaustive enumeration of line starts on the real annotator and tool, against an independent '
    'executable model of the criteria',
    BOUNDED + 'All lines are on one page (training documents do not have pages).',
    ['tags of tokens', 'output file']
)

prop(
    'P11', 'Fixing JATS XML corrects the annotations of references, and changes nothing else',
    'For every article, the fixed XML has the same text, elements and attributes as the original, '
    'except for added meta data and for the annotations within references: a DOI, PII, PMID or '
    'PMCID is annotated exactly (surrounding text is moved out of the annotation, an annotation '
    'without any such id is removed, its text is kept in place), DOIs following a DOI URL become '
    'links, joined links are separated, quotes and commas are moved out of article titles, and the '
    'first of each kind of id that was only present as text is annotated. The meta data states how '
    'many and which references were changed. Every selected file is written to the same relative '
    'path.',
    ['inputs', 'configurations'],
    'all references (combinations of ids, links, titles, comments and text), and selections of '
    'files',
    'The tests fix one annotation per reference; text is lost or moved only for combinations of '
    'annotations with surrounding or nested elements.',
    ['fix_jats_xml.py', 'utils/io.py', 'utils/xml.py'],
    [('fix_reference', 'fix_jats_xml.py'), ('file selection', 'fix_jats_xml.py '
                                            '(FixJatsProcessor)')],
    'exhaustive enumeration of references composed of parts up to a bound, on the real tool, '
    'against the expected result of each part and how parts interact',
    BOUNDED + 'The exact result is decided for parts separated by other elements; text, validity '
    'of ids and missing annotations also for adjacent parts.',
    ['output file']
)

prop(
    'P12', 'Malformed XML is repaired without losing text or elements, valid XML is kept',
    'For every malformed training document, the repaired XML (as used for full text documents) is '
    'well-formed, contains all of its text in the same order, and all of its elements with their '
    'attributes; elements that were not closed end with the element surrounding them, an end tag '
    'with the wrong name closes the current element (unless that is the root). Valid XML is used '
    'as it is. A stray </content> in figure documents is dropped without losing text.',
    ['inputs'],
    'all sequences of start tags, end tags, text, entities and attributes',
    'The tests repair single mistakes; the result of one depends on all elements open at that '
    'point.',
    ['utils/xml.py', 'auto_annotate_fulltext.py', 'auto_annotate_figure.py'],
    [('FixingHtmlParser, get_fixed_xml_str', 'utils/xml.py'),
     ('get_final_source_url', 'auto_annotate_fulltext.py, auto_annotate_figure.py')],
    'exhaustive enumeration of tag and text sequences up to a bound, on the real repair function '
    'and tools, against a stack model of the repair',
    BOUNDED + 'Comments and processing instructions may be dropped (the text of CDATA sections is kept); one root '
    'element, valid names.',
    ['repaired XML', 'output file']
)

prop(
    'P13', 'Target values are extracted from the target XML as configured',
    'For every target XML and XML mapping, the values of each field are those of the elements '
    'selected by its XPaths, in order of priority and document position: the raw text (words of '
    'neighbouring elements separated by a space, ignored elements left out) or, with children '
    'configured, the texts of the selected children, the configured concatenations and ranges and '
    'the unmatched text, longest first; matching flags and sub values are those configured. '
    'Elements without text provide no value, comments are not part of any value.',
    ['inputs', 'configurations'],
    'all structures of target elements and all combinations of mapping options',
    'The tests extract one structure per option; values depend on the combination of options with '
    'nested, empty and mixed content.',
    ['core/annotation/target_annotation.py', 'annotation/target_annotation.py', 'utils/xml.py'],
    [('xml_root_to_target_annotations', 'annotation/target_annotation.py'),
     ('extract_children', 'core/annotation/target_annotation.py')],
    'exhaustive enumeration of element contents and documents up to a bound, on the real '
    'extraction, against an independent executable model',
    BOUNDED + 'XPath evaluation (lxml) is trusted.',
    ['target annotations']
)

prop(
    'P14', 'Exactly the selected fields and sub fields are annotated',
    'For every selection by --fields and --sub-fields (as a list, or added to and removed from the '
    'default) and every --xml-mapping-overrides, the tools annotate the values of exactly the '
    'selected fields and sub fields, using the configured or overriding XPaths and options '
    'belonging to them. Fields without a known element are written as a note of that type.',
    ['configurations'],
    'all subsets of fields and sub fields, all combinations of overrides',
    'The tests select one field each.',
    ['auto_annotate_utils.py', 'utils/string.py', 'auto_annotate_header.py',
     'auto_annotate_fulltext.py', 'auto_annotate_segmentation.py', 'auto_annotate_figure.py',
     'auto_annotate_table.py', 'auto_annotate_affiliation_address.py'],
    [('get_filtered_xml_mapping_and_fields, get_xml_mapping_with_overrides',
      'auto_annotate_utils.py'), ('parsing of lists', 'utils/string.py')],
    'exhaustive enumeration of selections and overrides, on the real command line tools and '
    'functions, against a model of the selection',
    BOUNDED + 'Removing fields that are not contained in the default is rejected by the tools.',
    ['output file']
)

prop(
    'P15', 'Source files are downloaded and fixed in pairs, completely, under all schedules',
    'For every pair of file lists, every subset of missing files, every output filename pattern, '
    'limit and number of threads, and every interleaving of the threads, downloading source files '
    'copies exactly the pairs of which both files exist to the names given by the patterns, with '
    'their complete content (compressed or decompressed according to the extension), and fixing '
    'JATS files writes every fixed file to its relative path. The source files are never changed '
    'and nothing else is written.',
    ['schedules', 'inputs', 'configurations'],
    'all interleavings of the threads, all subsets of existing files, patterns, limits and formats '
    'of file lists',
    'The tests copy a single file or two; pairs get mixed up only for particular missing files, '
    'patterns or schedules.',
    ['download_source_files.py', 'fix_jats_xml.py', 'utils/io.py'],
    [('selection of pairs, output names and copying',
      'download_source_files.py (filter_file_pair_exists, get_relative_output_filename, '
      'copy_files)'),
     ('concurrent processing', 'fix_jats_xml.py (FixJatsProcessor)')],
    'stateless model checking of the real code: controlled thread scheduler, all schedules up to '
    'a preemption bound; all file subsets and options within bounds',
    BOUNDED + 'Two pairs (two JATS files) with two threads: one preemption at every line, two at '
    'every call and file operation.',
    ['output files', 'source files']
)

prop(
    'P16', 'The parts of a reference are joined and extended as configured, nothing else',
    'For every reference, the elements written are those of its annotated values, where: first and '
    'last page are both pages; consecutive authors (editors, issues, pages) with nothing but '
    'unannotated text in between become one element including that text; "et al" following '
    'authors or editors, and a full stop following them, become part of that element; with '
    '--include-idno-prefix (and only then) the label directly before an id (DOI for a doi, PII for '
    'a pii, any word of two or more letters for other ids, optionally followed by a colon) becomes '
    'part of the id. All other text and values are left as they are, and no reference affects '
    'another one.',
    ['inputs', 'configurations'],
    'all sequences of annotated values and text within references',
    'The tests check single transitions of a few tags; the steps follow each other and depend on '
    'all neighbouring values, gaps and the boundaries of references.',
    ['annotation/reference_annotator.py', 'auto_annotate_reference.py',
     'annotation/simple_matching_annotator.py'],
    [('post processing of the sub tags of a reference',
      'annotation/reference_annotator.py (ReferencePostProcessingAnnotator)'),
     ('configuration', 'auto_annotate_reference.py')],
    ENUM_CLI,
    BOUNDED + 'All pairs of 12 kinds of values with 19 gaps, leading and trailing text; triples '
    'with selected gaps.',
    ['output file']
)

prop(
    'P18', 'Unannotated text joins neighbouring lists, figures, tables and addresses',
    'For every sequence of annotated and unannotated lines of a fulltext, unannotated text becomes '
    'part of the list if (and only if) the last annotated line before is a list item; with '
    '--expand-to-previous-untagged-lines (-following-) unannotated lines directly before (after) a '
    'figure or table become part of that figure or table, and otherwise stay unannotated; existing '
    '"other" notes are treated as unannotated. Within every affiliation, unannotated text after '
    'a part of an address becomes part of the address, up to the next part that is not an address '
    'or the end of the affiliation. Annotated text is never changed by this.',
    ['inputs', 'configurations'],
    'all sequences of lines and parts of affiliations, all combinations of the options',
    'There are only single examples in the tests, the result depends on the whole sequence.',
    ['annotation/merge_group_tags_annotator.py', 'annotation/replace_tags_annotator.py',
     'annotation/expand_to_untagged_lines_annotator.py', 'auto_annotate_fulltext.py',
     'auto_annotate_affiliation_address.py'],
    [('grouping', 'annotation/merge_group_tags_annotator.py'),
     ('expanding', 'annotation/expand_to_untagged_lines_annotator.py'),
     ('replacing', 'annotation/replace_tags_annotator.py')],
    ENUM_CLI,
    BOUNDED + 'Documents of up to 4 lines (thorough: 5) of 7 kinds, affiliations of up to 3 '
    '(thorough: 4) parts, pairs of affiliations.',
    ['output file']
)

prop(
    'P17', 'Annotations are merged and extended to the whole line as configured, only',
    'For every line, with merging enabled for a tag, consecutive annotations of that tag and the '
    'unannotated text between them become one annotation. With extending to the line enabled for '
    'the last (first) tag of the line, the unannotated text up to the end (start) of the line '
    'becomes part of it if that annotation has more tokens than that text. All other tokens keep '
    'their tags, no other line is affected, and where either is disabled (per tag, or by '
    '--no-extend-to-line for all of them) annotations stay separate and cover just the matching '
    'text.',
    ['inputs', 'configurations'],
    'all sequences of tags of a line, all combinations of enabled and disabled tags',
    'The tests check about a dozen lines; the result depends on all the lengths and the order of '
    'annotations and gaps of a line.',
    ['annotation/simple_matching_annotator.py', 'annotation/annotator.py',
     'auto_annotate_header.py', 'auto_annotate_fulltext.py'],
    [('get_extended_line_token_tags', 'annotation/simple_matching_annotator.py'),
     ('per tag configuration', 'auto_annotate_header.py, auto_annotate_fulltext.py')],
    'exhaustive enumeration of lines of tags and of lines of text up to a bound, on the real '
    'function and command line tools, against an independent executable model',
    BOUNDED + 'Lines of up to 6 tokens with begin and inside tags (plain tags: 8), lines of up to '
    '3 annotations or gaps of 1 to 3 words for the tools. Not covered: unannotated text at the '
    'start of a line followed by the continuation of an annotation of the previous line.',
    ['tags of the line', 'output file']
)

prop(
    'P19', 'Removing invalid references or affiliations removes just the unmatched text',
    'For every document, with --remove-invalid-references (--remove-invalid-affiliations) the '
    'output contains exactly the text annotated as a reference (affiliation), each one complete, '
    'once and in the order of the document, together with its line breaks, and no other text; '
    'what is outside of the container is unchanged. Without the option nothing is removed. The '
    'same applies whether or not existing references are segmented again.',
    ['inputs', 'configurations'],
    'all sequences of matching and not matching text and existing elements, divided into lines',
    'The tests remove a single token; tokens were repeated or lost depending on previous lines.',
    ['annotation/remove_untagged_annotator.py', 'auto_annotate_reference.py',
     'auto_annotate_affiliation_address.py', 'structured_document/__init__.py'],
    [('remove_untagged_tokens', 'annotation/remove_untagged_annotator.py'),
     ('configuration', 'auto_annotate_reference.py, auto_annotate_affiliation_address.py')],
    ENUM_CLI,
    BOUNDED + 'All sequences of up to 4 (thorough: 5) parts of 6 kinds.',
    ['output file']
)

prop(
    'P20', 'A document that cannot be processed does not affect other documents',
    'For every set of documents of which some cannot be processed (missing, empty or unreadable '
    'source or target, no container), with --skip-errors the run succeeds and writes exactly the '
    'outputs of the other documents, each the same as if processed alone, under all schedules and '
    'numbers of workers, or multiple processes; without it the run fails with an error naming a '
    'document that cannot be processed, and every file written is correct. No output is written '
    'for documents that failed, such that resuming after a repair completes the outputs.',
    ['inputs', 'schedules', 'histories', 'configurations'],
    'all combinations of defective documents, all schedules, runs repeated after a repair',
    'The tests use mocks for the errors; the effect on other documents depends on which document '
    'fails, when, and what is processed at the same time.',
    ['auto_annotate_utils.py', 'annotation/annotator.py', 'utils/io.py'],
    [('handling of errors of a document', 'auto_annotate_utils.py '
      '(AbstractAnnotatePipelineFactory)')],
    'stateless model checking of the real command line tools: all combinations of defects, all '
    'schedules with one preemption at calls and file operations',
    BOUNDED + 'All combinations of 6 defects for 2 documents (thorough: 3), up to 3 workers.',
    ['output files', 'error of the run']
)

prop(
    'P21', 'Exactly the selected documents are annotated, each with its own target',
    'For every set of files in the source directory, each tool processes exactly the training '
    'files of its own kind (plain or compressed), or the single file given by --source-path, or '
    'as many of them as allowed by --limit. Every document is annotated using the target XML '
    '(plain or compressed) whose name is derived from its own name by --xml-filename-regex, and '
    'written under its own name (compressed if its name says so) to the output path, which is '
    'created if needed, replacing a previous output; unrelated files, the source files and the '
    'targets are left as they are. The result does not depend on the number of workers, the use of '
    'multiple processes or of the Beam pipeline.',
    ['inputs', 'configurations'],
    'all sets of source files, selections, naming schemes, output locations and execution modes',
    'The tests process one plain document with one naming scheme.',
    ['auto_annotate_utils.py', 'utils/regex.py', 'annotation/annotator.py', 'utils/io.py',
     'auto_annotate_header.py', 'auto_annotate_segmentation.py', 'auto_annotate_fulltext.py',
     'auto_annotate_figure.py', 'auto_annotate_table.py', 'auto_annotate_reference.py',
     'auto_annotate_reference_segmenter.py', 'auto_annotate_affiliation_address.py'],
    [('selection of files, names of targets and outputs, execution',
      'auto_annotate_utils.py (AbstractAnnotatePipelineFactory)'),
     ('regex_change_name', 'utils/regex.py')],
    'exhaustive enumeration of sets of files and options, on the real command line tools, against '
    'a model of the selection',
    BOUNDED + 'All subsets of 4 documents among files of other tools, 4 naming schemes.',
    ['output files', 'source files']
)

prop(
    'P22', 'The complex matcher annotates verbatim values according to their flags',
    'With --matcher complex, for every document and sequence of target values: a value is annotated '
    'where it occurs verbatim (ignoring case) within a line, or spread over lines of its '
    'own, at the first such place not annotated already, or at the first place of every line if '
    'the value may match multiple times; nothing else is annotated. Of a list of values, those '
    'within the maximum gap of the ones found before are annotated, as one annotation, with '
    'bonding only if more than one was found (except for authors); a value requiring the next one '
    'is annotated only if the next value is found in the same or a neighbouring line; sub values '
    'are annotated at their position within the value. Splitting a match into the part before and '
    'after a position keeps every matching character and its position.',
    ['inputs', 'configurations'],
    'all documents made up of values, parts of them and other text, all combinations of flags',
    'The tests check single matches of short documents; the outcome depends on the order of '
    'values, lines, gaps and existing tags.',
    ['core/annotation/matching_annotator.py', 'core/annotation/fuzzy_match.py',
     'auto_annotate_utils.py'],
    [('MatchingAnnotator, TargetAnnotationMatchFinder',
      'core/annotation/matching_annotator.py'),
     ('FuzzyMatchResult', 'core/annotation/fuzzy_match.py'),
     ('configuration', 'auto_annotate_utils.py (get_default_annotators)')],
    'exhaustive enumeration of documents, targets and alignments up to a bound, on the real '
    'matcher and tool, against an independent executable model',
    BOUNDED + 'Documents of up to 4 (thorough: 5) parts of 8 kinds, 8 sequences of targets, lists '
    'of two values; alignments of texts of up to 4 (thorough: 5) characters.',
    ['tags of the document', 'output file']
)

prop(
    'P23', 'Configured headings, labels and spellings belong to the annotation of a value',
    'For every document and value of a field: the heading matching the prefix pattern of the field '
    '(an abstract heading; the own label of an affiliation, in upper or lower case, followed by '
    'dots, hyphens or spaces) becomes part of the annotation of the value if it is directly before '
    'it, including on the previous line, whereas any other text before the value (a different '
    'label, that of another affiliation, or text between the heading and the value) does not. '
    'A value not found in the document is annotated where one of its alternative spellings of the '
    'configuration is found, those listed first being preferred, whatever the white space of the '
    'list and whichever other values have spellings. The values stay separate annotations.',
    ['inputs', 'configurations'],
    'all labels, headings, separators and spellings, for all orders of up to three values',
    'The tests check one label, heading and spelling each; what is included depends on the text '
    'before each value, on the other values and on the layout of the configuration.',
    ['annotation/simple_matching_annotator.py', 'auto_annotate_utils.py'],
    [('apply_match_prefix_regex_to_index_range, get_sub_tag_placeholders, '
      'parse_alternative_spellings', 'annotation/simple_matching_annotator.py'),
     ('patterns', 'config/xml-mapping.conf')],
    'exhaustive enumeration of documents, labels, headings and configurations up to a bound, on '
    'the real command line tools, against an independent executable model',
    BOUNDED + '8 labels, 13 separators, 15 headings, one or two (thorough: three) affiliations in '
    'any order; labels of several characters, many affiliations; 10 layouts of the spellings of '
    'two values. Not covered: a label in front of another value before its own one.',
    ['annotated text of a document', 'output file']
)

prop(
    'P24', 'Every kind of content of an article is annotated as its GROBID training element',
    'With the default configuration, for every article (target XML) and training document of a '
    'model: text of the document which is content of the article of some kind (in the header: '
    'titles, abstracts, authors, affiliations, keywords, notes, identifiers; in the segmentation: '
    'front, body, annex, acknowledgment, references; in the full text: headings, paragraphs with '
    'their references, boxed text, lists, figures, tables, appendices; the parts of a reference, '
    'affiliation, figure or table) becomes the element, with the type or level attribute and at '
    'the nesting, of that kind in the GROBID training format, wherever in the article the content '
    'is (nested or unnested sections, paragraphs, groups, body, back or floats) and whichever '
    'other content there is. Content of kinds the model does not know is left as other text.',
    ['inputs', 'configurations'],
    'all kinds of content and all their combinations, for all tools',
    'The tests annotate a few kinds, mostly with a configuration of their own; they do not check '
    'the shipped mapping against the shipped elements, nor kinds in combination.',
    ['config/xml-mapping.conf', 'auto_annotate_header.py', 'auto_annotate_segmentation.py',
     'auto_annotate_fulltext.py', 'auto_annotate_reference.py',
     'auto_annotate_affiliation_address.py', 'auto_annotate_figure.py', 'auto_annotate_table.py',
     'annotation/target_annotation.py', 'structured_document/grobid_training_tei.py'],
    [('mapping of fields', 'config/xml-mapping.conf'),
     ('DEFAULT_TAG_TO_TEI_PATH_MAPPING, CONTAINER_NODE_PATH', 'auto_annotate_*.py'),
     ('xml_root_to_target_annotations', 'annotation/target_annotation.py')],
    'exhaustive enumeration of the kinds of content, singly and in combination, on the real '
    'command line tools, against an independent table of the training format',
    BOUNDED + 'All kinds, all pairs (thorough: pairs in both orders and triples of parts), with '
    'the options preserving and segmenting text.',
    ['elements of the text of the output file']
)

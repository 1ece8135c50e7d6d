"""
Descriptions of the auto-annotate tools, and how to run them on generated documents.
"""
import importlib
import os

from lxml import etree

TEI_NS = 'http://www.tei-c.org/ns/1.0'


class Pipeline:
    def __init__(self, name, suffix, prefix, postfix, namespaced=False, options=()):
        self.name = name
        self.suffix = suffix
        self.prefix = prefix
        self.postfix = postfix
        self.namespaced = namespaced
        self.options = list(options)

    @property
    def module(self):
        return importlib.import_module(
            'sciencebeam_trainer_grobid_tools.auto_annotate_' + self.name
        )

    def document(self, content):
        return self.prefix + content + self.postfix

    def filename(self, name='doc'):
        return name + self.suffix

    @property
    def filename_regex(self):
        return r'/(.*)' + self.suffix.replace('.', r'\.') + r'/\1.xml/'

    def container(self, root):
        """the element holding the annotated text, by position: independent of its name"""
        template = parse(self.document('<CONTENT/>'))
        marker = next(e for e in template.iter() if etree.QName(e).localname == 'CONTENT')
        indices = []
        node = marker.getparent()
        while node.getparent() is not None:
            indices.append(node.getparent().index(node))
            node = node.getparent()
        result = root
        for index in reversed(indices):
            result = result[index]
        return result


_PLAIN_HEAD = '<tei><teiHeader><fileDesc xml:id="0"/></teiHeader>'

PIPELINES = {
    p.name: p
    for p in [
        Pipeline(
            'header', '.header.tei.xml',
            _PLAIN_HEAD + '<text xml:lang="en"><front>', '</front></text></tei>'
        ),
        Pipeline(
            'segmentation', '.segmentation.tei.xml',
            _PLAIN_HEAD + '<text xml:lang="en">', '</text></tei>'
        ),
        Pipeline(
            'fulltext', '.fulltext.tei.xml',
            _PLAIN_HEAD + '<text xml:lang="en">', '</text></tei>'
        ),
        Pipeline(
            'figure', '.figure.tei.xml',
            _PLAIN_HEAD + '<text xml:lang="en">', '</text></tei>'
        ),
        Pipeline(
            'table', '.table.tei.xml',
            _PLAIN_HEAD + '<text xml:lang="en">', '</text></tei>'
        ),
        Pipeline(
            'reference_segmenter', '.references.referenceSegmenter.tei.xml',
            _PLAIN_HEAD + '<text xml:lang="en">', '</text></tei>'
        ),
        Pipeline(
            'reference', '.references.tei.xml',
            '<TEI xmlns="%s"><teiHeader/><text><front/><body/><back><listBibl>' % TEI_NS,
            '</listBibl></back></text></TEI>', namespaced=True
        ),
        Pipeline(
            'affiliation_address', '.affiliation.tei.xml',
            (
                '<tei xmlns="%s"><teiHeader><fileDesc><sourceDesc><biblStruct><analytic><author>'
                % TEI_NS
            ),
            '</author></analytic></biblStruct></sourceDesc></fileDesc></teiHeader></tei>',
            namespaced=True
        )
    ]
}


def write_file(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if isinstance(data, str):
        data = data.encode('utf-8')
    with open(path, 'wb') as fp:
        fp.write(data)


def read_file(path):
    with open(path, 'rb') as fp:
        return fp.read()


def list_files(path):
    """relative path -> content"""
    result = {}
    for dirpath, _, files in os.walk(path):
        for name in files:
            full = os.path.join(dirpath, name)
            result[os.path.relpath(full, path)] = read_file(full)
    return result


class Workspace:
    def __init__(self, path, pipeline):
        self.path = path
        self.pipeline = pipeline
        self.source = os.path.join(path, 'source')
        self.xml = os.path.join(path, 'xml')
        self.output = os.path.join(path, 'output')
        self.failed = os.path.join(path, 'failed')
        os.makedirs(self.source)
        os.makedirs(self.xml)

    def add(self, content, target_xml, name='doc', raw=None):
        write_file(
            os.path.join(self.source, self.pipeline.filename(name)),
            raw if raw is not None else self.pipeline.document(content)
        )
        if target_xml is not None:
            write_file(os.path.join(self.xml, name + '.xml'), target_xml)

    def args(self, *options, output=None, num_workers=1):
        return [
            '--source-base-path', self.source,
            '--output-path', output or self.output,
            '--xml-path', self.xml,
            '--xml-filename-regex', self.pipeline.filename_regex,
            '--num-workers', str(num_workers)
        ] + list(options)

    def main(self, *options, **kwargs):
        self.pipeline.module.main(self.args(*options, **kwargs), save_main_session=False)

    def output_bytes(self, name='doc'):
        path = os.path.join(self.output, self.pipeline.filename(name))
        return read_file(path) if os.path.exists(path) else None


def parse(data):
    """lenient, like for GROBID's own documents: xml:id="0" is not a valid id"""
    if isinstance(data, str):
        data = data.encode('utf-8')
    return etree.fromstring(data, parser=etree.XMLParser(recover=True))


def local_name(element):
    return etree.QName(element).localname


def text_lines(element):
    """text of the element, split at line breaks"""
    lines = ['']

    def visit(node):
        lines[-1] += node.text or ''
        for child in node:
            if not isinstance(child.tag, str):
                lines[-1] += child.tail or ''
                continue
            if local_name(child) == 'lb':
                lines.append('')
            visit(child)
            lines[-1] += child.tail or ''
    visit(element)
    return lines


def normalised_lines(element):
    lines = [line.strip() for line in text_lines(element)]
    while lines and not lines[-1]:
        lines.pop()
    return lines


def outside_of(root, container):
    """canonical form of everything but the content of the container"""
    def visit(node):
        if node is container:
            return ['CONTAINER', node.tag, sorted(node.attrib.items())]
        return [
            str(node.tag), sorted(node.attrib.items()), node.text,
            [[visit(child), child.tail] for child in node]
        ]
    return visit(root)

"""Generated training documents: sequences of atoms, per pipeline."""
import itertools

from mc.targets import jats

# texts that are part of the target XML of every pipeline (as the main and second field)
T1 = 'Alpha one beta'
T2 = 'Gamma two delta epsilon'
OTHER = 'zz'
TRICKY = 'A&amp;b&lt;c (\u00e9\u4e2d) McDonald\u00a0x_1 \U0001d54f'

EXISTING = {
    'header': [
        '<docTitle><titlePart>{}</titlePart></docTitle>', '<div type="abstract">{}</div>',
        '<byline><docAuthor>{}</docAuthor></byline>', '<note type="other">{}</note>'
    ],
    'segmentation': [
        '<front>{}</front>', '<body>{}</body>', '<page>{}</page>', '<listBibl>{}</listBibl>'
    ],
    'fulltext': [
        '<head>{}</head>', '<p>{}</p>', '<p>q <ref type="biblio">{}</ref> r</p>',
        '<note type="other">{}</note>'
    ],
    'figure': [
        '<figure>{}</figure>', '<figure><head><label>{}</label></head></figure>',
        '<figure><figDesc>{}</figDesc></figure>', '<other>{}</other>'
    ],
    'table': [
        '<figure type="table">{}</figure>',
        '<figure type="table"><head><label>{}</label></head></figure>',
        '<figure type="table"><figDesc>{}</figDesc></figure>', '<other>{}</other>'
    ],
    'reference_segmenter': [
        '<listBibl><bibl>{}</bibl></listBibl>', '<listBibl><bibl><label>{}</label></bibl></listBibl>',
        '<listBibl><bibl>q {}</bibl> r</listBibl>', '<other>{}</other>'
    ],
    'reference': [
        '<bibl>{}</bibl>', '<bibl><author>{}</author></bibl>',
        '<bibl>q <title level="a">{}</title> r</bibl>', '<note type="other">{}</note>'
    ],
    'affiliation_address': [
        '<affiliation>{}</affiliation>', '<affiliation><marker>{}</marker></affiliation>',
        '<affiliation>q <address><country>{}</country></address> r</affiliation>',
        '<note type="other">{}</note>'
    ],
}

TARGETS = {
    'header': jats(title=T1, abstract=T2),
    'segmentation': jats(title=T1, body='<sec><title>%s</title></sec>' % T2),
    'fulltext': jats(body=(
        '<sec><title>%s</title><p>Gamma <xref ref-type="bibr">two</xref> delta epsilon</p></sec>'
        % T1
    )),
    'figure': jats(figs=[
        '<label>Alpha one</label><caption><p>beta</p></caption>', '<label>Gamma</label>'
        '<caption><p>two delta epsilon</p></caption>'
    ]),
    'table': jats(tables=[
        '<label>Alpha one</label><caption><p>beta</p></caption>', '<label>Gamma</label>'
        '<caption><p>two delta epsilon</p></caption>'
    ]),
    'reference_segmenter': jats(refs=[
        '<label>Alpha</label> <mixed-citation>one beta</mixed-citation>',
        '<label>Gamma</label> <mixed-citation>two delta epsilon</mixed-citation>'
    ]),
    'reference': jats(refs=[
        '<label>Alpha</label> <mixed-citation><string-name>one</string-name> '
        '<article-title>beta</article-title></mixed-citation>',
        '<label>Gamma</label> <mixed-citation><source>two delta</source> <etal>epsilon</etal>'
        '</mixed-citation>'
    ]),
    'affiliation_address': jats(affs=[
        '<label>Alpha</label> <institution>one beta</institution>',
        '<label>Gamma</label> <institution>two delta</institution> <country>epsilon</country>'
    ]),
}
EMPTY_TARGET = jats(title='unrelated', refs=['<label>unrelated</label>'])

COMMON_OPTIONS = [[], ['--no-preserve-tags']]
OPTIONS = {
    'header': [['--use-line-number-annotator'], ['--matcher=complex'],
               ['--fields=title,abstract']],
    'segmentation': [['--use-line-number-annotator'], ['--no-merge-references'],
                     ['--no-preserve-fields=front,page']],
    'fulltext': [
        ['--no-extend-to-line'],
        ['--expand-to-previous-untagged-lines', '--expand-to-following-untagged-lines'],
    ],
    'figure': [['--segment-figures'], ['--segment-figures', '--preserve-sub-tags'],
               ['--preserve-sub-tags']],
    'table': [['--segment-tables'], ['--segment-tables', '--preserve-sub-tags'],
              ['--preserve-sub-tags']],
    'reference_segmenter': [['--use-line-number-annotator']],
    'reference': [['--segment-references'], ['--segment-references', '--no-preserve-tags']],
    'affiliation_address': [
        ['--segment-affiliation'], ['--segment-affiliation', '--preserve-sub-tags'],
        ['--preserve-sub-tags']
    ],
}


def options_of(name):
    return COMMON_OPTIONS + OPTIONS[name]


def atoms_of(name):
    e1, e2, e3, e4 = EXISTING[name]
    return [
        T1,
        '<lb/>',
        '\n',
        OTHER,
        e1.format(T1),
        e1.format('12 ' + OTHER + '<lb/>' + T2 + '\n'),
        e2.format(OTHER),
        e3.format(T2 + '<lb/> ' + OTHER),
        e4.format(OTHER + '<lb/>'),
        TRICKY,
        ' <!-- c --> ',
        '7 ' + T2 + ' ',
        '<unknown>' + OTHER + '</unknown>',
    ]


def sequences(count, max_length):
    for length in range(0, max_length + 1):
        yield from itertools.product(range(count), repeat=length)

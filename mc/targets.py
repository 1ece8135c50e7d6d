"""Generated JATS documents, used as the target of the annotation."""
from xml.sax.saxutils import escape


def jats(
    title=None, abstract=None, authors=(), affs=(), body='', refs=(), figs=(), tables=(),
    meta='', back=''
):
    """all values are XML fragments"""
    return (
        '<article><front><article-meta>'
        + (
            '<title-group><article-title>%s</article-title></title-group>' % title
            if title is not None else ''
        )
        + '<contrib-group>'
        + ''.join(
            '<contrib contrib-type="author"><name>%s</name></contrib>' % a for a in authors
        )
        + ''.join('<aff>%s</aff>' % a for a in affs)
        + '</contrib-group>'
        + ('<abstract>%s</abstract>' % abstract if abstract is not None else '')
        + meta
        + '</article-meta></front><body>'
        + body
        + ''.join('<fig>%s</fig>' % f for f in figs)
        + ''.join('<table-wrap>%s</table-wrap>' % t for t in tables)
        + '</body><back>'
        + back
        + (
            '<ref-list>%s</ref-list>' % ''.join('<ref>%s</ref>' % r for r in refs)
            if refs else ''
        )
        + '</back></article>'
    )


def esc(text):
    return escape(text)

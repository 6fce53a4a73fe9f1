"""Canonical form of an XML fragment: elements, attributes, text."""
import re
import xml.etree.ElementTree as ET


def canon_fragment(d):
    """None when not well-formed."""
    try:
        root = ET.fromstring("<r xmlns:m='M' xmlns:mws='W' "
                             "xmlns:xlink='X'>%s</r>" % d)
    except ET.ParseError:
        return repr(d)
    return repr(_c(root, True))


def _c(e, top=False):
    txt = e.text or ""
    kids = []
    for k in e:
        kids.append(_c(k))
        kids.append(k.tail or "")
    if top:
        # blanks around the fragment carry no meaning
        txt = txt.strip()
        if kids:
            kids[-1] = kids[-1].strip()
    return (e.tag, sorted(e.attrib.items()), txt, kids)

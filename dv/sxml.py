"""lxml.etree for the symbolic side: real element trees (xml.etree) whose texts
may hold number tokens."""
import xml.etree.ElementTree as ET
from . import shims
from .values import Unsupported, SStr
from .vfs import _name


class El(ET.Element):
    """lxml elements: an element has one place; appending moves it"""
    _parent = None

    def append(self, x):
        p = x._parent
        if p is not None:
            p.remove(x)
        super().append(x)
        x._parent = self

    def remove(self, x):
        for k, y in enumerate(list(self)):
            if y is x:
                del self[k]
                x._parent = None
                return
        raise ValueError('Element is not a child of this node.')

    def getparent(self):
        return self._parent

    def getchildren(self):
        return list(self)

    def makeelement(self, tag, attrib):
        return El(tag, attrib)


def _tag(t):
    if isinstance(t, SStr):
        raise Unsupported('element name that is not a text')
    if not isinstance(t, str):
        raise TypeError('Argument must be bytes or unicode')
    if not t or any(ch in ' \t\n<>&/' for ch in t) or t[0].isdigit():
        raise ValueError('Invalid tag name %r' % t)
    return t


def element(tag, attrib=None, **k):
    return El(_tag(tag), dict(attrib or {}, **k))


def sub(parent, tag, attrib=None, **k):
    e = element(tag, attrib, **k)
    parent.append(e)
    return e


class Tree:
    def __init__(self, root=None):
        self.root = root

    def getroot(self):
        return self.root

    def iter(self, *a):
        return self.root.iter(*a)

    def find(self, p):
        return self.root.find(p)


def _check(e):
    for x in e.iter():
        for t in (x.text, x.tail):
            if isinstance(t, SStr):
                raise Unsupported('element text that is not concrete')
            if t is not None and not isinstance(t, str):
                raise TypeError('Argument must be bytes or unicode, got %r' % type(t).__name__)
            if t is not None and any(ord(ch) < 32 and ch not in '\t\n\r' for ch in t):
                raise ValueError('All strings must be XML compatible')


def tostring(e, pretty_print=False, encoding=None, xml_declaration=None, **k):
    if k:
        raise Unsupported('tostring options')
    if isinstance(e, Tree):
        e = e.root
    _check(e)
    c = ET.fromstring(ET.tostring(e))
    if pretty_print:
        ET.indent(c)
    s = ET.tostring(c, encoding='unicode')
    if pretty_print:
        s += '\n'
    if xml_declaration:
        s = "<?xml version='1.0' encoding='%s'?>\n" % (encoding or 'ASCII') + s
    if encoding in (str, 'unicode'):
        return s
    return s.encode(encoding or 'ascii', 'xmlcharrefreplace')


def fromstring(s, *a, **k):
    if isinstance(s, SStr):
        raise Unsupported('XML text that is not concrete')
    if isinstance(s, str) and s.lstrip()[:5] == '<?xml' and 'encoding' in s[:s.find('?>')]:
        raise ValueError('Unicode strings with encoding declaration are not supported.')
    p = ET.XMLParser(target=ET.TreeBuilder(element_factory=lambda t, at: El(t, at)))
    p.feed(s)
    r = p.close()
    for x in r.iter():
        for y in x:
            y._parent = x
    return r


def module(fs):
    def parse(f, *a, **k):
        if isinstance(f, (str, bytes)):
            f = _name(f.decode() if isinstance(f, bytes) else f)
            if f not in fs.files:
                raise OSError('Error reading file')
            s = fs.files[f]
        else:
            s = f.read()
        return Tree(fromstring(s))
    return shims.mod('lxml.etree', Element=element, SubElement=sub, ElementTree=Tree, tostring=tostring,
                     fromstring=fromstring, XML=fromstring, parse=parse, _Element=El, XMLSyntaxError=ET.ParseError)

"""Plain infoset trees, an independent reader, and a printer with presentation noise."""
from dataclasses import dataclass, field
import re
import xml.etree.ElementTree as ET

XSI = 'http://www.w3.org/2001/XMLSchema-instance'
XSI_NIL = '{%s}nil' % XSI
XML_NS = 'http://www.w3.org/XML/1998/namespace'     # bound to 'xml' everywhere, and to no other prefix


@dataclass
class Node:
    tag: str
    attrs: dict = field(default_factory=dict)
    text: str = ''
    children: list = field(default_factory=list)
    tail: str = ''
    line: int = -1

    def copy(self):
        return Node(self.tag, dict(self.attrs), self.text, [c.copy() for c in self.children], self.tail, self.line)

    def canon(self, ws=False, top=True):
        """Comparable form: attribute order is irrelevant, '' and None text are the same."""
        text, tail = self.text or '', '' if top else (self.tail or '')
        if ws:
            text, tail = text.strip(), tail.strip()
        return (self.tag, tuple(sorted(self.attrs.items())), text,
                tuple(c.canon(ws, False) for c in self.children), tail)

    def walk(self):
        yield self
        for c in self.children:
            yield from c.walk()

    def size(self):
        return sum(1 for _ in self.walk())


def split(q):
    m = re.fullmatch(r'(?:\{(.*)\})?(.*)', q, re.S)
    return m[1] or None, m[2]


def clark(uri, local):
    return '{%s}%s' % (uri, local) if uri else local


def from_et(e):
    """Converts an ElementTree or lxml element, merging text around comments and PIs."""
    n = Node(e.tag, {str(k): str(v) for k, v in e.attrib.items()}, e.text or '')
    n.line = getattr(e, 'sourceline', None) or -1
    for c in e:
        if isinstance(c.tag, str):
            k = from_et(c)
            k.tail = c.tail or ''
            n.children.append(k)
        elif n.children:
            n.children[-1].tail += c.tail or ''
        else:
            n.text += c.tail or ''
    return n


def parse(doc):
    """Independent reader: expat through the standard library, comments and PIs dropped."""
    return from_et(ET.fromstring(doc))


def to_et(n, mod=ET):
    e = mod.Element(n.tag)
    for k, v in n.attrs.items():
        e.set(k, v)
    e.text = n.text or None
    for c in n.children:
        k = to_et(c, mod)
        k.tail = c.tail or None
        e.append(k)
    return e


def esc_text(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('\r', '&#13;')


def esc_attr(s, q='"'):
    s = s.replace('&', '&amp;').replace('<', '&lt;').replace('\t', '&#9;').replace('\n', '&#10;').replace('\r', '&#13;')
    return s.replace(q, '&quot;' if q == '"' else '&#39;')


class Tape:
    """A finite list of drawn choices; 0 (the plain choice) once it runs out."""

    def __init__(self, choices=()):
        self.c = list(choices)
        self.i = 0

    def pick(self, n):
        if self.i < len(self.c):
            v = self.c[self.i]
            self.i += 1
            return v % n
        return 0


NOISE = ['<!--c-->', '<?pi data?>', '<!-- <x a="1"/> -->', '<?xml-stylesheet href="a"?>', '<!--a--><?b?>', '<!---->']


class Printer:
    """Writes a Node; every choice comes from the tape, all zeros is the plainest form.

    ws:     white space may be added where there is element-only content
    noise:  comments, PIs, CDATA sections, character references
    lines:  put a line break before every element (white space in text is data, so only with ws)
    """

    def __init__(self, tape=None, noise=False, ws=False, encoding=None, prefixes=True):
        self.t = tape or Tape()
        self.noise = noise
        self.ws = ws
        self.enc = encoding
        self.prefixes = prefixes
        self.n = 0

    def _junk(self):
        if self.noise and self.t.pick(4) == 1:
            return NOISE[self.t.pick(len(NOISE))]
        return ''

    def _chars(self, s):
        if self.enc in (None, 'utf-8', 'utf-8-sig') or self.enc.startswith('utf-16'):
            return s
        codec = self.enc
        return s.encode(codec, 'xmlcharrefreplace').decode(codec)

    def _text(self, s):
        if not s:
            return self._junk()
        if not self.noise:
            return self._chars(esc_text(s))
        mode = self.t.pick(6)
        if mode in (0, 1):
            return self._chars(esc_text(s)) + self._junk()
        if mode == 2 and ']]>' not in s and '\r' not in s:
            chunk = '<![CDATA[' + s + ']]>'
            if self._chars(chunk) == chunk:
                return chunk
            return self._chars(esc_text(s))
        if mode == 3:
            return ''.join('&#x%X;' % ord(ch) for ch in s)
        if mode == 4:
            k = self.t.pick(len(s) + 1)
            return (self._chars(esc_text(s[:k])) + NOISE[self.t.pick(len(NOISE))] + self._chars(esc_text(s[k:])))
        k = self.t.pick(len(s) + 1)
        a, b = s[:k], s[k:]
        if ']]>' in b or '\r' in b or self._chars(b) != b:
            return self._chars(esc_text(s))
        return self._chars(esc_text(a)) + '<![CDATA[' + b + ']]>'

    def _prefix(self):
        self.n += 1
        return 'n%d' % self.n

    def element(self, n, scope, depth=0):
        uri, local = split(n.tag)
        decl = {}
        now = dict(scope)

        def declare(p, u):
            decl[p] = u
            now[p] = u

        if uri is None:
            name = local
            if now.get(''):
                declare('', '')
        elif uri == XML_NS:
            name = 'xml:' + local
        else:
            have = [p for p, u in now.items() if u == uri]
            opts = have[:]
            choice = self.t.pick(len(have) + 3) if self.prefixes else 0
            if have and choice < len(have):
                p = opts[choice]
            elif not have and choice == 0:
                p = ''
                declare('', uri)
            else:
                k = choice - len(have)
                if k == 0:
                    p = ''
                    if now.get('') != uri:
                        declare('', uri)
                elif k == 1:
                    p = self._prefix()
                    declare(p, uri)
                else:
                    p = 'p'
                    if now.get('p') != uri:
                        declare('p', uri)
            name = (p + ':' if p else '') + local
        attrs = list(n.attrs.items())
        if self.noise and len(attrs) > 1:
            r = self.t.pick(len(attrs))
            attrs = attrs[r:] + attrs[:r]
            if self.t.pick(2):
                attrs.reverse()
        out = []
        for q, v in attrs:
            u, l = split(q)
            if u is None:
                an = l
            elif u == XML_NS:
                an = 'xml:' + l
            else:
                have = [p for p, x in now.items() if x == u and p]
                if have:
                    p = have[self.t.pick(len(have))]
                elif u == XSI and 'xsi' not in decl:
                    p = 'xsi'
                    declare(p, u)
                else:
                    p = self._prefix()
                    declare(p, u)
                an = p + ':' + l
            qt = '"\''[self.t.pick(2)] if self.noise else '"'
            out.append('%s=%s%s%s' % (an, qt, self._chars(esc_attr(v, qt)), qt))
        decls = ['xmlns%s="%s"' % (':' + p if p else '', esc_attr(u)) for p, u in decl.items()]
        if self.noise and self.t.pick(2):
            parts = out + decls
        else:
            parts = decls + out
        gap = ' '
        if self.noise and self.t.pick(5) == 1:
            gap = '\n  '
        head = name + ''.join(gap + p for p in parts)
        body = self._text(n.text)
        pad = ''
        if self.ws and n.children and not n.text.strip() and not any(c.tail.strip() for c in n.children):
            pad = ['', '\n', '\n  ', '\t', '\n\n\n'][self.t.pick(5)]
        for c in n.children:
            body += pad + self.element(c, now, depth + 1) + self._text(c.tail)
        body += pad
        if not body and not (self.noise and self.t.pick(3) == 1):
            return '<' + head + '/>'
        return '<' + head + '>' + body + '</' + name + (' ' if self.noise and self.t.pick(5) == 1 else '') + '>'

    def document(self, n):
        """Returns str, or bytes when an encoding was requested."""
        s = self.element(n, {'xml': XML_NS})
        if self.noise:
            k = self.t.pick(5)
            if k == 1:
                s = '<!-- before --><?x y?>\n' + s
            elif k == 2:
                s = s + '\n<!-- after --><?z?>\n'
            elif k == 3:
                s = '<!DOCTYPE doc>\n' + s
            elif k == 4:
                s = s + '\n' if self.enc is None else '\n' + s + '\n'
        if self.enc is None:
            return s
        name = {'utf-8-sig': 'utf-8'}.get(self.enc, self.enc)
        if self.enc in ('utf-16-be', 'utf-16-le'):
            return ('\ufeff<?xml version="1.0" encoding="utf-16"?>' + s).encode(self.enc)
        return ('<?xml version="1.0" encoding="%s"?>' % name + s).encode(self.enc)


def plain(n):
    return Printer().document(n)

"""Namespaces."""
from xml.parsers import expat

from ..common import *
from ..gen import URIS
from ..live import Live
from ..tree import XML_NS, clark, split

TECHNIQUE = 'generated namespace declarations and re-namespaced documents against a reference resolver'
RULE = ('Generated models in which models, base classes, fields, attributes, wrappers and sub-models declare namespaces, prefix maps and '
        'ns_attrs in all combinations (prefixes deliberately reused for other URIs); the names written equal those the reference resolves, '
        'documents with the namespace of some elements or attributes changed, added or removed are read as the reference reads them, what is '
        'written is read back, and the lxml root element keeps the declared prefixes. Non-trivial: a document in which some name has a '
        'namespace.')


def renamespace(tree, muts):
    t = tree.copy()
    for m in muts:
        nodes = list(t.walk())
        n = nodes[m.a % len(nodes)]
        uri = ([None, None] + URIS + ['urn:other'])[m.b % (len(URIS) + 3)]
        if m.op % 3 == 0 and n.attrs:
            q = sorted(n.attrs)[m.c % len(n.attrs)]
            v = n.attrs.pop(q)
            n.attrs[clark(uri, split(q)[1])] = v
        elif m.op % 3 == 1:
            for x in n.walk():
                if m.c % 2 or x is n:
                    x.tag = clark(uri, split(x.tag)[1])
        elif m.op % 3 == 2 and len(nodes) > 1:
            k = nodes[1 + m.c % (len(nodes) - 1)]
            k.tag = clark(uri, split(k.tag)[1])
    return t


def check(c, T):
    L = live(c.u)
    for v, inst in instances(L, c, T):
        t = expect_tree(L, inst, v, T)
        text = text_of(inst, t)
        got = tparse(text)
        if got.canon() != t.canon():
            fail('the document text has other names than the tree', L, instance=lit(v), expected=plain(t), actual=repr(text))
        if not STD:
            want = {k or None: u for k, u in (L.ref.flat(c.u.top)[0]['nsmap'] or {}).items() if k != 'xml'}
            have = guarded(inst.to_xml_tree).nsmap
            if not want.items() <= have.items():
                fail('the root element does not declare the prefixes of the model', L, instance=lit(v), expected=want, actual=have)
        expect_parse(L, t, T, how='text', doc=text)
        for m in c.muts:
            m = renamespace(t, m)
            expect_parse(L, m, T)
        if any('{' in x.tag + ''.join(x.attrs) for x in t.walk()):
            T.nontrivial(L.src, plain(t))
            T.sample('%s\n# %s\n# -> %s' % (L.src, lit(v), text))


def consistent(u):
    """The program with one URI for each prefix and one prefix for each URI."""
    def maps(m):
        return m and tuple((k, v if k == 'xml' else 'urn:of:' + (k or 'default')) for k, v in m)

    def ent(e):
        return e and replace(e, nsmap=maps(e.nsmap), inner=ent(e.inner))
    return replace(u, models=tuple(replace(m, nsmap=maps(m.nsmap), fields=tuple(replace(f, ent=ent(f.ent)) for f in m.fields)) for m in u.models))


def raw_names(text):
    """Names as they are spelled."""
    out = []
    p = expat.ParserCreate()
    p.StartElementHandler = lambda name, attrs: out.append((name, sorted(a for a in attrs if a.split(':')[0] != 'xmlns')))
    p.Parse(text, True)
    return out


def spelled(q, attr=False):
    uri, name = split(q)
    if uri is None:
        return name
    if uri == XML_NS:
        return 'xml:' + name
    if not uri.startswith('urn:of:') or STD and uri == 'urn:of:ns0':
        return None         # not declared, or a prefix ElementTree keeps for itself
    p = uri[7:]
    if p == 'default':
        return None if STD or attr else name
    return p + ':' + name


def check_prefixes(c, T):
    u = consistent(c.u)
    # the prefixes of the standard library are global: the program is defined anew
    L = Live(u)
    for v, inst in instances(L, c, T):
        t = expect_tree(L, inst, v, T)
        text = guarded(inst.to_xml, encoding='unicode')
        if tparse(text).canon() != t.canon():
            fail('the document text has other names than the tree', L, instance=lit(v), expected=plain(t), actual=repr(text))
        for (have, attrs), n in zip(raw_names(text), t.walk()):
            want = spelled(n.tag)
            if want not in (None, have):
                fail('an element is not written with the declared prefix', L, instance=lit(v), expected=want, actual=have, document=text)
            if want and ':' in want:
                T.count('prefixed')
            wants = [spelled(q, True) for q in n.attrs]
            if None not in wants and sorted(wants) != attrs:
                fail('an attribute is not written with the declared prefix', L, instance=lit(v), expected=sorted(wants), actual=attrs, document=text)
        if 'urn:of:' in text:
            T.nontrivial(L.src, text)
            T.sample('%s\n# %s\n# -> %s' % (L.src, lit(v), text))


def parts():
    def part(name, n, **kw):
        k = Knobs(ns=1.0, skip_flag=0, prims=['str', 'str', 'int'], **kw)
        return Part(name, lambda: cases(k, 2, 3), check, n)
    return [
        part('any', 140),
        Part('prefixes', lambda: cases(Knobs(ns=1.0, skip_flag=0, prims=['str', 'int']), 2, 0), check_prefixes, 120),
        part('inherit', 110, inherit=0.6, models=(2, 4)),
        part('wrapped', 120, locs=('wrap', 'wrap', 'attr', 'elem'), fields=(1, 4)),
        part('nested', 120, models=(2, 5), roots=0.3, shapes=('model', 'model', 'seq', 'munion', 'tunion', 'dct', 'raw', 'prim')),
        part('attributes', 80, locs=('attr', 'attr', 'elem', 'none'), shapes=('prim', 'dct', 'tdct', 'model'), fields=(1, 5)),
    ]

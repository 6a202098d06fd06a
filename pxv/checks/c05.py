"""Presentation of a document."""
from ..common import *
from ..gen import tapes

TECHNIQUE = 'metamorphic: one infoset printed in many ways must parse to one outcome'
RULE = ('Generated models and documents (valid, mutated, arbitrary), each printed plainly and in several other ways drawn from a choice tape: '
        'comments, processing instructions, CDATA sections, character references, internal entities, attribute order and quoting, prefix '
        'choice and placement, self-closing tags, DOCTYPE, white space between elements, eight encodings with XML declarations and byte order marks, str or bytes. '
        'An independent parser confirms the two texts have the same content; both must give the same outcome, also from an already parsed '
        'tree. White space between elements changes the infoset, so there the outcome is that of the reference. '
        'Non-trivial: a variant whose text differs from the plain one and whose document has a sub-element or attribute.')
ENCODINGS = [None, None, None, 'utf-8', 'utf-16', 'utf-16-be', 'utf-16-le', 'utf-8-sig', 'iso-8859-1', 'ascii', 'cp1252', 'koi8-r']


def encodable(n, enc):
    try:
        for x in n.walk():
            (x.tag + ''.join(x.attrs)).encode(enc or 'utf-8')
    except UnicodeEncodeError:
        return False
    return True


def entities(doc):
    """Puts some text behind an internal entity."""
    return '<!DOCTYPE d [<!ENTITY pxv "abc">]>' + doc.replace('>abc<', '>&pxv;<')


def check(c, T):
    L = live(c.u)
    trees, variants = c.x
    tags, attrs = vocabulary(c.u, L.ref)
    docs = list(trees)
    for v, inst in instances(L, c, T):
        base = L.ref.to_tree(inst)
        docs += [base] + [mutate(base, m, tags, attrs) for m in c.muts]
    for t in docs:
        p = plain(t)
        first = L.sut_parse(p)
        if first.kind == 'crash':
            fail('parsing raised %r' % first.exc, L, document=p)
        T.count('outcome:' + first.kind)
        for tape, enc, ws, as_bytes in variants:
            if not encodable(t, enc):
                enc = 'utf-8'
            doc = Printer(Tape(tape), noise=True, ws=ws, encoding=enc).document(t)
            if enc is None and len(tape) % 4 == 0 and '<!DOCTYPE' not in doc and '<![CDATA[' not in doc and '<!--' not in doc:
                doc = entities(doc)
            if enc is None and as_bytes:
                doc = doc.encode()
            if STD and isinstance(doc, bytes) and enc is not None and as_bytes:
                doc = doc.decode(enc).lstrip('\ufeff')     # a str that declares an encoding; lxml refuses it
            t2 = tparse(doc)
            if doc == p:
                T.count('same text')
                continue
            if t2.canon() == t.canon():
                T.count('variant:' + ('text' if enc is None else enc))
                got = L.sut_parse(doc)
                if not matches([first], got):
                    fail('the same document written in another way gives another outcome', L, document=p, variant=repr(doc), expected=first,
                         actual=got)
                tree = L.etree.fromstring(doc)
                got = outcome(L.top.from_xml_tree, tree)
                if not matches([first], got):
                    fail('the tree of the same document written in another way gives another outcome', L, document=p, variant=repr(doc),
                         expected=first, actual=got)
            else:
                if not ws:
                    raise AssertionError('printer changed the content: %r %r' % (p, doc))
                exp = L.ref_parse(t2)
                T.count('variant:white space' + (' (same outcome)' if any(matches([first], e) for e in exp) else ' (seen by a field)'))
                expect_parse(L, t2, T, how='text', doc=doc)
            if t.attrs or t.children:
                T.nontrivial(L.src, doc)
                T.sample('%s\n# %s\n# == %r\n# -> %r' % (L.src, p, doc, first))


def part(name, n, k, nmuts=2, random=0):
    @st.composite
    def make(draw):
        from ..ref import Ref
        u = draw(universes(k))
        vals = (model_value(draw, u.top, k, u),) if not random else ()
        ref = Ref(u, {})
        tags, attrs = vocabulary(u, ref)
        trees = tuple(replace(draw(random_trees(tags, attrs, 2)), tag=ref.plan(u.top).q) for _ in range(random))
        variants = tuple((tuple(draw(tapes)), draw(st.sampled_from(ENCODINGS)), draw(st.integers(0, 3)) == 0, draw(st.booleans()))
                         for _ in range(5))
        return Case(u, vals, tuple(tuple(draw(mutations)) for _ in range(nmuts)), (trees, variants))
    return Part(name, make, check, n)


def parts():
    return [
        part('any', 200, Knobs()),
        part('texts', 120, Knobs(prims=['str', 'str', 'strictstr', 'bytes', 'literal', 'color'], locs=('attr', 'elem', 'text', 'wrap'))),
        part('namespaces', 120, Knobs(ns=1.0)),
        part('mappings', 100, Knobs(ns=1.0, shapes=('dct', 'dct', 'tdct', 'prim'), locs=('elem', 'none', 'none', 'attr', 'wrap')), 4),
        part('nested', 90, Knobs(models=(3, 5), shapes=('model', 'self', 'seq', 'raw', 'raw', 'prim', 'dct', 'munion', 'tunion'))),
        part('forbid', 80, Knobs(forbid=1.0)),
        part('arbitrary', 80, Knobs(fields=(1, 5)), 0, 4),
    ]

"""Raw elements."""
from ..common import *
from ..gen import raw_nodes
from ..spec import MV, RV

TECHNIQUE = 'generated raw subtrees with before/after snapshots of trees and values'
RULE = ('Generated models with raw element fields (alone, in lists and tuples, optional, wrapped, root, several per model, in all search modes) '
        'and generated subtrees (attributes, namespaces, text, tails, depth 3, with comments in the source text); the value read is the '
        'subtree of the document, it is written back unchanged, writing and reading twice gives the same, and neither the tree parsed, nor '
        'the instance written, nor the raw value is changed by any call or by changing the result of another call. '
        'Non-trivial: a model with a raw field holding an element.')


def freeze(e):
    """Everything of a native element, comments included."""
    return (str(e.tag), tuple(e.attrib.items()) if isinstance(e.tag, str) else (), e.text, e.tail, tuple(map(freeze, e)))


def raws(x):
    if is_elem(x):
        yield x
    elif isinstance(x, pd.BaseModel):
        for v in x.__dict__.values():
            yield from raws(v)
    elif isinstance(x, (list, tuple, set, frozenset)):
        for v in x:
            yield from raws(v)


def check(c, T):
    L = live(c.u)
    as_text, noise = c.x
    tags, attrs = vocabulary(c.u, L.ref)
    for v, inst in instances(L, c, T):
        held = list(raws(inst))
        before = [freeze(e) for e in held]
        t = expect_tree(L, inst, v, T)
        first = guarded(inst.to_xml_tree)
        shape = freeze(first)
        if [freeze(e) for e in held] != before:
            fail('writing changes the raw values of the instance', L, instance=lit(v))
        # the tree written is the caller's
        for x in list(first.iter()):
            x.text = 'changed'
            x.set('changed', '1')
        for x in list(first):
            first.remove(x)
        if [freeze(e) for e in held] != before:
            fail('changing the tree written changes the raw values of the instance', L, instance=lit(v))
        if freeze(guarded(inst.to_xml_tree)) != shape:
            fail('writing again gives another tree', L, instance=lit(v))
        expect_tree(L, inst, v, T, how='to_xml', skip_empty=True)
        for m in ((),) + c.muts:
            d = mutate(t, m, tags, attrs)
            doc = Printer(Tape(noise), noise=True).document(d)
            tree = L.etree.fromstring(doc)
            keep = freeze(tree)
            got = outcome(L.top.from_xml_tree, tree)
            if freeze(tree) != keep:
                fail('parsing changes the tree', L, document=doc)
            exps = L.ref_parse(d)
            if exps[0].ambiguous:
                continue
            if not matches(exps, got):
                fail('parsing gives another outcome', L, document=doc, expected='\nor '.join(map(repr, exps)), actual=got)
            if got.kind == 'ok':
                new = list(raws(got.value))
                now = [freeze(e) for e in new]
                for x in tree.iter():
                    if isinstance(x.tag, str):
                        x.text = 'changed'
                        x.set('changed', '1')
                if [freeze(e) for e in new] != now:
                    fail('changing the source tree changes the raw values read from it', L, document=doc)
                if new:
                    T.nontrivial(L.src, plain(d))
                    T.sample('%s\n# %s\n# -> %r' % (L.src, doc, got))
        if held:
            T.nontrivial(L.src, plain(t))


def parts():
    def part(name, n, **kw):
        k = Knobs(**{**dict(shapes=('raw', 'raw', 'raw', 'prim', 'model', 'seq', 'tup'), seq_items=('raw', 'raw', 'tup', 'model'),
                            tup_items=('raw', 'prim'), root_shapes=('raw', 'raw', 'seq', 'model'), noxml=0, computed=0.03, skip_flag=0.05,
                            prims=['str', 'int'], fields=(1, 4), models=(1, 3)), **kw})
        return Part(name, lambda: cases(k, 2, 4, lambda d: (d(st.booleans()), tuple(d(st.lists(st.integers(0, 11), max_size=20))))), check, n)
    return [
        part('any', 160),
        part('elements', 120, locs=('elem',), ns=0.5),
        part('wrapped', 80, locs=('wrap', 'wrap', 'elem')),
        part('modes', 90, modes=('ordered', 'unordered', 'strict'), locs=('elem', 'elem', 'wrap')),
        part('roots', 80, roots=0.7, top_root=0.5),
        part('optional', 60, opt=0.8, default=0.8),
    ]

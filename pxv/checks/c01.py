"""Round trip."""
from ..common import *
from ..gen import is_self
from ..spec import ModelRef, Seq, subtypes

RULE = ('Generated model programs restricted by construction to representable fields, with generated instances; the text and the tree '
        'written are read back and compared field by field with types, then written again. Non-trivial: a document with at least one '
        'sub-element or attribute. Instances the reference model itself cannot read back are counted and left out.')
ASSUMPTIONS = ['ElementTree does not escape carriage returns: they are not generated for that backend']


def canon(n, L):
    """A set may be written in any order of its items."""
    if 'Set[' in L.src:
        n = n.copy()
        for x in reversed(list(n.walk())):      # inner elements first
            x.children.sort(key=lambda k: repr(k.canon(top=False)))
    return n.canon()


def check(c, T):
    L = live(c.u)
    for v, inst in instances(L, c, T):
        tree = guarded(inst.to_xml_tree)
        node = from_et(tree)
        back = L.ref_parse(node)
        if not any(o.kind == 'ok' and same(o.value, inst) for o in back):
            # only where the reference, reading its own document, has no equal value either
            own = L.ref_parse(L.ref.to_tree(inst))
            if not any(o.kind == 'ok' and same(o.value, inst) for o in own):
                T.count('not representable')
                continue
        got = outcome(L.top.from_xml_tree, tree)
        if got.kind != 'ok' or not same(got.value, inst):
            fail('reading the written tree gives another value', L, instance=lit(v), document=plain(node), expected=show(inst), actual=got)
        enc = c.x % 5
        ascii_names = names_ascii(node)
        kw = {} if enc < 2 and ascii_names else {'encoding': 'unicode' if enc % 2 else 'utf-8'}
        doc = guarded(inst.to_xml, **kw)
        got = outcome(L.top.from_xml, doc)
        if got.kind != 'ok' or not same(got.value, inst):
            fail('reading the written document gives another value', L, instance=lit(v), document=repr(doc), expected=show(inst), actual=got)
        again = guarded(got.value.to_xml, **kw)
        if again != doc and canon(tparse(again), L) != canon(tparse(doc), L):
            fail('writing the value read back gives another document', L, instance=lit(v), first=repr(doc), second=repr(again))
        if node.attrs or node.children:
            T.nontrivial(L.src, plain(node))
            T.sample('%s\n# %s\n# -> %r' % (L.src, lit(v), doc))
        T.count('elements:%s' % ('1' if node.size() == 1 else '2-4' if node.size() < 5 else '5-12' if node.size() < 13 else '13+'))


def depth(n):
    return 1 + max(map(depth, n.children), default=0)


def check_deep(c, T):
    """However deeply a model of its own type is nested."""
    L = live(c.u)
    m = c.u.get(c.u.top)
    if m.root:
        return
    fields = [f for f in L.ref.flat(c.u.top)[2] if is_self(f.type) and not f.exclude and not f.noxml and f.computed is None
              and {t.name for t in subtypes(f.type) if isinstance(t, ModelRef)} == {c.u.top}]
    for v, inst in instances(L, c, T):
        got = outcome(L.top.from_xml_tree, guarded(inst.to_xml_tree))
        if got.kind != 'ok' or not same(got.value, inst):
            T.count('not representable')
            continue
        for f in fields:
            def nest(x):
                return inst.model_copy(update={f.name: [x] if isinstance(f.type, Seq) or isinstance(getattr(f.type, 't', None), Seq) else x})
            one, two = (depth(L.ref.to_tree(x)) for x in (nest(inst), nest(nest(inst))))
            big = inst
            for _ in range(min(c.x, (225 - two) // max(two - one, 1))):
                big = nest(big)
            exp = L.ref.to_tree(big)
            doc = guarded(big.to_xml)
            if names_ascii(exp) and tparse(doc).canon() != exp.canon():
                fail('a deeply nested model is written differently', L, instance=lit(v), field=f.name, levels=c.x)
            got = outcome(L.top.from_xml_tree, guarded(big.to_xml_tree))
            if got.kind != 'ok' or not same(got.value, big):
                fail('reading a deeply nested tree gives another value', L, instance=lit(v), field=f.name, levels=c.x, actual=str(got)[:2000])
            if names_ascii(exp):
                got = outcome(L.top.from_xml, doc)
                if got.kind != 'ok' or not same(got.value, big):
                    fail('reading a deeply nested document gives another value', L, instance=lit(v), field=f.name, levels=c.x, actual=str(got)[:2000])
            T.nontrivial(L.src, lit(v), f.name, c.x)
            T.count('deep: %s levels of elements' % ('under 50' if depth(exp) < 50 else '50-150' if depth(exp) < 150 else '150+'))
            return


def parts():
    base = dict(rep=True, skip_flag=0)

    def part(name, n, **kw):
        k = Knobs(**base, **kw)
        return Part(name, lambda: cases(k, 3, 0, lambda draw: draw(st.integers(0, 4))), check, n)
    return [
        part('any', 300),
        part('namespaces', 150, ns=1.0, inherit=0.25),
        part('wrapped', 150, locs=('wrap', 'wrap', 'wrap', 'elem', 'attr'), fields=(2, 5)),
        part('collections', 150, shapes=('seq', 'seq', 'tup', 'prim', 'model', 'munion', 'tunion', 'dct'), opt=0.4),
        part('nested', 120, models=(3, 6), shapes=('model', 'model', 'self', 'seq', 'prim', 'munion', 'tunion', 'raw'), roots=0.4),
        Part('deep', lambda: cases(Knobs(**base, shapes=('self', 'self', 'prim', 'seq', 'opt'), models=(1, 2), top_root=0, fields=(1, 4)), 2, 0,
                                   lambda draw: draw(st.integers(20, 210))), check_deep, 40),
        part('mappings', 100, shapes=('dct', 'tdct', 'prim', 'seq'), seq_items=('dct', 'tup'), tup_items=('dct', 'prim')),
    ]

"""Nillable elements."""
from ..common import *
from ..tree import XSI_NIL

TECHNIQUE = 'generated nillable declarations, instances and xsi:nil edits against a reference model'
RULE = ('Generated models in which most elements are nillable (primitive, sub-model, root model, in collections, tuples, unions, wrapped, '
        'computed, optional or not); documents equal those of the reference under all option combinations; documents with xsi:nil set to '
        'true, false, 1, 0, other spellings and no value, on elements with and without content, are read as the reference reads them. '
        'Non-trivial: a document in which some element carries xsi:nil.')
OPTS = [{}, dict(exclude_none=True), dict(skip_empty=True), dict(exclude_unset=True)]


def niled(t, muts):
    t = t.copy()
    for m in muts:
        nodes = list(t.walk())
        n = nodes[m.a % len(nodes)]
        n.attrs[XSI_NIL] = ['true', 'true', 'true', 'false', '1', '0', '', 'TRUE', ' true ', 'yes'][m.b % 10]
        if m.c % 3 == 0:
            n.text, n.children = '', []
        elif m.c % 3 == 1 and not n.text:
            n.text = 'abc'
    return t


def check(c, T):
    L = live(c.u)
    eas = c.x
    for v, inst in instances(L, c, T):
        for o in OPTS:
            t = expect_tree(L, inst, v, T, **o)
            if any(XSI_NIL in x.attrs for x in t.walk()):
                T.nontrivial(L.src, plain(t))
                T.sample('%s\n# %s\n# -> %s' % (L.src, lit(v), plain(t)))
        base = expect_tree(L, inst, v, T, how='to_xml')
        for m in c.muts:
            t = niled(base, m)
            got = expect_parse(L, t, T, eas=eas)
            if got is not None:
                T.nontrivial(L.src, plain(t), eas)


def parts():
    def part(name, n, **kw):
        k = Knobs(**{**dict(opt=0.6, default=0.3, skip_flag=0.03, nillable=0.9, prims=['str', 'str', 'int', 'bool', 'color', 'date', 'literal']), **kw})

        @st.composite
        def make(draw):
            u = draw(universes(k))
            ms = st.lists(st.builds(Mut, st.just(0), st.integers(0, 60), st.integers(0, 60), st.integers(0, 60)), min_size=1, max_size=3)
            return Case(u, tuple(model_value(draw, u.top, k, u) for _ in range(2)), tuple(tuple(draw(ms)) for _ in range(5)),
                        draw(st.integers(0, 4)) == 0)
        return Part(name, make, check, n)
    return [
        part('any', 110, locs=('elem', 'elem', 'elem', 'wrap', 'attr', 'text')),
        part('collections', 90, locs=('elem',), shapes=('seq', 'seq', 'tup', 'opt'), tup_items=('opt', 'prim', 'model', 'munion'),
             seq_items=('prim', 'model', 'munion', 'tunion', 'punion', 'tup')),
        part('wrapped', 80, locs=('wrap', 'wrap', 'elem')),
        part('models', 100, models=(2, 5), shapes=('model', 'model', 'munion', 'tunion', 'self', 'opt'), roots=0.4),
        part('modes', 60, modes=('ordered', 'unordered'), locs=('elem', 'elem', 'wrap', 'none')),
    ]

"""extra='forbid'."""
from ..common import *

TECHNIQUE = 'generated models with and without forbid, documents with generated leftovers, against a reference binder'
RULE = ('Generated models, some or all with extra=forbid; documents of instances with attributes, text, tails, blank text and elements '
        'added, moved or removed, and arbitrary trees: acceptance and the reported leftovers (location, value) equal those of the reference, '
        'and the same models with extra=ignore or without the setting never mention leftovers. Non-trivial: a document with a leftover '
        'inside an element of a model that forbids extras.')
ASSUMPTIONS = ['values are not compared when a collection contains an item without a value (known finding D4)']


def strip_forbid(u, how):
    def m(x):
        if x.root:
            return x
        cfg = tuple(c for c in x.config if c[0] != 'extra')
        return replace(x, config=cfg + ((('extra', 'ignore'),) if how else ()))
    return replace(u, models=tuple(map(m, u.models)))


def check(c, T):
    L = live(c.u)
    as_text, how = c.x
    tags, attrs = vocabulary(c.u, L.ref)
    loose = None
    for v, inst in instances(L, c, T):
        base = L.ref.to_tree(inst)
        for t in [base] + [mutate(base, m, tags, attrs) for m in c.muts]:
            got = expect_parse(L, t, T, how='text' if as_text else 'tree')
            if got is None or got.kind != 'invalid' or not any(e[1] == 'extra_forbidden' for e in got.errors):
                continue
            T.nontrivial(L.src, plain(t))
            T.sample('%s\n# %s\n# -> %r' % (L.src, plain(t), got.errors))
            loose = loose or live(strip_forbid(c.u, how))
            other = expect_parse(loose, t, T, how='text' if as_text else 'tree')
            if other is not None and other.kind == 'invalid' and any(e[1] == 'extra_forbidden' for e in other.errors):
                fail('leftovers are reported though extras are not forbidden', loose, document=plain(t), actual=other)


def part(name, n, k, ops):
    @st.composite
    def make(draw):
        u = draw(universes(k))
        vals = (model_value(draw, u.top, k, u),)
        ms = st.lists(st.builds(Mut, st.sampled_from(ops), st.integers(0, 60), st.integers(0, 60), st.integers(0, 60)), min_size=1, max_size=3)
        return Case(u, vals, tuple(tuple(draw(ms)) for _ in range(7)), (draw(st.booleans()), draw(st.booleans())))
    return Part(name, make, check, n)


def parts():
    base = dict(skip_flag=0)
    return [
        part('added', 150, Knobs(**base, forbid=1.0, fields=(1, 5)), [5, 6, 7, 8, 14, 1]),
        part('mixed', 110, Knobs(**base, forbid=0.5, models=(2, 4), shapes=('model', 'model', 'seq', 'munion', 'tunion', 'prim', 'self', 'raw', 'dct'),
                                 modes=('ordered', 'unordered', 'strict')), [5, 6, 7, 8, 14, 1, 2, 3, 4]),
        part('wrapped', 110, Knobs(**base, forbid=1.0, locs=('wrap', 'wrap', 'elem', 'attr', 'text'), modes=('ordered', 'unordered', 'strict')),
             [5, 6, 7, 8, 14, 1, 2]),
        part('roots', 60, Knobs(**base, forbid=1.0, roots=0.7, top_root=0.4), [5, 6, 7, 8, 14, 1]),
        read_part('arbitrary', Knobs(**base, forbid=0.8, fields=(1, 5), models=(1, 3)), 80, nmuts=0, random=8, valid=False),
    ]

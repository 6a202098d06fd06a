"""Discriminated unions."""
from ..common import *

TECHNIQUE = 'generated discriminated unions and edited discriminators against a reference binder'
RULE = ('Generated models with discriminated unions of 2-3 alternatives (same or different element names, one or more literals per '
        'alternative, named and namespaced discriminator attributes, optional, nillable, in lists, tuples and wrapped, followed by other '
        'fields); instances of each alternative are written as the reference writes them, and documents whose discriminators are changed, '
        'removed, moved or put on other elements are read as the reference reads them. Non-trivial: the top model uses such a union.')


def parts():
    shapes = ('tunion', 'tunion', 'tunion', 'model', 'prim', 'opt')
    base = dict(shapes=shapes, seq_items=('tunion', 'tunion', 'model'), tup_items=('prim', 'model'), ns=0.25, skip_flag=0,
                prims=['str', 'int', 'color', 'posint'], noxml=0, computed=0.05, models=(1, 3))
    disc = [1, 2, 4, 7, 7, 9, 9, 10, 10, 10, 8, 0]
    return [
        write_part('write', Knobs(**base), 110, (BTagged,)),
        write_part('unusual discriminators', Knobs(**base, odd_disc=0.5), 80, (BTagged,)),
        disc_part('discriminators', Knobs(**base), 160),
        disc_part('collections', Knobs(**dict(base, shapes=('seq', 'seq', 'tunion', 'model'))), 110),
        disc_part('modes', Knobs(**base, modes=('ordered', 'unordered', 'strict')), 110),
        read_part('edited', Knobs(**base), 100, (BTagged,), nmuts=8, random=1, ops=disc),
        disc_part('forbid', Knobs(**base, forbid=0.7), 60),
    ]


def disc_part(name, k, n):
    """Documents whose discriminators are edited."""
    from ..gen import near
    edits = st.lists(st.builds(Mut, st.integers(0, 17), st.integers(0, 60), st.integers(0, 60), st.integers(0, 60)), min_size=1, max_size=4)

    @st.composite
    def make(draw):
        u = draw(universes(k))
        return Case(u, (model_value(draw, u.top, k, u),), tuple(tuple(draw(edits)) for _ in range(7)), draw(st.booleans()))

    def fn(c, T):
        L = live(c.u)
        if not uses(c.u, BTagged):
            T.count('read: feature absent')
            return
        names = set()
        tags = []
        for m in c.u.models:
            if m.name.startswith('T'):
                pl = L.ref.plan(m.name)
                for pf in pl.fields:
                    if isinstance(pf.spec.type, Prim) and pf.spec.type.kind == 'literal' and isinstance(pf.b, BAttr):
                        names.add(pf.b.q)
                        tags += pf.spec.type.arg
        names = sorted(names)
        voc, attrs = vocabulary(c.u, L.ref)
        for v, inst in instances(L, c, T):
            base = L.ref.to_tree(inst)
            for ms in c.muts:
                t = base.copy()
                for m in ms:
                    if m.op > 13:
                        t = mutate(t, [replace(m, op=(0, 1, 2, 8)[m.op % 4])], voc, attrs)
                        continue
                    nodes = list(t.walk())
                    have = [x for x in nodes if set(names) & set(x.attrs)] or nodes
                    x = have[m.a % len(have)]
                    q = names[m.b % len(names)]
                    if m.op > 11:
                        x.attrs[q] = near(x.attrs.get(q, tags[m.c % len(tags)]), m.c)
                    elif m.op < 6:
                        x.attrs[q] = (tags + ['zzz', '', 'A'])[m.c % (len(tags) + 3)]
                    elif m.op < 8:
                        x.attrs.pop(q, None)
                    elif m.op < 10:
                        x.attrs[('{urn:c}' if m.c % 2 else '') + 'kind'] = (tags + ['zzz'])[m.c % (len(tags) + 1)]
                    else:
                        x.tag = nodes[m.b % len(nodes)].tag if x is not t else x.tag
                got = expect_parse(L, t, T, how='text' if c.x else 'tree')
                if got is not None:
                    T.count('read: feature present')
                    T.nontrivial(L.src, plain(t))
                    T.sample('%s\n# %s\n# -> %r' % (L.src, plain(t), got))
    return Part(name, make, fn, n)

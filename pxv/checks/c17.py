"""Collections and tuples."""
from ..common import *
from ..live import load
from ..spec import Dct, Opt, Seq, Tup

TECHNIQUE = 'generated collections, contents and edited item sequences against a reference model'
RULE = ('Generated models with lists, variadic tuples, sets, frozensets, tuples and named tuples of primitives, models, mappings, unions and '
        'tuples, plain, wrapped, optional, nillable, as root and nested, in all search modes; documents are those of the reference (one entry '
        'per item, in iteration order), edited documents (items removed, repeated, moved, interleaved with others, broken) are read as the '
        'reference reads them, and tuples of the wrong length cannot be written. Non-trivial: a model with a collection.')
ASSUMPTIONS = ['values are not compared when a collection contains an item without a value (known finding D4)',
               'collections of unions with different element names in ordered or unordered mode are compared with the reference, which '
               'has the reordering of known finding D37 as well']


def resize(v, n):
    v = tuple(v)
    return v[:n] if n < len(v) else v + (v[-1],) * (n - len(v))


def check_len(c, T):
    """A tuple of the wrong length (only reachable without validation) is refused."""
    from pydantic_xml import errors
    L = live(c.u)
    m = c.u.get(c.u.top)
    if m.root:
        return
    fields = [f for f in L.ref.flat(c.u.top)[2] if isinstance(f.type, Tup) and not f.exclude and not f.noxml and f.computed is None]
    for v, inst in instances(L, c, T):
        for f in fields:
            have = getattr(inst, f.name)
            for n in c.x:
                if n == len(f.type.items):
                    continue
                bad = inst.model_copy(update={f.name: resize(have, n)})
                try:
                    got = guarded(bad.to_xml_tree)
                except errors.SerializationError:
                    T.nontrivial(L.src, lit(v), f.name, n)
                    T.sample('%s\n# %s = %r refused' % (L.src, f.name, getattr(bad, f.name)))
                    continue
                if n == 0 and f.type.named:
                    continue
                fail('a tuple of the wrong length is written', L, field=f.name, value=show(getattr(bad, f.name)), document=plain(from_et(got)))


def check_long(c, T):
    """However many items a collection has, they are all written and all read."""
    L = live(c.u)
    m = c.u.get(c.u.top)
    if m.root:
        return
    fields = [f for f in L.ref.flat(c.u.top)[2] if isinstance(f.type, (Seq, Dct)) and not f.exclude and not f.noxml and f.computed is None]
    as_text, n, order = c.x
    for v, inst in instances(L, c, T):
        for f in fields:
            have = getattr(inst, f.name)
            if not have:
                continue
            size = L.ref.to_tree(inst).size()
            n = min(n, max(1001, 12000 // size))
            if any(isinstance(t, MUnion) for m in c.u.models for x in m.fields for t in subtypes(x.type)):
                n = min(n, 150)     # every attempt of an alternative copies the element: quadratic
            if isinstance(have, dict):
                k = next(iter(have))
                if not isinstance(k, str):
                    continue
                long = dict(have, **{'%s%d' % (k, i): x for i, x in zip(range(n - len(have)), list(have.values()) * n)})
            elif isinstance(have, (list, tuple)):
                long = type(have)((list(have) * n)[:n])
            elif all(type(x) is int for x in have):
                long = type(have)(list(have) + list(range(n)))
            else:
                continue
            big = inst.model_copy(update={f.name: long})
            exp = L.ref.to_tree(big)
            if L.sut_tree(big).canon() != exp.canon():
                fail('a long collection is written differently', L, field=f.name, items=len(long), first=show(have))
            exps = L.ref_parse(exp)
            got = L.sut_parse(plain(exp)) if as_text else L.sut_parse_tree(exp)
            if exps[0].ambiguous:
                continue
            if got.kind == 'crash' or not matches(exps, got):
                fail('a long collection is read differently', L, field=f.name, items=len(long), first=show(have),
                     expected=[o.kind for o in exps], actual=got.kind if got.kind != 'crash' else repr(got.exc))
            T.count('long: %s %s' % (type(have).__name__, 'over 1000' if n > 1000 else 'up to 1000'))
            T.nontrivial(L.src, lit(v), f.name, n)
            T.sample('%s\n# %s = %d items like %s' % (L.src, f.name, len(long), show(have)[:200]))
            return


def parts():
    seqs = ('seq', 'seq', 'seq', 'tup', 'tup', 'prim')
    base = dict(shapes=seqs, ns=0.15, prims=['str', 'int', 'int', 'bool', 'color', 'date'], noxml=0, computed=0.03, fields=(1, 4))
    kinds = (BSeq, BTup)
    ops = [0, 1, 1, 2, 2, 3, 4, 5, 6, 8, 8, 10, 12, 13, 17, 18]
    tups = Knobs(**dict(base, shapes=('tup',), models=(1, 3), top_root=0, opt=0))
    return [
        write_part('write', Knobs(**base), 150, kinds),
        read_part('read', Knobs(**base), 130, kinds, nmuts=8, ops=ops),
        read_part('modes', Knobs(**base, modes=('ordered', 'unordered', 'strict')), 120, kinds, nmuts=8, ops=ops),
        read_part('models', Knobs(**dict(base, seq_items=('model', 'tup', 'munion', 'tunion', 'model'), tup_items=('model', 'prim', 'munion', 'opt'),
                                         models=(2, 4))), 120, kinds, nmuts=8, ops=ops),
        read_part('wrapped', Knobs(**dict(base, locs=('wrap', 'wrap', 'elem', 'none'))), 100, kinds, nmuts=8, ops=ops),
        read_part('roots', Knobs(**dict(base, roots=0.8, top_root=0.6, root_shapes=('seq', 'seq', 'tup'))), 70, kinds, nmuts=8, ops=ops),
        write_part('write nested', Knobs(**dict(base, seq_items=('model', 'tup', 'dct', 'munion', 'tunion'), roots=0.5, models=(2, 5))), 100, kinds),
        Part('long', lambda: cases(Knobs(**dict(base, fields=(1, 2), models=(1, 3), modes=('strict', 'strict', 'strict', 'ordered'), shapes=('seq', 'seq', 'seq', 'dct'), seq_kinds=('list', 'list', 'vtuple', 'set'),
                                                locs=('elem', 'elem', 'none', 'wrap'), opt=0, computed=0, top_root=0, collide=0.1)), 3, 0,
                                   lambda d: (d(st.booleans()), d(st.sampled_from([100, 257, 1001, 1025, 1500, 3000])), 0)), check_long, 24),
        Part('wrong length', lambda: cases(tups, 2, 0, lambda d: tuple(d(st.lists(st.integers(1, 5), min_size=2, max_size=3)))), check_len, 50),
    ]


def d4():
    ns = load('class M(BaseXmlModel, tag="m"):\n    x: List[str] = element("x")\n')
    got = ns['M'].from_xml('<m><x>a</x><x/><x>b</x></m>', empty_as_string=False)
    return "<m><x>a</x><x/><x>b</x></m> is read as %r" % got if 'b' not in got.x else None


def d37():
    ns = load('class A(BaseXmlModel, tag="a"):\n    pass\nclass B(BaseXmlModel, tag="b"):\n    pass\n'
              'class M(BaseXmlModel, tag="m", search_mode="ordered"):\n    x: List[Union[A, B]]\n')
    got = ns['M'].from_xml('<m><b/><a/></m>')
    return '<m><b/><a/></m> is read as %r' % got if [type(i).__name__ for i in got.x] != ['B', 'A'] else None


PROBES = {'D4': d4, 'D37': d37}

"""skip_empty."""
from ..common import *

TECHNIQUE = 'generated models and instances rich in empty parts against a reference writer and a pruning relation'
RULE = ('Generated models (some with the skip_empty parameter, mixed across nesting) and instances rich in None, empty strings, empty '
        'collections, mappings and sub-models; with skip_empty the document equals that of the reference, and for models without own '
        'flags it equals the full document with empty sub-elements pruned from the inside out. Non-trivial: something was removed.')


class Shared(Exception):
    """Elements of the same tag become neighbours, so wrapped fields may come to share them."""


def prune(n):
    n = n.copy()
    kids, gap = [], False
    for c in n.children:
        c = prune(c)
        if c.text or c.attrs or c.children or c.tail:
            if gap and kids and kids[-1].tag == c.tag:
                raise Shared
            kids.append(c)
            gap = False
        else:
            gap = True
    n.children = kids
    return n


def check(c, T):
    L = live(c.u)
    flagged = any(m.skip_empty is not None for m in c.u.models)
    # None in attributes is dropped too, empty attributes are kept: the plain pruning relation needs models without such attributes
    plain_rel = not flagged and not uses(c.u, BAttr) and not uses(c.u, BRaw) and 'nillable=True' not in L.src
    for v, inst in instances(L, c, T):
        t = expect_tree(L, inst, v, T, skip_empty=True)
        full = expect_tree(L, inst, v, T)
        expect_tree(L, inst, v, T, skip_empty=False)
        expect_tree(L, inst, v, T, how='to_xml', skip_empty=True)
        if plain_rel:
            T.count('pruning relation')
            try:
                want = prune(L.sut_tree(inst))
            except Shared:
                T.count('pruning relation: skipped, elements become neighbours')
                continue
            got = L.sut_tree(inst, skip_empty=True)
            if got.canon() != want.canon():
                fail('skip_empty is not the removal of empty elements', L, instance=lit(v), expected=plain(want), actual=plain(got))
        if full.canon() != t.canon():
            T.nontrivial(L.src, plain(t), plain(full))
            T.sample('%s\n# %s\n# %s\n# -> %s' % (L.src, lit(v), plain(full), plain(t)))


def parts():
    def part(name, n, **kw):
        k = Knobs(**{**dict(opt=0.5, default=0.2, skip_flag=0, collide=1.0, prims=['str', 'str', 'str', 'int', 'bool', 'bytes', 'float', 'literal'],
                            nillable=0.3), **kw})
        return Part(name, lambda: cases(k, 4), check, n)
    return [
        part('any', 160),
        part('flags', 130, skip_flag=0.6, models=(2, 4)),
        part('wrapped', 130, locs=('wrap', 'wrap', 'elem', 'none'), fields=(2, 5)),
        part('collections', 130, shapes=('seq', 'tup', 'dct', 'tdct', 'seq'), models=(1, 3), tup_items=('opt', 'prim', 'model', 'dct')),
        part('nested', 130, models=(2, 5), shapes=('model', 'opt', 'self', 'munion', 'tunion', 'dct', 'raw', 'seq', 'prim'), roots=0.4),
        part('prunable', 100, locs=('elem', 'elem', 'wrap', 'none', 'text'), nillable=0,
             shapes=('prim', 'opt', 'model', 'seq', 'dct', 'tdct', 'munion')),
    ]

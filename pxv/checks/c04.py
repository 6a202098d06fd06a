"""Search modes."""
from ..common import *

TECHNIQUE = 'generated models in the three search modes, permuted / edited documents, against a naive reference binder'
RULE = ('Generated models (own-text, sub-elements, wrapped paths, collections, tuples, sub-models, element names that collide) in strict, '
        'ordered and unordered mode, mixed across nested models; documents of instances with sub-elements removed, duplicated, moved, '
        'reversed, inserted, renamed, and arbitrary trees. Non-trivial: a document with at least one sub-element, read in some mode.')
ASSUMPTIONS = ['in unordered mode two policies for the order of the elements not yet bound are accepted (swap, stable)',
               'values are not compared when a collection contains an item without a value (known finding D4)']
OPS = [0, 1, 2, 2, 3, 4, 5, 8, 12, 13, 14, 18]


def parts():
    even = ('strict', 'ordered', 'unordered')
    prims = ['str', 'int', 'str', 'color']
    base = dict(ns=0.1, modes=even, prims=prims, skip_flag=0, exclude=0, noxml=0, computed=0.05)

    def part(name, n, **kw):
        return read_part(name, Knobs(**{**base, **kw}), n, ops=OPS, nmuts=8, nvals=1)
    return [
        part('elements', 160, locs=('elem',), shapes=('prim', 'prim', 'opt', 'model'), fields=(2, 6), models=(1, 3)),
        part('wrapped', 130, locs=('elem', 'wrap', 'wrap'), shapes=('prim', 'opt', 'model', 'seq'), fields=(2, 6), models=(1, 2)),
        part('collections', 130, locs=('elem', 'elem', 'none'), shapes=('seq', 'seq', 'tup', 'prim', 'model'), fields=(2, 5), models=(1, 3)),
        part('nested', 130, locs=('elem', 'none', 'wrap', 'text', 'attr'), shapes=('model', 'model', 'self', 'prim', 'munion', 'dct', 'raw'),
             fields=(1, 5), models=(3, 5)),
        read_part('arbitrary', Knobs(**base, fields=(2, 5), models=(1, 3), locs=('elem', 'elem', 'wrap', 'none')), 120, nmuts=0, random=8,
                  valid=False),
        read_part('forbid', Knobs(**base, forbid=0.7, fields=(2, 5), models=(1, 3), locs=('elem', 'elem', 'wrap', 'none')), 80, nmuts=8,
                  ops=OPS),
    ]

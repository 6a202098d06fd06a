"""Mappings."""
from ..common import *

TECHNIQUE = 'generated mappings beside other attribute fields, edited attributes, against a reference model'
RULE = ('Generated models with dicts and typed dicts (primitive keys and values of all types, optional, in lists and tuples, wrapped, root, '
        'with and without ns_attrs) beside attribute fields before and after them; documents are those of the reference, and documents with '
        'attributes added, renamed, moved to another namespace, removed or duplicated across elements are read as the reference reads them. '
        'Non-trivial: a model with a mapping.')


def parts():
    base = dict(shapes=('dct', 'dct', 'tdct', 'prim'), seq_items=('dct', 'tup', 'model'), tup_items=('dct', 'prim', 'opt'), noxml=0, skip_flag=0.05,
                locs=('elem', 'none', 'none', 'attr', 'attr', 'wrap'), root_shapes=('dct', 'prim', 'seq', 'opt'), fields=(1, 5), models=(1, 3))
    ops = [7, 7, 7, 9, 9, 10, 10, 1, 2, 0, 8, 14, 11, 16, 19, 20, 20]
    ns = dict(base, ns=1.0)
    return [
        write_part('write', Knobs(**base), 160, (BAttrs,)),
        write_part('write namespaces', Knobs(**ns), 100, (BAttrs,)),
        write_part('write options', Knobs(**dict(base, opt=0.6)), 80, (BAttrs,), opts={'skip_empty': True}),
        write_part('write none', Knobs(**dict(base, opt=0.6)), 60, (BAttrs,), opts={'exclude_none': True}),
        read_part('read', Knobs(**base), 140, (BAttrs,), nmuts=8, ops=ops),
        read_part('read namespaces', Knobs(**ns), 120, (BAttrs,), nmuts=8, ops=ops),
        read_part('collections', Knobs(**dict(base, shapes=('seq', 'tup', 'dct', 'model'), seq_items=('dct', 'dct', 'tup'), tup_items=('dct', 'dct', 'prim'))),
                  100, (BAttrs,), nmuts=8, ops=ops),
        read_part('forbid', Knobs(**base, forbid=1.0), 70, (BAttrs,), nmuts=8, ops=ops),
        read_part('roots', Knobs(**dict(base, roots=0.8, top_root=0.5)), 60, (BAttrs,), nmuts=6, ops=ops),
    ]

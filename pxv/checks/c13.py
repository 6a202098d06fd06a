"""Unions of models."""
from ..common import *

TECHNIQUE = 'generated unions, values and documents with several candidate elements against a snapshotting reference binder'
RULE = ('Generated models with unions of 2-3 models (same or different element names, sub-models sharing names, root models, optional, '
        'nillable, in lists, tuples and wrapped, followed by other fields), values of each alternative and of subclasses; documents are '
        'written as the reference writes them, and edited documents (broken values in one alternative, extra, missing, reordered elements) '
        'are read as a reference that tries every alternative on its own copy of the element. Non-trivial: the top model uses a union.')
STRICT = ['int', 'bool', 'color', 'date', 'posint', 'pat', 'literal', 'str']



def d38():
    from ..live import load
    ns = load('class A(BaseXmlModel):\n    a: int = element(default=1)\n'
              'class B(A):\n    b: int = element(default=2)\n'
              'class C(BaseXmlModel):\n    y: A\n'
              'class D(C):\n    z: int = element()\n'
              'class P(BaseXmlModel):\n    f: Union[C, D] = element("f")\n')
    p = ns['P'](f=ns['D'](y=ns['B'](), z=5))
    try:
        doc = p.to_xml()
    except KeyError as e:
        return 'P(f=D(y=B(), z=5)).to_xml() raises KeyError %s' % e
    return None if b'<z>5</z>' in doc else 'field z is lost: %r' % doc


PROBES = {'D38': d38}
ASSUMPTIONS = ['instances for which pydantic itself dumps a union value as another alternative (known finding D38) are left out']


def parts():
    shapes = ('munion', 'munion', 'munion', 'model', 'prim', 'opt')
    base = dict(shapes=shapes, seq_items=('munion', 'munion', 'model'), tup_items=('munion', 'prim', 'model'), ns=0.15, skip_flag=0,
                prims=STRICT, noxml=0, computed=0.05, models=(3, 5), inherit=0.25)
    same = dict(base, model_tag=0.9, tagged=0.8)

    return [
        write_part('write', Knobs(**base, subclass=0.3), 130, (BUnion,)),
        read_part('read', Knobs(**base), 130, (BUnion,), nmuts=8, random=1),
        read_part('same element', Knobs(**dict(same, locs=('elem', 'elem', 'none', 'wrap'))), 130, (BUnion,), nmuts=8),
        read_part('collections', Knobs(**dict(base, shapes=('seq', 'seq', 'tup', 'munion', 'model'))), 110, (BUnion,), nmuts=8),
        read_part('modes', Knobs(**base, modes=('ordered', 'unordered', 'strict')), 100, (BUnion,), nmuts=8, random=1),
        read_part('forbid', Knobs(**base, forbid=0.6), 60, (BUnion,), nmuts=8),
        read_part('primitives', Knobs(**dict(base, shapes=('punion', 'punion', 'prim'), models=(1, 2))), 50, nmuts=6),
        write_part('write primitives', Knobs(**dict(base, shapes=('punion', 'punion', 'prim'), seq_items=('punion',), models=(1, 2))), 50),
    ]

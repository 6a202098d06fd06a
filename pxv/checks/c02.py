"""Placement of every field in the written document."""
from ..common import *

RULE = ('Generated model programs (1-4 models, all field kinds and locations, aliases, tags, inheritance, recursion) with generated '
        'instances; the document written is compared node for node with the reference model. Non-trivial: a document with at least one '
        'sub-element.')


def parts():
    names = Knobs(alias=0.6, tagged=0.4, model_tag=0.4, roots=0.25, ns=0.1, inherit=0.3, computed=0.15)
    wraps = Knobs(locs=('wrap', 'wrap', 'wrap', 'elem', 'attr', 'text'), ns=0.2, fields=(2, 5), tagged=0.6)
    return [
        write_part('any', Knobs(), 260),
        write_part('names', names, 260),
        write_part('wrapped', wraps, 200),
        write_part('many', Knobs(models=(3, 5), fields=(3, 6), skip_flag=0), 120),
    ]

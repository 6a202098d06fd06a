"""exclude_none and exclude_unset."""
import copy

from ..common import *

TECHNIQUE = 'generated models and instance histories, all option combinations, against a reference writer'
RULE = ('Generated models and instances obtained by construction, parsing, copying, assigning (which marks a field as set) and partial '
        'updates, at any nesting level; for each of the 8 combinations of exclude_none, exclude_unset and skip_empty the document equals '
        'the one the reference writes. Non-trivial: a combination whose document differs from the full one.')
OPTS = [dict(skip_empty=a, exclude_none=b, exclude_unset=c) for a in (False, True) for b in (False, True) for c in (False, True)]


def models_in(x):
    """Every model instance reachable from a value."""
    if isinstance(x, pd.BaseModel):
        yield x
        for y in list(x.__dict__.values()):
            yield from models_in(y)
    elif isinstance(x, (list, tuple)):
        for y in x:
            yield from models_in(y)


def histories(L, inst, how, T):
    yield 'constructed', inst
    back = outcome(L.top.from_xml_tree, guarded(inst.to_xml_tree))
    if back.kind == 'ok':
        yield 'parsed', back.value
    try:
        other = copy.deepcopy(inst)
    except Exception:
        other = inst.model_copy()
    ms = list(models_in(other))
    for a, b in how:
        m = ms[a % len(ms)]
        names = list(type(m).model_fields)
        if not names:
            continue
        n = names[b % len(names)]
        if b % 3 == 0:
            m.__pydantic_fields_set__.discard(n)
        else:
            setattr(m, n, getattr(m, n))
    yield 'assigned', other
    if not L.u.get(L.u.top).root:
        keep = {n for i, n in enumerate(inst.model_fields_set) if sum(map(sum, how)) % (i + 2) == 0}
        yield 'partly set', type(inst).model_construct(_fields_set=keep, **{k: v for k, v in inst.__dict__.items() if k in type(inst).model_fields})
    yield 'copied', inst.model_copy(update={n: getattr(inst, n) for n in list(type(inst).model_fields)[:1]})


def check(c, T):
    L = live(c.u)
    for v, inst in instances(L, c, T):
        for how, x in histories(L, inst, c.x, T):
            T.count('history:' + how)
            base = None
            for opts in OPTS:
                t = expect_tree(L, x, '%s, then %s: %s' % (lit(v), how, show(x)), T, **opts)
                base = base or t
                if t.canon() != base.canon():
                    T.nontrivial(L.src, plain(t), sorted(opts.items()))
                    T.sample('%s\n# %s\n# %s\n# %s -> %s' % (L.src, show(x), plain(base), [k for k in opts if opts[k]], plain(t)))


def parts():
    def part(name, n, **kw):
        k = Knobs(**{**dict(opt=0.6, default=0.6, skip_flag=0.05, collide=1.0, nillable=0.3), **kw})
        return Part(name, lambda: cases(k, 2, 0, lambda d: tuple(d(st.lists(st.tuples(st.integers(0, 9), st.integers(0, 9)), max_size=4)))),
                    check, n)
    return [
        part('any', 110),
        part('collections', 80, shapes=('seq', 'tup', 'dct', 'tdct', 'model'), tup_items=('opt', 'prim', 'model', 'dct'),
             seq_items=('prim', 'model', 'tup', 'dct', 'munion', 'tunion', 'punion')),
        part('wrapped', 80, locs=('wrap', 'wrap', 'elem', 'attr'), fields=(2, 5)),
        part('nested', 80, models=(2, 5), shapes=('model', 'opt', 'self', 'munion', 'tunion', 'seq', 'prim'), roots=0.4),
        part('roots', 60, roots=0.8, top_root=0.5),
        part('computed', 50, computed=0.4, fields=(2, 5)),
    ]

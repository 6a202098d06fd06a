"""Wrapped fields."""
from ..common import *
from ..spec import Ent, Field, Model, ModelRef, MV, NODEF, Opt

TECHNIQUE = 'metamorphic: models with re-spelled wrappers must behave identically; plus a reference model'
RULE = ('Generated models with wrapped fields of every kind; each wrapped path is re-spelled (split into nested wrappers or joined) and the two '
        'spellings must write the same documents and read mutated documents to the same outcomes; a wrapped field is also re-spelled as a '
        'chain of sub-models; documents agree with the reference, which shares adjacent path prefixes. Non-trivial: a model with a '
        'wrapped field.')


def respell(e, tape):
    """Another nesting of the same wrappers."""
    if e is None or e.kind != 'wrap':
        return e
    inner = respell(e.inner, tape)
    if inner is not None and inner.kind == 'wrap' and inner.ns is None and inner.nsmap is None and tape.pick(2) == 0:
        return replace(e, name=e.name + '/' + inner.name, inner=inner.inner)
    parts = e.name.split('/')
    if len(parts) > 1 and tape.pick(3) != 2:
        k = 1 + tape.pick(len(parts) - 1)
        return replace(e, name='/'.join(parts[:k]), inner=respell(Ent('wrap', '/'.join(parts[k:]), None, None, None, inner), tape))
    return replace(e, inner=inner)


def respelled(u, tape):
    return replace(u, models=tuple(replace(m, fields=tuple(replace(f, ent=respell(f.ent, tape)) for f in m.fields)) for m in u.models))


def check_respell(c, T):
    L = live(c.u)
    u2 = respelled(c.u, Tape(c.x[0]))
    if u2 == c.u:
        T.count('no other spelling')
        return
    L2 = live(u2)
    tags, attrs = vocabulary(c.u, L.ref)
    for v, inst in instances(L, c, T):
        other = L2.make(v)
        for o in ({}, {'skip_empty': True}, {'exclude_none': True}):
            a, b = L.sut_tree(inst, **o), L2.sut_tree(other, **o)
            if a.canon() != b.canon():
                fail('re-spelled wrappers write another document', L, other=L2.src, instance=lit(v), options=o, first=plain(a), second=plain(b))
        base = L.sut_tree(inst)
        for t in [base] + [mutate(base, m, tags, attrs) for m in c.muts]:
            a, b = L.sut_parse_tree(t), L2.sut_parse_tree(t)
            if repr(a) != repr(b) and not agree(a, b):
                fail('re-spelled wrappers read the document differently', L, other=L2.src, document=plain(t), first=a, second=b)
        T.nontrivial(L.src, L2.src, plain(base))
        T.sample('%s\n# ==\n%s\n# %s' % (L.src, L2.src, plain(base)))


def agree(a, b):
    if a.kind != b.kind:
        return False
    if a.kind == 'ok':
        return show(a.value) == show(b.value)
    if a.kind == 'invalid':
        return errs_equal(a.errors, b.errors)
    return True


# ---- sub-models instead of wrappers

def chain(i, f):
    """Sub-models spelling out the path of a wrapped field: (models, field)."""
    parts, e = [], f.ent
    while e is not None and e.kind == 'wrap':
        parts += e.name.split('/')
        e = e.inner
    models, prev = [], None
    for d in range(len(parts) - 1, -1, -1):
        name = 'S%d_%d' % (i, d)
        if prev is None:
            inner = replace(f, ent=e)
        else:
            inner = Field('s', Opt(ModelRef(prev)), Ent('elem', parts[d + 1]), default=('val', None))
        models.append(Model(name, (inner,), search_mode=None))
        prev = name
    return models, Field('s%d' % i, Opt(ModelRef(prev)), Ent('elem', parts[0]), default=('val', None)), len(parts)


def check_sub(c, T):
    """The last model's wrapped fields become sub-models."""
    m = c.u.models[-1]
    extra, fields, deep = [], [], {}
    for i, f in enumerate(m.fields):
        if f.ent is not None and f.ent.kind == 'wrap' and f.computed is None and not f.noxml and not f.exclude:
            ms, g, n = chain(i, f)
            extra += [replace(x, search_mode=m.search_mode) for x in ms]
            fields.append(g)
            deep[f.name] = (i, n)
        else:
            fields.append(f)
    if not deep:
        T.count('no wrapped field')
        return
    heads = [f.ent.name.split('/')[0] for f in m.fields if f.ent is not None and f.ent.kind == 'wrap']
    if len(set(heads)) < len(heads):
        T.count('shared prefix')
        return
    others = {x for f in m.fields if f.ent is None or f.ent.kind != 'wrap' for x in (f.name, f.ent.name if f.ent is not None else None)}
    if set(heads) & (others | {x for y in c.u.models for x in (y.tag, y.name)}):
        T.count('another field with the tag of a wrapper')        # the wrapper would be merged with it
        return
    u2 = replace(c.u, models=c.u.models[:-1] + tuple(extra) + (replace(m, fields=tuple(fields)),))
    L, L2 = live(c.u), live(u2)

    def to2(v):
        out = []
        for k, x in v.values:
            if k in deep:
                i, n = deep[k]
                if x is not None:
                    mv = MV('S%d_%d' % (i, n - 1), ((k, x),))
                    for d in range(n - 2, -1, -1):
                        mv = MV('S%d_%d' % (i, d), (('s', mv),))
                    out.append(('s%d' % i, mv))
            else:
                out.append((k, x))
        return MV(v.model, tuple(out))

    def flat(x):
        """Field values of an instance of the second spelling, by the first one's names; None when a path is missing."""
        out = {}
        for f in m.fields:
            if f.name in deep:
                i, n = deep[f.name]
                y = getattr(x, 's%d' % i)
                for d in range(n - 1):
                    y = None if y is None else y.s
                out[f.name] = MISSING if y is None else getattr(y, f.name)
            else:
                out[f.name] = getattr(x, f.name)
        return out

    tags, attrs = vocabulary(c.u, L.ref)
    for v, inst in instances(L, c, T):
        if any(k not in dict(v.values) for k in deep):
            T.count('default of a wrapped field')
            continue
        other = L2.make(to2(v))
        a, b = L.sut_tree(inst), L2.sut_tree(other)
        if a.canon() != b.canon():
            fail('sub-models for the wrappers write another document', L, other=L2.src, instance=lit(v), first=plain(a), second=plain(b))
        T.nontrivial(L.src, plain(a))
        T.sample('%s\n# ==\n%s\n# %s' % (L.src, L2.src, plain(a)))
        for t in [a] + [mutate(a, x, tags, attrs, root_ok=False) for x in c.muts]:
            if L.ref_parse(t)[0].ambiguous or any('nil' in q for n in t.walk() for q in n.attrs):
                continue
            x, y = L.sut_parse_tree(t), L2.sut_parse_tree(t)
            T.count('sub-models read: ' + x.kind)
            if x.kind == 'ok' and y.kind == 'ok':
                for k, w in flat(y.value).items():
                    if w is not MISSING and show(w) != show(getattr(x.value, k)):
                        fail('sub-models for the wrappers read another value', L, other=L2.src, document=plain(t), field=k, first=x, second=y)
            elif x.kind == 'ok' and y.kind != 'ok':
                fail('a document is only accepted with wrappers', L, other=L2.src, document=plain(t), first=x, second=y)


MISSING = object()


def parts():
    wraps = dict(locs=('wrap', 'wrap', 'wrap', 'elem', 'attr', 'text'), fields=(1, 5))
    spell = Knobs(**wraps, models=(1, 3), ns=0.4, modes=('strict', 'ordered', 'unordered'))
    subs = Knobs(**wraps, models=(1, 3), ns=0, modes=('strict', 'ordered'), inherit=0, skip_flag=0, top_root=0, forbid=0, computed=0, noxml=0,
                 exclude=0, nillable=0, alias=0, shapes=('prim', 'prim', 'opt', 'model', 'seq', 'tup', 'munion', 'punion', 'raw', 'dct'))
    tape = lambda d: (tuple(d(st.lists(st.integers(0, 5), max_size=12))),)
    return [
        Part('respelled', lambda: cases(spell, 2, 4, tape), check_respell, 150),
        Part('sub-models', lambda: cases(subs, 2, 4, tape), check_sub, 150),
        write_part('write', Knobs(**wraps, collide=1.0, ns=0.3), 160, (BWrap,)),
        read_part('read', Knobs(**wraps, ns=0.3), 120, (BWrap,), nmuts=8, random=1),
        read_part('read modes', Knobs(**wraps, ns=0.1, modes=('ordered', 'unordered')), 80, (BWrap,), nmuts=8),
    ]

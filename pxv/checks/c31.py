"""Root models."""
from ..common import *
from ..spec import NODEF, Ent, Field, Model, ModelRef, MV, MUnion, Opt, Seq, Tup, TUnion

TECHNIQUE = 'metamorphic: every root model replaced by an ordinary model with one field, or by its root type under the same element; reference model'
RULE = ('Generated programs rich in root models (of primitives, optionals, models, collections, tuples, mappings, unions, with and without '
        'defaults and entities, as document root, field, collection or tuple item, union alternative, nested); the same program with every '
        'root model written as an ordinary model with one field must write the same documents under every option and read mutated documents '
        'to the same values and failures; with fields of a root model type declared as the root type under that element it must write and '
        'read the same; and both agree with the reference. Non-trivial: a program that uses a root model.')


class Skip(Exception):
    pass


def models_of(t):
    """Names of the models a value of a type is made of."""
    if isinstance(t, Opt):
        return models_of(t.t)
    if isinstance(t, ModelRef):
        return {t.name}
    if isinstance(t, (MUnion, TUnion)):
        return set(t.names)
    if isinstance(t, Seq):
        return models_of(t.item)
    if isinstance(t, Tup):
        return {n for x in t.items for n in models_of(x)}
    return set()


def named(u, t, ent):
    """The entity of a root field for a field with a name: an element of an untagged sub-model is named by the model in the one
    and by the field in the other."""
    names = models_of(t)
    if all(u.get(n).tag for n in names):
        return ent
    if ent is not None and ent.kind == 'wrap':
        return replace(ent, inner=named(u, t, ent.inner))
    if ent is not None and ent.name:
        return ent
    tags = {u.get(n).tag or n for n in names}
    if len(tags) > 1:
        raise Skip
    return replace(ent or Ent('elem'), name=tags.pop())


def unrooted(u):
    return replace(u, models=tuple(
        replace(m, root=False, fields=tuple(replace(f, ent=named(u, f.type, f.ent)) for f in m.fields)) if m.root else m for m in u.models))


def defaults_inside(u):
    """Whether a root model holds a root model with a default: it is built from the default of that when there is no input."""
    return any(u.get(n).root and u.get(n).fields[0].default != NODEF
               for m in u.models if m.root for n in models_of(m.fields[0].type))


def uses_root(u):
    from ..ref import Ref
    ref, seen, todo = Ref(u, {}), set(), [u.top]
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        if u.get(n).root:
            return True
        todo += [b.model for pf in ref.plan(n).fields for b in all_bindings(pf.b) if isinstance(b, BModel)]
    return False


def key(e):
    """An error without the step to the root field."""
    loc, typ, msg, line, inp = e
    return repr((tuple(str(x) for x in loc if x != 'root'), typ, msg, line))


def plain_error(e):
    return e[1] != 'missing' and 'Undefined' not in repr(e[4])


def check_single(c, T):
    if not uses_root(c.u):
        T.count('no root model in use')
        return
    try:
        L, L2 = live(c.u), live(unrooted(c.u))
    except Skip:
        T.count('elements named by untagged models')
        return
    tags, attrs = vocabulary(c.u, L.ref)
    for v, inst in instances(L, c, T):
        try:
            other = L2.make(v)
        except pd.ValidationError:
            T.count('value rejected without root models')      # of a missing required root
            continue
        T.nontrivial(L.src, lit(v))
        for o in ({}, {'skip_empty': True}, {'exclude_none': True}):
            a, b = L.sut_tree(inst, **o), L2.sut_tree(other, **o)
            if a.canon() != b.canon():
                fail('a root model writes another document than a model with one field', L, other=L2.src, instance=lit(v), options=o,
                     root=plain(a), single=plain(b))
        base = L.sut_tree(inst)
        T.sample('%s\n# %s' % (L.src, plain(base)))
        if defaults_inside(c.u):
            T.count('not read: default inside')
            continue
        for t in [base] + [mutate(base, m, tags, attrs) for m in c.muts]:
            for eas in (False, True):
                a, b = L.sut_parse_tree(t, empty_as_string=eas), L2.sut_parse_tree(t, empty_as_string=eas)
                T.count('read: %s' % a.kind)
                if b.kind == 'invalid' and any(e[1] == 'model_type' for e in b.errors):
                    T.count('None in place of a model')      # which is a value to the root type
                    continue
                if a.kind != b.kind or (a.kind == 'ok' and show(a.value) != show(b.value)):
                    fail('a root model reads a document differently from a model with one field', L, other=L2.src, document=plain(t),
                         empty_as_string=eas, root=a, single=b)
                if a.kind == 'invalid' and all(map(plain_error, a.errors + b.errors)):
                    if sorted(map(key, a.errors)) != sorted(map(key, b.errors)):
                        fail('a root model reports other errors than a model with one field', L, other=L2.src, document=plain(t),
                             empty_as_string=eas, root=a, single=b)
                    T.count('errors compared')


# --- the root type in place of the root model

def flattened(u):
    """(program, {(model, field): root model}) with direct fields of root model types replaced."""
    done, models = {}, []
    for m in u.models:
        fields = []
        for f in m.fields:
            t = f.type.t if isinstance(f.type, Opt) else f.type
            r = u.get(t.name) if isinstance(t, ModelRef) and any(x.name == t.name for x in u.models) else None
            if (r is None or not r.root or m.root or f.computed is not None or f.noxml or f.kw or f.alias or f.salias or f.valias
                    or (f.ent is not None and f.ent.kind == 'wrap') or (f.ent is not None and f.ent.nillable)
                    or f.default[0] not in ('none', 'val') or r.fields[0].default != NODEF or f.exclude
                    or r.bases or r.config or r.search_mode != m.search_mode or r.skip_empty is not None or r.fields[0].alias):
                fields.append(f)
                continue
            tag = f.ent.name if f.ent is not None and f.ent.name else None
            if tag is None:
                # the element is named by the root model
                tag = r.tag or r.name if f.ent is None else f.name
            rt = r.fields[0].type
            if isinstance(f.type, Opt) and not isinstance(rt, Opt):
                rt = Opt(rt)
            done[m.name, f.name] = r.name
            fields.append(replace(f, type=rt, ent=Ent('wrap', tag, inner=named(u, r.fields[0].type, r.fields[0].ent))))
        models.append(replace(m, fields=tuple(fields)))
    return replace(u, models=tuple(models)), done


def unwrap(v, done):
    """The value of the flattened program."""
    if isinstance(v, MV):
        out = []
        for k, x in v.values:
            if (v.model, k) in done and isinstance(x, MV):
                d = x.dict()
                if d.get('root') is None:
                    raise Skip
                x = d['root']
            elif (v.model, k) in done and x is not None:
                raise Skip
            out.append((k, unwrap(x, done)))
        return MV(v.model, tuple(out))
    if type(v) in (list, tuple, set, frozenset):
        return type(v)(unwrap(x, done) for x in v)
    if type(v).__name__ == 'NTV':
        return replace(v, items=tuple(unwrap(x, done) for x in v.items))
    if isinstance(v, dict):
        return {k: unwrap(x, done) for k, x in v.items()}
    return v


def flat_show(x, done):
    """show() of a value with the root models of the replaced fields taken away."""
    if isinstance(x, pd.BaseModel):
        out = []
        for k, y in x.__dict__.items():
            if any((c.__name__, k) in done for c in type(x).__mro__) and isinstance(y, pd.RootModel):
                if y.root is None:
                    raise Skip
                y = y.root
            out.append('%s=%s' % (k, flat_show(y, done)))
        return '%s(%s)' % (type(x).__name__, ', '.join(out))
    if type(x) in (list, tuple):
        return '[%s]' % ', '.join(flat_show(y, done) for y in x)
    if isinstance(x, tuple):
        return '(%s)' % ', '.join(flat_show(y, done) for y in x)
    if isinstance(x, dict):
        return '{%s}' % ', '.join('%r: %s' % (k, flat_show(y, done)) for k, y in x.items())
    return show(x)


def check_flat(c, T):
    try:
        u2, done = flattened(c.u)
    except Skip:
        done = None
    if not done:
        T.count('nothing to replace')
        return
    for m in c.u.models:        # a wrapper would be merged with a neighbour of the same name
        tags = [f.ent.name.split('/')[0] if f.ent is not None and f.ent.name else f.name for f in u2.get(m.name).fields]
        if any(k[0] == m.name for k in done) and (len(set(tags)) < len(tags) or set(tags) & {x for y in c.u.models for x in (y.tag, y.name)}):
            T.count('colliding names')
            return
    L, L2 = live(c.u), live(u2)
    voc, attrs = vocabulary(c.u, L.ref)
    for v, inst in instances(L, c, T):
        try:
            other = L2.make(unwrap(v, done))
        except Skip:
            T.count('root value is None')
            continue
        T.nontrivial(L.src, lit(v), 'flat')
        a, b = L.sut_tree(inst), L2.sut_tree(other)
        if a.canon() != b.canon():
            if drop_empty(a).canon() == drop_empty(b).canon() or nones(v):
                T.count('differs in empty elements')
            else:
                fail('a field of a root model writes another document than its root type', L, other=L2.src, instance=lit(v), root=plain(a),
                     flat=plain(b))
        T.sample('%s\n# ==\n%s\n# %s' % (L.src, L2.src, plain(a)))
        if defaults_inside(c.u):
            T.count('not read: default inside')
            continue
        for t in [a] + [mutate(a, m, voc, attrs) for m in c.muts]:
            x, y = L.sut_parse_tree(t), L2.sut_parse_tree(t)
            T.count('flat read: ' + x.kind)
            if x.kind != 'ok':
                continue
            try:
                p = flat_show(x.value, done)
            except Skip:
                continue
            if y.kind != 'ok' or flat_show(y.value, {}) != p:
                fail('a field of a root model reads a document differently from its root type', L, other=L2.src, document=plain(t), root=x, flat=y)


def nones(v):
    """Whether a value has None at any place."""
    if v is None:
        return True
    if isinstance(v, MV):
        return any(nones(x) for _, x in v.values)
    if isinstance(v, (list, tuple, set, frozenset)):
        return any(map(nones, v))
    if isinstance(v, dict):
        return any(map(nones, v.values()))
    return type(v).__name__ == 'NTV' and any(map(nones, v.items))


def drop_empty(n):
    n = n.copy()
    n.children = [k for k in map(drop_empty, n.children) if k.children or k.attrs or k.text]
    return n


def parts():
    base = dict(cr=False, models=(2, 5), roots=0.7, fields=(1, 4), inherit=0, subclass=0, seq_kinds=('list', 'vtuple'), default=0.4,
                shapes=('prim', 'model', 'model', 'model', 'seq', 'tup', 'opt', 'munion', 'dct'))
    single = [Knobs(**base, top_root=0.5), Knobs(**base, ns=0.0, top_root=0.2, modes=('strict',)), Knobs(**base, modes=('ordered', 'unordered'))]
    flat = Knobs(**base, ns=0.0, tagged=1.0, model_tag=0.0, exclude=0, noxml=0, alias=0, nillable=0, skip_flag=0, collide=0,
                 modes=('strict',), root_shapes=('prim', 'prim', 'opt', 'model', 'seq', 'tup', 'dct', 'munion'))
    return [
        Part('single', lambda: cases(single, 2, 4), check_single, 200),
        Part('flat', lambda: cases(flat, 2, 3), check_flat, 160),
        write_part('write', Knobs(**base, ns=0.3, top_root=0.3), 120),
        read_part('read', Knobs(**base, ns=0.3, top_root=0.3), 100, nmuts=6, random=1),
    ]

"""Computed, excluded and NoXml fields."""
import ast
import re

from ..common import *
from ..gen import retag
from ..ref import Ref
from ..spec import MV, NTV, RV, Tup

TECHNIQUE = 'metamorphic: removing or converting the special fields must not change the rest; plus a reference model'
RULE = ('Generated models (attributes, elements, text, collections, sub-models, wrapped) with computed, excluded and NoXml fields among the '
        'others. Writing: the document equals that of the same model without its excluded and NoXml fields, and that of the same model '
        'with its computed fields as ordinary fields of the same value. Reading edited documents: outcome and values equal those of the '
        'model without computed and NoXml fields and without exclude. Both directions also agree with the reference. '
        'Non-trivial: some special field takes part in the top model or a model below it.')


def special(f):
    return f.computed is not None or f.exclude or f.noxml


def foreign(f):
    """Named tuple classes in the computed value that only other fields declare: dropping those would drop the class."""
    own = {t.named for t in subtypes(f.type) if isinstance(t, Tup)}
    return f.computed is not None and set(re.findall(r'\bNT\d+\b', f.computed)) - own


def builds(f, u):
    """Whether the computed value sets fields of models that forbid them once they are dropped."""
    return f.computed is not None and any(('extra', 'forbid') in m.config and re.search(r'\b%s\(' % m.name, f.computed) for m in u.models)


def rewrite(u, keep, change=lambda f: f):
    return replace(u, models=tuple(m if m.root else replace(m, fields=tuple(change(f) for f in m.fields if keep(f))) for m in u.models))


def drop_values(v, u):
    if isinstance(v, MV):
        names = {f.name for f in u.get(v.model).fields}
        return MV(v.model, tuple((k, drop_values(x, u)) for k, x in v.values if k in names))
    if isinstance(v, NTV):
        return NTV(v.name, tuple(drop_values(x, u) for x in v.items))
    if isinstance(v, list):
        return list(drop_values(x, u) for x in v)
    if type(v) is tuple:
        return tuple(drop_values(x, u) for x in v)
    return v


def project(x, u):
    """A value without the fields that u's models lack."""
    if isinstance(x, pd.BaseModel):
        m = u.get(type(x).__name__)
        names = {f.name for f in m.fields}
        return '%s(%s)' % (m.name, ', '.join('%s=%s' % (k, project(v, u)) for k, v in x.__dict__.items() if m.root or k in names))
    if isinstance(x, (list, tuple)):
        return '%s(%s)' % (type(x).__name__, ', '.join(project(v, u) for v in x))
    if isinstance(x, (set, frozenset)):
        return '%s(%s)' % (type(x).__name__, sorted(project(v, u) for v in x))
    return show(x)


def strip_input(errs):
    return sorted(repr((e[0], e[1], e[2], e[3])) for e in errs)


def named(c):
    """Computed raw elements under the name of their field, so that a document can hold them where they would be read."""
    ref = Ref(c.u, {})

    def change(m, f):
        if f.computed is None or not f.computed.startswith('fromstring('):
            return f
        b = next(pf.b for pf in ref.plan(m.name).fields if pf.spec is f)
        return replace(f, computed=lit(retag(b, RV(ast.literal_eval(f.computed[len('fromstring('):-1])))))
    return replace(c, u=replace(c.u, models=tuple(m if m.root else replace(m, fields=tuple(change(m, f) for f in m.fields)) for m in c.u.models)))


def check(c, T):
    if not any(special(f) for m in c.u.models for f in m.fields):
        T.count('no special field')
        return
    if any(foreign(f) for m in c.u.models for f in m.fields):
        T.count('a computed value names a tuple class of another field')
        return
    if any(builds(f, c.u) for m in c.u.models for f in m.fields):
        T.count('a computed value sets a field that is dropped')
        return
    L = live(c.u)
    w = rewrite(c.u, lambda f: not f.exclude and not f.noxml)
    r = rewrite(c.u, lambda f: f.computed is None and not f.noxml, lambda f: replace(f, exclude=False))
    p = rewrite(c.u, lambda f: True, lambda f: replace(f, computed=None, kw='default=' + f.computed) if f.computed is not None else f)
    Lw, Lr, Lp = live(w), live(r), live(p)
    tags, attrs = vocabulary(c.u, L.ref)
    for m in c.u.models:
        for f in m.fields:
            T.count('field: ' + ('computed' if f.computed is not None else 'excluded' if f.exclude else 'noxml' if f.noxml else 'ordinary'))
    for v, inst in instances(L, c, T):
        for o in ({}, {'skip_empty': True}, {'exclude_none': True}):
            exp = expect_tree(L, inst, v, T, **o)
            for other, what in ((Lw, 'without its excluded and NoXml fields'), (Lp, 'with its computed fields as ordinary ones')):
                b = other.sut_tree(other.make(drop_values(v, other.u)), **o)
                if exp.canon() != b.canon():
                    fail('the document differs from that of the model ' + what, L, other=other.src, instance=lit(v), options=o,
                         first=plain(exp), second=plain(b))
        base = L.ref.to_tree(inst)
        T.nontrivial(L.src, plain(base))
        T.sample('%s\n# %s\n# -> %s' % (L.src, lit(v), plain(base)))
        for t in [base] + [mutate(base, x, tags, attrs) for x in c.muts]:
            x, y = L.sut_parse_tree(t), Lr.sut_parse_tree(t)
            if L.ref_parse(t)[0].ambiguous:
                T.count('skipped: collection with an empty item (known finding)')
                continue
            ok = x.kind == y.kind
            if ok and x.kind == 'ok':
                ok = project(x.value, r) == project(y.value, r)
            elif ok and x.kind == 'invalid':
                ok = strip_input(x.errors) == strip_input(y.errors)
            if not ok:
                fail('computed, excluded or NoXml fields change what is read', L, other=Lr.src, document=plain(t), first=x, second=y)
            T.count('read: ' + x.kind)
            expect_parse(L, t, T)


def parts():
    base = dict(computed=0.3, exclude=0.2, noxml=0.2, inherit=0, alias=0, subclass=0, fields=(1, 6), models=(1, 4))
    k = Knobs(**base, shapes=('prim', 'prim', 'prim', 'opt', 'model', 'seq', 'tup', 'dct', 'munion', 'raw'), computed_any=True, seq_kinds=('list', 'vtuple'), forbid=0.3)
    forbid = Knobs(**base, forbid=0.6)
    modes = Knobs(**base, modes=('unordered', 'ordered', 'strict'), locs=('elem', 'elem', 'attr', 'wrap', 'none'))
    alias = Knobs(**dict(base, alias=0.4, inherit=0.3))
    req = Knobs(**base, noxml_required=True)

    def strat(k):
        return lambda: cases(k, 2, 4).filter(lambda c: not any(special(f) and m.name.startswith('T') for m in c.u.models for f in m.fields)).map(named)
    xif = Knobs(**dict(base, exclude=0.1, computed=0.1), xif=0.5, opt=0.5)
    return [
        write_part('excluded on a condition', xif, 100),
        write_part('excluded on a condition, inherited', replace(xif, alias=0.3, inherit=0.3, top_root=0.2), 60),
        read_part('read excluded on a condition', xif, 60),
        Part('any type', strat(k), check, 130),
        Part('forbid', strat(forbid), check, 70),
        Part('modes', strat(modes), check, 70),
        write_part('inherited and aliased', alias, 100),
        read_part('read inherited and aliased', alias, 80),
        read_part('required NoXml', req, 60),
        write_part('write required NoXml', req, 40),
    ]

"""Equivalent definitions."""
import re

from ..common import *
from ..live import Live, load
from ..spec import (Dct, Ent, Field, ModelRef, NODEF, Opt, PUnion, Raw, Seq, TDct, TUnion, Tup, ent_args, ent_src, field_kwargs, field_src, has_raw,
                    model_params, model_src, nsmap_src, type_src, universe_src)

TECHNIQUE = 'metamorphic: generated model programs re-spelled in other definition styles must write and read identically'
RULE = ('Every model of a generated program is re-spelled: split along inheritance with its parameters and namespace map spread over the bases, '
        'fields overriding wrong declarations of a base, mixins, parametrised generics, create_model, quoted and forward references rebuilt '
        'later (also inside a function), Annotated metadata whole or in parts, built-in generics and PEP 604 unions, type aliases, entities and decorators used by several models. The two programs must write '
        'the same documents for the same values under every option and give the same outcome for valid and edited documents, and the direct '
        'spelling agrees with the reference. Non-trivial: at least one model is spelled differently.')
STYLES = ['direct', 'inherit', 'inherit3', 'override', 'mixin', 'generic', 'create', 'create base', 'annotated', 'split', 'strings', 'modern', 'alias', 'shared']


def config_src(m):
    cfg = m.config
    if has_raw(m) and not any(k == 'arbitrary_types_allowed' for k, _ in cfg):
        cfg += (('arbitrary_types_allowed', True),)
    return '    model_config = ConfigDict(%s)\n' % ', '.join(f'{k}={v!r}' for k, v in cfg) if cfg else ''


def bases_of(m):
    return ', '.join(m.bases) or 'BaseXmlModel'


def cls_src(name, bases, params, body):
    return 'class %s(%s):\n%s' % (name, ', '.join([bases] + params), body or '    pass\n')


def wrong(m, tape):
    """Parameters for a base class, partly wrong: the derived class repeats the ones that are."""
    base, derived = [], []
    for k, bad in (('tag', 'wrongtag'), ('ns_attrs', None), ('skip_empty', None), ('search_mode', 'ordered'), ('ns', None)):
        v = getattr(m, k)
        if v is None:
            continue
        how = tape.pick(3)
        if how == 0:
            base.append('%s=%r' % (k, v))
        elif how == 1:
            derived.append('%s=%r' % (k, v))
            if k == 'ns':       # prefixes used by the fields must resolve in the base, too
                base.append('ns=%r' % v)
        else:
            derived.append('%s=%r' % (k, v))
            bad = bad if bad is not None else (not v if isinstance(v, bool) else v)
            base.append('%s=%r' % (k, bad))
    if m.nsmap is not None:
        right = dict(m.nsmap)
        bent = {k: 'http://wrong.example' if k != 'xml' and tape.pick(3) == 0 else v for k, v in right.items()}
        fix = {k: v for k, v in right.items() if bent[k] != v or tape.pick(3) == 0}
        base.append('nsmap=%r' % bent)
        if fix:
            derived.append('nsmap=%r' % fix)
    return base, derived


def modern(t):
    """The same type with built-in generics and | unions."""
    if isinstance(t, Opt):
        return '%s | None' % modern(t.t) if not isinstance(t.t, ModelRef) or not t.t.fwd else type_src(t)
    if isinstance(t, PUnion):
        return '(%s)' % ' | '.join(map(modern, t.ts))
    if isinstance(t, MUnion):
        return '(%s)' % ' | '.join(t.names)
    if isinstance(t, TUnion):
        return 'Annotated[%s, Field(discriminator=%r)]' % (' | '.join(t.names), t.disc)
    if isinstance(t, Seq):
        s = modern(t.item)
        return {'list': 'list[%s]', 'set': 'set[%s]', 'frozenset': 'frozenset[%s]', 'vtuple': 'tuple[%s, ...]'}[t.kind] % s
    if isinstance(t, Tup) and not t.named:
        return 'tuple[%s]' % ', '.join(map(modern, t.items))
    if isinstance(t, Dct):
        return 'dict[%s, %s]' % (modern(t.k), modern(t.v))
    return type_src(t)


def typed(f, src):
    return replace(f, type=Prim('src', src))


def annotated(f, split, tape):
    """Metadata moved into Annotated."""
    if f.computed is not None:
        return field_src(f)
    ts = type_src(f.type)
    if f.noxml:
        ts = 'Annotated[%s, NoXml]' % ts
    kw = field_kwargs(f)
    dflt = ''
    if f.default[0] == 'val':
        kw = kw[1:]
        dflt = ' = ' + lit(f.default[1])
    if f.ent is None:
        if not kw:
            return '    %s: %s%s\n' % (f.name, ts, dflt)
        return '    %s: Annotated[%s, Field(%s)]%s\n' % (f.name, ts, ', '.join(kw), dflt)
    if split and f.ent.kind in ('elem', 'attr'):
        fn = {'attr': 'attr', 'elem': 'element'}[f.ent.kind]
        inner, outer = [], []
        args = []
        if f.ent.name is not None:
            args.append(('name=' if fn == 'attr' else 'tag=') + repr(f.ent.name))
        if f.ent.ns is not None:
            args.append('ns=%r' % f.ent.ns)
        if f.ent.nsmap is not None:
            args.append('nsmap=%s' % nsmap_src(f.ent.nsmap))
        if f.ent.nillable is not None:
            args.append('nillable=%r' % f.ent.nillable)
        for a in args:
            (inner if tape.pick(2) else outer).append(a)
        return '    %s: Annotated[%s, %s(%s)] = %s(%s)\n' % (f.name, ts, fn, ', '.join(inner), fn, ', '.join(outer + field_kwargs(f)))
    return '    %s: Annotated[%s, %s]%s\n' % (f.name, ts, ent_src(f.ent, kw), dflt)


def created(m, fields, base):
    args = ["'%s'" % m.name, '__module__=__name__']
    args += ['__%s__=%s' % tuple(p.split('=', 1)) for p in model_params(m)]
    if len(fields) % 2:
        args.append('__cls_kwargs__=%s' % ('None' if len(fields) % 4 == 1 else 'CK'))
    cfg = config_src(m)
    if cfg:
        args.append('__config__=' + cfg.strip().split('=', 1)[1].strip())
    if base:
        args.append('__base__=' + base)
    for f in fields:
        if f.computed is not None:
            return None
        ts = type_src(f.type)
        if f.noxml:
            ts = 'Annotated[%s, NoXml]' % ts
        kw = field_kwargs(f)
        if f.ent is not None:
            d = ent_src(f.ent, kw)
        elif kw:
            d = 'Field(%s)' % ', '.join(kw)
        else:
            d = '...'
        args.append('%s=(%s, %s)' % (f.name, ts, d))
    return '%s = xml_create_model(%s)\n' % (m.name, ', '.join(args))


def spell(m, style, tape, u):
    """Source of a model in another style, or None when the style does not apply."""
    if m.root:
        f = m.fields[0]
        kw = field_kwargs(f)
        if style == 'create' and not m.bases:
            args = ["'%s'" % m.name, '__module__=__name__', '__base__=RootXmlModel']
            args += ['__%s__=%s' % tuple(p.split('=', 1)) for p in model_params(m)]
            if config_src(m):
                return None
            d = ent_src(f.ent, kw) if f.ent is not None else 'Field(%s)' % ', '.join(kw) if kw else '...'
            return '%s = xml_create_model(%s, root=(%s, %s))\n' % (m.name, ', '.join(args), type_src(f.type), d)
        d = ' = ' + (ent_src(f.ent, kw) if f.ent is not None else 'Field(%s)' % ', '.join(kw)) if f.ent is not None or kw else ''
        if style in ('inherit', 'override', 'mixin') and not m.bases:
            b, x = wrong(m, tape)
            return (cls_src(m.name + '_r', 'RootXmlModel', b, config_src(m) + '    root: %s%s\n' % (type_src(f.type), d)) + '\n'
                    + cls_src(m.name, m.name + '_r', x, ''))
        if style in ('direct', 'annotated', 'strings') and not m.bases:
            return cls_src(m.name, 'RootXmlModel', model_params(m), config_src(m) + '    root: %s%s\n' % (type_src(f.type), d))
        return None
    if m.body:
        return None
    n = len(m.fields)
    body = ''.join(map(field_src, m.fields))
    if style == 'inherit':
        k = tape.pick(n + 1)
        if any(f.computed is not None for f in m.fields[:k]):
            return None
        b, x = wrong(m, tape)
        return (cls_src(m.name + '_b', bases_of(m), b, config_src(m) + ''.join(map(field_src, m.fields[:k]))) + '\n'
                + cls_src(m.name, m.name + '_b', x, ''.join(map(field_src, m.fields[k:]))))
    if style == 'inherit3':
        if m.bases:
            return None
        cuts = sorted((tape.pick(n + 1), tape.pick(n + 1)))
        if any(f.computed is not None for f in m.fields[:cuts[1]]):
            return None
        b, x = wrong(m, tape)
        return (cls_src(m.name + '_b1', 'BaseXmlModel', b, config_src(m) + ''.join(map(field_src, m.fields[:cuts[0]]))) + '\n'
                + cls_src(m.name + '_b2', m.name + '_b1', [], ''.join(map(field_src, m.fields[cuts[0]:cuts[1]]))) + '\n'
                + cls_src(m.name, m.name + '_b2', x, ''.join(map(field_src, m.fields[cuts[1]:]))))
    if style == 'override':
        if m.bases or any(f.computed is not None for f in m.fields):
            return None
        base, derived, text = '', '', False
        keep_from = n
        for i, f in enumerate(m.fields):
            if tape.pick(2):
                base += field_src(f)
            else:
                base += ('    %s: str = attr("decoy%d")\n' if tape.pick(2) else '    %s: int = element("decoy%d", default=7)\n') % (f.name, i)
                derived += field_src(f)
        b, x = wrong(m, tape)
        return cls_src(m.name + '_b', 'BaseXmlModel', b, config_src(m) + base) + '\n' + cls_src(m.name, m.name + '_b', x, derived)
    if style == 'mixin':
        if m.bases or any(f.computed is not None for f in m.fields):
            return None
        k = tape.pick(n + 1)
        p = [x for x in model_params(m) if x.startswith(('ns=', 'nsmap=', 'ns_attrs='))]
        return (cls_src(m.name + '_m1', 'BaseXmlModel', p, config_src(m) + ''.join(map(field_src, m.fields[:k]))) + '\n'
                + cls_src(m.name + '_m2', 'BaseXmlModel', p, config_src(m) + ''.join(map(field_src, m.fields[k:]))) + '\n'
                + cls_src(m.name, '%s_m2, %s_m1' % (m.name, m.name), model_params(m), ''))
    if style == 'generic':
        if m.bases:
            return None
        vs, ts, out = [], [], ''
        for f in m.fields:
            if f.computed is None and not f.noxml and tape.pick(3) and not any(
                    isinstance(t, (TUnion, Raw)) or isinstance(t, ModelRef) and t.fwd for t in subtypes(f.type)):
                v = 'X_%s_%d' % (m.name, len(vs))
                vs.append(v)
                if isinstance(f.type, Seq) and f.type.kind == 'list' and tape.pick(2) and not isinstance(f.type.item, Tup):
                    ts.append(type_src(f.type.item))
                    f = typed(f, 'List[%s]' % v)
                elif isinstance(f.type, Opt) and tape.pick(2):
                    ts.append(type_src(f.type.t))
                    f = typed(f, 'Optional[%s]' % v)
                else:
                    ts.append(type_src(f.type))
                    f = typed(f, v)
            out += field_src(f)
        if not vs:
            return None
        b, x = wrong(m, tape)
        return (''.join('%s = TypeVar(%r)\n' % (v, v) for v in vs)
                + cls_src(m.name + '_g', 'BaseXmlModel, Generic[%s]' % ', '.join(vs), b, config_src(m) + out) + '\n'
                + cls_src(m.name, '%s_g[%s]' % (m.name, ', '.join(ts)), x, ''))
    if style == 'create':
        if m.bases:
            return None
        return created(m, m.fields, None)
    if style == 'create base':
        if m.bases or config_src(m):
            return None
        k = tape.pick(n + 1)
        if any(f.computed is not None for f in m.fields):
            return None
        p = [x for x in model_params(m) if x.startswith(('ns=', 'nsmap=', 'ns_attrs='))]
        return (cls_src(m.name + '_b', 'BaseXmlModel', p, ''.join(map(field_src, m.fields[:k]))) + '\n'
                + created(m, m.fields[k:], m.name + '_b'))
    if style in ('annotated', 'split'):
        body = ''.join(annotated(f, style == 'split', tape) for f in m.fields)
    elif style == 'strings':
        body = ''.join(field_src(f if f.computed is not None or f.noxml or 'lambda' in type_src(f.type) else typed(f, repr(type_src(f.type))))
                       for f in m.fields)
    elif style == 'modern':
        body = ''.join(field_src(typed(f, modern(f.type))) for f in m.fields)
    elif style == 'alias':
        pre, out = '', ''
        for i, f in enumerate(m.fields):
            if f.computed is None and not any(isinstance(t, ModelRef) and t.fwd for t in subtypes(f.type)):
                pre += 'Y_%s_%d = %s\n' % (m.name, i, type_src(f.type))
                f = typed(f, 'Y_%s_%d' % (m.name, i))
            out += field_src(f)
        return pre + cls_src(m.name, bases_of(m), model_params(m), config_src(m) + out)
    elif style == 'shared':
        return shared(m, tape)
    else:
        return None
    return cls_src(m.name, bases_of(m), model_params(m), config_src(m) + body)


def shared(m, tape):
    """Entities and decorators made beforehand and used by another model first."""
    pre, out = '', ''
    p = [x for x in model_params(m) if x.startswith(('ns=', 'nsmap=', 'ns_attrs='))]
    for i, f in enumerate(m.fields):
        src = field_src(f)
        e = 'S_%s_%d' % (m.name, i)
        if any(isinstance(t, ModelRef) and t.fwd for t in subtypes(f.type)) or tape.pick(4) == 0:
            out += src
            continue
        if f.computed is not None:
            head, rest = src.split('\n', 1)
            if '(' in head:
                pre += '%s = %s\n' % (e, head.strip()[1:])
                pre += cls_src('Z' + e, 'BaseXmlModel', p, config_src(m) + ('    @%s\n' % e + rest).replace('def %s(' % f.name, 'def other%d(' % i)) + '\n'
                src = '    @%s\n%s' % (e, rest)
        elif f.ent is not None:
            ts = 'Annotated[%s, NoXml]' % type_src(f.type) if f.noxml else type_src(f.type)
            pre += '%s = %s\n' % (e, ent_src(f.ent, field_kwargs(f)))
            pre += cls_src('Z' + e, 'BaseXmlModel', p, config_src(m) + '    other: %s = %s\n' % (ts, e)) + '\n'
            src = '    %s: %s = %s\n' % (f.name, ts, e)
        out += src
    return pre + cls_src(m.name, bases_of(m), model_params(m), config_src(m) + out)


def declarations(u):
    """Named tuples and typed dicts, by the first model that uses them."""
    src = universe_src(replace(u, models=()))
    return src


def respell(u, styles, tape):
    out, seen, changed = u.pre + 'CK = {}\n', set(), []
    for i, m in enumerate(u.models):
        one = universe_src(replace(u, models=u.models[:i + 1], pre=''))
        before = universe_src(replace(u, models=u.models[:i], pre=''))
        chunk = one[len(before):]
        decl = chunk[:len(chunk) - len(model_src(m) + '\n')]
        s = spell(m, styles[i % len(styles)], tape, u)
        if s is not None and s != model_src(m):
            changed.append(styles[i % len(styles)])
        out += decl + (s or model_src(m)) + '\n'
    return out, changed


def forward(u, tape):
    """Classes in reverse order, every model name quoted, rebuilt afterwards."""
    if any(m.bases for m in u.models) or any(isinstance(t, TDct) or isinstance(t, Tup) and t.named or isinstance(t, Raw)
                                             for m in u.models for f in m.fields for t in subtypes(f.type)):
        return None
    if any(f.default[0] != 'none' and re.search(r'\b[A-Z]\d?\(', lit(f.default[1]) + '') for m in u.models for f in m.fields):
        return None
    order = list(u.models)
    if tape.pick(3):
        order.reverse()
    out, local = '', tape.pick(2)
    for m in order:
        names = {x.name for x in u.models}
        fields = []
        for f in m.fields:
            if f.computed is None and any(isinstance(t, (ModelRef, MUnion, TUnion)) for t in subtypes(f.type)):
                src = re.sub(r"'(%s)'" % '|'.join(names), r'\1', type_src(f.type)) if not isinstance(f.type, TUnion) else None
                if any(isinstance(t, TUnion) for t in subtypes(f.type)):
                    src = None
                if src is None:
                    fields.append(f)
                    continue
                f = typed(f, repr(src))
            fields.append(f)
        if m.root:
            f = fields[0]
            kw = field_kwargs(f)
            d = ' = ' + (ent_src(f.ent, kw) if f.ent is not None else 'Field(%s)' % ', '.join(kw)) if f.ent is not None or kw else ''
            out += cls_src(m.name, 'RootXmlModel', model_params(m), config_src(m) + '    root: %s%s\n' % (type_src(f.type), d)) + '\n'
        else:
            made = created(m, fields, None) if not local and tape.pick(3) == 0 and not m.body else None
            out += ('CK = {}\n' + made if made else model_src(replace(m, fields=tuple(fields)))) + '\n'
    if any(isinstance(t, TUnion) for m in u.models for f in m.fields for t in subtypes(f.type)) and order[0] is not u.models[0]:
        return None
    # rebuilt where the names are visible, innermost first
    if local or tape.pick(2):
        out += ''.join('%s.model_rebuild()\n' % m.name for m in u.models)
    else:       # from a scope that knows the names only through the classes' module
        out += 'def later(c):\n    c.model_rebuild()\n' + ''.join('later(%s)\n' % m.name for m in u.models)
    if local:
        lines = ''.join('    ' + l + '\n' if l else '\n' for l in out.split('\n'))
        names = ', '.join(m.name for m in u.models)
        out = 'def scope():\n%s    return %s,\n%s, = scope()\n' % (lines, names, names)
    return u.pre + out


class Live2(Live):
    def __init__(self, u, src):
        self.u = u
        self.src = src
        try:
            self.ns = guarded(load, src)
        except Exception as e:
            raise Violation('an equivalent definition fails: %r' % e, source=universe_src(u), other=src) from e
        self.classes = {m.name: self.ns[m.name] for m in u.models}
        self.top = self.classes[u.top]
        from ..ref import Ref
        self.ref = Ref(u, self.classes)
        self.sref = Ref(u, self.classes, stable=True)
        self.etree = self.ns['etree']


_alts = {}


def alt(u, src):
    if src not in _alts:
        if len(_alts) > 8:
            _alts.clear()
        _alts[src] = Live2(u, src)
    return _alts[src]


def agree(a, b):
    if a.kind != b.kind:
        return False
    if a.kind == 'ok':
        return show(a.value) == show(b.value)
    if a.kind == 'invalid':
        return errs_equal(a.errors, b.errors, line=True)
    return True


def compare(c, L, L2, T):
    tags, attrs = vocabulary(c.u, L.ref)
    n = 0
    for v, inst in instances(L, c, T):
        other = L2.make(v)
        for o in ({}, {'skip_empty': True}, {'exclude_none': True}, {'exclude_unset': True}):
            a, b = L.sut_tree(inst, **o), L2.sut_tree(other, **o)
            if a.canon() != b.canon():
                fail('the other spelling writes another document', L, other=L2.src, instance=lit(v), options=o, first=plain(a), second=plain(b))
        t = expect_tree(L, inst, v, T)
        for d in [t] + [mutate(t, m, tags, attrs) for m in c.muts]:
            a, b = L.sut_parse_tree(d), L2.sut_parse_tree(d)
            if not agree(a, b):
                fail('the other spelling reads the document differently', L, other=L2.src, document=plain(d), first=a, second=b)
            T.count('read: ' + a.kind)
            n += 1
        T.nontrivial(L.src, L2.src, plain(t))
        T.sample('%s\n# ==\n%s\n# %s' % (L.src, L2.src, plain(t)))
    for m in c.u.models:
        if L.classes[m.name].__xml_search_mode__ != L2.classes[m.name].__xml_search_mode__:
            fail('the search mode differs', L, other=L2.src)


def check(c, T):
    styles, tape = c.x
    src, changed = respell(c.u, styles, Tape(tape))
    if not changed:
        T.count('no other spelling')
        return
    for s in changed:
        T.count('style: ' + s)
    L = live(c.u)
    compare(c, L, alt(c.u, src), T)


def check_forward(c, T):
    src = forward(c.u, Tape(c.x[1]))
    if src is None:
        T.count('no forward spelling')
        return
    L = live(c.u)
    compare(c, L, alt(c.u, src), T)


def parts():
    def strat(styles, **kw):
        k = Knobs(**{**dict(models=(1, 3), fields=(1, 5), subclass=0, seq_kinds=('list', 'vtuple')), **kw})
        return lambda: cases(k, 2, 4, lambda d: (tuple(d(st.lists(st.sampled_from(styles), min_size=1, max_size=3))),
                                                 tuple(d(st.lists(st.integers(0, 11), max_size=30)))))
    return [
        Part('inheritance', strat(['inherit', 'inherit3', 'override', 'mixin']), check, 110),
        Part('namespaces', strat(['inherit', 'inherit3', 'create', 'generic', 'mixin', 'split'], ns=1.0), check, 60),
        Part('generic', strat(['generic'], inherit=0), check, 70),
        Part('created', strat(['create', 'create base'], computed=0, inherit=0), check, 70),
        Part('annotated', strat(['annotated', 'split']), check, 70),
        Part('types', strat(['strings', 'modern', 'alias', 'direct']), check, 60),
        Part('shared', strat(['shared'], computed=0.5), check, 60),
        Part('roots', strat(STYLES, roots=0.7, top_root=0.3), check, 60),
        Part('forward', strat(['direct'], inherit=0, models=(2, 4), shapes=('model', 'model', 'prim', 'opt', 'seq', 'tup', 'munion', 'self')),
             check_forward, 90),
    ]

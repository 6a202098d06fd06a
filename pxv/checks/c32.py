"""An XML model as a pydantic model."""
import ast
import copy
import inspect
import json
import pickle
import re
import sys
import warnings

from ..common import *
from ..live import MODNAME, Live, load
from ..ref import Ref
from ..spec import Raw, universe_src

TECHNIQUE = 'differential: each generated XML model has a plain pydantic twin, and both are used as pydantic models'
RULE = ('Generated programs are executed twice: with pydantic-xml, and with BaseModel, RootModel, Field and computed_field in place of its models '
        'and entities. Both are then used as ordinary pydantic models: constructed from Python and JSON data (valid and edited), dumped with '
        'all options, assigned, copied, compared, pickled, described by JSON schema, signature and field information, used inside type adapters '
        'and plain models. Every result or error must be the same. Non-trivial: an operation on a model with a field declared by an entity.')
KWS = ["description='d'", "title='t e'", 'repr=False', 'examples=[1, 2]', "json_schema_extra={'k': [1]}", 'frozen=True', 'validate_default=True',
       "serialization_alias='Ser'", "validation_alias='Val'", "validation_alias=AliasChoices('Va', 'Vb')", 'exclude=True', 'exclude_if=blank',
       "deprecated='old'", 'alias_priority=1', "field_title_generator=lambda n, i: n + '!'"]
COMPUTED_KW = ['repr=False', "title='Ti'", "description='de'", "alias='al9'", 'examples=[1]', "json_schema_extra={'k': 1}", "deprecated='old'",
               "alias='al8', alias_priority=1", "field_title_generator=lambda n, i: n + '?'"]
CONFIGS = [('extra', 'forbid'), ('extra', 'allow'), ('populate_by_name', True), ('use_enum_values', True), ('validate_assignment', True),
           ('title', 'Ti'), ('str_to_upper', True), ('serialize_by_alias', True), ('ser_json_timedelta', 'float'), ('strict', True),
           ('revalidate_instances', 'always'), ('use_attribute_docstrings', True), ('json_schema_extra', {'x': 1}), ('from_attributes', True)]
NEW = object()


def plain_names():
    """What stands for the names of pydantic_xml in the twin."""
    made = {}

    def entity(args, kw):
        for a in args:
            if id(a) in made:
                kw = {**kw, **made[id(a)][1]}
        f = pd.Field(**kw)
        made[id(f)] = (f, kw)
        return f

    def attr(name=None, ns=None, **kw):
        return entity((), kw)

    def element(tag=None, ns=None, nsmap=None, nillable=None, **kw):
        return entity((), kw)

    def wrapped(path, ent=None, ns=None, nsmap=None, **kw):
        return entity((ent,), kw)

    def computed(prop=None, name=None, tag=None, ns=None, nsmap=None, nillable=None, **kw):
        return pd.computed_field(**kw) if prop is None else pd.computed_field(prop)
    return dict(BaseXmlModel=pd.BaseModel, RootXmlModel=pd.RootModel, attr=attr, element=element, wrapped=wrapped, computed_attr=computed,
                computed_element=computed)


def without_parameters(src):
    tree = ast.parse(src)
    for node in ast.walk(tree):
        if isinstance(node, ast.ClassDef):
            node.keywords = []
    return ast.unparse(tree)


class Twin(Live):
    def __init__(self, u, src, names):
        self.u, self.src = u, src
        base = '\n'.join('%s = _twin[%r]' % (n, n) for n in names)
        if names:
            import pxv.checks.c32 as me
            me._twin = names
            src = 'from pxv.checks.c32 import _twin\n' + base + '\n' + without_parameters(src)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                self.ns = guarded(load, src)
        except Exception as e:
            raise DefinitionFailed(e) from e
        self.mod = sys.modules[MODNAME]
        self.classes = {m.name: self.ns[m.name] for m in u.models}
        self.top = self.classes[u.top]
        self.ref = Ref(u, self.classes)
        self.etree = self.ns['etree']


_twin = {}


def moved(src, tape):
    """Some keyword arguments of a wrapped field are given to the entity inside it."""
    out = []
    for i, line in enumerate(src.split('\n')):
        m = re.match(r"(    \w+: .* = (?:wrapped\([^()]*)+(?:element|attr)\()([^()]*)(\)+), ((?:description|title|repr|examples|frozen|deprecated|"
                     r"json_schema_extra|validation_alias|serialization_alias|exclude|alias)=.*)\)$", line)
        k = re.match(r"    @computed_(attr|element|field)(?:\((.*)\))?$", line)
        if k and tape[i % len(tape)]:
            kw = COMPUTED_KW[(i + len(tape)) % len(COMPUTED_KW)]
            if not ('alias' in kw and 'alias' in line):
                line = '    @computed_%s(%s)' % (k.group(1), (k.group(2) + ', ' if k.group(2) else '') + kw)
        if m and tape[i % len(tape)]:
            pre, args, close, kw = m.groups()
            line = pre + (args + ', ' if args else '') + kw + close + ')'
        out.append(line)
    return '\n'.join(out)


def canon(x, depth=0):
    if isinstance(x, pd.BaseModel):
        return (type(x).__name__, {k: canon(v, depth + 1) for k, v in x.__dict__.items()}, canon(x.__pydantic_extra__), sorted(x.model_fields_set))
    if isinstance(x, dict):
        return {canon(k): canon(v) for k, v in x.items()} if all(isinstance(k, (str, int)) for k in x) else [(canon(k), canon(v)) for k, v in x.items()]
    if isinstance(x, tuple):
        return (type(x).__name__,) + tuple(canon(y) for y in x)
    if isinstance(x, list):
        return [canon(y) for y in x]
    if isinstance(x, (set, frozenset)):
        return (type(x).__name__, sorted((canon(y) for y in x), key=repr))
    return (type(x).__name__, x if isinstance(x, (str, int, bytes, type(None))) else repr(x))


def result(fn, *a, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            return ('ok', canon(guarded(fn, *a, **kw)))
        except pd.ValidationError as e:
            return ('invalid', e.title, [(x['type'], x['loc'], x['msg'], canon(x.get('input'))) for x in e.errors(include_url=False)])
        except (Violation, MemoryError):
            raise
        except Exception as e:
            return ('raised', type(e).__name__, re.sub(r'0x[0-9a-f]+', '', str(e))[:300])


def edited(data, edits):
    """Another value close to the given one (of Python or JSON data)."""
    data = copy.deepcopy(data)
    for kind, a, b in edits:
        spots = []

        def walk(x):
            if isinstance(x, dict):
                spots.extend((x, k) for k in x)
                for y in x.values():
                    walk(y)
            elif isinstance(x, list):
                spots.extend((x, i) for i in range(len(x)))
                for y in x:
                    walk(y)
        walk(data)
        if isinstance(data, dict) and kind == 5:
            data['extra%d' % b] = b
        if not spots:
            continue
        at, k = spots[a % len(spots)]
        if kind == 0 and isinstance(at, dict):
            del at[k]
        elif kind == 1:
            at[k] = [None, '1', 1, 'x', [], {}, True, '', 1.5, ['1']][b % 10]
        elif kind == 2 and isinstance(at, dict) and isinstance(k, str):
            at[k.upper()] = at.pop(k)
        elif kind == 3 and isinstance(at, list):
            at.append(copy.deepcopy(at[k]))
        elif kind == 4 and isinstance(at, dict) and isinstance(k, str):
            others = [n for _, n in spots if isinstance(n, str)]
            at[others[b % len(others)]] = at[k]
    return data


def dump_options(d):
    return {k: d(st.booleans()) for k in ('by_alias', 'exclude_none', 'exclude_unset', 'exclude_defaults', 'round_trip') if d(st.integers(0, 2)) == 0}


@st.composite
def uses_of(draw):
    out = []
    for _ in range(draw(st.integers(3, 7))):
        op = draw(st.sampled_from(['repr', 'dump', 'dump', 'json', 'json', 'python in', 'python in', 'json in', 'json in', 'strings in', 'schema', 'fields', 'copy',
                                   'assign', 'construct', 'adapter', 'held', 'pickle', 'equal', 'iterate', 'partial']))
        edits = tuple(draw(st.lists(st.tuples(st.integers(0, 5), st.integers(0, 30), st.integers(0, 30)), max_size=3)))
        out.append((op, dump_options(draw), edits, draw(st.integers(0, 30))))
    return tuple(out)


def apply(W, inst, op, opts, edits, n):
    """One use of a model, in one of the two worlds."""
    cls = W.top
    sys.modules[MODNAME] = W.mod
    names = list(cls.model_fields)
    if op == 'repr':
        return [result(repr, inst), result(str, inst), result(lambda: list(inst.__rich_repr__())), result(lambda: sorted(inst.model_fields_set))]
    if op == 'dump':
        inc = {names[n % len(names)]} if names and n % 4 == 0 else None
        exc = {names[n % len(names)]} if names and n % 4 == 1 else None
        return result(inst.model_dump, mode='json' if n % 2 else 'python', include=inc, exclude=exc, **opts)
    if op == 'json':
        return result(inst.model_dump_json, indent=n % 3 or None, **opts)
    if op == 'python in':
        data = result_data(inst.model_dump, by_alias=bool(n % 2), **{k: v for k, v in opts.items() if k != 'by_alias'})
        data = edited(data, edits) if isinstance(data, (dict, list)) else data
        return result(cls.model_validate, data, strict=[None, None, True, False][n % 4], **extra_options(n, opts))
    if op in ('json in', 'strings in'):
        data = result_data(inst.model_dump, mode='json', by_alias=bool(n % 2), **{k: v for k, v in opts.items() if k != 'by_alias'})
        data = edited(data, edits) if isinstance(data, (dict, list)) else data
        if op == 'strings in':
            return result(cls.model_validate_strings, strings(data))
        return result(cls.model_validate_json, json.dumps(data, default=str), **extra_options(n, opts))
    if op == 'schema':
        return result(cls.model_json_schema, by_alias=bool(n % 2), mode='serialization' if n % 4 > 1 else 'validation')
    if op == 'fields':
        info = [(k, f.alias, f.validation_alias.convert_to_aliases() if hasattr(f.validation_alias, 'convert_to_aliases') else f.validation_alias,
                 f.serialization_alias, f.alias_priority, canon(f.get_default(call_default_factory=not f.default_factory_takes_validated_data)), f.is_required(), f.description, f.title,
                 f.examples, f.exclude, f.frozen, f.repr, f.validate_default, f.deprecated, f.discriminator, canon(f.json_schema_extra),
                 [type(m).__name__ for m in f.metadata if not type(m).__name__.startswith('Xml')]) for k, f in cls.model_fields.items()]
        comp = [(k, f.alias, f.title, f.description, f.repr) for k, f in cls.model_computed_fields.items()]
        sig = [(p.name, p.kind.name, p.default is p.empty) for p in inspect.signature(cls).parameters.values()]
        return info, comp, sig
    if op == 'copy':
        upd = {names[n % len(names)]: 'u'} if names else {}
        return [result(copy.copy, inst), result(copy.deepcopy, inst), result(inst.model_copy, update=upd), result(inst.model_copy, deep=True),
                result(lambda: copy.deepcopy(inst) == inst), result(lambda: inst.model_copy(update=upd) == inst)]
    if op == 'assign':
        other = copy.deepcopy(inst)
        out = []
        for kind, a, b in edits:
            name = names[a % len(names)] if names and kind else 'other'
            val = [None, '1', 5, getattr(inst, name, None), [], 'x'][b % 6]
            out.append(result(setattr, other, name, val))
        return out, canon(other), result(other.model_dump) if not edits else None
    if op == 'construct':
        data = edited(dict(inst.__dict__), edits) if n % 2 else dict(inst.__dict__)
        return result(lambda: cls.model_construct(**{k: v for k, v in data.items() if k.isidentifier()}))
    if op == 'adapter':
        T = pd.TypeAdapter(list[cls])
        return [result(T.dump_python, [inst], **opts), result(T.dump_json, [inst, inst], **opts), result(T.json_schema),
                result(T.validate_python, [inst, result_data(inst.model_dump, by_alias=True), 1])]
    if op == 'held':
        class Holder(pd.BaseModel):
            a: cls
            b: dict[str, cls] = {}
        return [result(lambda: Holder(a=inst, b={'k': inst}).model_dump(**opts)), result(lambda: Holder(a=inst).model_dump_json(**opts)),
                result(Holder.model_validate, {'a': result_data(inst.model_dump, by_alias=True), 'b': {'x': 1}}), result(Holder.model_json_schema)]
    if op == 'pickle':
        return result(lambda: pickle.loads(pickle.dumps(inst)))
    if op == 'equal':
        return [result(lambda: inst == copy.deepcopy(inst)), result(lambda: inst == 1), result(lambda: inst != inst.model_copy()),
                result(lambda: hash(inst) is None)]
    if op == 'iterate':
        return result(lambda: [(k, v) for k, v in inst])
    if op == 'partial':
        data = {k: v for i, (k, v) in enumerate(inst.__dict__.items()) if (n >> i) & 1}
        return result(lambda: cls(**data) if not isinstance(inst, pd.RootModel) else cls())


def extra_options(n, opts):
    return dict(by_name=True, by_alias=bool(n % 3)) if 'by_alias' in opts else {}


def strings(x):
    if isinstance(x, dict):
        return {k: strings(v) for k, v in x.items()}
    if isinstance(x, list):
        return [strings(v) for v in x]
    return x if x is None else str(x)


def result_data(fn, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            return fn(**kw)
        except Exception as e:
            return 'failed: %s' % type(e).__name__


def decorated(c):
    """The universe with more keyword arguments on its fields and configuration on its models."""
    kws, confs, _, _ = c.x
    i = 0
    ms = []
    for m in c.u.models:
        fs = []
        for f in m.fields:
            kw = kws[i % len(kws)]
            i += 1
            if kw is not None and f.computed is None and not f.kw and not f.noxml:
                k = KWS[kw]
                clash = {'exclude': f.exclude or f.xif, 'exclude_if': f.exclude or f.xif, 'serialization_alias': f.salias or m.root,
                         'validation_alias': f.valias or m.root, 'validate_default': f.default[0] != 'val'}.get(k.split('=')[0])
                if not clash:
                    f = replace(f, kw=k)
            fs.append(f)
        conf = tuple(CONFIGS[j] for j in confs[i % len(confs)] if not (m.root and CONFIGS[j][0] == 'extra'))
        have = {k for k, _ in m.config}
        seen = set()
        conf = tuple((k, v) for k, v in conf if k not in have and not (k in seen or seen.add(k)))
        ms.append(replace(m, fields=tuple(fs), config=m.config + conf))
    return replace(c.u, models=tuple(ms))


def check(c, T):
    _, _, ops, tape = c.x
    u = decorated(c)
    src = moved(universe_src(u), tape)
    try:
        A = Twin(u, src, {})
    except DefinitionFailed as e:
        T.count('definition rejected: %s' % type(e.exc).__name__)
        T.sample('rejected: %r\n%s' % (e.exc, src)) if T.counts.get('definition rejected: %s' % type(e.exc).__name__) == 1 else None
        return
    try:
        B = Twin(u, src, plain_names())
    except DefinitionFailed as e:
        raise Violation('pydantic_xml accepts a definition that pydantic rejects: %r' % e.exc, source=src)
    for name in A.classes:
        a, b = A.classes[name], B.classes[name]
        if list(a.model_fields) != list(b.model_fields):
            raise Violation('other fields', source=src, model=name, xml=list(a.model_fields), plain=list(b.model_fields))
    for v in c.vals:
        made = []
        for W in (A, B):
            sys.modules[MODNAME] = W.mod
            made.append(result_inst(W, v))
        (ra, ia), (rb, ib) = made
        if ra != rb:
            raise Violation('construction differs', source=src, value=lit(v), xml=ra, plain=rb)
        if ia is None:
            T.count('value rejected')
            continue
        for op, opts, edits, n in ops:
            got, exp = apply(A, ia, op, opts, edits, n), apply(B, ib, op, opts, edits, n)
            if got != exp:
                raise Violation('%s gives another result' % op, source=src, value=lit(v), options=opts, edits=edits, n=n, xml=got, plain=exp)
            kinds = exp if isinstance(exp, list) else [exp]
            for k in kinds:
                if isinstance(k, tuple) and k and isinstance(k[0], str):
                    T.count('%s: %s' % (op, k[0]))
            if any(f.ent is not None for m in u.models for f in m.fields):
                T.nontrivial(src, lit(v), op, sorted(opts.items()), edits, n)
                T.sample('%s\n# %s\n# %s %s %s -> %s' % (src, lit(v), op, opts, edits, str(exp)[:300]))


def result_inst(W, v):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            x = guarded(W.make, v)
        except pd.ValidationError as e:
            return ('invalid', e.title, [(d['type'], d['loc'], d['msg'], canon(d.get('input'))) for d in e.errors(include_url=False)]), None
        except (Violation, MemoryError):
            raise
        except Exception as e:
            return ('raised', type(e).__name__, str(e)[:300]), None
    return ('ok', canon(x)), x


def parts():
    def part(name, n, **kw):
        k = Knobs(**{**dict(shapes=('prim', 'prim', 'opt', 'model', 'seq', 'tup', 'dct', 'tdct', 'punion', 'munion', 'tunion', 'self'),
                            computed=0.12, alias=0.3, default=0.5, subclass=0), **kw})

        def extra(d):
            kws = tuple(d(st.lists(st.one_of(st.none(), st.integers(0, len(KWS) - 1)), min_size=1, max_size=8)))
            confs = tuple(d(st.lists(st.lists(st.integers(0, len(CONFIGS) - 1), max_size=2).map(tuple), min_size=1, max_size=3)))
            return kws, confs, d(uses_of()), tuple(d(st.lists(st.booleans(), min_size=2, max_size=5)))
        return Part(name, lambda: cases(k, 2, 0, extra), check, n)
    return [
        part('any', 150),
        part('wrapped', 90, locs=('wrap', 'wrap', 'elem', 'attr'), fields=(1, 4)),
        part('roots', 70, roots=0.7, top_root=0.5),
        part('nested', 80, models=(2, 5), shapes=('model', 'model', 'munion', 'tunion', 'seq', 'self', 'prim'), inherit=0.4),
        part('computed', 50, computed=0.5, computed_any=True, fields=(2, 5)),
    ]

"""Definitions: what is rejected and what is accepted."""
from ..common import *
from ..live import load
from ..spec import Dct, Field, ModelRef, Opt, Raw, Seq, TDct, Tup, TUnion, PUnion

TECHNIQUE = 'generated model definitions (type x location x context) against a predicate of what has an XML meaning'
RULE = ('Type terms up to depth 3 over primitives, models, root models, unions of every mixture, discriminated unions good and bad, lists, sets, '
        'fixed and variadic tuples, named tuples, mappings, typed dicts, raw elements and unsupported types, declared as attribute, element, '
        'text/bare or under wrapped paths, in a plain class, base class, generic argument, create_model, root model, Annotated metadata or '
        'late-resolved forward reference; namespace prefixes declared at some levels only; discriminated unions with every kind of '
        'discriminator; and generated valid programs with one declaration broken. Rejected definitions raise at definition (or resolution) '
        'time, field errors name the model and field; accepted ones write and read a value. Non-trivial: a distinct definition text.')

PRE = '''
import dataclasses
from enum import Enum
from pydantic import Discriminator, Tag

class Mo(BaseXmlModel, tag='mo'):
    v: int = attr()


class Mp(BaseXmlModel, tag='mp'):
    w: int = attr()


class Ro(RootXmlModel[int], tag='ro'):
    pass


class Ta(BaseXmlModel, tag='ta'):
    k: Literal['a'] = attr()


class Tb(BaseXmlModel, tag='tb'):
    k: Literal['b'] = attr()


class Plain(BaseModel):
    a: int = 1


@dataclasses.dataclass
class Dc:
    a: int = 1


T = TypeVar('T')
'''

# kind -> (annotation, value)
PRIMS = {'int': '5', 'str': "'s t'", 'bool': 'True', 'float': '1.5', 'date': 'datetime.date(2020, 1, 2)', "Literal['u', 'w']": "'w'",
         'Color': 'Color.RED', 'Decimal': "Decimal('1.5')", 'bytes': "b'b'", 'Annotated[int, Field(ge=0)]': '7', 'UUID': 'UUID(int=5)'}
PUNIONS = {'Union[int, str]': "'abc'", 'Union[bool, date]': 'True'}
MODELS = {'Mo': 'Mo(v=1)', 'Mp': 'Mp(w=2)'}
MUNIONS = {'Union[Mo, Mp]': 'Mp(w=3)', 'Union[Mp, Ro]': 'Mp(w=4)'}
MIXED = ['Union[int, Mo]', 'Union[Mo, str, Mp]', 'Union[int, List[int]]', 'Union[Mo, List[Mo]]', 'Union[int, Dict[str, int]]',
         'Union[Element, Mo]', 'Union[Element, int]', 'Union[Mo, Tuple[int, int]]']
TAGGED = {"Annotated[Union[Ta, Tb], Field(discriminator='k')]": "Tb(k='b')"}
UNSUPPORTED = ['Any', 'object', 'Callable[[], int]', 'complex', 'Dc', 'Type[int]', 'Iterable[int]']


LEAVES = ['prim'] * 4 + ['model'] * 3 + ['punion', 'munion', 'root', 'tagged', 'raw', 'mixed', 'unsup']
POOL = {'prim': sorted(PRIMS), 'punion': sorted(PUNIONS), 'model': sorted(MODELS), 'root': ['Ro'], 'munion': sorted(MUNIONS),
        'tagged': sorted(TAGGED), 'raw': ['Element'], 'mixed': MIXED, 'unsup': UNSUPPORTED}


@st.composite
def terms(draw, depth):
    k = draw(st.sampled_from(LEAVES if depth == 0 else ['leaf', 'opt', 'seq', 'seq', 'tup', 'nt', 'dict', 'td']))
    if k == 'leaf':
        k = draw(st.sampled_from(LEAVES))
    if k in POOL:
        return k, draw(st.sampled_from(POOL[k]))

    def sub():
        return draw(terms(depth - 1))

    def prim():
        return ('prim', draw(st.sampled_from(['int', 'str', 'date', 'Color', 'Optional[int]']))) if draw(st.integers(0, 3)) else sub()
    if k == 'opt':
        return 'opt', sub()
    if k == 'seq':
        return 'seq', draw(st.sampled_from(['list', 'list', 'vtup', 'set'])), sub()
    if k in ('tup', 'nt'):
        return k, tuple(sub() for _ in range(draw(st.integers(1, 3))))
    if k == 'dict':
        return 'dict', ('prim', 'str') if draw(st.booleans()) else prim(), prim()
    return 'td', tuple(prim() for _ in range(draw(st.integers(1, 2))))


def ann(t, aux):
    """Annotation source; auxiliary classes are appended to aux."""
    k = t[0]
    if k == 'opt':
        return 'Optional[%s]' % ann(t[1], aux)
    if k == 'seq':
        return {'list': 'List[%s]', 'set': 'Set[%s]', 'vtup': 'Tuple[%s, ...]'}[t[1]] % ann(t[2], aux)
    if k == 'tup':
        return 'Tuple[%s]' % ', '.join(ann(x, aux) for x in t[1])
    if k == 'nt':
        ts = [ann(x, aux) for x in t[1]]
        n = 'Nt%d' % len(aux)
        aux.append('class %s(NamedTuple):\n%s\n' % (n, ''.join('    i%d: %s\n' % x for x in enumerate(ts))))
        return n
    if k == 'dict':
        return 'Dict[%s, %s]' % (ann(t[1], aux), ann(t[2], aux))
    if k == 'td':
        ts = [ann(x, aux) for x in t[1]]
        n = 'Td%d' % len(aux)
        aux.append('class %s(TypedDict):\n%s\n' % (n, ''.join('    k%d: %s\n' % x for x in enumerate(ts))))
        return n
    return t[1]


def has(t, *kinds):
    return t[0] in kinds or any(has(x, *kinds) for x in parts_of(t))


def parts_of(t):
    if t[0] == 'opt':
        return (t[1],)
    if t[0] == 'seq':
        return (t[2],)
    if t[0] in ('tup', 'nt', 'td'):
        return t[1]
    if t[0] == 'dict':
        return t[1:]
    return ()


def strip(t):
    while t[0] == 'opt':
        t = t[1]
    return t


class Unspecified(Exception):
    pass


def judge(t, kind, named, root):
    """None: accepted; 'field': a field error; 'any': some error. kind: attr, elem or None."""
    if has(t, 'unsup', 'mixed'):
        return 'any'
    t = strip(t)
    k = t[0]
    if k in ('prim', 'punion'):
        return 'field' if root and kind and not named else None
    if kind == 'attr':
        return 'field'
    if k in ('model', 'root', 'munion', 'tagged'):
        return None
    if k == 'raw':
        return 'field' if root and not named else None
    if k == 'dict':
        key, val = strip(t[1]), strip(t[2])
        if key[0] != 'prim' or val[0] not in ('prim', 'punion'):
            return 'field'
        if val[0] == 'punion':
            raise Unspecified
        return 'field' if root and kind and not named else None
    if k == 'td':
        vs = [strip(x)[0] for x in t[1]]
        if not set(vs) <= {'prim', 'punion'}:
            return 'field'
        if 'punion' in vs:
            raise Unspecified
        return 'field' if root and kind and not named else None
    if k == 'seq':
        item = strip(t[2])
        if item[0] == 'seq':
            return 'field'
        if kind is None and item[0] in ('prim', 'punion', 'dict', 'td', 'raw'):
            return 'field'
        return judge(item, kind, named, root)
    if k in ('tup', 'nt'):
        out = []
        for x in t[1]:
            x = strip(x)
            if x[0] in ('seq', 'tup'):
                out.append('field')
            elif kind is None and x[0] not in ('model', 'root', 'munion', 'tagged', 'nt'):
                out.append('field')
            elif kind is None and x[0] in ('tagged', 'nt'):
                out.append('?')
            else:
                out.append(judge(x, kind, named, root))
        if 'field' in out:
            return 'field'
        if '?' in out:
            raise Unspecified
        return None
    raise TypeError(t)


def value(t):
    """Source of a value that the type represents, or None."""
    k = t[0]
    if k == 'opt':
        return value(t[1])
    if k == 'seq':
        v = value(t[2])
        if t[1] == 'set':
            return '{%s}' % v if v and strip(t[2])[0] in ('prim', 'punion') else None
        return v and ('[%s, %s]' if t[1] == 'list' else '(%s, %s)') % (v, v)
    if k in ('tup', 'nt'):
        vs = [value(x) for x in t[1]]
        return '(%s,)' % ', '.join(vs) if all(vs) else None
    if k == 'dict':
        key = strip(t[1])[1]
        a, b = "'s-t'" if key == 'str' else PRIMS.get(key), value(t[2])
        if key not in ('str', 'bool', 'Color', "Literal['u', 'w']", 'bytes'):
            return None         # not a valid attribute name
        return '{%s: %s}' % (a, b) if a and b else None
    if k == 'td':
        vs = [value(x) for x in t[1]]
        return '{%s}' % ', '.join('"k%d": %s' % x for x in enumerate(vs)) if all(vs) else None
    for table in (PRIMS, PUNIONS, MODELS, MUNIONS, TAGGED):
        if t[1] in table:
            return table[t[1]]
    return {'Ro': 'Ro(3)', 'Optional[int]': '6'}.get(t[1])


@dataclass(frozen=True)
class Def:
    t: Any
    kind: Any           # attr, elem, None
    name: Any
    wraps: tuple        # paths, outermost first
    ctx: str
    default: bool = False
    alias: bool = False
    good: int = 0       # other fields around


def ent_of(c):
    e = None
    if c.kind == 'attr':
        e = 'attr(%s)' % (repr(c.name) if c.name else '')
    elif c.kind == 'elem':
        e = 'element(%s)' % (repr(c.name) if c.name else '')
    for i, p in enumerate(reversed(c.wraps)):
        e = 'wrapped(%r%s)' % (p, ', ' + e if e else '')
    return e


def with_kw(e, kw):
    if not kw:
        return e
    if e is None:
        return 'Field(%s)' % kw
    return e[:-1] + (', ' if not e.endswith('()') and not e.endswith('(') else '') + kw + ')' if not e.endswith('()') else e[:-1] + kw + ')'


def source(c):
    aux = []
    a = ann(c.t, aux)
    e = ent_of(c)
    kw = ', '.join(x for x in ('default=None' if c.default else '', "alias='al'" if c.alias else '') if x)
    pre = PRE + '\n' + '\n\n'.join(aux) + '\n\n'
    cfg = 'tag="m", arbitrary_types_allowed=True'
    before = '    g1: int = attr()\n' if c.good & 1 else ''
    after = '    g2: int = element()\n' if c.good & 2 else ''
    if c.ctx == 'root':
        d = with_kw(e, kw)
        body = '    root: %s%s\n' % (a, ' = ' + d if d else '')
        return pre + 'class M(RootXmlModel, %s):\n%s' % (cfg, body), None
    d = with_kw(e, kw)
    body = before + '    f: %s%s\n' % (a, ' = ' + d if d else '') + after
    if c.ctx == 'plain':
        return pre + 'class M(BaseXmlModel, %s):\n%s' % (cfg, body), None
    if c.ctx == 'annotated' and e is not None:
        body = before + '    f: Annotated[%s, %s]%s\n' % (a, with_kw(e, "alias='al'" if c.alias else ''), ' = None' if c.default else '') + after
        return pre + 'class M(BaseXmlModel, %s):\n%s' % (cfg, body), None
    if c.ctx == 'generic':
        return (pre + 'class G(BaseXmlModel, Generic[T], %s):\n%s' % (cfg, body.replace('f: %s' % a, 'f: T', 1)), 'M = G[%s]\n' % a)
    if c.ctx == 'create':
        fields = ''.join('%s=%s, ' % x for x in (
            [('g1', '(int, attr())')] * (c.good & 1) + [('f', '(%s, %s)' % (a, d or '...'))] + [('g2', '(int, element())')] * (c.good // 2)))
        return (pre, 'class MB(BaseXmlModel, arbitrary_types_allowed=True):\n    pass\n\n\n'
                     'M = xml_create_model("M", __tag__="m", __base__=MB, %s)\n' % fields)
    if c.ctx == 'late':
        return (pre + 'class M(BaseXmlModel, %s):\n%s' % (cfg, body.replace('f: %s' % a, "f: 'Later'", 1)), 'Later = %s\nM.model_rebuild()\n' % a)
    if c.ctx == 'sub':
        return pre, 'class M(BaseXmlModel, %s):\n%s\n\nclass O(BaseXmlModel):\n    m: M\n' % (cfg, body)
    return pre + 'class M(BaseXmlModel, %s):\n%s' % (cfg, body), None


CTX = ['plain', 'plain', 'annotated', 'generic', 'create', 'late', 'root', 'root', 'sub']


@st.composite
def defs(draw):
    t = draw(terms(draw(st.sampled_from([0, 1, 1, 2, 2, 3]))))
    kind = draw(st.sampled_from(['attr', 'elem', 'elem', 'elem', None, None]))
    name = draw(st.sampled_from([None, 'x', 'x'])) if kind else None
    wraps = tuple(draw(st.lists(st.sampled_from(['w', 'w/u']), max_size=2))) if draw(st.booleans()) else ()
    c = Def(t, kind, name, wraps, draw(st.sampled_from(CTX)), draw(st.booleans()) and t[0] == 'opt', draw(st.integers(0, 3)) == 0,
            draw(st.integers(0, 3)))
    if c.alias and (c.ctx in ('root', 'create', 'late', 'generic') or has(t, 'tagged')):
        c = replace(c, alias=False)
    return c


def check(c, T):
    pre, last = source(c)
    src = pre + (last or '')
    # a discriminated union cannot be given by a generic argument or a string reference with the metadata of a field
    root = c.ctx == 'root'
    try:
        want = judge(c.t, c.kind, c.name, root)
    except Unspecified:
        T.count('unspecified')
        return
    if c.ctx == 'root' and has(c.t, 'tagged') and c.t[0] == 'tagged' and c.kind is None:
        pass
    exc, ns = None, {}
    base = None
    try:
        if last:
            base = guarded(load, pre)
        ns = guarded(load, src) if not last else base
        if last:
            exec(compile(last, '<case>', 'exec'), ns)
    except Exception as e:
        exc = e
        if last and base is None:
            raise Violation('the definition fails before the field type is known: %s: %s' % (type(e).__name__, e), source=src) from None
        if isinstance(e, (NameError, SyntaxError)):
            raise
    T.nontrivial(src[len(PRE):])
    T.count('expected: ' + (want or 'accepted') + ', ctx: ' + c.ctx)
    verify(want, exc, src, 'M', 'root' if root else 'f', T)
    if want is None:
        use(c, ns, src, T)


def verify(want, exc, src, model, field, T):
    from pydantic_xml import errors
    if want is None:
        if exc is not None:
            raise Violation('a supported definition is rejected: %s: %s' % (type(exc).__name__, exc), source=src)
        return
    if exc is None:
        raise Violation('a definition without an XML meaning is accepted', source=src)
    T.sample('%s\n# -> %s: %s' % (src[len(PRE):], type(exc).__name__, exc))
    if want == 'field' and not isinstance(exc, errors.ModelFieldError):
        raise Violation('the definition fails with %s: %s, which is not a field error' % (type(exc).__name__, exc), source=src)
    if isinstance(exc, errors.ModelFieldError):
        name = exc.model_name
        if not (name == model or (name.startswith('G[') and model == 'M')) or exc.field_name != field or '%s.%s' % (name, field) not in str(exc):
            raise Violation('the error does not name the model %s and the field %s: %s' % (model, field, exc), source=src)


def use(c, ns, src, T):
    v = value(c.t)
    if v is None or has(c.t, 'raw'):
        T.count('accepted, no value tried')
        return
    M = ns['M']
    kw = {}
    if c.good & 1:
        kw['g1'] = 1
    if c.good & 2:
        kw['g2'] = 2
    val = eval(v, dict(ns))
    inst = M(val) if c.ctx == 'root' else M(**kw, **{'al' if c.alias else 'f': val})
    for how in ('text', 'tree'):
        if how == 'text':
            doc = guarded(inst.to_xml, encoding='utf-8')
            back = guarded(M.from_xml, doc)
        else:
            back = guarded(M.from_xml_tree, guarded(inst.to_xml_tree))
        if not same(inst, back):
            raise Violation('an accepted definition loses its value', source=src, value=v, document=repr(doc), read=show(back))
    T.count('accepted and used')


# --- namespace prefixes

@st.composite
def nsdefs(draw):
    maps = st.sampled_from([None, {'p': 'urn:p'}, {'q': 'urn:q'}, {'': 'urn:d'}, {'p': 'urn:p', 'q': 'urn:q'}])
    nss = st.sampled_from([None, None, 'p', 'q', ''])
    mmap = draw(st.sampled_from([{'p': 'urn:p'}, {'q': 'urn:q', '': 'urn:d'}, {'': 'urn:d'}, {'p': 'urn:p', 'q': 'urn:q'}]))
    return ('ns', mmap, draw(nss), draw(maps), draw(nss), draw(maps), draw(nss), draw(st.sampled_from(['attr', 'elem', None])),
            draw(st.booleans()), draw(st.sampled_from(['int', 'Mo', 'Dict[str, int]', 'List[int]', 'Element', 'Tuple[int, Mo]'])), draw(st.booleans()))


def check_ns(c, T):
    _, mmap, mns, wmap, wns, emap, ens, kind, wrap, t, ns_attrs = c
    if kind == 'attr':
        t, emap = 'int', None
    if kind is None and t in ('List[int]', 'Tuple[int, Mo]'):
        t = 'int'
    e = {'attr': 'attr("x"%s)' % (', ns=%r' % ens if ens is not None else ''), 'elem': 'element("x"%s%s)' % (
        ', ns=%r' % ens if ens is not None else '', ', nsmap=%r' % emap if emap else ''), None: None}[kind]
    if wrap:
        e = 'wrapped("w"%s%s%s)' % (', ' + e if e else '', ', ns=%r' % wns if wns is not None else '', ', nsmap=%r' % wmap if wmap else '')
    src = PRE + 'class M(BaseXmlModel, tag="m", arbitrary_types_allowed=True, nsmap=%r%s%s):\n    f: %s%s\n' % (
        mmap, ', ns=%r' % mns if mns is not None else '', ', ns_attrs=True' if ns_attrs else '', t, ' = ' + e if e else '')
    # declarations from the inside out
    have_m = mmap
    have_w = {**mmap, **(wmap or {})} if wrap else mmap
    have_e = {**have_w, **(emap or {})} if kind == 'elem' else have_w
    bad = [None]

    def need(ns, have):
        if ns is not None and ns not in have:
            bad[0] = 'any'
    need(mns, have_m)
    up = mns
    if wrap:
        up = wns if wns is not None else mns
        need(up, have_w)
    if kind == 'attr':
        a = ens if ens is not None else (up if ns_attrs else None)
        need(a, have_e)
        if a == '':
            bad[0] = bad[0] or 'field'
    elif kind == 'elem' or t in ('Mo', 'Element'):
        need(ens if kind == 'elem' and ens is not None else up, have_e)
    exc = None
    ns = {}
    try:
        ns = guarded(load, src)
    except Exception as x:
        exc = x
    T.nontrivial(src)
    T.count('ns expected: %s' % bad[0])
    verify(bad[0], exc, src, 'M', 'f', T)


# --- discriminators

@st.composite
def discs(draw):
    alts = []
    for i in range(draw(st.sampled_from([2, 2, 3]))):
        alts.append((draw(st.sampled_from(['attr', 'attr', 'attr', 'attr', 'attr', 'attr', 'elem', 'text', 'wattr', 'sub'])),
                     draw(st.sampled_from(['k', 'k', 'k', 'k', 'k', 'k', None, 'z', 'K', 'k-', 'kk'])), draw(st.sampled_from(['str'] * 8 + ['int', 'enum'])),
                     draw(st.sampled_from([''] * 6 + ['p', 'alias']))))
    return ('disc', tuple(alts), draw(st.sampled_from(['f', 'f', 'f', 'elem', 'wrap', 'list', 'attr', 'callable', 'root'])))


def check_disc(c, T):
    _, alts, where = c
    src = PRE + 'class Sb(BaseXmlModel):\n    j: int = attr(default=0)\n\n\nclass En(Enum):\n    A = "e0"\n    B = "e1"\n    C = "e2"\n\n\n'
    names, attrs, verdict = [], set(), None
    for i, (loc, name, kind, extra) in enumerate(alts):
        ty = {'str': "Literal['%s']" % 'abc'[i], 'int': 'Literal[%d]' % i, 'enum': 'Literal[En.%s]' % 'ABC'[i]}[kind]
        n = repr(name) if name else ''
        sep = ', ' if n else ''
        e = {'attr': 'attr(%s%s%s)' % (n, sep if extra else '', {'': '', 'p': 'ns="p"', 'alias': ''}[extra]),
             'elem': 'element(%s)' % n, 'text': None, 'wattr': 'wrapped("w", attr(%s))' % n, 'sub': 'attr(%s)' % n}[loc]
        e = (e.replace(', )', ')') if e else e)
        src += 'class D%d(BaseXmlModel, tag="d%d", nsmap={"p": "urn:p"}):\n    kk: %s%s\n    o: int = element()\n\n\n' % (i, i, ty, ' = ' + e if e else '')
        names.append('D%d' % i)
        if loc in ('elem', 'text', 'wattr'):
            verdict = 'field'
        attrs.add((name or 'kk', extra == 'p' and loc == 'attr'))
        if kind == 'int':
            verdict = verdict or 'field'
    if len(attrs) > 1:
        verdict = verdict or 'field'
    if any(k == 'enum' for _, _, k, _ in alts):
        T.count('unspecified: enum discriminators')
        return
    u = 'Union[%s]' % ', '.join(names)
    if where == 'callable':
        u = 'Annotated[Union[%s], Discriminator(lambda v: "a")]' % ', '.join('Annotated[%s, Tag(%r)]' % (n, n) for n in names)
        verdict = 'field'
        decl = '    f: %s\n' % u
    elif where == 'root':
        src += 'class Rr(RootXmlModel[D0], tag="rr"):\n    pass\n\n\n'
        decl = '    f: Union[%s] = Field(discriminator="kk")\n' % ', '.join(names[1:] + ['Rr'])
        verdict = 'any'
    elif where == 'list':
        decl = '    f: List[Annotated[%s, Field(discriminator="kk")]]\n' % u
    else:
        decl = '    f: %s = %s\n' % (u, {'f': 'Field(discriminator="kk")', 'elem': 'element("x", discriminator="kk")',
                                         'wrap': 'wrapped("w", discriminator="kk")', 'attr': 'attr(discriminator="kk")'}[where])
    if where == 'attr':
        verdict = verdict or 'field'
    src += 'class M(BaseXmlModel, tag="m"):\n' + decl
    exc, ns = None, {}
    try:
        ns = guarded(load, src)
    except Exception as x:
        exc = x
    T.nontrivial(src)
    T.count('disc expected: %s' % verdict)
    verify(verdict, exc, src, 'M', 'f', T)
    if verdict is None:
        vals = [ns[n](kk='abc'[i], o=i) for i, n in enumerate(names)]
        for i, v in enumerate(vals):
            inst = ns['M'](f=[v, vals[0]] if where == 'list' else v)
            back = guarded(ns['M'].from_xml, guarded(inst.to_xml))
            if not same(inst, back):
                raise Violation('an accepted definition loses its value', source=src, value=show(inst), read=show(back))


# --- one broken declaration in a valid program

@dataclass(frozen=True)
class Broken:
    u: Any
    i: int
    how: int


@st.composite
def broken(draw):
    return Broken(draw(universes(Knobs(models=(1, 4), fields=(1, 5), ns=0.3))), draw(st.integers(0, 200)), draw(st.integers(0, 5)))


def relocate(ent, kind):
    """The declaration with its innermost location replaced."""
    if ent is not None and ent.kind == 'wrap':
        return replace(ent, inner=relocate(ent.inner, kind))
    if kind is None:
        return None
    return gen.Ent(kind, ent.name if ent is not None and ent.kind in ('attr', 'elem') and ent.name else 'zz',
                   ent.ns if ent is not None and ent.kind == kind else None)


def breakings(f):
    """Variants of a field that have no XML meaning: (field, description)."""
    t = f.type.t if isinstance(f.type, Opt) else f.type
    out = []
    if f.computed is not None or f.noxml:
        return out
    if not isinstance(t, (Prim, PUnion)):
        out.append(replace(f, ent=relocate(f.ent, 'attr')))
    if isinstance(t, Seq) and isinstance(t.item, (Prim, PUnion, Dct, TDct, Raw)):
        out.append(replace(f, ent=relocate(f.ent, None)))
    if isinstance(t, Seq):
        out.append(replace(f, type=Seq('list', replace(t, kind='list')), default=('none',)))
    if isinstance(t, Dct):
        out.append(replace(f, type=Dct(t.k, Seq('list', t.v)), default=('none',)))
    if isinstance(t, Prim):
        out.append(replace(f, type=Prim('src', 'Any'), default=('none',)))
        out.append(replace(f, type=Dct(Prim('str'), Seq('list', Prim('int'))), default=('none',)))
        if f.ent is None or f.ent.kind != 'elem':
            out.append(replace(f, type=Seq('list', t), ent=relocate(f.ent, None), default=('none',)))
    return out


def check_broken(c, T):
    cands = [(m, f) for m in c.u.models for f in m.fields if not m.name.startswith('T')]
    cands = [(m, f, b) for m, f in cands for b in breakings(f)]
    live(c.u)           # the program itself is fine
    if not cands:
        T.count('nothing to break')
        return
    m, f, b = cands[c.i % len(cands)]
    if 'discriminator' in spec_src(f) or 'lambda' in spec_src(f):
        T.count('skipped')
        return
    models = tuple(replace(x, fields=tuple(b if g is f else g for g in x.fields)) if x is m else x for x in c.u.models)
    u2 = replace(c.u, models=models)
    from ..spec import universe_src
    from pydantic_xml import errors
    src = universe_src(u2)
    try:
        guarded(load, src)
    except (SyntaxError, NameError):
        raise
    except Exception as e:
        T.nontrivial(src)
        T.count('broken: ' + type(e).__name__)
        if isinstance(e, errors.ModelFieldError) and (not e.model_name.startswith(m.name) or e.field_name != f.name):
            subs = {x.name for x in c.u.models if m.name in x.bases}
            if f.name == 'root':
                subs.add('RootXmlModel[')       # the type given as a generic argument
            if e.field_name != f.name or not any(e.model_name.startswith(n) for n in subs):
                raise Violation('the error does not name the model %s and the field %s: %s' % (m.name, f.name, e), source=src) from None
        return
    raise Violation('a definition without an XML meaning is accepted (model %s, field %s)' % (m.name, f.name), source=src)


def spec_src(f):
    from ..spec import field_src
    return field_src(f)


def parts():
    return [
        Part('types', defs, check, 500),
        Part('namespaces', nsdefs, check_ns, 200),
        Part('discriminators', discs, check_disc, 160),
        Part('broken programs', broken, check_broken, 160),
    ]

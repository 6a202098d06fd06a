"""Hypothesis strategies for model programs, instances and documents."""
import datetime as dt
import decimal
import ipaddress
from dataclasses import dataclass, field, replace
import os

from hypothesis import strategies as st

from .ref import (BAttr, BAttrs, BElem, BModel, BRaw, BSeq, BTagged, BText, BTup, BUnion, BWrap, DefError, Ref)
from .spec import (MV, NODEF, NTV, RV, Color, Dct, Ent, Field, Level, Model, ModelRef, MUnion, Opt, Prim, PUnion, Raw,
                   Seq, TDct, TUnion, Tup, Universe, subtypes)
from .tree import XML_NS, XSI_NIL, Node, clark, plain, split
from .tree import parse as tparse

STD = os.environ.get('FORCE_STD_XML', 'false') == 'true'

URIS = ['http://a.example/x', 'http://b.example', 'urn:c']
FNAMES = ['idx', 'name', 'value', 'item', 'x', 'y', 'data', 'kind', 'note']
TAGS = ['t1', 't2', 't3', 'item', 'value', 'Tag-4', 'tag.5', 't\u00e9g']
WRAPS = ['w', 'v', 'u', 'item']
SPECIAL = ['<', '>', '&', '"', "'", '{}', '{x}', ']]>', '  ', ' a ', '\n', '\t', 'a\nb', '&amp;', '%s', '\u00e9', '\u4e2d',
           '\U0001F600', '0', 'false', 'None', 'null', 'true', '\u00a0', '\u2028', '<!-- c -->', '<![CDATA[x]]>', '1e5', '\x85']


def xml_text(min_size=0, max_size=8, cr=None):
    cr = (not STD) if cr is None else cr
    chars = st.one_of(
        st.sampled_from('abcxyzABC019 _-.:;,<>&"\'{}[]\n\t'),
        st.characters(min_codepoint=0x20, max_codepoint=0x24F, blacklist_characters=[chr(c) for c in range(0x7f, 0xa0)]),
        st.sampled_from(['\r'] if cr else ['\n']),
        st.sampled_from(['\u4e2d', '\U0001F600', '\ufffd', '\u2028', '\ue000', '\x85', '\x7f']),
    )
    return st.one_of(
        st.sampled_from([s for s in SPECIAL if len(s) >= min_size]),
        st.text('abcdefgh', min_size=max(min_size, 1), max_size=max_size),
        st.text(chars, min_size=min_size, max_size=max_size),
    )


EPOCH = dt.datetime(1970, 1, 1)


@st.composite
def _datetimes(draw):
    d = draw(st.datetimes(min_value=dt.datetime(1, 1, 3), max_value=dt.datetime(9999, 12, 28)))
    tz = draw(st.sampled_from([None, 0, 60, -330, 719]))
    if tz is not None:
        d = d.replace(fold=0, tzinfo=dt.timezone(dt.timedelta(minutes=tz)) if tz else dt.timezone.utc)
    return d.replace(fold=0)


def _url(s):
    import pydantic
    return pydantic.AnyUrl(s)


PRIM = {
    'int': st.one_of(st.integers(-20, 20), st.integers(-10**18, 10**18), st.sampled_from([0, 1, -1, 2**63, -2**70])),
    'float': st.one_of(st.floats(allow_nan=False, allow_infinity=False), st.sampled_from([0.0, -0.0, 1.0, 0.1, 1e100, -1e-300, 5e-324, 1e16])),
    'bool': st.booleans(),
    'decimal': st.one_of(st.decimals(allow_nan=False, allow_infinity=False, min_value=-10**12, max_value=10**12, places=3),
                         st.sampled_from([decimal.Decimal('0'), decimal.Decimal('1.00'), decimal.Decimal('1E+2'), decimal.Decimal('-0.5')])),
    'date': st.dates(),
    'datetime': _datetimes(),
    'time': st.times().map(lambda t: t.replace(fold=0)),
    'timedelta': st.timedeltas(min_value=dt.timedelta(days=-4000), max_value=dt.timedelta(days=4000)),
    'uuid': st.uuids(),
    'color': st.sampled_from(list(Color)),
    'level': st.sampled_from(list(Level)),
    'url': st.sampled_from(['http://e.com/', 'https://u:p@h.org:81/p?q=1&r=2#f', 'ftp://x/y%20z']).map(_url),
    'ip': st.ip_addresses(v=4),
    'posint': st.integers(0, 99),
    'short': st.sampled_from(['a', 'ab', 'a&c', '<>"\'', ' x']),
    'pat': st.text('abcz', min_size=1, max_size=5),
    'upper': st.sampled_from(['A', 'QWE', 'Z&Z']),
    'hexint': st.integers(0, 2**40),
    'echo': st.sampled_from(['ok', 'ok{orig}', 'ok & <x>']),
    'strictstr': xml_text(1),
}
ALL_PRIMS = ['str', 'str', 'str', 'int', 'int', 'bool', 'float', 'decimal', 'date', 'datetime', 'time', 'timedelta', 'uuid', 'color',
             'level', 'bytes', 'url', 'ip', 'posint', 'short', 'pat', 'upper', 'hexint', 'literal', 'strictstr']
REP_UNIONS = [('int', 'uuid'), ('color', 'int'), ('uuid', 'color'), ('date', 'uuid'), ('bool', 'uuid')]
FREE_UNIONS = REP_UNIONS + [('int', 'str'), ('float', 'int'), ('bool', 'int'), ('str', 'bool'), ('posint', 'pat'), ('date', 'str')]


@dataclass
class Knobs:
    rep: bool = False               # representable by construction
    eas: bool = False               # documents are read with empty_as_string
    prims: list = field(default_factory=lambda: ALL_PRIMS)
    locs: tuple = ('attr', 'elem', 'elem', 'elem', 'text', 'wrap', 'wrap', 'none')
    shapes: tuple = ('prim', 'prim', 'prim', 'opt', 'model', 'model', 'seq', 'tup', 'dct', 'tdct', 'punion', 'munion', 'tunion', 'raw', 'self')
    seq_items: tuple = ('prim', 'prim', 'model', 'model', 'dct', 'tup', 'munion', 'tunion', 'punion')
    tup_items: tuple = ('prim', 'prim', 'opt', 'model', 'dct', 'munion')
    seq_kinds: tuple = ('list', 'list', 'vtuple', 'set', 'frozenset')
    root_shapes: tuple = ('prim', 'opt', 'model', 'seq', 'tup', 'dct', 'munion')
    roots: float = 0.2              # share of root models among non-top models
    top_root: float = 0.1
    ns: float = 0.4                 # share of universes with namespaces
    nillable: float = 0.15
    modes: tuple = ('strict', 'strict', 'ordered', 'unordered')
    skip_flag: float = 0.1
    forbid: float = 0.0
    computed: float = 0.1
    xif: float = 0.0
    odd_disc: float = 0.0           # discriminators that are excluded or have a serializer of their own
    falsy: float = 0.06             # models whose instances are false or of length 0
    computed_any: bool = False      # computed fields of any type, not only primitives
    noxml_required: bool = False    # NoXml fields without a default, too
    exclude: float = 0.08
    noxml: float = 0.06
    alias: float = 0.2
    tagged: float = 0.5             # share of explicit tags on entities
    model_tag: float = 0.5
    inherit: float = 0.15
    models: tuple = (1, 4)
    fields: tuple = (0, 5)
    wraps: tuple = ()               # names of path elements (WRAPS)
    inner: tuple = ('attr', 'elem', 'elem', 'elem', 'none')    # what is behind a path
    collide: float = 0.5            # non-rep: keep fields with colliding element names
    default: float = 0.35
    opt: float = 0.25
    subclass: float = 0.1           # non-rep: values of a subclass of the declared model
    cr: bool = None


FALSY = ('    def __bool__(self):\n        return False\n', '    def __len__(self):\n        return 0\n')


def chance(draw, p):
    if p <= 0:
        return False
    if p >= 1:
        return True
    return draw(st.integers(0, 99)) < int(p * 100)


class UGen:
    def __init__(self, draw, k):
        self.draw = draw
        self.k = k
        self.models = []
        self.ntypes = 0
        self.use_ns = chance(draw, k.ns)
        self.cur = None
        self.tagged_made = {}

    def pick(self, seq):
        return self.draw(st.sampled_from(list(seq)))

    def prim(self, rep_union=True):
        kind = self.pick(self.k.prims)
        if kind == 'literal':
            return Prim('literal', self.pick([('a', 'b c'), ('x', 'y', 'z&'), ('only',), ('{orig}', '{sourceline} {}')]))
        return Prim(kind)

    def plain_models(self):
        return [m for m in self.models if not m.name.startswith('T')]

    def nsmap(self):
        n = self.pick([1, 1, 2, 3])
        keys = ['', '', 'p', 'p', 'q', 'q', 'r', 'r', 'xsi', 'ns0']       # the last two are what backends like to invent
        out = {}
        for _ in range(n):
            out[self.pick(keys)] = self.pick(URIS)
        if chance(self.draw, 0.08):
            out['xml'] = XML_NS
        return tuple(sorted(out.items()))

    def tunion(self):
        """A discriminated union needs alternatives with a literal attribute."""
        pool = self.tagged_made.get('pool')
        if pool is None:
            same_tag = chance(self.draw, 0.4)
            fname = self.pick(['kind', 'type'])
            ent = Ent('attr', self.pick([None, 'k', 'xk']))
            names = []
            for i in range(self.pick([2, 2, 3])):
                lits = [('a',), self.pick([('b', 'c c'), ('b', 'c c'), ('',), ('c c', '')]), ('d&',)][i]
                f, body = [Field(fname, Prim('literal', lits), ent)], ''
                if chance(self.draw, self.k.odd_disc):
                    odd = self.pick(['exclude', 'xif', 'ser'])
                    if odd == 'ser':
                        body = "    @field_serializer(%r)\n    def ser_kind(self, v): return 'ser:%%s' %% (v,)\n" % fname
                    else:
                        f = [replace(f[0], **{odd: True})]
                for j in range(self.pick([0, 1, 2])):
                    x = self.field(j, ['attr', 'elem', 'text'], ('prim', 'opt'))
                    if x.name not in [g.name for g in f] and not (x.alias and any(x.alias == g.alias for g in f)):
                        f.append(x)
                f.sort(key=lambda x: x.computed is not None)
                m = Model(f'T{i}', tuple(f), tag='tu' if same_tag else self.pick([f'tu{i}', f'ta{i}', lits[0] if lits[0].isalpha() else f'tu{i}']),
                          search_mode=self.pick(self.k.modes), body=body)
                self.models.append(self.prune(m))
                names.append(m.name)
            self.tagged_made['pool'] = pool = (tuple(names), fname)
        return TUnion(pool[0], pool[1])

    def mtype(self, shape):
        """A type built of models; None when there are not enough models."""
        ms = self.plain_models()
        if shape == 'model':
            return ModelRef(self.pick(ms).name) if ms else None
        if shape == 'munion':
            if len(ms) < 2:
                return None
            names = []
            for _ in range(self.pick([2, 2, 3])):
                n = self.pick(ms).name
                if n not in names:
                    names.append(n)
            # one order for the same alternatives in a program: typing caches Optional[Union[A, B]] and takes it for Optional[Union[B, A]]
            if not hasattr(self, 'descending'):
                self.descending = self.pick([False, True])
            names.sort(reverse=self.descending)
            return MUnion(tuple(names)) if len(names) > 1 else None
        if shape == 'tunion':
            return self.tunion()

    def dct(self):
        key = self.pick([Prim('str'), Prim('str'), Prim('literal', ('ka', 'kb', 'k-c'))])
        v = self.prim()
        if chance(self.draw, 0.2) and not self.k.rep:
            v = Opt(v)
        return Dct(key, v)

    def tdct(self):
        self.ntypes += 1
        items = []
        for i in range(self.pick([1, 2, 3])):
            items.append((['ka', 'kb', 'kc'][i], self.prim(), chance(self.draw, 0.7)))
        t = TDct(f'TD{self.ntypes}', tuple(items))
        out = []
        for k, _, _ in items:
            if chance(self.draw, 0.2):
                how = self.pick(['alias', 'validation_alias', 'serialization_alias', 'choices'])
                n = self.pick(['ka', 'kb', 'kc', 'k-a', 'kX'])
                out.append((k, k if how in ('validation_alias', 'choices') else n, k if how == 'serialization_alias' else n,
                            'validation_alias=AliasChoices(%r, %r)' % (n, n + '2') if how == 'choices' else '%s=%r' % (how, n)))
        new = replace(t, aliases=tuple(out))
        names = new.names()
        if len({x[1] for x in names}) < len(names) or len({x[2] for x in names}) < len(names):
            return t
        return new

    def type_for(self, kind, shapes, depth=0):
        """A type legal at a location kind: attr, elem or None (text / own element)."""
        for _ in range(4):
            s = self.pick(shapes)
            if s == 'prim':
                return self.prim()
            if s == 'opt':
                return Opt(self.prim())
            if s == 'punion':
                t = PUnion(tuple(Prim(x) for x in self.pick(REP_UNIONS if self.k.rep else FREE_UNIONS)))
                return t
            if kind == 'attr':
                continue
            t = None
            if s == 'self':
                if depth == 0 and self.cur and not (self.k.rep and self.k.eas):
                    me = ModelRef(self.cur, fwd=True)
                    return self.pick([Opt(me), Opt(me), Seq('list', me)])
                continue
            if s in ('model', 'munion', 'tunion'):
                t = self.mtype(s)
            elif s == 'dct':
                t = self.dct()
            elif s == 'tdct':
                t = self.tdct()
            elif s == 'raw':
                t = Raw()
            elif s == 'seq' and depth == 0:
                t = self.seq(kind)
            elif s == 'tup' and depth <= 1:
                t = self.tup(kind)
            if t is not None:
                if depth == 0 and chance(self.draw, self.k.opt):
                    t = Opt(t)
                return t
        if kind is None and depth:
            return None
        return self.prim()

    def seq(self, kind):
        if kind is None:
            shapes = [s for s in self.k.seq_items if s in ('model', 'munion', 'tunion', 'tup')]
            if not shapes:
                return None
            s = self.pick(shapes)
            item = self.tup(None) if s == 'tup' else self.mtype(s)
        else:
            s = self.pick(self.k.seq_items)
            item = self.tup(kind) if s == 'tup' else self.type_for(kind, (s,), 1)
        if item is None:
            return None
        sk = self.pick(self.k.seq_kinds)
        if not hashable(item) and sk in ('set', 'frozenset'):
            sk = 'list'
        if not self.k.rep and isinstance(item, Prim) and chance(self.draw, 0.1):
            item = Opt(item)
        return Seq(sk, item)

    def tup(self, kind):
        n = self.pick([1, 2, 2, 3])
        items = []
        for _ in range(n):
            if kind is None:
                ms = self.plain_models()
                t = self.mtype(self.pick(['model', 'model', 'munion'])) or (ModelRef(ms[0].name) if ms else None)
                if t is None:
                    return None
            else:
                t = self.type_for(kind, self.k.tup_items, 2) or self.prim()
            items.append(t)
        named = None
        if chance(self.draw, 0.3):
            self.ntypes += 1
            named = f'NT{self.ntypes}'
        return Tup(tuple(items), named)

    def ent(self, kind, t, visible):
        """Entity for a location; visible is the namespace map in scope."""
        name = None
        if chance(self.draw, self.k.tagged):
            name = self.pick(TAGS)
        ns = nsmap = None
        vis = dict(visible)
        if self.use_ns:
            if kind == 'elem' and chance(self.draw, 0.25):
                nsmap = self.nsmap()
                vis.update(dict(nsmap))
            if vis and chance(self.draw, 0.4):
                ns = self.pick(sorted(vis))
                if kind == 'attr' and ns == '':
                    ns = None
        nil = None
        if kind == 'elem' and chance(self.draw, self.k.nillable):
            nil = True
        return Ent(kind, name, ns, nsmap, nil)

    def wrap(self, visible, shapes, depth=0):
        path = '/'.join(self.pick(self.k.wraps or WRAPS) for _ in range(self.pick([1, 1, 2, 3] if depth == 0 else [1, 1, 2])))
        ns = nsmap = None
        vis = dict(visible)
        if self.use_ns:
            if chance(self.draw, 0.3):
                nsmap = self.nsmap()
                vis.update(dict(nsmap))
            if vis and chance(self.draw, 0.4):
                ns = self.pick(sorted(vis))
        inner_kind = self.pick(list(self.k.inner) + (['wrap'] if depth < 2 else []))
        if inner_kind == 'wrap':
            t, inner = self.wrap(vis, shapes, depth + 1)
        elif inner_kind == 'none':
            inner, t = None, self.type_for(None, shapes)
        else:
            t = self.type_for(inner_kind, shapes)
            inner = self.ent(inner_kind, t, vis)
        return t, Ent('wrap', path, ns, nsmap, None, inner)

    def field(self, i, locs, shapes, visible=()):
        k = self.k
        name = FNAMES[(self.pick(range(len(FNAMES))) + i) % len(FNAMES)]
        loc = self.pick(locs)
        if loc in ('text', 'none'):
            ent = None
            if loc == 'text':
                t = self.type_for(None, ('prim', 'prim', 'opt', 'punion'))
            else:
                t = self.type_for(None, [s for s in shapes if s not in ('prim', 'opt', 'punion')] or shapes)
        elif loc == 'wrap':
            t, ent = self.wrap(dict(visible), shapes)
        else:
            t = self.type_for(loc, shapes)
            ent = self.ent(loc, t, dict(visible))
        alias = None
        if chance(self.draw, k.alias):
            alias = self.pick(['al1', 'al2', 'al3', 'Alias-4', 'al5'])
        f = Field(name, t, ent, alias=alias)
        f = replace(f, default=self.default(f))
        if isinstance(t, Opt) and f.default == NODEF and k.rep:
            f = replace(f, default=('val', None))
        if isinstance(t, (Prim, Opt)) and loc != 'wrap' and chance(self.draw, k.computed) and not any(
                isinstance(x, (ModelRef, MUnion, TUnion, Raw, Seq, Tup, Dct, TDct)) for x in [t, getattr(t, 't', None)]):
            v = value(self.draw, t, k, None, none_ok=True)
            from .spec import lit
            return replace(f, computed=lit(v), default=NODEF)
        if k.computed_any and loc != 'wrap' and not is_self(t) and not any(isinstance(x, TDct) and x.aliases for x in subtypes(t)) and chance(
                self.draw, k.computed):
            v = value(self.draw, t, k, Universe(tuple(self.models), ''))
            from .spec import lit
            return replace(f, computed=lit(v), default=NODEF)
        if chance(self.draw, k.exclude) and (not k.rep or f.default != NODEF and not isinstance(strip_opt(t), (Dct, TDct))):
            f = replace(f, exclude=True)
        elif chance(self.draw, k.xif):
            f = replace(f, xif=True)
        elif chance(self.draw, k.noxml) and (f.default != NODEF or k.noxml_required and not is_self(t)):
            f = replace(f, noxml=True)
        return f

    def default(self, f):
        k, t = self.k, f.type
        if is_self(t):
            return ('val', None) if isinstance(t, Opt) else ('factory', [])
        if not chance(self.draw, 0.75 if isinstance(t, Opt) else k.default):
            return NODEF
        if isinstance(t, Opt):
            if chance(self.draw, 0.8) or k.rep:
                return ('val', None)
            t = t.t
        if isinstance(t, Prim):
            return ('val', value(self.draw, t, k, None))
        if isinstance(t, Seq):
            return ('factory', {'list': [], 'set': set(), 'frozenset': frozenset(), 'vtuple': ()}[t.kind])
        if isinstance(t, Dct):
            return ('factory', {}) if not k.rep else NODEF
        return NODEF

    def model(self, name, top=False):
        k = self.k
        tag = self.pick(TAGS) if chance(self.draw, k.model_tag) else None
        ns = nsmap = ns_attrs = None
        bases = ()
        if self.use_ns:
            if chance(self.draw, 0.6):
                nsmap = self.nsmap()
            if nsmap and chance(self.draw, 0.6):
                ns = self.pick([p for p, _ in nsmap])
            if chance(self.draw, 0.25) and ns != '':
                ns_attrs = True
        mode = self.pick(k.modes)
        skip = self.pick([True, False]) if chance(self.draw, k.skip_flag) else None
        config = []
        is_root = chance(self.draw, k.top_root if top else k.roots)
        if chance(self.draw, k.forbid) and not is_root:
            config.append(('extra', 'forbid'))
        m = Model(name, (), tag, ns, nsmap, ns_attrs, skip, mode, bases, False, tuple(config))
        if chance(self.draw, k.falsy):
            m = replace(m, body=self.pick(FALSY))
        self.cur = None if is_root else name
        if is_root:
            return self.root_model(m)
        base = None
        if chance(self.draw, k.inherit):
            cands = [x for x in self.plain_models() if not x.root and x.fields]
            if cands:
                base = self.pick(cands)
                m = replace(m, bases=(base.name,), search_mode=self.pick([None, mode]))
        n = self.draw(st.integers(*k.fields))
        if top and n == 0:
            n = 1
        fields, seen = [], set()
        visible = dict(nsmap or ())
        inherited = {}
        if base is not None:
            inherited = {f.name: f for f in self.ref(m).flat(name)[2]}
            visible = self.ref(m).flat(name)[0]['nsmap'] or {}
        for i in range(n):
            f = self.field(i, k.locs, k.shapes, visible)
            if f.name in seen or (f.name in inherited and (f.computed or inherited[f.name].computed)):
                f = replace(f, name=f'{f.name}{name}{i}')
            if f.alias and any(f.alias == g.alias for g in fields + list(inherited.values())):
                f = replace(f, alias=None)
            seen.add(f.name)
            fields.append(f)
        fields.sort(key=lambda f: f.computed is not None)
        return replace(m, fields=tuple(fields))

    def root_model(self, m):
        k = self.k
        s = self.pick(k.root_shapes)
        ent, t = None, None
        visible = dict(m.nsmap or ())
        if s in ('prim', 'opt') and chance(self.draw, 0.7):
            t = self.type_for(None, (s,))
        elif s in ('model', 'munion', 'dct') and chance(self.draw, 0.6):
            t = self.type_for(None, (s,))
        elif s == 'seq' and chance(self.draw, 0.4):
            t = self.seq(None)
        if t is None:
            if chance(self.draw, 0.3):
                t, ent = self.wrap(visible, k.root_shapes)
            else:
                t = self.type_for('elem', (s,))
                ent = self.ent('elem', t, visible)
                # root values have no field name to fall back to
                if not (isinstance(strip_opt(t), (ModelRef, MUnion, TUnion))):
                    ent = replace(ent, name=ent.name or self.pick(TAGS))
        f = Field('root', t, ent)
        f = replace(f, default=self.default(f))
        if isinstance(t, Opt) and f.default == NODEF and k.rep:
            f = replace(f, default=('val', None))
        return replace(m, fields=(f,), root=True)

    def ref(self, m):
        return Ref(Universe(tuple(self.models) + (m,), m.name), {})

    def prune(self, m):
        """Drops the fields that the definition rules or (rep) the representability rules exclude."""
        if m.root:
            try:
                self.ref(m).plan(m.name)
                if self.k.rep and not self.representable(m, m.fields[0]):
                    raise DefError
            except DefError:
                return replace(m, root=False, fields=(Field('x', Prim('str'), Ent('elem')),), ns=None, nsmap=None, ns_attrs=None)
            return m
        strict = self.k.rep or not chance(self.draw, self.k.collide)
        keep = []
        own = {f.name for f in m.fields}
        try:
            inherited = [pf for pf in self.ref(replace(m, fields=())).plan(m.name).fields if pf.spec.name not in own]
        except DefError:
            m = replace(m, bases=())
            inherited = []
        root = Slot()
        for pf in inherited:
            root.add(claims(pf.b), strict)
        for f in m.fields:
            if f.noxml:
                keep.append(f)
                continue
            if self.k.rep and f.computed is None and not self.representable(m, f):
                continue
            try:
                b = [pf.b for pf in self.ref(replace(m, fields=(f,))).plan(m.name).fields if pf.spec is f][0]
            except DefError:
                continue
            if root.add(claims(b), strict):
                keep.append(f)
        m = replace(m, fields=tuple(keep))
        try:
            self.ref(m).plan(m.name)
        except DefError:
            m = replace(m, ns_attrs=None, ns=None, nsmap=None, bases=(), fields=tuple(f for f in m.fields if not uses_ns(f.ent)))
        if self.k.rep and m.bases and not self.consistent(m):
            return self.prune(replace(m, bases=()))     # overriding moved a field to where it collides
        return m

    def consistent(self, m):
        slot = Slot()
        try:
            fields = self.ref(m).plan(m.name).fields
        except DefError:
            return False
        for pf in fields:
            if pf.spec.computed is None and not self.representable(m, pf.spec):
                return False
            if not slot.add(claims(pf.b), True):
                return False
        return True

    def representable(self, m, f):
        """Values of the type can be told apart again (see Knobs.rep)."""
        for t in subtypes(f.type):
            if isinstance(t, Tup) and t.named and any(isinstance(x, Prim) and x.kind == 'hexint' for x in subtypes(t)):
                return False    # pydantic does not apply custom serializers inside named tuples
        try:
            plan = self.ref(replace(m, fields=(f,))).plan(m.name)
        except DefError:
            return True
        for x in bindings([pf.b for pf in plan.fields if pf.spec is f][0]):
            if plan.search != 'strict' and isinstance(x, (BSeq, BTup)):
                # an alternative finds its element behind those of the others (known finding)
                if any(len({c[2] for c in claims(y)}) > 1 for y in bindings(x) if isinstance(y, (BUnion, BTagged))):
                    return False
            if isinstance(x, BUnion) and len({a.q for a in x.alts}) < len(x.alts):
                return False
        return True

    def universe(self):
        n = self.draw(st.integers(*self.k.models))
        for i in range(n):
            m = self.prune(self.model('ABCDEFG'[i], top=(i == n - 1)))
            self.models.append(m)
        return Universe(tuple(self.models), self.models[-1].name)


def uses_ns(e):
    return e is not None and (e.ns is not None or uses_ns(e.inner))


def strip_opt(t):
    return t.t if isinstance(t, Opt) else t


def is_self(t):
    t = t.t if isinstance(t, Opt) else t.item if isinstance(t, Seq) else t
    return isinstance(t, ModelRef) and t.fwd


def hashable(t):
    if isinstance(t, (ModelRef, MUnion, TUnion, Dct, TDct, Raw)):
        return False
    if isinstance(t, Tup):
        return all(hashable(x) for x in t.items)
    if isinstance(t, Opt):
        return hashable(t.t)
    return True


def claims(b, path=()):
    if isinstance(b, BWrap):
        return claims(b.inner, path + tuple(b.path))
    if isinstance(b, BText):
        return [(path, '#', None)]
    if isinstance(b, BAttr):
        return [(path, '@', b.q)]
    if isinstance(b, BAttrs) and b.q is None:
        return [(path, '@*', None)]
    if isinstance(b, (BElem, BModel, BRaw, BAttrs)):
        return [(path, 'e', b.q)]
    out = []
    subs = {BSeq: lambda: [b.item], BTup: lambda: b.items, BUnion: lambda: b.alts,
            BTagged: lambda: [a for _, a in b.alts]}[type(b)]()
    for x in subs:
        for c in claims(x, path):
            if c not in out:
                out.append(c)
    return out


def bindings(b):
    yield b
    for x in {BWrap: lambda: [b.inner], BSeq: lambda: [b.item], BTup: lambda: b.items}.get(type(b), lambda: [])():
        yield from bindings(x)


class Slot:
    """What the fields so far occupy inside an element."""

    def __init__(self):
        self.kids = {}
        self.last = None
        self.text = self.star = False
        self.attrs = set()

    def add(self, cs, strict):
        """Claims of one field; False (and no effect) on conflict."""
        nodes = []
        for path, kind, q in cs:
            cur, new = self, False
            for part in path:
                nxt = None if new else cur.kids.get(part)
                if nxt is None:
                    nodes.append((cur, part))
                    new = True
                    nxt = Slot()
                elif strict and (cur.last != part or nxt == 'leaf'):
                    return False
                elif nxt == 'leaf':
                    nxt = Slot()
                cur = nxt
            if kind == '#' and cur.text:
                return False
            if kind == '@' and (q in cur.attrs or (strict and cur.star)):
                return False
            if kind == '@*' and cur.star:
                return False
            if kind == 'e' and strict and q in cur.kids:
                return False
        for path, kind, q in cs:
            cur = self
            for part in path:
                if not isinstance(cur.kids.get(part), Slot):
                    cur.kids[part] = Slot()
                cur.last = part
                cur = cur.kids[part]
            if kind == '#':
                cur.text = True
            elif kind == '@':
                cur.attrs.add(q)
            elif kind == '@*':
                cur.star = True
            else:
                cur.kids.setdefault(q, 'leaf')
                cur.last = None
        return True


@st.composite
def universes(draw, k):
    return UGen(draw, k).universe()


# ---------------------------------------------------------------- values

def value(draw, t, k, u, none_ok=False, attr=False, budget=None):
    """A value of type t; none_ok says whether None may be drawn for an optional type."""
    if isinstance(t, Opt):
        if none_ok and draw(st.integers(0, 2)) == 0:
            return None
        return value(draw, t.t, k, u, none_ok, attr, budget)
    if isinstance(t, Prim):
        if t.kind == 'literal':
            return draw(st.sampled_from(t.arg))
        if t.kind in ('str', 'bytes'):
            lo = 0 if (attr or not k.rep or k.eas) else 1
            s = draw(st.one_of(st.just(''), xml_text(lo, cr=k.cr)) if lo == 0 else xml_text(lo, cr=k.cr))
            return s if t.kind == 'str' else s.encode()
        if t.kind == 'src':
            return draw(xml_text(1))
        if t.kind == 'strictstr':
            return draw(xml_text(1, cr=k.cr))
        return draw(PRIM[t.kind])
    if isinstance(t, PUnion):
        return value(draw, t.ts[draw(st.integers(0, len(t.ts) - 1))], k, u, none_ok, attr, budget)
    if isinstance(t, ModelRef):
        return model_value(draw, subclass(draw, t.name, k, u), k, u, budget)
    if isinstance(t, (MUnion, TUnion)):
        return model_value(draw, subclass(draw, t.names[draw(st.integers(0, len(t.names) - 1))], k, u), k, u, budget)
    if isinstance(t, Seq):
        lo = 1 if (k.rep and not none_ok) else 0
        n = draw(st.sampled_from([lo, 1, 1, 2, 3]))
        items = [value(draw, t.item, k, u, True, attr, budget) for _ in range(n)]
        if n == 3 and t.kind in ('list', 'vtuple') and draw(st.integers(0, 9)) == 0:
            items = items * 5       # a long collection, of few different items
        if t.kind == 'list':
            return items
        if t.kind == 'vtuple':
            return tuple(items)
        return (set if t.kind == 'set' else frozenset)(items)
    if isinstance(t, Tup):
        items = tuple(value(draw, x, k, u, True, attr, budget) for x in t.items)
        if k.rep and all(x is None for x in items):
            items = tuple(value(draw, x, k, u, False, attr, budget) for x in t.items)
        return NTV(t.named, items) if t.named else items
    if isinstance(t, Dct):
        n = draw(st.sampled_from([0, 1, 1, 2, 3]))
        out = {}
        for _ in range(n):
            key = draw(st.sampled_from(['ka', 'kb', 'k-c', 'k.d', 'kE', 'k\u00e9'])) if t.k.kind == 'str' else draw(st.sampled_from(t.k.arg))
            out[key] = value(draw, t.v, k, u, True, True, budget)
        return out
    if isinstance(t, TDct):
        return {n[2]: value(draw, x, k, u, True, True, budget) for n, (_, x, r) in zip(t.names(), t.items) if r or draw(st.booleans())}
    if isinstance(t, Raw):
        return RV(plain(draw(raw_nodes())))
    raise TypeError(t)


@st.composite
def raw_nodes(draw, depth=2, tag=None):
    n = Node(tag or draw(st.sampled_from(['raw', 't1', '{urn:c}z', '{http://a.example/x}y'])))
    for _ in range(draw(st.sampled_from([0, 0, 1, 2]))):
        n.attrs[draw(st.sampled_from(['a', 'b', '{urn:c}c', 'xml-x', '{%s}lang' % XML_NS]))] = draw(xml_text(max_size=4))
    n.text = draw(st.sampled_from(['', 'txt', ' ', 'a<&b', '\n  ']))
    if depth:
        for _ in range(draw(st.sampled_from([0, 0, 1, 2]))):
            c = draw(raw_nodes(depth - 1))
            c.tail = draw(st.sampled_from(['', '', 'tl', '\n', ' & ']))
            n.children.append(c)
    return n


def subclass(draw, name, k, u):
    """Sometimes the name of a subclass that keeps the inherited fields as they are."""
    if k.rep or k.subclass <= 0:
        return name
    own = {f.name for f in Ref(u, {}).flat(name)[2]}
    subs = [m.name for m in u.models if name in m.bases and not own & {f.name for f in m.fields} and all(b == name for b in m.bases)]
    if subs and chance(draw, k.subclass):
        return draw(st.sampled_from(subs))
    return name


MAX_NEST = 3


def model_value(draw, name, k, u, budget=None):
    budget = (budget or 0) + 1
    ref = Ref(u, {})
    _, _, fields = ref.flat(name)
    out = []
    for f in fields:
        if f.computed is not None:
            continue
        has_default = f.default != NODEF
        if is_self(f.type) and budget >= MAX_NEST:
            continue
        if k.rep and (f.exclude or f.noxml) and has_default:
            continue
        is_attr = leaf_kind(f.ent) == 'attr'
        # None in an attribute or mapping is written like an empty one (with empty_as_string: everywhere)
        lossy = is_attr or k.eas or isinstance(strip_opt(f.type), (Dct, TDct))
        if has_default and draw(st.integers(0, 3)) == 0 and not (k.rep and f.default == ('val', None) and lossy):
            continue
        if k.rep:
            # an absent part reads back as the default, so only a default of None (or empty) represents None (or empty)
            if lossy:
                none_ok = False
            elif isinstance(f.type, Opt):
                none_ok = f.default == ('val', None)
            else:
                none_ok = f.default[0] == 'factory' or not isinstance(f.type, Seq)
            if isinstance(f.type, Opt) and isinstance(f.type.t, Seq) and f.default == ('val', None):
                # None or non-empty; an empty collection would read back as None
                v = None if draw(st.integers(0, 2)) == 0 else value(draw, f.type.t, k, u, False, is_attr, budget)
                out.append((f.name, v))
                continue
            out.append((f.name, rep_value(draw, f, k, u, none_ok, is_attr, budget)))
        else:
            out.append((f.name, value(draw, f.type, k, u, True, is_attr, budget)))
    if any(isinstance(t, Raw) for f in fields for t in subtypes(f.type)) and (k.rep or draw(st.integers(0, 3))):
        bs = {pf.spec.name: pf.b for pf in ref.plan(name).fields}
        out = [(n, retag(bs[n], v) if n in bs else v) for n, v in out]
    return MV(name, tuple(out))


def retag(b, v):
    """Raw values under the name their field is bound to."""
    if isinstance(b, BWrap):
        return retag(b.inner, v)
    if isinstance(b, BSeq) and isinstance(v, (list, tuple)):
        return type(v)(retag(b.item, x) for x in v)
    if isinstance(b, BTup) and isinstance(v, NTV):
        return NTV(v.name, tuple(retag(i, x) for i, x in zip(b.items, v.items)))
    if isinstance(b, BTup) and isinstance(v, tuple):
        return tuple(retag(i, x) for i, x in zip(b.items, v))
    if isinstance(b, BRaw) and isinstance(v, RV):
        n = tparse(v.xml)
        n.tag = b.q
        return RV(plain(n))
    return v


def rep_value(draw, f, k, u, none_ok, is_attr, budget):
    t = f.type
    if isinstance(t, Opt) and not none_ok:
        t = t.t
    return value(draw, t, k, u, none_ok, is_attr, budget)


def leaf_kind(e):
    if e is None:
        return None
    if e.kind == 'wrap':
        return leaf_kind(e.inner)
    return e.kind


# ---------------------------------------------------------------- documents

JUNK_TEXT = ['', ' ', 'abc', '1', '0', '-5', '1.5', 'true', 'no', '2020-01-01', 'red', 'deep blue', 'low', 'a', 'b c', 'k',
             '\n  ', 'zzzzzzzz', '99', '100', '7f', 'http://e.com/', '1.2.3.4', 'PT1S', '12:30', '{x}', 'T', '{orig}{orig}', '{sourceline} {error}', 'None',
             '00000000-0000-0000-0000-000000000000', '2020-01-01T00:00:00Z', '\u0661']


@dataclass(frozen=True)
class Mut:
    op: int
    a: int
    b: int
    c: int


mutations = st.lists(st.builds(Mut, st.integers(0, 20), st.integers(0, 60), st.integers(0, 60), st.integers(0, 60)), max_size=4)


def vocabulary(u, ref):
    tags, attrs = [], []

    def visit(b):
        for path, kind, q in claims(b):
            for x in path:
                if x not in tags:
                    tags.append(x)
            if kind == 'e' and q not in tags:
                tags.append(q)
            if kind == '@' and q not in attrs:
                attrs.append(q)

    for m in u.models:
        p = ref.plan(m.name)
        if p.q not in tags:
            tags.append(p.q)
        for pf in p.fields:
            visit(pf.b)
    return (tags + ['junk', '{urn:c}junk'])[:40], (attrs + ['junk', '{urn:c}j', XSI_NIL, 'ka', 'kb', '{%s}lang' % XML_NS])[:40]


def near(v, i):
    """Texts that differ little from a given one."""
    return [' ' + v, v + ' ', v.upper(), v.lower(), v[:-1], v + v, '\n' + v, v + 'x', '+' + v, '0' + v, v.swapcase(), v[1:],
            '\u00a0' + v, v + '.0', v + '\u0301'][i % 15]


def near_name(q, i):
    """Names that differ in the namespace or the case only."""
    ns, _, local = q.rpartition('}')
    return [local, '{urn:c}' + local, '{urn:a}' + local, ns + '}' * bool(ns) + local.swapcase(), ns + '}' * bool(ns) + local + '_'][i % 5]


def mutate(tree, muts, tags, attrs, texts=JUNK_TEXT, root_ok=True):
    """Applies mutations to a copy of the tree."""
    root = tree.copy()

    def pairs():
        return [(p, i) for p in root.walk() for i in range(len(p.children))]

    for m in muts:
        nodes = list(root.walk())
        ps = pairs()
        n = nodes[m.a % len(nodes)]
        op = m.op
        if op in (0, 1, 2, 3, 4, 5, 12, 13) and not ps:
            op = 6 + m.op % 3
        if op == 0:
            p, i = ps[m.a % len(ps)]
            del p.children[i]
        elif op == 1:
            p, i = ps[m.a % len(ps)]
            p.children.insert(m.b % (len(p.children) + 1), p.children[i].copy())
        elif op in (2, 13):
            p, i = ps[m.a % len(ps)]
            c = p.children.pop(i)
            p.children.insert(m.b % (len(p.children) + 1), c)
        elif op == 3:
            p, i = ps[m.a % len(ps)]
            c = p.children.pop(i)
            target = list(root.walk())[m.b % root.size()]
            target.children.insert(m.c % (len(target.children) + 1), c)
        elif op == 4:
            p, i = ps[m.a % len(ps)]
            p.children[i].tag = tags[m.b % len(tags)]
        elif op == 5:
            p, i = ps[m.a % len(ps)]
            p.children[i].tail = texts[m.b % len(texts)]
        elif op == 6:
            n.text = texts[m.b % len(texts)]
        elif op == 7:
            n.attrs[attrs[m.b % len(attrs)]] = texts[m.c % len(texts)]
        elif op == 8:
            n.children.insert(m.b % (len(n.children) + 1), Node(tags[m.c % len(tags)], {}, texts[(m.b * 7 + m.c) % len(texts)]))
        elif op == 9:
            if n.attrs:
                del n.attrs[sorted(n.attrs)[m.b % len(n.attrs)]]
            else:
                n.text = ''
        elif op == 10:
            if n.attrs:
                n.attrs[sorted(n.attrs)[m.b % len(n.attrs)]] = texts[m.c % len(texts)]
            else:
                n.text = texts[m.c % len(texts)]
        elif op == 11:
            n.attrs[XSI_NIL] = ['true', 'false', '1', '0', '', 'TRUE', ' true '][m.b % 7]
        elif op == 12:
            p, i = ps[m.a % len(ps)]
            p.children.reverse()
        elif op == 14:
            n.children.insert(m.b % (len(n.children) + 1), Node(tags[m.c % len(tags)]))
        elif op == 15:
            n.text = ''
            if m.b % 2:
                n.children = []
        elif op == 16 and (ns := [x for x in nodes if x.attrs]):
            n = ns[m.a % len(ns)]
            k = sorted(n.attrs)[m.b % len(n.attrs)]
            n.attrs[k] = near(n.attrs[k], m.c)
        elif op == 17:
            ns = [x for x in nodes if x.text] or nodes
            n = ns[m.a % len(ns)]
            n.text = near(n.text, m.c)
        elif op == 18 and ps:
            p, i = ps[m.a % len(ps)]
            p.children[i].tag = near_name(p.children[i].tag, m.b)
        elif op == 19 and (ns := [x for x in nodes if x.attrs]):
            n = ns[m.a % len(ns)]
            k = sorted(n.attrs)[m.b % len(n.attrs)]
            v = n.attrs.pop(k)
            n.attrs[near_name(k, m.c)] = v
        elif op == 20 and (ns := [x for x in nodes if x.attrs]):
            # the same name in another namespace
            n = ns[m.a % len(ns)]
            k = sorted(n.attrs)[m.b % len(n.attrs)]
            uris = [u for u in sorted({split(a)[0] or '' for a in attrs} | set(URIS)) if u != XML_NS]
            twin = clark(uris[m.c % len(uris)], split(k)[1])
            if twin not in n.attrs:
                old = dict(n.attrs)
                if m.b % 2:
                    n.attrs.clear()
                n.attrs[twin] = texts[m.c % len(texts)] if m.c % 3 else old[k] + 'x'
                n.attrs.update(old)
    if not root_ok:
        root.tag = tree.tag
    return root


@st.composite
def random_trees(draw, tags, attrs, depth=3):
    n = Node(draw(st.sampled_from(tags)))
    for _ in range(draw(st.sampled_from([0, 0, 1, 2]))):
        n.attrs[draw(st.sampled_from(attrs))] = draw(st.sampled_from(JUNK_TEXT))
    n.text = draw(st.sampled_from(JUNK_TEXT))
    if depth:
        for _ in range(draw(st.sampled_from([0, 1, 2, 3]))):
            c = draw(random_trees(tags, attrs, depth - 1))
            c.tail = draw(st.sampled_from(['', '', '', '\n', 'tail']))
            n.children.append(c)
    return n


tapes = st.lists(st.integers(0, 11), max_size=60)

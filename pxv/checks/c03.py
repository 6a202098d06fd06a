"""Primitive values in every location."""
import datetime

import pydantic
from pydantic_core import PydanticSerializationError
from ..common import *
from ..gen import ALL_PRIMS, PRIM, xml_text, REP_UNIONS
from ..live import load
from ..spec import PRIM_SRC

RULE = ('Every primitive type at every location (attribute, element, text, list, set, tuple and named tuple item, mapping and typed dict '
        'value, wrapped leaf, root, computed, nillable, optional) with generated values; the text found in the document by an independent '
        'parser is the text of the value in pydantic JSON mode (TypeAdapter), and reading it back gives an equal value. Non-trivial: a '
        '(type, location, value) triple whose text is not empty.')


def UTC(*a):
    return datetime.datetime(*a, tzinfo=datetime.timezone.utc)


EXTRA = {
    'intenum': ("Num", 'class Num(enum.IntEnum):\n    ONE = 1\n    MINUS = -2\n', lambda ns: [ns['Num'].ONE, ns['Num'].MINUS]),
    'mixenum': ("Mix", 'class Mix(enum.Enum):\n    A = "x<y"\n    B = "1"\n', lambda ns: [ns['Mix'].A, ns['Mix'].B]),
    'boolser': ("Annotated[bool, PlainSerializer(lambda v: 'yes' if v else 'no', return_type=str), "
                "BeforeValidator(lambda v: {'yes': True, 'no': False}.get(v, v))]", '', lambda ns: [True, False]),
    'booljson': ("Annotated[int, PlainSerializer(lambda v: v > 0, return_type=bool), BeforeValidator(lambda v: {'true': 1, 'false': 0}.get(v, v))]",
                 '', lambda ns: [1, 0]),
    'wrapser': ("Annotated[str, pydantic.WrapSerializer(lambda v, h: '<' + h(v) + '>', return_type=str), "
                "BeforeValidator(lambda v: v[1:-1] if v.startswith('<') else v)]", '', lambda ns: ['a', 'b&', 'c d']),
    'jsononly': ("Annotated[int, PlainSerializer(lambda v: 'n%d' % v, return_type=str, when_used='json'), "
                 "BeforeValidator(lambda v: v[1:] if isinstance(v, str) else v)]", '', lambda ns: [0, 7, -1]),
    'intlit': ('Literal["1", "two", "3 4"]', '', lambda ns: ['1', 'two', '3 4']),
    'optint': ('Optional[int]', '', lambda ns: [0, 5, None]),
    'secret': ('pydantic.NonNegativeInt', '', lambda ns: [0, 12]),
    'strenum': ('Word', 'class Word(enum.StrEnum):\n    A = "a&b"\n    ONE = "1"\n', lambda ns: list(ns['Word'])),
    'path': ('pathlib.Path', 'import pathlib\n', lambda ns: [ns['pathlib'].Path('/a b/c'), ns['pathlib'].Path('x')]),
    'ip6': ('ipaddress.IPv6Address', 'import ipaddress\n', lambda ns: [ns['ipaddress'].ip_address('::1'), ns['ipaddress'].ip_address('fe80::1:2')]),
    'net': ('ipaddress.IPv4Network', 'import ipaddress\n', lambda ns: [ns['ipaddress'].ip_network('10.0.0.0/8')]),
    'fraction': ('fractions.Fraction', 'import fractions\n', lambda ns: [ns['fractions'].Fraction(1, 3), ns['fractions'].Fraction(4)]),
    'dsn': ('pydantic.PostgresDsn', '', lambda ns: [pydantic.PostgresDsn('postgres://u:p@h:1,g:2/x?a=b&c=d')]),
    'bytesize': ('pydantic.ByteSize', '', lambda ns: [0, 1024]),
    'b64': ('pydantic.Base64Str', '', lambda ns: ['YSZi', 'eA==']),
    'aware': ('pydantic.AwareDatetime', '', lambda ns: [UTC(2020, 1, 2, 3, 4, 5), UTC(1, 2, 3, 4, 5, 6, 7)]),
    'jsonint': ('pydantic.Json[int]', '', lambda ns: ['5', '-1']),
    'jsonbool': ('pydantic.Json[bool]', '', lambda ns: ['true', 'false']),
    'alias': ('Al', 'type Al = int\n', lambda ns: [0, 4]),
    'hidden': ('pydantic.SecretStr', '', lambda ns: ['abc', 'x']),
    'uuid4': ('pydantic.UUID4', '', lambda ns: ['f47ac10b-58cc-4372-a567-0e02b2c3d479']),
    'finite': ('pydantic.FiniteFloat', '', lambda ns: [0.0, 1.5, -2e30]),
    'nonfinite': ('float', '', lambda ns: [float('inf'), float('-inf')]),
    'multi': ('Annotated[Annotated[int, Field(ge=-9)], BeforeValidator(lambda v: v), AfterValidator(lambda v: v)]', '', lambda ns: [-9, 0, 3]),
    'cdec': ("Annotated[Decimal, Field(max_digits=8, decimal_places=2)]", '', lambda ns: [__import__('decimal').Decimal('1.50'), __import__('decimal').Decimal('-3')]),
    'newtype': ('NewT', "NewT = NewType('NewT', int)\n", lambda ns: [0, 3]),
    'any': ('Union[int, None]', '', lambda ns: [None, 0, 4]),
}
CONFIGS = ['', "ser_json_timedelta='float'", "use_enum_values=True", "str_strip_whitespace=False", "ser_json_bytes='base64', val_json_bytes='base64'"]

# location -> (field declaration, how the value sits in it, path to its text)
LOCS = {
    'attr': ('    f: {t} = attr({n})\n', lambda v: {'f': v}, lambda r, n: r.attrs[n or 'f']),
    'elem': ('    f: {t} = element({n})\n', lambda v: {'f': v}, lambda r, n: r.children[0].text),
    'nil': ('    f: {t} = element({n}{c}nillable=True)\n', lambda v: {'f': v}, lambda r, n: r.children[0].text),
    'text': ('    f: {t}\n', lambda v: {'f': v}, lambda r, n: r.text),
    'list': ('    f: List[{t}] = element({n})\n', lambda v: {'f': [v, v]}, lambda r, n: r.children[1].text),
    'vtuple': ('    f: Tuple[{t}, ...] = element({n})\n', lambda v: {'f': (v, v)}, lambda r, n: r.children[1].text),
    'tuple': ('    f: Tuple[int, {t}] = element({n})\n', lambda v: {'f': (1, v)}, lambda r, n: r.children[1].text),
    'named': ('    f: NT = element({n})\n', lambda v: {'f': (v, 1)}, lambda r, n: r.children[0].text),
    'dict': ('    f: Dict[str, {t}]\n', lambda v: {'f': {'k': v}}, lambda r, n: r.attrs['k']),
    'dictelem': ('    f: Dict[str, {t}] = element({n})\n', lambda v: {'f': {'k': v}}, lambda r, n: r.children[0].attrs['k']),
    'tdict': ('    f: TD\n', lambda v: {'f': {'k': v}}, lambda r, n: r.attrs['k']),
    'listdict': ('    f: List[Dict[str, {t}]] = element({n})\n', lambda v: {'f': [{'k': v}]}, lambda r, n: r.children[0].attrs['k']),
    'wattr': ('    f: {t} = wrapped("a/b", attr({n}))\n', lambda v: {'f': v}, lambda r, n: r.children[0].children[0].attrs[n or 'f']),
    'welem': ('    f: {t} = wrapped("a", element({n}))\n', lambda v: {'f': v}, lambda r, n: r.children[0].children[0].text),
    'wtext': ('    f: {t} = wrapped("a")\n', lambda v: {'f': v}, lambda r, n: r.children[0].text),
    'sub': ('    f: Sub = element({n})\n', lambda v: {'f': v}, lambda r, n: r.children[0].attrs['g']),
    'root': ('    f: Root = element({n})\n', lambda v: {'f': v}, lambda r, n: r.children[0].text),
    'cattr': ('    g: {t} = Field(default=None, exclude=True)\n    @computed_attr\n    @property\n    def f(self) -> {t}: return self.g\n',
              lambda v: {'g': v}, lambda r, n: r.attrs['f']),
    'celem': ('    g: {t} = Field(default=None, exclude=True)\n    @computed_element\n    @property\n    def f(self) -> {t}: return self.g\n',
              lambda v: {'g': v}, lambda r, n: r.children[0].text),
    'ctext': ('    g: {t} = attr(default=None, exclude=True)\n    @computed_field\n    @property\n    def f(self) -> {t}: return self.g\n',
              lambda v: {'g': v}, lambda r, n: r.text),
}
NOHASH = ()


@dataclass(frozen=True)
class Prim3:
    kind: str
    arg: Any
    loc: str
    name: Any
    config: str
    value: Any
    serializer: int     # 0 none, 1 field_serializer plain, 2 field_serializer json only, 3 wrap


def src_of(c):
    if c.kind in EXTRA:
        t, pre = EXTRA[c.kind][:2]
    elif c.kind == 'literal':
        t, pre = 'Literal[%s]' % ', '.join(map(repr, c.arg)), ''
    elif c.kind == 'union':
        t, pre = 'Union[%s]' % ', '.join(PRIM_SRC[x] for x in c.arg), ''
    else:
        t, pre = PRIM_SRC[c.kind], ''
    cfg = '    model_config = ConfigDict(%s)\n' % c.config if c.config else ''
    n = repr(c.name) if c.name else ''
    out = pre + 'T = %s\n' % t
    out += 'class NT(NamedTuple):\n    a: T\n    b: int\n' if c.loc == 'named' else ''
    out += 'class TD(TypedDict):\n    k: T\n' if c.loc == 'tdict' else ''
    out += 'class Sub(BaseXmlModel):\n%s    g: T = attr()\n' % cfg if c.loc == 'sub' else ''
    out += 'class Root(RootXmlModel):\n%s    root: T\n' % cfg if c.loc == 'root' else ''
    out += 'class M(BaseXmlModel, tag="m"):\n' + cfg + LOCS[c.loc][0].format(t='T', n=n, c=', ' if n else '')
    if c.serializer == 1:
        out += "    @field_serializer('f')\n    def s(self, v): return 'ser:%s' % (v,)\n"
    elif c.serializer == 2:
        out += "    @field_serializer('f', when_used='json')\n    def s(self, v): return 'ser:%s' % (v,)\n"
    elif c.serializer == 3:
        out += "    @field_serializer('f', mode='wrap')\n    def s(self, v, nxt): return 'ser:%s' % (nxt(v),)\n"
    return out


_ns = {}


def check(c, T):
    from ..live import load
    src = src_of(c)
    ns = _ns.get(src)
    if ns is None:
        if len(_ns) > 400:
            _ns.clear()
        try:
            ns = _ns[src] = guarded(load, src)
        except Exception as e:
            raise DefinitionFailed(e) from e
    v = c.value
    if c.kind in EXTRA:
        vals = EXTRA[c.kind][2](ns)
        v = vals[c.value % len(vals)]
    decl, place, find = LOCS[c.loc]
    if c.loc == 'sub':
        kw = {'f': ns['Sub'](g=v)}
    elif c.loc == 'root':
        kw = {'f': ns['Root'](v)}
    elif c.loc == 'named':
        kw = {'f': ns['NT'](v, 1)}
    else:
        kw = place(v)
    inst = ns['M'](**kw)
    owner, attr = (inst.f, 'g') if c.loc == 'sub' else (inst.f, 'root') if c.loc == 'root' else (inst, 'f')
    # oracle: pydantic's JSON-mode data of the model that holds the value
    try:
        enc = owner.model_dump(mode='json', warnings=False)
    except PydanticSerializationError:
        T.count('pydantic has no JSON form')
        return
    enc = enc if c.loc == 'root' else enc.get(attr)
    if not c.serializer:
        while isinstance(enc, (list, dict)):
            enc = {'named': lambda e: e[0]}.get(c.loc, lambda e: e[-1])(enc) if isinstance(enc, list) else enc['k']
    want = '' if enc is None else ('true' if enc else 'false') if isinstance(enc, bool) else str(enc)
    docs = [guarded(inst.to_xml, encoding='unicode'), guarded(inst.to_xml)]
    for doc in docs:
        try:
            got = find(tparse(doc), c.name)
        except (IndexError, KeyError):
            got = None
        if v is None and got is None and c.loc in ('welem', 'wtext', 'wattr'):
            continue    # no path is created for None
        if got != want:
            raise Violation('the text written is not that of the JSON-mode value', source=src, value=lit(v), location=c.loc,
                            expected=repr(want), actual=repr(got), document=repr(doc))
    T.count('loc:' + c.loc)
    T.count('type:' + c.kind)
    if want:
        T.nontrivial(src, want)
        T.sample('%s# %s -> %s' % (src, lit(v), docs[0]))
    if c.serializer or c.kind == 'hidden' or c.loc in ('cattr', 'celem', 'ctext') or 'json' in c.config or c.kind == 'booljson' and want not in ('true', 'false'):
        return
    if want == '' and not (c.loc in ('attr', 'wattr', 'dict', 'dictelem', 'tdict', 'listdict', 'sub') and v == ''):
        return      # empty text stands for None (C28)
    if want == '' or (v is None):
        return
    for doc in docs:
        back = outcome(ns['M'].from_xml, doc)
        if back.kind != 'ok' or not same(back.value, inst):
            raise Violation('the value is not read back', source=src, value=lit(v), document=repr(doc), expected=show(inst), actual=back)


@st.composite
def prims(draw):
    kind = draw(st.sampled_from(ALL_PRIMS + ['union', 'union'] + sorted(EXTRA)))
    loc = draw(st.sampled_from(sorted(LOCS)))
    arg = None
    if kind in ('union', 'bytesize') and loc in ('dict', 'dictelem', 'tdict', 'listdict'):
        loc = 'elem'        # mapping values of a union type are rejected by the library
    if kind == 'literal':
        arg = draw(st.sampled_from([('a', 'b c'), ('x<&>', 'y"\''), ('only',)]))
        v = draw(st.sampled_from(arg))
    elif kind == 'union':
        arg = draw(st.sampled_from(REP_UNIONS))
        v = draw(PRIM[draw(st.sampled_from(arg))])
    elif kind in EXTRA:
        v = draw(st.integers(0, 5))
    elif kind in ('str', 'bytes', 'strictstr'):
        v = draw(xml_text(1 if kind == 'strictstr' else 0, max_size=12))
        v *= draw(st.sampled_from([1, 1, 1, 1, 1, 1, 1, 40, 900]))       # now and then longer than any buffer
        v = v.encode() if kind == 'bytes' else v
    else:
        v = draw(PRIM[kind])
    name = draw(st.sampled_from([None, None, 'n-1', 'x.y']))
    if loc in ('text', 'wtext', 'dict', 'tdict', 'cattr', 'celem', 'ctext'):
        name = None
    config = draw(st.sampled_from(CONFIGS)) if draw(st.integers(0, 3)) == 0 else ''
    if loc == 'named' and kind in ('hexint', 'boolser', 'booljson', 'wrapser', 'jsononly', 'b64', 'fraction', 'bytesize', 'dsn', 'path', 'net', 'ip6'):
        loc = 'tuple'       # pydantic itself does not run custom serializers inside named tuples
    if loc in ('sub', 'root', 'named') and 'enum' in config:
        config = ''
    ser = draw(st.integers(1, 3)) if loc in ('attr', 'elem', 'text', 'wattr', 'welem', 'wtext', 'nil') and draw(st.integers(0, 7)) == 0 else 0
    return Prim3(kind, arg, loc, name, config, v, ser)


def parts():
    return [Part('locations', prims, check, 3000)]

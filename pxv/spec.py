"""Model programs as data, and their rendering as Python source."""
from dataclasses import dataclass, replace
from typing import Any, Optional, Tuple
import datetime as dt
import decimal
import enum
import uuid

from .tree import Node

NODEF = ('none',)


@dataclass(frozen=True)
class Prim:
    kind: str
    arg: Any = None


@dataclass(frozen=True)
class Opt:
    t: Any


@dataclass(frozen=True)
class PUnion:
    ts: tuple


@dataclass(frozen=True)
class ModelRef:
    name: str
    arg: Any = None         # generic argument: rendered as name[arg]
    fwd: bool = False       # rendered as a forward reference


@dataclass(frozen=True)
class MUnion:
    names: tuple


@dataclass(frozen=True)
class TUnion:
    names: tuple
    disc: str


@dataclass(frozen=True)
class Seq:
    kind: str           # list set frozenset vtuple
    item: Any


@dataclass(frozen=True)
class Tup:
    items: tuple
    named: Optional[str] = None


@dataclass(frozen=True)
class Dct:
    k: Any
    v: Any


@dataclass(frozen=True)
class TDct:
    name: str
    items: tuple        # (key, Prim, required)
    aliases: tuple = () # (key, attribute name, validation key, declaration)

    def names(self):
        """Of every key: its own name, that of its attribute, and the one it is validated under."""
        own = {a[0]: a[:3] for a in self.aliases}
        return tuple(own.get(k, (k, k, k)) for k, _, _ in self.items)


@dataclass(frozen=True)
class Raw:
    pass


@dataclass(frozen=True)
class Ent:
    kind: str                   # attr elem wrap
    name: Optional[str] = None  # name, tag or path
    ns: Optional[str] = None
    nsmap: Optional[tuple] = None
    nillable: Optional[bool] = None
    inner: Optional['Ent'] = None


@dataclass(frozen=True)
class Field:
    name: str
    type: Any
    ent: Optional[Ent] = None
    alias: Optional[str] = None
    default: tuple = NODEF        # ('none',) | ('val', v) | ('factory', 'list', v)
    exclude: bool = False
    noxml: bool = False
    computed: Optional[str] = None  # property body expression
    kw: str = ''                  # extra keyword source for the field call
    salias: Optional[str] = None  # serialization_alias only
    valias: Optional[str] = None  # validation_alias only
    xif: bool = False             # excluded when its value is blank


@dataclass(frozen=True)
class Model:
    name: str
    fields: Tuple[Field, ...] = ()
    tag: Optional[str] = None
    ns: Optional[str] = None
    nsmap: Optional[tuple] = None
    ns_attrs: Optional[bool] = None
    skip_empty: Optional[bool] = None
    search_mode: Optional[str] = None
    bases: Tuple[str, ...] = ()
    root: bool = False
    config: tuple = ()
    body: str = ''              # extra class body source


@dataclass(frozen=True)
class Universe:
    models: Tuple[Model, ...]
    top: str
    pre: str = ''

    def get(self, name):
        for m in self.models:
            if m.name == name:
                return m
        raise KeyError(name)


@dataclass(frozen=True)
class MV:
    """Value of a model type: field values in order, absent fields are left to their default."""
    model: str
    values: tuple           # ((field, value), ...)

    def dict(self):
        return dict(self.values)


@dataclass(frozen=True)
class RV:
    """Raw element value."""
    xml: str


@dataclass(frozen=True)
class NTV:
    name: str
    items: tuple


class Color(str, enum.Enum):
    RED = 'red'
    DEEP_BLUE = 'deep blue'
    AMP = 'a&b<c>'


class Level(enum.Enum):
    LOW = 'low'
    HIGH = 'HIGH'


def lit(v):
    """Python source for a value."""
    if isinstance(v, enum.Enum):
        return f'{type(v).__name__}.{v.name}'
    if isinstance(v, (str, bytes, bool, int, type(None))):
        return repr(v)
    if isinstance(v, float):
        return repr(v) if v == v and abs(v) != float('inf') else f'float({str(v)!r})'
    if isinstance(v, decimal.Decimal):
        return f'Decimal({str(v)!r})'
    if isinstance(v, uuid.UUID):
        return f'UUID({str(v)!r})'
    if isinstance(v, (dt.datetime, dt.date, dt.time, dt.timedelta, dt.timezone)):
        return repr(v)
    if isinstance(v, MV):
        return '%s(%s)' % (v.model, ', '.join(f'{k}={lit(x)}' for k, x in v.values))
    if isinstance(v, NTV):
        return '%s(%s)' % (v.name, ', '.join(map(lit, v.items)))
    if isinstance(v, RV):
        return f'fromstring({v.xml!r})'
    if isinstance(v, list):
        return '[' + ', '.join(map(lit, v)) + ']'
    if isinstance(v, tuple):
        return '(' + ', '.join(map(lit, v)) + (',' if len(v) == 1 else '') + ')'
    if isinstance(v, frozenset):
        return 'frozenset([' + ', '.join(map(lit, sorted(v, key=repr))) + '])'
    if isinstance(v, set):
        return '{' + ', '.join(map(lit, sorted(v, key=repr))) + '}' if v else 'set()'
    if isinstance(v, dict):
        return '{' + ', '.join(f'{lit(k)}: {lit(x)}' for k, x in v.items()) + '}'
    return repr(v)


HEADER = '''\
import datetime
import enum
from datetime import date, time, timedelta, timezone
from decimal import Decimal
from ipaddress import IPv4Address
from typing import *
from typing import Annotated
from uuid import UUID
import pydantic
from pydantic import (AliasChoices, AnyUrl, BaseModel, BeforeValidator, AfterValidator, ConfigDict, Field, PlainSerializer, StringConstraints,
                      ValidationError, WrapValidator, field_serializer, field_validator, model_validator, computed_field)
from typing_extensions import TypedDict, NotRequired
import pydantic_xml
from pydantic_xml import *
from pydantic_xml import create_model as xml_create_model
from pydantic_xml.fields import NoXml, XmlFieldSerializer, XmlFieldValidator
from pydantic_xml.element.native import ElementT as Element
from pydantic_xml.element.native import etree
fromstring = etree.fromstring

def echo(v):
    if not v.startswith('ok'):
        raise ValueError('no ' + v)
    return v

def blank(v):
    return not hasattr(v, 'tag') and not v

class Color(str, enum.Enum):
    RED = 'red'
    DEEP_BLUE = 'deep blue'
    AMP = 'a&b<c>'

class Level(enum.Enum):
    LOW = 'low'
    HIGH = 'HIGH'
'''

PRIM_SRC = {
    'str': 'str', 'int': 'int', 'float': 'float', 'bool': 'bool', 'bytes': 'bytes',
    'decimal': 'Decimal', 'date': 'date', 'datetime': 'datetime.datetime', 'time': 'time',
    'timedelta': 'timedelta', 'uuid': 'UUID', 'color': 'Color', 'level': 'Level', 'url': 'AnyUrl',
    'ip': 'IPv4Address', 'posint': 'Annotated[int, Field(ge=0, le=99)]',
    'short': "Annotated[str, StringConstraints(min_length=1, max_length=4)]",
    'pat': "Annotated[str, StringConstraints(pattern=r'^[a-z]+$')]",
    'upper': 'Annotated[str, BeforeValidator(lambda v: v.upper() if isinstance(v, str) else v)]',
    'hexint': "Annotated[int, BeforeValidator(lambda v: int(v, 16) if isinstance(v, str) else v), "
              "PlainSerializer(lambda v: format(v, 'x'), return_type=str)]",
    'echo': 'Annotated[str, AfterValidator(echo)]',
    'strictstr': 'Annotated[str, Field(strict=True)]',
}


def type_src(t):
    if isinstance(t, Prim):
        if t.kind == 'literal':
            return 'Literal[%s]' % ', '.join(map(repr, t.arg))
        if t.kind == 'src':
            return t.arg
        return PRIM_SRC[t.kind]
    if isinstance(t, Opt):
        return f'Optional[{type_src(t.t)}]'
    if isinstance(t, PUnion):
        return 'Union[%s]' % ', '.join(map(type_src, t.ts))
    if isinstance(t, ModelRef):
        if t.fwd:
            return repr(t.name)
        return t.name if t.arg is None else f'{t.name}[{type_src(t.arg)}]'
    if isinstance(t, MUnion):
        return 'Union[%s]' % ', '.join(t.names)
    if isinstance(t, TUnion):
        return 'Annotated[Union[%s], Field(discriminator=%r)]' % (', '.join(t.names), t.disc)
    if isinstance(t, Seq):
        s = type_src(t.item)
        return {'list': f'List[{s}]', 'set': f'Set[{s}]', 'frozenset': f'FrozenSet[{s}]', 'vtuple': f'Tuple[{s}, ...]'}[t.kind]
    if isinstance(t, Tup):
        return t.named or 'Tuple[%s]' % ', '.join(map(type_src, t.items))
    if isinstance(t, Dct):
        return f'Dict[{type_src(t.k)}, {type_src(t.v)}]'
    if isinstance(t, TDct):
        return t.name
    if isinstance(t, Raw):
        return 'Element'
    raise TypeError(t)


def subtypes(t):
    yield t
    if isinstance(t, Opt):
        yield from subtypes(t.t)
    elif isinstance(t, PUnion):
        for x in t.ts:
            yield from subtypes(x)
    elif isinstance(t, Seq):
        yield from subtypes(t.item)
    elif isinstance(t, Tup):
        for x in t.items:
            yield from subtypes(x)
    elif isinstance(t, Dct):
        yield from subtypes(t.k)
        yield from subtypes(t.v)
    elif isinstance(t, TDct):
        for _, x, _ in t.items:
            yield from subtypes(x)
    elif isinstance(t, ModelRef) and t.arg is not None:
        yield from subtypes(t.arg)


def nsmap_src(m):
    return repr(dict(m)) if m is not None else 'None'


def ent_args(e):
    a = []
    if e.name is not None:
        a.append(repr(e.name))
    if e.kind == 'wrap' and e.inner is not None:
        a.append(ent_src(e.inner))
    if e.ns is not None:
        a.append(f'ns={e.ns!r}')
    if e.nsmap is not None:
        a.append(f'nsmap={nsmap_src(e.nsmap)}')
    if e.nillable is not None:
        a.append(f'nillable={e.nillable}')
    return a


def ent_src(e, extra=()):
    fn = {'attr': 'attr', 'elem': 'element', 'wrap': 'wrapped'}[e.kind]
    return '%s(%s)' % (fn, ', '.join(ent_args(e) + list(extra)))


def field_kwargs(f):
    kw = []
    if f.default[0] == 'val':
        kw.append(f'default={lit(f.default[1])}')
    elif f.default[0] == 'factory':
        kw.append(f'default_factory=lambda: {lit(f.default[1])}')
    if f.alias is not None:
        kw.append(f'alias={f.alias!r}')
    if f.salias is not None:
        kw.append(f'serialization_alias={f.salias!r}')
    if f.valias is not None:
        kw.append(f'validation_alias={f.valias!r}')
    if f.exclude:
        kw.append('exclude=True')
    if f.xif:
        kw.append('exclude_if=blank')
    if f.kw:
        kw.append(f.kw)
    return kw


def field_src(f):
    ts = type_src(f.type)
    if f.computed is not None:
        fn = {'attr': 'computed_attr', 'elem': 'computed_element', None: 'computed_field'}[f.ent.kind if f.ent else None]
        args = []
        if f.ent is not None:
            if f.ent.name is not None:
                args.append(('name=' if f.ent.kind == 'attr' else 'tag=') + repr(f.ent.name))
            args += ent_args(f.ent)[1 if f.ent.name is not None else 0:]
        if f.alias is not None:
            args.append(f'alias={f.alias!r}')
        deco = f'    @{fn}({", ".join(args)})\n' if args else f'    @{fn}\n'
        return f'{deco}    @property\n    def {f.name}(self) -> {ts}:\n        return {f.computed}\n'
    if f.noxml:
        ts = f'Annotated[{ts}, NoXml]'
    kw = field_kwargs(f)
    if f.ent is not None:
        return f'    {f.name}: {ts} = {ent_src(f.ent, kw)}\n'
    if not kw:
        return f'    {f.name}: {ts}\n'
    if f.default[0] == 'val' and len(kw) == 1:
        return f'    {f.name}: {ts} = {lit(f.default[1])}\n'
    return f'    {f.name}: {ts} = Field({", ".join(kw)})\n'


def model_params(m):
    p = []
    for k in ('tag', 'ns', 'ns_attrs', 'skip_empty'):
        v = getattr(m, k)
        if v is not None:
            p.append(f'{k}={v!r}')
    if m.nsmap is not None:
        p.append(f'nsmap={nsmap_src(m.nsmap)}')
    if m.search_mode is not None:
        p.append(f"search_mode='{m.search_mode}'")
    return p


def has_raw(m):
    return any(isinstance(t, Raw) for f in m.fields for t in subtypes(f.type))


def model_src(m):
    p = model_params(m)
    if has_raw(m) and not any(k == 'arbitrary_types_allowed' for k, _ in m.config):
        m = replace(m, config=m.config + (('arbitrary_types_allowed', True),))
    if m.root:
        f = m.fields[0]
        bases = ', '.join(m.bases) or ('RootXmlModel' if has_raw(m) or f.ent is not None else f'RootXmlModel[{type_src(f.type)}]')
        out = f'class {m.name}({", ".join([bases] + p)}):\n'
        if m.config:
            out += '    model_config = ConfigDict(%s)\n' % ', '.join(f'{k}={v!r}' for k, v in m.config)
        kw = field_kwargs(f)
        if f.ent is not None:
            out += f'    root: {type_src(f.type)} = {ent_src(f.ent, kw)}\n'
        elif kw:
            out += f'    root: {type_src(f.type)} = Field({", ".join(kw)})\n'
        elif has_raw(m):
            out += f'    root: {type_src(f.type)}\n'
        elif not m.config and not m.body:
            out += '    pass\n'
        return out + m.body
    out = f'class {m.name}({", ".join([*(m.bases or ("BaseXmlModel",)), *p])}):\n'
    body = ''
    if m.config:
        body += '    model_config = ConfigDict(%s)\n' % ', '.join(f'{k}={v!r}' for k, v in m.config)
    for f in m.fields:
        body += field_src(f)
    return out + (body + m.body or '    pass\n')


def universe_src(u):
    """Types that need a statement of their own are emitted just before the first model using them."""
    out, seen = u.pre, set()
    for m in u.models:
        for f in m.fields:
            for t in subtypes(f.type):
                if isinstance(t, Tup) and t.named and t.named not in seen:
                    seen.add(t.named)
                    out += f'class {t.named}(NamedTuple):\n' + ''.join(
                        f'    i{n}: {type_src(x)}\n' for n, x in enumerate(t.items)) + '\n'
                elif isinstance(t, TDct) and t.name not in seen:
                    seen.add(t.name)
                    kw = {k: d for k, _, _, d in t.aliases}
                    out += f'class {t.name}(TypedDict):\n'
                    for k, x, r in t.items:
                        s = 'Annotated[%s, Field(%s)]' % (type_src(x), kw[k]) if k in kw else type_src(x)
                        out += '    %s: %s\n' % (k, s if r else 'NotRequired[%s]' % s)
                    out += '\n'
        out += model_src(m) + '\n'
    return out

"""Parity with plain pydantic validation."""
from collections import Counter

from ..common import *
from ..gen import xml_text
from ..live import load
from ..tree import Node

TECHNIQUE = 'differential: each generated XML model has a plain pydantic twin that validates the same strings'
RULE = ('Generated models with constrained, custom-validated and defaulted fields at every location, nested models, collections, aliases, '
        'model configuration, field and model validators that record every call and read the validation context; the same class with plain '
        'pydantic fields validates the strings put into the document. Values, which fields are set, error types and locations, and the '
        'recorded validator calls must agree. Non-trivial: some field is present in the document.')
ASSUMPTIONS = ['documents are validated in lax mode whatever the strictness setting (from_xml passes strict=False)',
               "'after' and 'wrap' model validators of sub-models are not generated (known finding D39)"]

# type source, strings to try
TYPES = [
    ('int', ['1', '-7', '007', ' 5', '1.0', '1.5', 'x', '9' * 30]),
    ('Annotated[int, Field(ge=3, lt=10)]', ['3', '2', '10', '9', 'x']),
    ('Annotated[float, Field(multiple_of=0.5)]', ['1.5', '1.3', 'nan', 'inf', '1e3', 'x']),
    ('Annotated[float, Field(allow_inf_nan=False)]', ['inf', '1', 'nan']),
    ('Annotated[str, StringConstraints(min_length=2, max_length=4, pattern="^a")]', ['ab', 'a', 'abcde', 'bcd', 'aé']),
    ('Annotated[str, StringConstraints(strip_whitespace=True, to_upper=True)]', [' ab ', 'x', ' a']),
    ('Annotated[Decimal, Field(max_digits=4, decimal_places=2)]', ['1.25', '1.234', '12345', 'x', '1e1']),
    ('bool', ['true', 'false', '1', '0', 'yes', 'maybe', 'T']),
    ('date', ['2020-01-02', '2020-13-01', '0', 'x', '2020-01-02T00:00:00']),
    ('datetime.datetime', ['2020-01-02T03:04:05Z', '1600000000', '2020-01-02', 'x']),
    ('timedelta', ['P1DT2H', '3600', '1 day', 'x']),
    ('pydantic.PastDate', ['2020-01-01', '2999-01-01']),
    ('Color', ['red', 'RED', 'deep blue', 'x']),
    ('Level', ['low', 'HIGH', 'LOW']),
    ('Num', ['1', '2', '01']),
    ('Literal["a", "b c"]', ['a', 'b c', 'A']),
    ('UUID', ['12345678123456781234567812345678', 'x', '{12345678-1234-5678-1234-567812345678}']),
    ('bytes', ['ab', 'é', ' ']),
    ('Union[int, str]', ['1', 'x', '1.0']),
    ('Union[float, bool]', ['1', 'true', '1.5', 'x']),
    ('Optional[int]', ['1', 'x']),
    ('AnyUrl', ['http://e.com', 'x', 'ftp://a/b c']),
    ('IPv4Address', ['1.2.3.4', '1.2.3', '0']),
    ('pydantic.SecretStr', ['pw', 'x']),
    ('Annotated[int, BeforeValidator(rec("before", lambda v: v.replace("_", "") if isinstance(v, str) else v))]', ['1_0', '5', '_']),
    ('Annotated[int, AfterValidator(rec("after", lambda v: v * 2))]', ['4', 'x', '-1']),
    ('Annotated[int, AfterValidator(rec("even", must_even))]', ['4', '5', 'x']),
    ('Annotated[str, WrapValidator(rec_wrap("wrap"))]', ['w', 'fail', 'skip']),
    ('Annotated[str, pydantic.PlainValidator(rec("plain", lambda v: v + "!"))]', ['p', 'q']),
    ('Annotated[int, BeforeValidator(ctx_before)]', ['1', '2', 'x']),
    ('Annotated[str, AfterValidator(ctx_after)]', ['a', 'b', 'forbidden']),
    ('NewInt', ['1', 'x']),
    ('pydantic.PositiveInt', ['1', '0', '-1']),
    ('Annotated[str, Field(max_length=3)]', ['abc', 'abcd', 'ab', 'éé']),
    ('pydantic.StrictInt', ['1', 'x']),
    ('pydantic.StrictBool', ['true', '1']),
    ('Annotated[int, Field(strict=True)]', ['1', 'x']),
]
PRE = '''
CALLS = []
NewInt = NewType('NewInt', int)
class Num(enum.IntEnum):
    ONE = 1
    TWO = 2
def log(*a):
    CALLS.append(repr(a))
CTX = [None]
def rec(name, fn):
    def f(v):
        log(name, v)
        return fn(v)
    return f
def must_even(v):
    if v % 2:
        raise ValueError('odd %d' % v)
    return v
def rec_wrap(name):
    def f(v, handler):
        log(name, v)
        if v == 'skip':
            return 'skipped'
        if v == 'fail':
            raise AssertionError('no')
        return handler(v).upper()
    return f
def ctx_before(v, info: pydantic.ValidationInfo):
    log('ctx', v, info.context, info.context is CTX[0])
    return v if not info.context else str(v) + str(info.context.get('suffix', ''))
def ctx_after(v, info: pydantic.ValidationInfo):
    log('ctxa', v, sorted((info.context or {}).items()), info.field_name, info.context is CTX[0])
    if v in (info.context or {}).get('deny', ()):
        raise pydantic_core.PydanticCustomError('denied', 'denied value')
    return v
'''
CONFIGS = ["str_strip_whitespace=True", "str_to_lower=True", "str_max_length=3", "use_enum_values=True", "validate_default=True",
           "populate_by_name=True", "extra='allow'", "frozen=True", "coerce_numbers_to_str=True", "strict=True",
           "validate_by_alias=False, validate_by_name=True", "alias_generator=lambda n: n.upper()", "validate_assignment=True",
           "str_min_length=2", "allow_inf_nan=False", "regex_engine='python-re'", "arbitrary_types_allowed=True"]
FV = [
    "    @field_validator({f!r}, mode='before')\n    @classmethod\n    def v{i}(cls, v):\n        log('fv', {f!r}, v)\n        return v + '0' if isinstance(v, str) and v.isdigit() else v\n",
    "    @field_validator({f!r})\n    @classmethod\n    def v{i}(cls, v, info):\n        log('fva', {f!r}, v, sorted(info.data), info.context, info.context is CTX[0])\n        return v\n",
    "    @field_validator({f!r}, mode='wrap')\n    @classmethod\n    def v{i}(cls, v, handler):\n        log('fvw', {f!r}, v)\n        return handler(v)\n",
    "    @field_validator('*', mode='after')\n    @classmethod\n    def v{i}(cls, v):\n        log('fv*', v)\n        return v\n",
    "    @field_validator({f!r})\n    @classmethod\n    def v{i}(cls, v):\n        log('fvx', v)\n        if len(repr(v)) % 2:\n            raise ValueError('length')\n        return v\n",
]
MVS = [
    "    @model_validator(mode='before')\n    @classmethod\n    def mb(cls, data):\n        log('mb', cls.__name__, sorted(data) if isinstance(data, dict) else type(data).__name__)\n        return data\n",
    "    @model_validator(mode='after')\n    def ma(self):\n        log('ma', type(self).__name__, sorted(self.model_fields_set))\n        return self\n",
    "    @model_validator(mode='wrap')\n    @classmethod\n    def mw(cls, data, handler, info):\n        log('mw', cls.__name__, info.context, info.context is CTX[0])\n        return handler(data)\n",
    "    @model_validator(mode='after')\n    def mx(self):\n        log('mx')\n        if len(self.model_fields_set) % 2:\n            raise ValueError('odd number of fields')\n        return self\n",
    "    @model_validator(mode='before')\n    @classmethod\n    def md(cls, data):\n        if isinstance(data, dict):\n            data = {**data}\n            data.pop('f1', None)\n        return data\n",
    "    def model_post_init(self, ctx):\n        log('post', type(self).__name__, ctx, ctx is CTX[0])\n",
]
CONTEXTS = [None, {}, {'suffix': '1'}, {'deny': ('a',), 'suffix': 'x'}]
LOCS = ['attr', 'elem', 'elem', 'wrap', 'wattr', 'text']
FIELD_KW = ['', '', '', 'default=5', 'default=None', "default_factory=lambda: 'fac'", "default='abc', validate_default=True",
            "default_factory=lambda data: sorted(data)", "description='d', title='t'", 'default=None, exclude=True']


@dataclass(frozen=True)
class F:
    name: str
    type: int           # index into TYPES, or -1 - i for the i-th sub-model
    loc: str
    many: str           # '' list opt
    alias: str          # '', alias, valias, choices
    kw: str


@dataclass(frozen=True)
class M:
    name: str
    fields: tuple
    config: tuple
    body: tuple


@dataclass(frozen=True)
class Twins:
    models: tuple       # last one is the top
    docs: tuple         # nested data: {field: None | str | [str] | dict | [dict]}
    context: int


def names(f):
    """validation names tried, XML name"""
    return {'': f.name, 'alias': 'al' + f.name, 'valias': 'va' + f.name, 'choices': 'c1' + f.name}[f.alias]


def source(c, xml):
    out = PRE + 'import pydantic_core\n'
    for m in c.models:
        out += 'class %s(%s):\n' % (m.name, 'BaseXmlModel, tag=%r' % m.name.lower() if xml else 'BaseModel')
        if m.config:
            out += '    model_config = ConfigDict(%s)\n' % ', '.join(m.config)
        for f in m.fields:
            t = TYPES[f.type][0] if f.type >= 0 else c.models[-1 - f.type].name
            t = {'': t, 'list': 'List[%s]' % t, 'opt': 'Optional[%s]' % t}[f.many]
            kw = [f.kw] if f.kw else []
            if f.alias == 'alias':
                kw.append('alias=%r' % names(f))
            elif f.alias == 'valias':
                kw.append('validation_alias=%r' % names(f))
            elif f.alias == 'choices':
                kw.append("validation_alias=pydantic.AliasChoices(%r, 'c2')" % names(f))
            if not xml or f.loc == 'text':
                out += '    %s: %s = Field(%s)\n' % (f.name, t, ', '.join(kw))
            elif f.loc == 'attr':
                out += '    %s: %s = attr(%s)\n' % (f.name, t, ', '.join(["name='x%s'" % f.name] + kw))
            elif f.loc == 'elem':
                out += '    %s: %s = element(%s)\n' % (f.name, t, ', '.join(["tag='x%s'" % f.name] + kw))
            elif f.loc == 'wrap':
                out += '    %s: %s = wrapped(%s)\n' % (f.name, t, ', '.join(["'w%s', element(tag='x%s')" % (f.name, f.name)] + kw))
            else:
                out += '    %s: %s = wrapped(%s)\n' % (f.name, t, ', '.join(["'w%s', attr(name='x%s')" % (f.name, f.name)] + kw))
        out += ''.join(m.body)
        if not m.fields and not m.config and not m.body:
            out += '    pass\n'
    return out


def document(c, m, data, node):
    for f in m.fields:
        v = dict(data).get(f.name)
        if v is None:
            continue
        q = 'x' + f.name
        if f.loc == 'text':
            node.text = v
        elif f.loc == 'attr':
            node.attrs[q] = v
        elif f.loc == 'wattr':
            node.children.append(Node('w' + f.name, {q: v}))
        else:
            at = node
            if f.loc == 'wrap':
                at = Node('w' + f.name)
                node.children.append(at)
            for x in v if f.many == 'list' else [v]:
                k = Node(q)
                if f.type < 0:
                    document(c, c.models[-1 - f.type], x, k)
                else:
                    k.text = x
                at.children.append(k)
    return node


def plain_data(c, m, data):
    by_name = any('validate_by_alias=False' in x for x in m.config)
    gen = any('alias_generator' in x for x in m.config)
    out = {}
    for f in m.fields:
        v = dict(data).get(f.name)
        if v is None:
            continue
        key = f.name if by_name else f.name.upper() if gen and f.alias == '' else names(f)
        if f.type < 0:
            sub = c.models[-1 - f.type]
            out[key] = [plain_data(c, sub, x) for x in v] if f.many == 'list' else plain_data(c, sub, v)
        else:
            out[key] = list(v) if f.many == 'list' else v
    return out


_cache = {}


def check(c, T):
    key = source(c, True)
    got = _cache.get(key)
    if got is None:
        if len(_cache) > 20:
            _cache.clear()
        try:
            plain_ns = load(source(c, False))
        except Exception:
            T.count('pydantic rejects the definition')
            return
        try:
            got = _cache[key] = (plain_ns, guarded(load, key))
        except Exception as e:
            raise DefinitionFailed(e) from e
    pns, xns = got
    top = c.models[-1]
    pc, xc = pns[top.name], xns[top.name]
    ctx = CONTEXTS[c.context]
    for d in c.docs:
        doc = plain(document(c, top, d, Node(top.name.lower())))
        pns['CTX'][0] = xns['CTX'][0] = ctx
        pns['CALLS'].clear()
        xns['CALLS'].clear()
        want = outcome(pc.model_validate, plain_data(c, top, d), strict=False, context=ctx)
        have = outcome(xc.from_xml, doc, context=ctx)
        info = dict(source=key, document=doc, context=ctx, data=plain_data(c, top, d))
        if want.kind == 'crash':
            T.count('pydantic raises')
            continue
        T.count('outcome:' + want.kind)
        if want.kind != have.kind:
            raise Violation('parsing does not end like validating the same data', expected=want, actual=have, **info)
        if any(f.loc for f in top.fields) and d:
            T.nontrivial(key, doc, ctx)
            T.sample('%s\n# %s\n# -> %r' % (key.split('denied value')[1], doc, have))
        if want.kind == 'ok':
            a, b = describe(want.value), describe(have.value)
            if a != b:
                raise Violation('parsing gives another value than validating the same data', expected=a, actual=b, **info)
            if Counter(pns['CALLS']) != Counter(xns['CALLS']):
                raise Violation('validators are not called as when validating the same data', expected='\n'.join(sorted(pns['CALLS'])),
                                actual='\n'.join(sorted(xns['CALLS'])), **info)
        else:
            nested = any(len(e[0]) > 1 for e in have.errors) and any(f.type < 0 for f in top.fields)
            a = sorted(map(repr, ((e[0], e[1], e[2]) for e in want.errors)))
            b = sorted(map(repr, ((e[0], e[1], e[2]) for e in have.errors)))
            if not nested and not any(f.type < 0 for f in top.fields) and a != b:
                raise Violation('errors differ from those of validating the same data', expected='\n'.join(a), actual='\n'.join(b), **info)
            if {e[1] for e in have.errors} - {e[1] for e in want.errors}:
                raise Violation('an error type appears that validating the same data does not give', expected='\n'.join(a),
                                actual='\n'.join(b), **info)


def describe(x):
    if isinstance(x, pd.BaseModel):
        return '%s(%s|%s)' % (type(x).__name__, ', '.join('%s=%s' % (k, describe(v)) for k, v in x.__dict__.items()), sorted(x.model_fields_set))
    if isinstance(x, list):
        return '[%s]' % ', '.join(map(describe, x))
    if isinstance(x, pd.SecretStr):
        return 'Secret(%r)' % x.get_secret_value()
    return '%s:%r' % (type(x).__name__, x)


@st.composite
def twins(draw):
    n = draw(st.sampled_from([1, 1, 2, 3]))
    models = []
    for i in range(n):
        fields, text = [], False
        for j in range(draw(st.integers(1, 5))):
            sub = models and draw(st.integers(0, 2)) == 0
            t = -1 - draw(st.integers(0, len(models) - 1)) if sub else draw(st.integers(0, len(TYPES) - 1))
            loc = draw(st.sampled_from(['elem', 'wrap'] if sub else LOCS))
            if loc == 'text' and (text or False):
                loc = 'attr'
            text = text or loc == 'text'
            many = draw(st.sampled_from(['', '', 'opt', 'list'] if loc in ('elem', 'wrap') else ['', '', 'opt']))
            kw = draw(st.sampled_from(FIELD_KW))
            alias = draw(st.sampled_from(['', '', '', 'alias', 'valias', 'choices']))
            fields.append(F('f%d' % j, t, loc, many, alias, kw))
        config = tuple(draw(st.lists(st.sampled_from(CONFIGS), max_size=2, unique=True)))
        config = tuple(x for x in config if not (x.startswith('alias_gen') and any('validate_by' in y for y in config)))
        if any('by_name' in x for x in config):
            config = tuple(x for x in config if 'alias_generator' not in x)
        body = ()
        if draw(st.integers(0, 2)) == 0:
            f = draw(st.sampled_from(fields))
            if f.type < 0:      # a sub-model arrives as an instance
                body += (FV[1].format(f=f.name, i=i),)
            else:
                body += (draw(st.sampled_from(FV)).format(f=f.name, i=i),)
        if draw(st.integers(0, 2)) == 0:
            # 'after' and 'wrap' model validators of sub-models run again on the instance (known finding D39)
            mvs = list(MVS) if i == n - 1 else [MVS[0], MVS[4], MVS[5]]
            if any(f.type < 0 for f in fields):
                mvs.remove(MVS[4])      # sub-models are validated before the model sees its data
            body += (draw(st.sampled_from(mvs)),)
        models.append(M('M%d' % i, tuple(fields), config, body))
    texts = st.one_of(xml_text(1, 5, cr=False))

    def string(t, attr):
        v = draw(st.sampled_from(TYPES[t][1])) if draw(st.integers(0, 5)) else draw(texts)
        return v

    def data(m, depth=0):
        out = []
        for f in m.fields:
            if draw(st.integers(0, 4)) == 0:
                continue
            if f.type < 0:
                sub = models[-1 - f.type]
                v = tuple(data(sub) for _ in range(draw(st.integers(1, 3)))) if f.many == 'list' else data(sub)
            else:
                v = tuple(string(f.type, False) for _ in range(draw(st.integers(1, 3)))) if f.many == 'list' else string(f.type, f.loc == 'attr')
            out.append((f.name, v))
        return tuple(out)
    docs = tuple(data(models[-1]) for _ in range(4))
    return Twins(tuple(models), docs, draw(st.integers(0, len(CONTEXTS) - 1)))



def d39():
    ns = load('class A(BaseXmlModel):\n    a: int = attr()\n'
              '    @model_validator(mode="after")\n    def inc(self):\n        self.a += 1\n        return self\n'
              'class B(BaseXmlModel):\n    a: A\n')
    got = ns['B'].from_xml('<B><a a="1"/></B>')
    return None if got.a.a == 2 else 'B.from_xml(\'<B><a a="1"/></B>\') gives %r' % got


PROBES = {'D39': d39}


def parts():
    return [Part('twins', twins, check, 700, 14000)]

"""Absent and empty content."""
import itertools

from pydantic_core import PydanticUndefined

from ..common import *
from ..live import load

TECHNIQUE = 'generated fields x states of their content against a direct oracle, metamorphic flag relations, and a reference model'
RULE = ('Models with fields of every primitive kind, required, optional, defaulted or with factories, as attribute, element, text or under '
        'wrapped paths, in the document root, a sub-model, items of a collection or a union alternative; every field gets a state of its '
        'content (absent, empty in six spellings, blank, valid, invalid) and the expected value or error is computed from the state alone; '
        'generated programs with emptied and removed parts against the reference, with both flag values; documents in which no element is '
        'empty must read the same with both flag values. Non-trivial: a document with an absent or empty part.')

# type -> (annotation, valid text, default source)
TYPES = {
    'int': ('int', '7', '3'), 'str': ('str', 'v w', "'d'"), 'bool': ('bool', 'true', 'False'), 'float': ('float', '1.5', '0.5'),
    'date': ('date', '2020-01-02', 'date(2000, 1, 1)'), 'color': ('Color', 'red', 'Color.AMP'), 'bytes': ('bytes', 'b', "b'd'"),
    'lit': ("Literal['', 'a']", 'a', "''"), 'lit2': ("Literal['a', 'b']", 'b', "'a'"), 'union': ('Union[int, str]', '5', '0'),
    'union2': ('Union[date, bool]', 'true', 'False'), 'short': ('Annotated[str, StringConstraints(min_length=1)]', 'q', "'d'"),
    'nonneg': ('Annotated[int, Field(ge=0)]', '4', '1'), 'decimal': ('Decimal', '1.5', "Decimal('2')"),
    'strip': ('Annotated[str, StringConstraints(strip_whitespace=True)]', ' s ', "'d'"), 'uuid': ('UUID', '0' * 32, 'UUID(int=1)'),
    'mark': ("Annotated[str, BeforeValidator(lambda v: '<%s>' % v)]", 'm', "'d'"),
}
MODES = ['req', 'def', 'factory', 'opt', 'optnone', 'optdef']
LOCS = ['attr', 'elem', 'elem', 'wattr', 'welem', 'wwelem', 'wtext', 'text', 'root']
STATES = ['absent', 'self', 'pair', 'comment', 'cdata', 'attronly', 'kid', 'blank', 'valid', 'bad', 'wabsent']
HOSTS = ['direct', 'sub', 'optsub', 'list', 'wrapsub', 'union', 'base', 'generic', 'tuple']


@dataclass(frozen=True)
class F:
    t: str
    mode: str
    loc: str
    state: tuple            # per host item
    ns: bool = False
    alias: bool = False


@dataclass(frozen=True)
class Table:
    host: str
    fields: tuple
    eas: bool
    order: bool
    config: str


@st.composite
def tables(draw):
    host = draw(st.sampled_from(HOSTS))
    n = draw(st.integers(1, 4))
    fs, used_text = [], False
    for i in range(n):
        loc = draw(st.sampled_from(LOCS))
        if loc == 'text':
            if used_text:
                loc = 'attr'
            used_text = True
        m = draw(st.sampled_from(MODES))
        kinds = [t for t in sorted(TYPES) if loc != 'root' or t != 'mark']
        fs.append(F(draw(st.sampled_from(kinds)), m, loc, tuple(draw(st.sampled_from(STATES)) for _ in range(2)),
                    draw(st.integers(0, 5)) == 0, draw(st.integers(0, 4)) == 0 and loc != 'root'))
    return Table(host, tuple(fs), draw(st.booleans()), draw(st.booleans()), draw(st.sampled_from(['', '', 'forbid', 'ordered', 'unordered'])))


def ann(f):
    a = TYPES[f.t][0]
    return 'Optional[%s]' % a if f.mode.startswith('opt') else a


def default(f):
    """Keyword source, or ''."""
    if f.mode == 'def' or f.mode == 'optdef':
        return 'default=' + TYPES[f.t][2]
    if f.mode == 'factory':
        return 'default_factory=lambda: ' + TYPES[f.t][2]
    if f.mode == 'optnone':
        return 'default=None'
    return ''


def field_src(i, f):
    kw = [x for x in (default(f), "alias='al%d'" % i if f.alias else '') if x]
    name = 'f%d' % i
    ns = ["ns='p'"] if f.ns else []

    def call(fn, *a):
        return '%s(%s)' % (fn, ', '.join(x for x in a if x))
    x = repr('x%d' % i)
    w = repr('w%d' % i)
    if f.loc == 'attr':
        e = call('attr', x, *ns, *kw)
    elif f.loc == 'elem':
        e = call('element', x, *ns, *kw)
    elif f.loc == 'wattr':
        e = call('wrapped', w, call('attr', x, *ns), *kw)
    elif f.loc == 'welem':
        e = call('wrapped', w, call('element', x, *ns), *kw)
    elif f.loc == 'wwelem':
        e = call('wrapped', repr('w%d/v' % i), call('element', x, *ns), *kw)
    elif f.loc == 'wtext':
        e = call('wrapped', w, *kw)
    elif f.loc == 'root':       # a root model under the field's own element
        return '    %s: %s = %s' % (name, 'Optional[R%d]' % i if f.mode.startswith('opt') else 'R%d' % i, call('element', x, *ns, *kw))
    else:
        e = 'Field(%s)' % ', '.join(kw) if kw else ''
    return '    %s: %s%s' % (name, ann(f), ' = ' + e if e else '')


def source(c):
    cfg = {'forbid': '', 'ordered': ", search_mode='ordered'", 'unordered': ", search_mode='unordered'"}.get(c.config, '')
    out = []
    for i, f in enumerate(c.fields):
        if f.loc == 'root':
            out.append('class R%d(RootXmlModel[%s]):\n    pass\n\n' % (i, ann(f)))
    body = '\n'.join(field_src(i, f) for i, f in enumerate(c.fields))
    if c.config == 'forbid':
        body = "    model_config = ConfigDict(extra='forbid')\n" + body
    ns = "nsmap={'p': 'urn:p'}"
    name = 'M' if c.host in ('direct',) else 'S'
    tag = 'm' if c.host in ('direct', 'base') else 's'
    if c.host == 'base':
        out.append('class S(BaseXmlModel, %s%s):\n%s\n\n\nclass M(S, tag="m", %s%s):\n    pass\n' % (ns, cfg, body, ns, cfg))
        return ''.join(out)
    if c.host == 'generic':
        body2 = body.replace('f0: ' + ('Optional[R0]' if c.fields[0].mode.startswith('opt') and c.fields[0].loc == 'root' else
                                       'R0' if c.fields[0].loc == 'root' else ann(c.fields[0])), 'f0: T', 1)
        arg = 'Optional[R0]' if c.fields[0].mode.startswith('opt') and c.fields[0].loc == 'root' else 'R0' if c.fields[0].loc == 'root' else ann(c.fields[0])
        out.append("T = TypeVar('T')\n\n\nclass S(BaseXmlModel, Generic[T], tag='m', %s%s):\n%s\n\n\nM = S[%s]\n" % (ns, cfg, body2, arg))
        return ''.join(out)
    out.append('class %s(BaseXmlModel, tag=%r, %s%s):\n%s\n\n\n' % (name, tag, ns, cfg, body))
    hosts = {'sub': 's: S', 'optsub': 's: Optional[S] = None', 'list': 's: List[S]', 'wrapsub': "s: S = wrapped('h')",
             'union': 's: Union[N, S]', 'tuple': 's: Tuple[S, N]'}
    if c.host in hosts:
        out.append('class N(BaseXmlModel, tag="n"):\n    n: int = attr()\n\n\nclass M(BaseXmlModel, tag="m"):\n    %s\n' % hosts[c.host])
    return ''.join(out)


def content(kind, valid):
    """(attributes, text markup, string value) of an element in the given state."""
    return {'self': ('', None, ''), 'pair': ('', '', ''), 'comment': ('', '<!--c-->', ''), 'cdata': ('', '<![CDATA[]]>', ''),
            'attronly': (' j="1"', None, ''), 'kid': ('', '<j/>', ''), 'blank': ('', ' ', ' '), 'valid': ('', valid, valid),
            'bad': ('', '~', '~')}[kind]


ABSENT = object()


def fragment(i, f, item):
    """(attributes of the parent, text of the parent, child markup, string value or ABSENT)."""
    s = f.state[item]
    p = 'p:' if f.ns else ''
    x = '%sx%d' % (p, i)
    valid = TYPES[f.t][1]
    in_attr = f.loc in ('attr', 'wattr')
    if s == 'wabsent' or (s == 'absent' and f.loc in ('wtext', 'text')):
        if f.loc == 'text':
            return '', '', '', ''
        return '', '', '', ABSENT
    if in_attr:
        val = {'absent': ABSENT, 'blank': ' ', 'valid': valid, 'bad': '~'}.get(s, '')
        a = '' if val is ABSENT else ' %s="%s"' % (x, val)
        if f.loc == 'attr':
            return a, '', '', val
        return '', '', '<w%d%s/>' % (i, a), val
    if s == 'absent':
        kid, val = '', ABSENT
    else:
        a, t, val = content(s, valid)
        if f.loc == 'text':
            if s in ('kid', 'attronly'):
                return '', '', '', ''
            return '', t or '', '', val
        tag = 'w%d' % i if f.loc == 'wtext' else x
        kid = '<%s%s%s' % (tag, a, '/>' if t is None else '>%s</%s>' % (t, tag))
    if f.loc == 'welem':
        kid = '<w%d>%s</w%d>' % (i, kid, i)
    elif f.loc == 'wwelem':
        kid = '<w%d><v>%s</v></w%d>' % (i, kid, i)
    return '', '', kid, val


def has_junk(c, items):
    return any(f.state[k] in ('kid', 'attronly') for f in c.fields for k in items if f.loc not in ('attr', 'wattr', 'text'))


def check_table(c, T):
    src = source(c)
    ns = guarded(load, src)
    M = ns['M']
    items = (0, 1) if c.host == 'list' else (0,)
    if c.config == 'forbid' and has_junk(c, items):
        T.count('unexpected parts in a forbidding model')
        return
    els, wants = [], []
    n_absent = 0
    for item in items:
        attrs = text = kids = ''
        frs = [fragment(i, f, item) for i, f in enumerate(c.fields)]
        order = list(frs)
        if c.order and c.config == 'unordered':
            order.reverse()
        attrs = ''.join(x[0] for x in frs)
        text = ''.join(x[1] for x in frs)
        kids = ''.join(x[2] for x in order)
        els.append((attrs, text + kids))
        want = {}
        for (f, fr), i in zip(zip(c.fields, frs), itertools.count()):
            raw = fr[3]
            if raw == '' and f.loc not in ('attr', 'wattr') and not c.eas:
                raw = ABSENT if f.loc != 'root' else 'EMPTY ROOT'
            n_absent += raw in (ABSENT, '', 'EMPTY ROOT')
            want['f%d' % i] = expected(f, raw, i, ns)
        wants.append(want)
    tag = 'm' if c.host in ('direct', 'base', 'generic') else 's'
    body = ''.join('<%s xmlns:p="urn:p"%s>%s</%s>' % (tag, a, b, tag) for a, b in els)
    doc = {'direct': body, 'base': body, 'generic': body, 'wrapsub': '<m><h>%s</h></m>' % body,
           'tuple': '<m>%s<n n="1"/></m>' % body}.get(c.host, '<m>%s</m>' % body)
    got = outcome(M.from_xml, doc, empty_as_string=c.eas)
    errors = []
    for item, want in zip(items, wants):
        pre = {'direct': (), 'base': (), 'generic': (), 'list': ('s', item), 'tuple': ('s', 0)}.get(c.host, ('s',))
        # failures inside nested models are reported before the model's own
        nested = [k for (k, w), f in zip(want.items(), c.fields) if w[0] == 'errors' and f.loc == 'root' and w[1] != [((), 'missing')]]
        for (k, w), f in zip(want.items(), c.fields):
            if w[0] == 'errors' and (k in nested or not nested):
                name = 'al' + k[1:] if f.alias else k
                errors += [(pre + (name,) + loc, typ) for loc, typ in w[1]]
    T.count('table: ' + ('invalid' if errors else 'ok'))
    if n_absent:
        T.nontrivial(src, doc, c.eas)
        T.sample('%s\n# empty_as_string=%s: %s\n# -> %r' % (src, c.eas, doc, got))
    if c.host == 'union' and errors:
        if got.kind != 'invalid':
            raise Violation('no alternative accepts the document, yet it is accepted', source=src, document=doc, empty_as_string=c.eas, got=repr(got))
        return
    if errors:
        mine = sorted((tuple(map(str, l)), t) for l, t in errors)
        if got.kind != 'invalid' or sorted((tuple(map(str, e[0])), e[1]) for e in got.errors) != mine:
            raise Violation('absent or empty content gives other errors', source=src, document=doc, empty_as_string=c.eas, expected=mine, got=repr(got))
        return
    if got.kind != 'ok':
        raise Violation('absent or empty content is rejected', source=src, document=doc, empty_as_string=c.eas, expected=wants, got=repr(got))
    tops = [got.value] if c.host in ('direct', 'base', 'generic') else got.value.s if c.host == 'list' else [
        got.value.s[0] if c.host == 'tuple' else got.value.s]
    if len(tops) != len(wants):
        raise Violation('another number of items', source=src, document=doc, got=repr(got))
    for inst, want in zip(tops, wants):
        for (k, w), f in zip(want.items(), c.fields):
            x = getattr(inst, k)
            if not same(w[1], x):
                raise Violation('absent or empty content gives another value of %s' % k, source=src, document=doc, empty_as_string=c.eas,
                                expected=show(w[1]), got=show(x))
            if (w[0] == 'default') != (k not in inst.model_fields_set):
                raise Violation('the field %s is %s as set' % (k, 'not reported' if w[0] != 'default' else 'reported'), source=src, document=doc,
                                empty_as_string=c.eas)


_ta = {}


def adapter(f):
    a = ann(f)
    if a not in _ta:
        from ..live import base_ns
        _ta[a] = pd.TypeAdapter(eval(a, dict(base_ns())))
    return _ta[a]


def expected(f, raw, i, ns):
    """('value' | 'default', x) or ('errors', [(loc, type)])"""
    R = ns.get('R%d' % i)
    if raw is ABSENT or (raw == 'EMPTY ROOT'):
        if raw == 'EMPTY ROOT':
            # the element is there: a root model of nothing
            return 'errors', root_missing(f)
        if f.mode in ('req', 'opt'):
            return 'errors', [((), 'missing')]
        if f.mode == 'optnone':
            return 'default', None
        from ..live import base_ns
        return 'default', eval(TYPES[f.t][2], dict(base_ns()))
    try:
        v = adapter(f).validate_python(raw)
    except pd.ValidationError as e:
        return 'errors', [(tuple(x['loc']), x['type']) for x in e.errors()]
    return 'value', R.model_construct(root=v) if f.loc == 'root' else v


def root_missing(f):
    """A root model of nothing fails as its root type does."""
    try:
        adapter(f).validate_python(PydanticUndefined)
    except pd.ValidationError as e:
        return [(tuple(x['loc']), x['type']) for x in e.errors()]
    raise AssertionError(f)


# --- generated programs

EMPTYING = [0, 0, 6, 9, 9, 14, 15, 15, 15]


def check_flag(c, T):
    """Where no element is empty, empty_as_string changes nothing."""
    L = live(c.u)
    tags, attrs = vocabulary(c.u, L.ref)
    for v, inst in instances(L, c, T):
        base = L.ref.to_tree(inst)
        for t in [base] + [mutate(base, m, tags, attrs) for m in c.muts]:
            for n in t.walk():
                if not n.text:
                    n.text = ['x', ' ', '1'][c.x % 3]
            a, b = L.sut_parse_tree(t), L.sut_parse_tree(t, empty_as_string=True)
            T.count('flag: ' + a.kind)
            if a.kind != b.kind or not matches([a], b):
                fail('empty_as_string changes how a document without empty elements reads', L, document=plain(t), without=a, with_=b)
            if t.size() > 1:
                T.nontrivial(L.src, plain(t), 'flag')


def parts():
    opt = dict(opt=0.6, default=0.5, cr=False)
    return [
        Part('table', tables, check_table, 1200),
        Part('flag', lambda: cases(Knobs(**opt, nillable=0.1), 1, 3, lambda d: d(st.integers(0, 2))), check_flag, 100),
        read_part('emptied', Knobs(**opt, ns=0.2), 120, nmuts=6, ops=EMPTYING),
        read_part('emptied tuples', Knobs(**opt, ns=0, shapes=('tup', 'tup', 'seq', 'prim', 'opt'), roots=0.3), 80, (BTup,), nmuts=6, ops=EMPTYING),
        read_part('emptied roots', Knobs(**opt, ns=0, models=(2, 4), roots=0.8, top_root=0.4, subclass=0), 80, (BModel,), nmuts=6, ops=EMPTYING),
    ]

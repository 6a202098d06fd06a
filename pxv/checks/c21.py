"""Custom XML field serializers and validators."""
from ..common import *
from ..gen import leaf_kind
from ..ref import Err, Ref, RefErrors, RefParsingError
from ..live import Out, sorted_errs
from ..spec import ModelRef, Opt, PUnion, Seq, TDct, Tup, type_src
from ..tree import Node

TECHNIQUE = 'generated hooks with known effects, interpreted by a reference model that logs the calls it expects'
RULE = ('Generated models, plain and root, some of whose fields get a custom XML validator and/or serializer: hand-written equivalents of the '
        'built-in binding, constants, None, validation errors, hooks that consume other content, that skip the field or write elsewhere; '
        'attached one method per field, under private names, in mixin classes that are not models, in base classes of base classes, one method for several fields, as Annotated metadata, as class or static methods, one function for the fields of all models, inherited, or '
        'overriding the hook of a base class. The reference interprets the same hooks: documents, values, errors and the sequence of calls '
        'with the unread content seen by each must agree. Non-trivial: a hooked field in the top model or a model it was called for.')
ASSUMPTIONS = ['hooked models are not put into unions, where the number of attempts is not promised',
               'error lines are not compared for values returned by hooks']

CODE = '''
from pydantic_xml.element import SearchMode
LOG = []
def seen(element):
    return sorted((tuple(e.tag for e in path), name or '', value) for path, name, value in element.get_unbound())
def HV(cls, element, name):
    kind, *a = SPEC[cls.__name__, name][0]
    LOG.append(('v', cls.__name__, name, seen(element)))
    if kind == 'attr':
        return element.pop_attrib(a[0])
    if kind == 'elem':
        e = element.pop_element(a[0], SearchMode(a[1]))
        return e.pop_text() if e is not None else None
    if kind == 'text':
        return element.pop_text()
    if kind == 'list':
        out = []
        while (e := element.pop_element(a[0], SearchMode(a[1]))) is not None:
            out.append(e.pop_text())
        return out or None
    if kind == 'words':
        e = element.pop_element(a[0], SearchMode(a[1]))
        return (e.pop_text() or '').split() if e is not None else None
    if kind == 'const':
        return a[0]
    if kind == 'raise':
        pydantic.TypeAdapter(int).validate_python('zz')
    if kind == 'raise2':
        pydantic.TypeAdapter(List[int]).validate_python([1, 'a', 'b'])
    if kind == 'eat':
        element.pop_attributes()
    if kind == 'eatall':
        element.pop_elements()
    if kind == 'peek':
        for e in element.get_unbound():
            pass
        element.create_snapshot().pop_elements()
        element.find_element(a[0], SearchMode(a[1]), look_behind=False, step_forward=False)
    return None
def HS(self, element, value, name):
    kind, *a = SPEC[type(self).__name__, name][1]
    LOG.append(('s', type(self).__name__, name, show_value(value)))
    if kind == 'attr':
        element.set_attribute(a[0], '' if value is None else str(value))
    elif kind == 'elem':
        e = element.make_element(a[0], None)
        e.set_text('' if value is None else str(value))
        element.append_element(e)
    elif kind == 'text':
        element.set_text('' if value is None else str(value))
    elif kind == 'other':
        element.set_attribute('h-' + name, str(value is None))
    elif kind == 'two':
        for i in '12':
            e = element.make_element('hx', None)
            e.set_text(name + i)
            element.append_element(e)
    elif kind == 'nest':
        element.find_element_or_create('hn', SearchMode.STRICT, None).set_attribute(name, 'n')
def show_value(v):
    return SHOW[0](v)
SHOW = [repr]
'''
STYLES = ['each', 'multi', 'annot', 'class', 'static', 'override', 'base', 'shared', 'private', 'mixin', 'grand']


@dataclass
class BHook:
    old: Any
    v: Any
    s: Any
    name: str


class HRef(Ref):
    def __init__(self, u, classes, spec, stable=False):
        super().__init__(u, classes, stable)
        self.spec = spec
        self.log = []

    def plan(self, name):
        fresh = name not in self._plan
        p = super().plan(name)
        if fresh:
            for pf in p.fields:
                if (name, pf.spec.name) in self.spec:
                    v, s = self.spec[name, pf.spec.name]
                    pf.b = BHook(pf.b, v, s, pf.spec.name)
        return p

    def w_model(self, p, node, inst, enc, se, xn, xu):
        self.cur = inst
        return super().w_model(p, node, inst, enc, se, xn, xu)

    def w(self, b, node, v, enc, se, xn, xu):
        if not isinstance(b, BHook):
            return super().w(b, node, v, enc, se, xn, xu)
        if b.s is None:
            return super().w(b.old, node, v, enc, se, xn, xu)
        kind, *a = b.s
        self.log.append(('s', b.name, show(v)))
        text = '' if v is None else str(v)
        if kind == 'attr':
            node.attrs[a[0]] = text
        elif kind == 'elem':
            node.children.append(Node(a[0], {}, text))
        elif kind == 'text':
            node.text = text
        elif kind == 'other':
            node.attrs['h-' + b.name] = str(v is None)
        elif kind == 'two':
            node.children += [Node('hx', {}, b.name + '1'), Node('hx', {}, b.name + '2')]
        elif kind == 'nest':
            if not node.children or node.children[-1].tag != 'hn':
                node.children.append(Node('hn'))
            node.children[-1].attrs[b.name] = 'n'

    def r(self, b, st, p, context, eas, loc, lines):
        if not isinstance(b, BHook):
            return super().r(b, st, p, context, eas, loc, lines)
        if b.v is None:
            return super().r(b.old, st, p, context, eas, loc, lines)
        kind, *a = b.v
        self.log.append(('v', p.name, b.name, sorted(st.pieces())))
        if kind == 'attr':
            return st.attrs.pop(a[0], None)
        if kind in ('elem', 'words'):
            e = st.take(a[0], a[1], self.stable)
            if e is None:
                return None
            s, e.text = e.text, ''
            return s.split() if kind == 'words' else s or None
        if kind == 'text':
            s, st.text = st.text, ''
            return s or None
        if kind == 'list':
            out = []
            while (e := st.take(a[0], a[1], self.stable)) is not None:
                out.append(e.text or None)
                e.text = ''
            return out or None
        if kind == 'const':
            return a[0]
        if kind == 'raise':
            raise RefErrors([Err((), 'int_parsing', INT_MSG, st.line, 'zz')], p.name)
        if kind == 'raise2':
            raise RefErrors([Err((i,), 'int_parsing', INT_MSG, st.line, x) for i, x in ((1, 'a'), (2, 'b'))], p.name)
        if kind == 'eat':
            st.attrs = {}
            st.attrs_taken = True
        if kind == 'eatall':
            st.kids = []
            st.pos = 0
        return None


INT_MSG = 'Input should be a valid integer, unable to parse string as an integer'


def pieces_of(st, path=()):
    if st.text.strip():
        yield path, '', st.text.strip()
    if path and st.tail.strip():
        yield path, '', st.tail.strip()
    for k, v in st.attrs.items():
        yield path, k, v
    for k in st.kids:
        yield from pieces_of(k, path + (k.tag,))


from ..ref import State
State.pieces = pieces_of


def family(u, name):
    """Models related by inheritance."""
    out = {name}
    while True:
        more = {m.name for m in u.models if m.name in out or set(m.bases) & out} | {b for m in u.models if m.name in out for b in m.bases}
        if more <= out:
            return out
        out |= more


def hooked(u, tape, style):
    """(universe with hooks, {(model, field): (validator kind, serializer kind)})."""
    ref = Ref(u, {})
    chosen, models, extra = {}, [], ''
    for m in u.models:
        kin = [x for x in u.models if x.name in family(u, m.name) and x.name != m.name]
        own = {}
        for f in m.fields:
            if f.noxml or m.name.startswith('T') or any(f.name == g.name for x in kin for g in x.fields) or any(isinstance(t, (MUnion,)) for t in subtypes(f.type)):
                continue
            what = tape.pick(5)
            if what in (0, 1):
                continue
            own[f.name] = (what in (2, 4) and f.computed is None, what in (3, 4) or f.computed is not None, tape.pick(12), tape.pick(6))
        chosen[m.name] = own
    spec = {}
    for m in u.models:
        eff, _, fields = ref.flat(m.name)
        _, plan = None, ref.plan(m.name)
        inherited = dict(chosen[m.name])
        for b in ancestors(u, m.name):
            inherited.update(chosen[b])
        for pf in plan.fields:
            if pf.spec.name in inherited:
                v, s, vi, si = inherited[pf.spec.name]
                spec[m.name, pf.spec.name] = (vkind(pf, vi, eff['search_mode']) if v else None, skind(pf, si) if s else None)
        own = chosen[m.name]
        body, decoys, fs = '', '', []
        vs = [n for n in own if (m.name, n) in spec and spec[m.name, n][0]]
        ss = [n for n in own if (m.name, n) in spec and spec[m.name, n][1]]
        annot = style == 'annot'
        for f in m.fields:
            meta = []
            if annot and f.computed is None and not any(isinstance(t, TDct) or isinstance(t, Tup) and t.named for t in subtypes(f.type)):
                if f.name in vs:
                    meta.append('XmlFieldValidator(HV)')
                    vs.remove(f.name)
                if f.name in ss:
                    meta.append('XmlFieldSerializer(HS)')
                    ss.remove(f.name)
            if meta:
                f = replace(f, type=Prim('src', 'Annotated[%s, %s]' % (type_src(f.type), ', '.join(meta))), kw=f.kw or 'title="t"')
            fs.append(f)
        if style == 'shared':       # one function for all fields of all models
            body += ''.join('    hv_%s = xml_field_validator(%r)(HV)\n' % (n, n) for n in vs)
            body += ''.join('    hs_%s = xml_field_serializer(%r)(HS)\n' % (n, n) for n in ss)
            vs, ss = [], []
        private = '_' if style == 'private' else ''
        deco = {'class': '    @classmethod\n', 'static': '    @staticmethod\n'}.get(style, '')
        if style == 'multi' or annot:
            if vs:
                body += '    @xml_field_validator(%s)\n    def hv%s(cls, element, name):\n        return HV(cls, element, name)\n' % (', '.join(map(repr, vs)), m.name)
            if ss:
                body += '    @xml_field_serializer(%s)\n    def hs%s(self, element, value, name):\n        return HS(self, element, value, name)\n' % (', '.join(map(repr, ss)), m.name)
        else:
            for n in vs:
                body += '    @xml_field_validator(%r)\n%s    def %shv_%s(cls, element, name):\n        return HV(cls, element, name)\n' % (n, deco, private, n)
            for n in ss:
                body += '    @xml_field_serializer(%r)\n    def %shs_%s(self, element, value, name):\n        return HS(self, element, value, name)\n' % (n, private, n)
        bases = m.bases
        if not m.root and not bases and (vs or ss) and style in ('override', 'base', 'mixin', 'grand'):
            if style == 'override':
                decoys = ''.join('    @xml_field_validator(%r)\n    def z%s(cls, element, name):\n        LOG.append("wrong")\n' % (n, n) for n in vs)
                decoys += ''.join('    @xml_field_serializer(%r)\n    def a%s(self, element, value, name):\n        LOG.append("wrong")\n' % (n, n)
                                  for n in ss)
                extra += 'class H%s(BaseXmlModel):\n%s\n' % (m.name, decoys)
            elif style == 'mixin':
                extra += 'class H%s:\n%s\n' % (m.name, body)
                body = ''
            elif style == 'grand':
                extra += 'class HH%s(BaseXmlModel):\n%s\nclass H%s(HH%s):\n    pass\n' % (m.name, body, m.name, m.name)
                body = ''
            else:
                extra += 'class H%s(BaseXmlModel):\n%s\n' % (m.name, body)
                body = ''
            bases = ('H%s, BaseXmlModel' % m.name if style == 'mixin' else 'H' + m.name,)
        models.append(replace(m, fields=tuple(fs), body=m.body + body, bases=bases))
    pre = CODE + 'SPEC = %r\n' % spec + extra
    return replace(u, models=tuple(models), pre=u.pre + pre), spec


def ancestors(u, name):
    for b in u.get(name).bases:
        yield b
        yield from ancestors(u, b)


def vkind(pf, i, mode):
    b = pf.b
    same = []
    if isinstance(b, BAttr):
        same = [('attr', b.q)]
    elif isinstance(b, BElem) and not b.nillable:
        same = [('elem', b.q, mode)]
    elif isinstance(b, BText) and not b.nillable:
        same = [('text',)]
    elif isinstance(b, BSeq) and isinstance(b.item, BElem) and not b.item.nillable:
        same = [('list', b.item.q, mode), ('words', b.item.q, mode)]
    others = [('none',), ('const', '1'), ('raise',), ('eat',), ('raise2',), ('eatall',), ('peek', getattr(b, 'q', 'q'), mode), ('const', ['1'])]
    pool = same * 4 + others
    return pool[i % len(pool)]


def skind(pf, i):
    b = pf.b
    t = pf.spec.type
    t = t.t if isinstance(t, Opt) else t
    same = []
    if isinstance(t, Prim) and t.kind in ('str', 'int', 'short', 'pat', 'posint', 'strictstr'):
        if isinstance(b, BAttr):
            same = [('attr', b.q)] * 2
        elif isinstance(b, BElem):
            same = [('elem', b.q)] * 2
        elif isinstance(b, BText):
            same = [('text',)] * 2
    pool = same + [('other',), ('skip',), ('two',), ('nest',)]
    return pool[i % len(pool)]


def ref_out(r, name, tree):
    r.ambiguous = False
    r.log = []
    try:
        o = Out('ok', r.parse(name, tree))
    except RefParsingError:
        o = Out('parsing')
    except RefErrors as e:
        o = Out('invalid', errors=sorted_errs((x.loc, x.type, x.msg, x.line, x.input) for x in e.errs), title=e.title)
    o.ambiguous = r.ambiguous
    return o, r.log


def norm(log):
    return [('v', e[1], e[2], [tuple(x) for x in e[3]]) if e[0] == 'v' else ('s', e[-2], e[-1]) if e[0] == 's' else e for e in log]


def check(c, T):
    choices, style = c.x
    u2, spec = hooked(c.u, Tape(choices), style)
    if not spec:
        T.count('no hook')
        return
    L = live(u2)
    L.ns['SHOW'][0] = show
    L.ns['LOG'].clear()
    T.count('style: ' + style)
    for v, s in spec.values():
        T.count('hook: %s / %s' % (v and v[0], s and s[0]))
    refs = [HRef(c.u, L.classes, spec), HRef(c.u, L.classes, spec, stable=True)]
    base_ref = Ref(c.u, L.classes)
    tags, attrs = vocabulary(c.u, base_ref)
    for v in c.vals:
        try:
            inst = L.make(v)
        except pd.ValidationError:
            continue
        for o in ({}, {'exclude_unset': True}, {'exclude_none': True}, {'skip_empty': True}):
            refs[0].log = []
            exp = refs[0].to_tree(inst, **o)
            L.ns['LOG'].clear()
            got = L.sut_tree(inst, **o)
            if exp.canon() != got.canon():
                fail('the document differs with custom serializers', L, instance=lit(v), options=o, expected=plain(exp), actual=plain(got))
            if norm(L.ns['LOG']) != norm(refs[0].log):
                fail('custom serializers are not called as they should', L, instance=lit(v), options=o, expected=norm(refs[0].log),
                     actual=norm(L.ns['LOG']))
            if refs[0].log:
                T.nontrivial(L.src, plain(exp), o)
        docs = [base_ref.to_tree(inst)]
        docs += [mutate(docs[0], m, tags, attrs) for m in c.muts]
        for t in docs:
            want = [ref_out(r, c.u.top, t) for r in refs]
            L.ns['LOG'].clear()
            got = L.sut_parse_tree(t)
            log = norm(L.ns['LOG'])
            if want[0][0].ambiguous:
                T.count('skipped: collection with an empty item (known finding)')
                continue
            T.count('outcome: ' + want[0][0].kind)
            if not matches([w[0] for w in want], got):
                fail('parsing gives another outcome with custom validators', L, document=plain(t), expected='\nor '.join(repr(w[0]) for w in want),
                     actual=got)
            if not any(norm(w[1]) == log for w in want):
                fail('custom validators are not called as they should', L, document=plain(t), expected=norm(want[0][1]), actual=log)
            if log:
                T.nontrivial(L.src, plain(t))
                T.sample('%s\n# %s\n# -> %r\n# calls %r' % (L.src[len(CODE):], plain(t), got, log))


def parts():
    base = dict(shapes=('prim', 'prim', 'prim', 'opt', 'model', 'model', 'seq', 'tup', 'dct', 'tunion'), seq_items=('prim', 'prim', 'model'),
                tup_items=('prim', 'model'), root_shapes=('prim', 'seq', 'model', 'opt'), ns=0.2, subclass=0, fields=(1, 5), models=(1, 3),
                skip_flag=0.05, inherit=0.25)

    def strat(style, **kw):
        k = Knobs(**{**base, **kw})
        styles = st.sampled_from(STYLES) if style is None else st.just(style)
        return lambda: cases(k, 2, 4, lambda d: (tuple(d(st.lists(st.integers(0, 59), min_size=4, max_size=40))), d(styles)))
    return [
        Part('each', strat('each'), check, 80),
        Part('multi', strat('multi'), check, 60),
        Part('annotated', strat('annot'), check, 80),
        Part('styles', strat(None), check, 80),
        Part('shared', strat('shared'), check, 40),
        Part('simple', strat(None, shapes=('prim', 'prim', 'opt', 'seq'), prims=['str', 'int'], inherit=0.1), check, 120),
        Part('forbid', strat(None, forbid=0.7), check, 60),
        Part('modes', strat(None, modes=('ordered', 'unordered')), check, 60),
        Part('roots', strat(None, roots=0.6, top_root=0.4), check, 60),
    ]

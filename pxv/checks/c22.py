"""Purity and independence of history."""
import copy
import datetime as dt
import decimal
import sys
import threading

from ..common import *
from ..gen import bindings
from ..live import Live
from ..spec import Model

TECHNIQUE = 'stateful: generated operation histories over several models, each result compared with the same operation first and alone on fresh classes'
RULE = ('Histories of up to 12 operations over two generated model programs: writing with every option set, reading valid, edited and arbitrary '
        'documents as text and as trees, failing reads, defining subclasses, rebuilding classes, JSON schemas, copying instances, '
        'scribbling over returned instances and trees, changing instances between calls, writing equal instances with other texts, hooks that hand their data to the element interface, and re-entrant calls made from validators, hooks and computed fields; and the same '
        'operations run by several threads at once. Each result must be the one the operation gives on a freshly executed program; instances, '
        'trees and class parameters are the same before and after; results share no mutable object. Non-trivial: a history with at least two '
        'different operations on the same model.')


@dataclass(frozen=True)
class History:
    us: tuple           # universes
    vals: tuple         # per universe: values
    muts: tuple         # mutations
    ops: tuple          # (universe, kind, a, b)


OPTS = [{}, {'skip_empty': True}, {'exclude_none': True}, {'exclude_unset': True}, {'skip_empty': True, 'exclude_unset': True}]
KINDS = ['tree', 'text', 'parse', 'parse', 'ptree', 'ptree', 'bad', 'rebuild', 'subclass', 'schema', 'copy', 'scribble', 'scribble', 'again']


class World:
    """The classes of the history, with the documents and instances its operations use."""

    def __init__(self, h):
        self.h = h
        self.L = [Live(u) for u in h.us]
        self.inst, self.docs = [], []
        for L, vals in zip(self.L, h.vals):
            made, docs = [], []
            tags, attrs = vocabulary(L.u, L.ref)
            for v in vals:
                try:
                    made.append(L.make(v))
                    t = L.ref.to_tree(made[-1])
                except (pd.ValidationError, KeyError):
                    continue
                docs.append(t)
                docs += [mutate(t, m, tags, attrs) for m in h.muts]
            self.inst.append(made)
            self.docs.append(docs)
        self.kept = []
        self.sources = []

    def run(self, op, in_thread=False):
        """Executes an operation; the result is a string, None when the operation does not apply."""
        i, kind, a, b = op
        L, made, docs = self.L[i], self.inst[i], self.docs[i]
        if kind in ('tree', 'text', 'copy'):
            if not made:
                return None
            inst = made[a % len(made)]
            o = OPTS[b % len(OPTS)]
            if kind == 'copy':
                inst = [copy.deepcopy(inst), inst.model_copy(deep=True), inst.model_copy()][b % 3]
                o = {}
            before = freeze_inst(inst)
            if kind == 'text':
                got = canon(_tparse_text(inst, o, in_thread))
            else:
                t = call(in_thread, inst.to_xml_tree, **o)
                got = canon(from_et(t))
                self.kept.append(t)
            if got != canon(L.ref.to_tree(inst, **o)):
                fail('the document differs from the reference', L, options=o, expected=canon(L.ref.to_tree(inst, **o)), actual=got)
            if freeze_inst(inst) != before:
                fail('writing changes the instance', L, before=before, after=freeze_inst(inst))
            return got
        if kind in ('parse', 'ptree', 'bad'):
            if not docs:
                return None
            t = docs[a % len(docs)]
            if kind == 'bad':
                t = replace(t, tag='no-such-root') if b % 2 else Node(t.tag)
            kw = {'empty_as_string': b % 3 == 1}
            if kind == 'ptree':
                tree = to_native(t, L.etree)
                keep = L.etree.tostring(tree)
                got = result(in_thread, L.top.from_xml_tree, tree, **kw)
                if L.etree.tostring(tree) != keep:
                    fail('reading changes the tree', L, before=keep, after=L.etree.tostring(tree))
            else:
                got = result(in_thread, L.top.from_xml, plain(t), **kw)
            exps = L.ref_parse(t, eas=kw['empty_as_string']) if not in_thread else [got]
            if not exps[0].ambiguous and not matches(exps, got):
                fail('parsing gives another outcome than the reference', L, document=plain(t), expected='\nor '.join(map(repr, exps)), actual=got)
            if got.kind == 'ok':
                self.kept.append(got.value)
            return told(got)
        if kind == 'rebuild':
            ns = dict(L.ns)
            for m in L.u.models:
                L.classes[m.name].model_rebuild(force=True, _types_namespace=ns)
            return 'rebuilt'
        if kind == 'schema':
            try:
                return repr(L.top.model_json_schema(mode='validation' if b % 2 else 'serialization'))
            except pd.errors.PydanticInvalidForJsonSchema:
                return 'no schema'
        if kind == 'subclass':
            ns = dict(L.ns)
            name = L.u.top
            root = L.u.get(name).root
            body = '    pass\n' if root else '    zz: int = element("zz", default=1)\n'
            src = ('class Sub(%s, tag="sub%d", nsmap={"zz": "http://zz.example"}, ns_attrs=%r, skip_empty=%r, search_mode=%r):\n%s'
                   % (name, b % 3, bool(a % 2), bool(b % 2), ['strict', 'ordered', 'unordered'][a % 3], body))
            try:
                exec(src, ns)
            except Exception as e:
                return 'subclass: ' + type(e).__name__
            sub = ns['Sub']
            if made:
                inst = made[a % len(made)]
                try:
                    x = sub.model_construct(_fields_set=set(inst.model_fields_set), **dict(inst.__dict__)) if not root else None
                    if x is not None and hasattr(x, 'zz'):
                        return 'subclass ' + canon(from_et(x.to_xml_tree()))
                except Exception as e:
                    return 'subclass: ' + type(e).__name__
            return 'subclass'
        if kind == 'scribble':
            for k in self.kept:
                scribble(k)
            self.kept.clear()
            return 'scribbled'
        if kind == 'again':
            return None
        raise AssertionError(kind)


def told(o):
    if o.kind == 'invalid':
        return 'invalid %s' % sorted(repr(err_key(e, True)) for e in o.errors)
    return repr(o)


def call(in_thread, fn, *a, **kw):
    return fn(*a, **kw) if in_thread else guarded(fn, *a, **kw)


def result(in_thread, fn, *a, **kw):
    if not in_thread:
        return outcome(fn, *a, **kw)
    from .. import live
    return live.outcome(fn, *a, **kw)


def _tparse_text(inst, o, in_thread):
    return tparse(call(in_thread, inst.to_xml, encoding='utf-8', **o))


def to_native(t, etree):
    from ..tree import to_et
    return to_et(t, etree)


def canon(n):
    return repr(n.canon())


def freeze_inst(x):
    return show(x) + repr(sorted(x.model_fields_set))


def scribble(x):
    """Changes a result in place, everywhere."""
    if is_elem(x):
        for e in x.iter():
            e.text = 'scribbled'
            e.set('scribbled', '1')
    elif isinstance(x, pd.BaseModel):
        for k, v in list(x.__dict__.items()):
            scribble(v)
            x.__dict__[k] = 'scribbled'
        x.__pydantic_fields_set__.clear()
    elif isinstance(x, list):
        for v in x:
            scribble(v)
        x.append('scribbled')
        x.reverse()
    elif isinstance(x, dict):
        x['scribbled'] = 'x'
    elif isinstance(x, set):
        x.add('scribbled')
    elif isinstance(x, tuple):
        for v in x:
            scribble(v)


def mutables(x, out):
    if isinstance(x, (list, dict, set, pd.BaseModel)) or is_elem(x):
        out[id(x)] = x
    if isinstance(x, pd.BaseModel):
        for v in x.__dict__.values():
            mutables(v, out)
    elif isinstance(x, (list, tuple)):
        for v in x:
            mutables(v, out)
    elif isinstance(x, dict):
        for v in x.values():
            mutables(v, out)
    return out


def params(L):
    return repr([(n, list(c.model_fields), list(c.model_computed_fields),
                  c.__xml_tag__, c.__xml_ns__, sorted((c.__xml_nsmap__ or {}).items()), c.__xml_ns_attrs__, c.__xml_skip_empty__,
                  str(c.__xml_search_mode__)) for n, c in sorted(L.classes.items())])


def defaults_of(L):
    out = {}
    for c in L.classes.values():
        for f in c.model_fields.values():
            mutables(f.default, out)
    return out


def alone(h, op):
    return World(h).run(op)


def check(h, T):
    w = World(h)
    before = [params(L) for L in w.L]
    known, done = {}, []
    for op in h.ops:
        if op[1] == 'again':
            if not done:
                continue
            op = done[op[2] % len(done)]
        kept = list(w.kept)
        got = w.run(op)
        if got is None:
            continue
        T.count('operation: ' + op[1])
        if op[1] in ('rebuild', 'scribble'):
            done.append(op)
            continue
        if op not in known:
            known[op] = alone(h, op)
        if got != known[op]:
            fail('a result depends on what happened before', w.L[op[0]], history=done, operation=op, alone=known[op], now=got)
        if len(w.kept) > len(kept) and isinstance(w.kept[-1], pd.BaseModel):
            mine = mutables(w.kept[-1], {})
            for k in kept + w.inst[op[0]]:
                both = [x for i, x in mutables(k, {}).items() if i in mine and i not in defaults_of(w.L[op[0]])]
                if both:
                    fail('two results share a mutable object', w.L[op[0]], operation=op, shared=show(both[0]))
        done.append(op)
    after = [params(L) for L in w.L]
    if after != before:
        fail('class parameters changed', w.L[0], before=before, after=after)
    if len({(o[0], o[1], o[2]) for o in done}) > 1:
        T.nontrivial(w.L[0].src, w.L[-1].src, done)
        T.sample('%s\n# history %r' % (w.L[0].src, done))


def check_threads(h, T):
    w = World(h)
    ops = [op for op in h.ops if op[1] in ('tree', 'text', 'parse', 'ptree', 'bad')]
    if len(ops) < 2:
        return
    want = {op: alone(h, op) for op in ops}
    wrong = []

    def run(mine):
        for _ in range(3):
            for op in mine:
                try:
                    got = w.run(op, in_thread=True)
                except Violation as v:
                    wrong.append((op, v.what, ''))
                    continue
                except Exception as e:
                    got = repr(e)
                if got != want[op]:
                    wrong.append((op, want[op], got))
    from .. import live
    keep, every = live.guarded, sys.getswitchinterval()
    live.guarded = lambda fn, *a, **kw: fn(*a, **kw)
    sys.setswitchinterval(1e-5)
    try:
        ts = [threading.Thread(target=run, args=(ops[k:] + ops[:k],), daemon=True) for k in range(min(4, len(ops)))]
        for t in ts:
            t.start()
        for t in ts:
            t.join(60)
            if t.is_alive():
                fail('a call in a thread does not return', w.L[0], operations=ops)
    finally:
        live.guarded = keep
        sys.setswitchinterval(every)
    if wrong:
        fail('a result differs when other threads work at the same time', w.L[wrong[0][0][0]], operation=wrong[0][0], alone=wrong[0][1], now=wrong[0][2])
    if any(v is not None for v in want.values()):
        T.nontrivial(w.L[0].src, ops)
        T.count('threaded operations', 3 * len(ops) * len(ts))


# ---- instances that are equal, or that change between calls

def twin(x):
    """An equal value that is written differently, where there is one."""
    if isinstance(x, decimal.Decimal) and x.is_finite():
        return decimal.Decimal((x.as_tuple().sign, x.as_tuple().digits + (0,), x.as_tuple().exponent - 1))
    if type(x) is float and x == 0:
        return -x
    if isinstance(x, dt.datetime) and x.tzinfo is not None and 2 < x.year < 9998:
        return x.astimezone(dt.timezone(dt.timedelta(hours=1)))
    if isinstance(x, pd.BaseModel):
        y = x.model_copy()
        for k, v in y.__dict__.items():
            y.__dict__[k] = twin(v)
        return y
    if type(x) in (list, tuple):
        return type(x)(map(twin, x))
    if type(x) is dict:
        return {k: twin(v) for k, v in x.items()}
    return x


def check_instances(h, T):
    """Writes instances, equal ones and changed ones in turn; the reference only ever sees the current state."""
    u = replace(h.us[0], models=tuple(m if not h.ops[0][2] % 2 else replace(m, config=m.config + (('frozen', True),)) for m in h.us[0].models))
    L = live(u)
    frozen = h.ops[0][2] % 2
    made = []
    for v in h.vals[0]:
        try:
            made.append(L.make(v))
            L.ref.to_tree(made[-1])
        except (pd.ValidationError, KeyError):
            return
    pool = list(made)
    steps, seen = [], set()
    for _, kind, a, b in h.ops:
        x = pool[a % len(pool)]
        o = OPTS[b % len(OPTS)]
        if kind in ('parse', 'again'):
            pool.append(twin(x))
            steps.append('%d is an equal copy of %d' % (len(pool) - 1, a % len(pool[:-1])))
        elif kind in ('copy', 'rebuild'):
            pool.append([x.model_copy, lambda: copy.deepcopy(x), lambda: x.model_copy(update=dict(list(pool[b % len(pool)].__dict__.items())[:1]))][b % 3]())
            steps.append('%d is a copy of %d' % (len(pool) - 1, a % len(pool[:-1])))
        elif kind in ('scribble', 'ptree', 'bad'):
            y = pool[b % len(pool)]
            names = list(x.__dict__)
            if not names:
                continue
            n = names[a % len(names)]
            try:
                if isinstance(x.__dict__[n], list) and a % 3:
                    x.__dict__[n].reverse()
                    x.__dict__[n].extend(y.__dict__[n][:1])
                elif isinstance(x.__dict__[n], pd.BaseModel) and x.__dict__[n].__dict__ and isinstance(y.__dict__[n], type(x.__dict__[n])) and a % 3:
                    z = x.__dict__[n]
                    k = sorted(z.__dict__)[b % len(z.__dict__)]
                    if frozen:
                        z.__dict__[k] = y.__dict__[n].__dict__[k]
                    else:
                        setattr(z, k, y.__dict__[n].__dict__[k])
                elif frozen:
                    x.__dict__[n] = y.__dict__[n]
                else:
                    setattr(x, n, y.__dict__[n])
            except (pd.ValidationError, AttributeError, KeyError):
                continue
            steps.append('%d.%s changed' % (a % len(pool), n))
        try:
            want = canon(L.ref.to_tree(x, **o))
        except (KeyError, AttributeError, TypeError, ValueError, RecursionError):
            return
        for i, (z, oo) in enumerate([(x, o), (pool[-1], {}), (x, o)]):
            if i == 1:
                try:
                    w = canon(L.ref.to_tree(z))
                except (KeyError, AttributeError, TypeError, ValueError, RecursionError):
                    return
            else:
                w = want
            state = freeze_inst(z)
            got = canon(from_et(guarded(z.to_xml_tree, **oo)))
            text = canon(tparse(guarded(z.to_xml, encoding='utf-8', **oo)))
            if got != w or text != w:
                fail('the document is not that of the instance as it is now', L, instance=show(z), steps=steps, options=oo, expected=w, actual=got, text=text)
            if freeze_inst(z) != state:
                fail('writing changes the instance', L, steps=steps, before=state, after=freeze_inst(z))
            steps.append('wrote %r' % oo)
            seen.add(w)
    if len(seen) > 1:
        T.nontrivial(L.src, steps, sorted(seen))
        T.count('documents', len(seen))


# ---- re-entrant calls

RE = '''
INNER = []
BUSY = []
def enter(where):
    if INNER and not BUSY:
        BUSY.append(1)
        try:
            INNER[0](where)
        finally:
            BUSY.pop()
def entering(v):
    enter('validator')
    return v
class Re(BaseXmlModel, tag='re', search_mode={mode!r}):
    a: {top} = element('a', default=None)
    x: Annotated[str, AfterValidator(entering)] = element('x', default='')
    h: str = element('h', default='')
    b: List[{top}] = element('b', default=[])
    @xml_field_validator('h')
    def hv(cls, element, name):
        enter('hook')
        e = element.pop_element('h', cls.__xml_search_mode__)
        enter('hook')
        return None if e is None else e.pop_text()
    @xml_field_serializer('h')
    def hs(self, element, value, name):
        enter('hook')
        e = element.make_element('h', None)
        e.set_text(value)
        enter('hook')
        element.append_element(e)
    @computed_element(tag='c')
    @property
    def c(self) -> int:
        enter('computed')
        return 5
class Out(BaseXmlModel, tag='out'):
    r1: Re = element('r1')
    r2: Optional[Re] = element('r2', default=None)
'''


def check_reentrant(h, T):
    u = h.us[0]
    mode = ['strict', 'ordered', 'unordered'][h.ops[0][2] % 3]
    L = Live(replace(u, models=u.models))
    try:
        exec(compile(RE.format(top=u.top, mode=mode), '<re>', 'exec'), L.ns)
    except Exception as e:
        raise DefinitionFailed(e) from e
    w = World(h)
    made = []
    for v in h.vals[0]:
        try:
            made.append(L.make(v))
            L.ref.to_tree(made[-1])
        except (pd.ValidationError, KeyError):
            return
    Out, Re, inner = L.ns['Out'], L.ns['Re'], L.ns['INNER']
    re = lambda k: Re(a=made[0], x='x%d' % k, h='h', b=made)
    o = Out(r1=re(1), r2=re(2))
    op = next((op for op in h.ops if op[1] in ('tree', 'text', 'parse', 'ptree', 'bad')), (0, 'parse', 0, 0))
    want = alone(h, op)
    quiet = canon(from_et(guarded(o.to_xml_tree)))
    doc = plain(from_et(guarded(o.to_xml_tree)))
    tags, attrs = vocabulary(u, L.ref)
    docs = [doc] + [plain(mutate(tparse(doc), m, tags + ['h', 'x', 'a', 'b', 'r2'], attrs)) for m in h.muts]
    still = [told(outcome(Out.from_xml, d)) for d in docs]
    seen = []

    def again(where):
        for got, exp, what in ((w.run(op), want, op),
                               (canon(from_et(o.r2.to_xml_tree())), canon(tparse(doc).children[1]).replace('r2', 're', 1), 'write'),
                               (told(outcome(Out.from_xml, docs[-1])), still[-1], 'read')):
            seen.append(where)
            if got != exp:
                fail('a call made from inside another one (%s) gives another result' % where, L, operation=what, alone=exp, now=got)
    inner.append(again)
    try:
        loud = canon(from_et(guarded(o.to_xml_tree)))
        if loud != quiet:
            fail('calls made from inside change the document', L, alone=quiet, now=loud)
        for d, s in zip(docs, still):
            got = told(outcome(Out.from_xml, d))
            if got != s:
                fail('calls made from inside change what is read', L, document=d, alone=s, now=got)
    finally:
        inner.clear()
    if seen:
        T.count('re-entrant calls', len(seen))
        T.nontrivial(L.src, docs, op)


@st.composite
def histories(draw, k, nops=12, n=2):
    us = tuple(draw(universes(k)) for _ in range(n))
    vals = tuple(tuple(model_value(draw, u.top, k, u) for _ in range(2)) for u in us)
    muts = tuple(tuple(draw(mutations)) for _ in range(3))
    ops = draw(st.lists(st.tuples(st.integers(0, n - 1), st.sampled_from(KINDS), st.integers(0, 7), st.integers(0, 5)), min_size=2, max_size=nops))
    return History(us, vals, muts, tuple(ops))


# ---- hooks that hand their data over

HOOKED = {
    'attrs': ('Dict[str, str]', """
    @xml_field_serializer({f!r})
    def s_{f}(self, element, value, name):
        element.set_attributes(value)

    @xml_field_validator({f!r})
    def v_{f}(cls, element, name):
        return element.pop_attributes()
"""),
    'child': ('Dict[str, str]', """
    @xml_field_serializer({f!r})
    def s_{f}(self, element, value, name):
        e = element.make_element({f!r}, None)
        e.set_attributes(value)
        e.set_attribute('more', '1')
        element.append_element(e)

    @xml_field_validator({f!r})
    def v_{f}(cls, element, name):
        e = element.pop_element({f!r}, cls.__xml_search_mode__)
        got = e.pop_attributes()
        got.pop('more')
        return got
"""),
    'native': ('ElementT', """
    @xml_field_serializer({f!r})
    def s_{f}(self, element, value, name):
        e = type(element).from_native(value)
        e.set_attribute('more', '1')
        e.set_text('over')
        e.append_element(e.make_element('more', None))
        element.append_element(e)

    @xml_field_validator({f!r})
    def v_{f}(cls, element, name):
        e = element.pop_element({f!r}, cls.__xml_search_mode__)
        assert e.pop_attrib('more') == '1' and e.pop_text() == 'over'
        return e.to_native()
"""),
}


@st.composite
def hooked(draw):
    fs = draw(st.lists(st.sampled_from(['attrs', 'child', 'native', 'attr', 'attr', 'elem', 'list']), min_size=2, max_size=6))
    return tuple(fs), tuple(draw(st.lists(st.tuples(st.sampled_from(['p', 'q', 'r']), st.sampled_from(['', '1', 'é<'])), max_size=3)) for _ in fs), \
        draw(st.sampled_from(['strict', 'ordered', 'unordered'])), draw(st.booleans())


def check_hooked(c, T):
    from ..live import base_ns
    from pydantic_xml.element.native import etree
    fs, data, mode, below = c
    if fs.count('attrs') > 1 or 'attrs' in fs and 'attr' in fs[:fs.index('attrs')]:
        fs = tuple('child' if f == 'attrs' else f for f in fs)      # set_attributes replaces what is there
    src, vals, want = 'class H(BaseXmlModel, tag="h", search_mode=%r, arbitrary_types_allowed=True):\n' % mode, {}, Node('h')
    for i, (f, d) in enumerate(zip(fs, data)):
        n, d = 'f%d' % i, dict(d)
        if f in HOOKED:
            t, code = HOOKED[f]
            src += '    %s: %s\n%s\n' % (n, t, code.format(f=n))
            if f == 'native':
                vals[n] = etree.Element(n, d)
                vals[n].text = 'own'
                etree.SubElement(vals[n], 'kid', {'k': 'v'}).tail = 'tail'
                want.children.append(Node(n, {**d, 'more': '1'}, 'over', [Node('kid', {'k': 'v'}, '', [], 'tail'), Node('more')]))
            else:
                vals[n] = d
                if f == 'attrs':
                    want.attrs.update(d)
                else:
                    want.children.append(Node(n, {**d, 'more': '1'}))
        elif f == 'list':
            src += '    %s: List[str] = element(%r)\n' % (n, n)
            vals[n] = list(d)
            want.children += [Node(n, {}, x) for x in d]
        else:
            src += '    %s: str = %s(%r)\n' % (n, {'attr': 'attr', 'elem': 'element'}[f], n)
            vals[n] = 'v'
            if f == 'attr':
                want.attrs[n] = 'v'
            else:
                want.children.append(Node(n, {}, 'v'))
    src += 'class O(BaseXmlModel, tag="o"):\n    h: H = element("h")\n    hs: List[H] = element("hs")\n'
    ns = dict(base_ns())
    exec(compile(src.replace('ElementT', 'Element'), '<hooked>', 'exec'), ns)
    h = ns['H'](**vals)
    top = ns['O'](h=h, hs=[h, h]) if below else h
    if below:
        want = Node('o', {}, '', [want, replace(want, tag='hs'), replace(want, tag='hs')])
    before = freeze_inst(top) + show(vals)
    for k in range(2):
        for got in (tparse(guarded(top.to_xml, encoding='utf-8')), from_et(guarded(top.to_xml_tree))):
            if got.canon() != want.canon():
                raise Violation('a hook that hands its data over writes something else (time %d)' % k, source=src, expected=repr(want), actual=repr(got))
        if freeze_inst(top) + show(vals) != before:
            raise Violation('writing changes the instance', source=src, before=before, after=freeze_inst(top) + show(vals))
    tree = to_native(want, etree)
    keep = etree.tostring(tree)
    if 'attrs' in fs:
        T.count('attributes handed over')
    first = outcome(type(top).from_xml_tree, tree)
    read = told(first)
    if first.kind != 'ok':
        T.count('read: ' + first.kind)
    else:
        scribble(first.value)
    if etree.tostring(tree) != keep:
        raise Violation('reading or changing what was read changes the tree', source=src, before=keep, after=etree.tostring(tree))
    again = outcome(type(top).from_xml_tree, tree)
    if told(again) != read:
        raise Violation('reading a tree twice gives two results', source=src, document=repr(want), first=read, second=told(again))
    T.nontrivial(src, repr(data))
    T.sample('%s\n# %r' % (src, want))


def parts():
    k = Knobs(fields=(1, 4), models=(1, 3), subclass=0, seq_kinds=('list', 'vtuple'))
    kinds = Knobs(fields=(1, 4), models=(1, 3), subclass=0, seq_kinds=('list',), shapes=('munion', 'tunion', 'raw', 'seq', 'dct', 'model', 'prim', 'self'),
                  modes=('unordered', 'ordered', 'strict'), forbid=0.2)
    inst = Knobs(fields=(1, 3), models=(1, 3), subclass=0, seq_kinds=('list',), ns=0.2, top_root=0, shapes=('prim', 'model', 'seq', 'munion', 'dct', 'opt'))
    same = Knobs(fields=(1, 4), models=(1, 3), subclass=0, seq_kinds=('list', 'vtuple'), shapes=('prim', 'prim', 'prim', 'opt', 'model', 'seq', 'dct'),
                 prims=['decimal', 'float', 'datetime', 'str', 'int', 'bool'], top_root=0)
    return [
        Part('histories', lambda: histories(k), check, 120, 2500),
        Part('unions and raw', lambda: histories(kinds), check, 100, 2500),
        Part('instances', lambda: histories(same, 10, 1), check_instances, 100, 2500),
        Part('re-entrant', lambda: histories(inst, 3, 1), check_reentrant, 100, 2000),
        Part('hooks', hooked, check_hooked, 300, 3000),
        Part('threads', lambda: histories(kinds, 8, 1), check_threads, 40, 600),
    ]

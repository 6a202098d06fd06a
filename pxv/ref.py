"""Reference model of the XML binding: definitions -> plans, instances -> trees, trees -> data.

Written from the documentation, kept naive on purpose (rescans, copies, no sharing).
Validation and JSON-mode encoding of values are pydantic's own.
"""
from dataclasses import dataclass, field
from typing import Any

import pydantic as pd

from .spec import (Dct, Ent, Field, ModelRef, MUnion, Opt, Prim, PUnion, Raw, Seq, TDct, TUnion, Tup)
from .tree import XSI_NIL, Node, clark, from_et, split


class DefError(Exception):
    """The definition must be rejected."""


class RefParsingError(Exception):
    """Root element mismatch."""


class RefSerializationError(Exception):
    pass


@dataclass
class Err:
    loc: tuple
    type: str
    msg: str
    line: int
    input: Any = None


class RefErrors(Exception):
    def __init__(self, errs, title):
        self.errs = errs
        self.title = title


# ---------------------------------------------------------------- plans

@dataclass
class BText:
    nillable: bool = False


@dataclass
class BAttr:
    q: str


@dataclass
class BElem:
    q: str
    nillable: bool = False


@dataclass
class BModel:
    q: str
    model: str
    nillable: bool = False


@dataclass
class BSeq:
    item: Any


@dataclass
class BTup:
    items: list


@dataclass
class BAttrs:
    wns: Any        # namespace for written keys
    strip: bool     # drop namespaces when reading
    q: Any = None   # element name, None for the model's own element
    names: tuple = ()   # (key, attribute, validation key)


@dataclass
class BUnion:
    alts: list


@dataclass
class BTagged:
    alts: list      # (tag, BModel)
    attr: str


@dataclass
class BRaw:
    q: str


@dataclass
class BWrap:
    path: list
    inner: Any


@dataclass
class PField:
    spec: Field
    b: Any


@dataclass
class Plan:
    name: str
    q: str
    fields: list
    search: str
    skip: Any
    root: bool
    forbid: bool
    hide: bool = False


@dataclass
class Chain:
    """Enclosing declarations, nearest first: [(ns, nsmap), ...]."""
    decls: list
    ns_attrs: bool
    fname: Any
    alias: Any
    model: str

    def ns(self, own, start=0):
        if own is not None:
            return own
        for n, _ in self.decls[start:]:
            if n is not None:
                return n
        return None

    def nsmap(self, *own):
        out = {}
        for m in list(own) + [m for _, m in self.decls]:
            for k, v in (m or {}).items():
                out.setdefault(k, v)
        return out


def uri_of(ns, nsmap, is_attr=False):
    if is_attr and ns is None:
        return None
    if ns is None:
        return nsmap.get('')
    if not nsmap:
        return None
    if ns not in nsmap:
        raise DefError('namespace alias')
    return nsmap[ns]


def blank(v):
    return not hasattr(v, 'tag') and not v


class Ref:
    def __init__(self, universe, classes, stable=False):
        self.u = universe
        self.cls = classes
        self.stable = stable
        self.ambiguous = False
        self._flat = {}
        self._plan = {}

    # ---- effective definitions

    def flat(self, name):
        """Parameters and fields after inheritance."""
        if name in self._flat:
            return self._flat[name]
        m = self.u.get(name)
        eff = dict(tag=None, ns=None, nsmap=None, ns_attrs=False, skip_empty=None, search_mode='strict')
        config = {}
        fields = {}
        mro = []
        for b in reversed(m.bases):
            if not any(x.name == b for x in self.u.models):
                continue
            be, bc, bf = self.flat(b)
            mro.append((be, bc, bf))
        for be, bc, bf in mro:
            for k, v in be.items():
                if v is not None and not (k == 'ns_attrs' and v is False) and not (k == 'search_mode' and v == 'strict'):
                    eff[k] = dict(be[k]) if k == 'nsmap' else v
            config.update(bc)
            for f in bf:
                fields[f.name] = f
        for k in ('tag', 'ns', 'ns_attrs', 'skip_empty', 'search_mode'):
            if getattr(m, k) is not None:
                eff[k] = getattr(m, k)
        if m.nsmap is not None:
            eff['nsmap'] = dict(eff['nsmap'] or {}, **dict(m.nsmap))
        config.update(dict(m.config))
        for f in m.fields:
            fields[f.name] = f
        fl = list(fields.values())
        fl = [f for f in fl if f.computed is None] + [f for f in fl if f.computed is not None]
        self._flat[name] = eff, config, fl
        return self._flat[name]

    def plan(self, name):
        if name in self._plan:
            return self._plan[name]
        m = self.u.get(name)
        eff, config, fields = self.flat(name)
        q = clark(uri_of(eff['ns'], eff['nsmap'] or {}), eff['tag'] or name)
        p = Plan(name, q, [], eff['search_mode'], eff['skip_empty'], m.root, config.get('extra') == 'forbid',
                 bool(config.get('hide_input_in_errors')))
        self._plan[name] = p
        for f in fields:
            if f.noxml:
                continue
            ch = Chain([(eff['ns'], eff['nsmap'])], eff['ns_attrs'], None if m.root else f.name,
                       None if m.root else (f.salias if f.salias is not None else f.alias), name)
            p.fields.append(PField(f, self.bind(f.type, f.ent, ch)))
        return p

    def elem_q(self, ent, ch, model=None):
        nsmap_own = dict(ent.nsmap) if ent is not None and ent.nsmap else None
        ns_own = ent.ns if ent is not None else None
        name = ent.name if ent is not None else None
        if model is not None:
            eff, _, _ = self.flat(model)
            name = name or eff['tag'] or ch.alias or ch.fname or model
            ns = ns_own if ns_own is not None else (eff['ns'] if eff['ns'] is not None else ch.ns(None))
            return clark(uri_of(ns, ch.nsmap(nsmap_own, eff['nsmap'])), name)
        name = name or ch.alias or ch.fname
        if name is None:
            raise DefError('name')
        return clark(uri_of(ch.ns(ns_own), ch.nsmap(nsmap_own)), name)

    def bind(self, t, ent, ch):
        if isinstance(t, Opt):
            return self.bind(t.t, ent, ch)
        if ent is not None and ent.kind == 'wrap':
            ns = ch.ns(ent.ns)
            own = dict(ent.nsmap) if ent.nsmap else None
            nsmap = ch.nsmap(own)
            path = [clark(uri_of(ns, nsmap), part) for part in ent.name.split('/')]
            inner = Chain([(ent.ns, own)] + ch.decls, ch.ns_attrs, ch.fname, ch.alias, ch.model)
            return BWrap(path, self.bind(t, ent.inner, inner))
        kind = ent.kind if ent is not None else None
        nil = bool(ent.nillable) if ent is not None else False
        if isinstance(t, (Prim, PUnion)):
            if kind is None:
                return BText(nil)
            if kind == 'attr':
                name = ent.name or ch.alias or ch.fname
                ns = ent.ns if ent.ns is not None else (ch.ns(None) if ch.ns_attrs else None)
                if ns == '' or name is None:
                    raise DefError('attr')
                return BAttr(clark(uri_of(ns, ch.nsmap(), True), name))
            return BElem(self.elem_q(ent, ch), nil)
        if kind == 'attr':
            raise DefError('attr type')
        if isinstance(t, ModelRef):
            return BModel(self.elem_q(ent, ch, t.name), t.name, nil)
        if isinstance(t, Seq):
            return BSeq(self.bind(t.item, ent, ch))
        if isinstance(t, Tup):
            return BTup([self.bind(x, ent, ch) for x in t.items])
        if isinstance(t, (Dct, TDct)):
            own = dict(ent.nsmap) if ent is not None and ent.nsmap else None
            ns = ch.ns(ent.ns if ent is not None else None)
            nsmap = ch.nsmap(own)
            wns = nsmap.get(ns) if ch.ns_attrs and ns else None
            return BAttrs(wns, ch.ns_attrs, self.elem_q(ent, ch) if kind == 'elem' else None, t.names() if isinstance(t, TDct) else ())
        if isinstance(t, MUnion):
            return BUnion([BModel(self.elem_q(ent, ch, n), n, nil) for n in t.names])
        if isinstance(t, TUnion):
            alts, attr = [], None
            for n in t.names:
                b = BModel(self.elem_q(ent, ch, n), n, nil)
                d = [pf for pf in self.plan(n).fields if pf.spec.name == t.disc][0]
                attr = d.b.q
                alts += [(tag, b) for tag in d.spec.type.arg]
            return BTagged(alts, attr)
        if isinstance(t, Raw):
            return BRaw(self.elem_q(ent, ch))
        raise TypeError(t)

    # ---- writing

    def to_tree(self, inst, name=None, skip_empty=False, exclude_none=False, exclude_unset=False):
        name = name or type(inst).__name__
        p = self.plan(name)
        root = Node(p.q)
        self.w_model(p, root, inst, dump(inst), skip_empty, exclude_none, exclude_unset)
        return root

    def w_model(self, p, node, inst, enc, se, xn, xu):
        if p.skip is not None:
            se = p.skip
        if p.root:
            if xu and 'root' not in inst.model_fields_set:
                return
            self.w(p.fields[0].b, node, inst.root, enc, se, xn, xu)
            return
        for pf in p.fields:
            n = pf.spec.name
            if pf.spec.exclude or pf.spec.xif and blank(getattr(inst, n)) or (xu and n not in inst.model_fields_set):
                continue
            self.w(pf.b, node, getattr(inst, n), enc[n], se, xn, xu)

    def w(self, b, node, v, enc, se, xn, xu):
        if isinstance(b, BWrap):
            if v is None and (se or xn or not nils(b)):
                return
            made, cur = [], node
            for q in b.path:
                if cur.children and cur.children[-1].tag == q:
                    nxt = cur.children[-1]
                else:
                    nxt = Node(q)
                    cur.children.append(nxt)
                made.append((cur, nxt))
                cur = nxt
            self.w(b.inner, cur, v, enc, se, xn, xu)
            if se:
                for parent, child in reversed(made):
                    if is_empty(child):
                        parent.children.remove(child)
            return
        if isinstance(b, (BText, BElem, BAttr)):
            if v is None and (se or xn):
                return
            s = prim_text(enc)
            if isinstance(b, BAttr):
                node.attrs[b.q] = s
                return
            target = node if isinstance(b, BText) else Node(b.q)
            if v is None and b.nillable:
                target.attrs[XSI_NIL] = 'true'
            target.text = s
            if target is not node and not (se and is_empty(target)):
                node.children.append(target)
            return
        if isinstance(b, BModel):
            if v is None:
                if b.nillable and not xn and not se:
                    node.children.append(Node(b.q, {XSI_NIL: 'true'}))
                return
            sub = Node(b.q)
            self.w_model(self.plan(b.model), sub, v, enc, se, xn, xu)
            if not (se and is_empty(sub)):
                node.children.append(sub)
            return
        if isinstance(b, BSeq):
            if v is None:
                return
            for x, e in zip(list(v), enc):
                if se and x is None:
                    continue
                self.w(b.item, node, x, e, se, xn, xu)
            return
        if isinstance(b, BTup):
            if v is None or (se and len(v) == 0):
                return
            if len(v) != len(b.items):
                raise RefSerializationError
            for x, e, i in zip(v, enc, b.items):
                self.w(i, node, x, e, se, xn, xu)
            return
        if isinstance(b, BAttrs):
            if b.q is None:
                target = node
                if v is None:
                    return
            else:
                if v is None and (se or xn):
                    return
                target = Node(b.q)
            names = {k: n for k, n, _ in b.names}
            for k, e in (enc or {}).items():
                target.attrs[clark(b.wns, names.get(k, k))] = prim_text(e)
            if b.q is not None and not (se and is_empty(target)):
                node.children.append(target)
            return
        if isinstance(b, BUnion):
            if v is None:
                # written by the first alternative's element when nillable
                return
            for exact in (True, False):
                for a in b.alts:
                    c = self.cls[a.model]
                    if type(v) is c if exact else isinstance(v, c):
                        return self.w(a, node, v, enc, se, xn, xu)
            return
        if isinstance(b, BTagged):
            if v is None:
                return
            for tag, a in b.alts:
                if type(v) is self.cls[a.model] or (isinstance(v, self.cls[a.model])):
                    return self.w(a, node, v, enc, se, xn, xu)
            return
        if isinstance(b, BRaw):
            if v is None:
                return
            sub = from_et(v)
            sub.tail = v.tail or ''
            if not (se and is_empty(sub)):
                node.children.append(sub)
            return
        raise TypeError(b)

    # ---- reading

    def parse(self, name, tree, context=None, eas=False):
        p = self.plan(name)
        if tree.tag != p.q:
            raise RefParsingError
        return self.r_model(p, State(tree), context, eas)

    def r_model(self, p, st, context, eas):
        data, errs, lines = {}, [], {(): st.line}
        if p.root:
            f = p.fields[0]
            try:
                v = self.r(f.b, st, p, context, eas, (), lines)
            except RefErrors as e:
                raise RefErrors(e.errs, p.name)
            data = pd_undefined if v is None else v
        else:
            for pf in p.fields:
                f = pf.spec
                if f.computed is not None:
                    continue
                key = f.valias or f.alias or f.name
                try:
                    v = self.r(pf.b, st, p, context, eas, (key,), lines)
                    if v is not None:
                        data[key] = v
                except RefErrors as e:
                    errs += [Err((f.name,) + x.loc, x.type, x.msg, x.line, x.input) for x in e.errs]
        if errs:
            raise RefErrors(errs, p.name)
        if p.forbid:
            extra = st.unbound(())
            if extra:
                raise RefErrors([Err(loc, 'extra_forbidden', 'Extra inputs are not permitted', line, value)
                                 for loc, line, value in extra], p.name)
        try:
            return self.cls[p.name].model_validate(data, strict=False, context=context)
        except pd.ValidationError as e:
            out = []
            for x in e.errors():
                loc = x['loc']
                k = loc
                while k not in lines:
                    k = k[:-1]
                out.append(Err(loc, x['type'], x['msg'], lines[k], x['input']))
            raise RefErrors(out, e.title)

    def r(self, b, st, p, context, eas, loc, lines):
        if isinstance(b, BWrap):
            cur = st
            for q in b.path:
                nxt = cur.behind(q)
                if nxt is None:
                    nxt = cur.take(q, p.search, self.stable)
                if nxt is None:
                    return None
                cur = nxt
            lines[loc] = cur.line
            return self.r(b.inner, cur, p, context, eas, loc, lines)
        if isinstance(b, BText):
            return self.r_text(b, st, eas)
        if isinstance(b, BAttr):
            return st.attrs.pop(b.q, None)
        if isinstance(b, BElem):
            sub = st.take(b.q, p.search, self.stable)
            if sub is None:
                return None
            lines[loc] = sub.line
            return self.r_text(b, sub, eas)
        if isinstance(b, BModel):
            sub = st.take(b.q, p.search, self.stable)
            if sub is None:
                return None
            lines[loc] = sub.line
            if sub.attrs.pop(XSI_NIL, None) == 'true':
                return None
            return self.r_model(self.plan(b.model), sub, context, eas)
        if isinstance(b, BSeq):
            out, errs, i = [], [], 0
            while True:
                try:
                    before = TAKES[0]
                    v = self.r(b.item, st, p, context, eas, loc + (i,), lines)
                    if v is None:
                        if TAKES[0] != before:
                            self.ambiguous = True   # known finding: an item without a value ends the collection
                        break
                    out.append(v)
                except RefErrors as e:
                    errs += [Err((i,) + x.loc, x.type, x.msg, x.line, x.input) for x in e.errs]
                i += 1
            if errs:
                raise RefErrors(errs, p.name)
            return out or None
        if isinstance(b, BTup):
            out, errs = [], []
            for i, x in enumerate(b.items):
                try:
                    out.append(self.r(x, st, p, context, eas, loc + (i,), lines))
                except RefErrors as e:
                    errs += [Err((i,) + y.loc, y.type, y.msg, y.line, y.input) for y in e.errs]
            if errs:
                raise RefErrors(errs, p.name)
            return None if all(x is None for x in out) else out
        if isinstance(b, BAttrs):
            if b.q is not None:
                sub = st.take(b.q, p.search, self.stable)
                if sub is None:
                    return None
                lines[loc] = sub.line
            else:
                sub = st
            if sub.attrs_taken:
                return None
            sub.attrs_taken = True
            keys = {n: v for _, n, v in b.names}
            out, ranks = {}, {}
            for k, v in sub.attrs.items():
                n = split(k)[1] if b.strip else k
                # whatever the order, the attribute the key is written as wins
                rank = n in keys, split(k)[0] == b.wns, k
                key = keys.get(n, n)
                if key not in out or rank > ranks[key]:
                    out[key], ranks[key] = v, rank
            sub.attrs = {}
            return out
        if isinstance(b, BUnion):
            errs, failed = {}, None
            for a in b.alts:
                trial = st.copy()
                try:
                    v = self.r(a, trial, p, context, eas, loc, lines)
                except RefErrors as e:
                    errs[e.title] = e
                    failed = failed or trial
                    continue
                if v is not None:
                    st.assign(trial)
                    return v
            if errs:
                st.assign(failed)   # the element that did not parse is not offered again
                raise RefErrors([Err((t,) + x.loc, x.type, x.msg, x.line, x.input)
                                 for t, e in errs.items() for x in e.errs], p.name)
            return None
        if isinstance(b, BTagged):
            for tag, a in b.alts:
                sub = st.peek(a.q, p.search)
                if sub is not None and sub.attrs.get(b.attr) == tag:
                    return self.r(a, st, p, context, eas, loc, lines)
            return None
        if isinstance(b, BRaw):
            sub = st.take(b.q, p.search, self.stable)
            if sub is None:
                return None
            lines[loc] = sub.line
            return sub.consume()
        raise TypeError(b)

    @staticmethod
    def r_text(b, st, eas):
        if b.nillable and st.attrs.pop(XSI_NIL, None) == 'true':
            return None
        s, st.text = st.text, ''
        return s or ('' if eas else None)


pd_undefined = None
try:
    from pydantic_core import PydanticUndefined as pd_undefined  # noqa: F811
except ImportError:  # pragma: no cover
    pass


def is_empty(n):
    return not n.text and not n.attrs and not n.children and not n.tail


def nils(b):
    """Whether None is written as an element marked as nil."""
    while isinstance(b, BWrap):
        b = b.inner
    return isinstance(b, (BElem, BModel)) and b.nillable


def prim_text(enc):
    if enc is None:
        return ''
    if enc is True:
        return 'true'
    if enc is False:
        return 'false'
    return str(enc)


def dump(inst):
    """pydantic's JSON-mode data of an instance; raw elements have none."""
    return inst.model_dump(mode='json', by_alias=False, fallback=lambda o: None, warnings=False)


class RawOut:
    """A raw element result of the reference."""

    def __init__(self, node):
        self.node = node


TAKES = [0]


class State:
    """Consumable view of an element."""

    def __init__(self, node):
        self.tag = node.tag
        self.text = node.text or ''
        self.tail = node.tail or ''
        self.attrs = dict(node.attrs)
        self.attrs_taken = False
        self.kids = [State(c) for c in node.children]
        self.pos = 0
        self.line = node.line

    def copy(self):
        s = State.__new__(State)
        s.__dict__.update(self.__dict__)
        s.attrs = dict(self.attrs)
        s.kids = [k.copy() for k in self.kids]
        return s

    def assign(self, other):
        self.__dict__.update(other.__dict__)

    def behind(self, q):
        if 0 < self.pos <= len(self.kids) and self.kids[self.pos - 1].tag == q:
            return self.kids[self.pos - 1]
        return None

    def _find(self, q, mode):
        rng = range(self.pos, len(self.kids))
        if mode == 'strict':
            rng = rng[:1]
        for i in rng:
            if self.kids[i].tag == q:
                return i
        return None

    def peek(self, q, mode):
        i = self._find(q, mode)
        return None if i is None else self.kids[i]

    def take(self, q, mode, stable):
        i = self._find(q, mode)
        if i is None:
            return None
        TAKES[0] += 1
        if mode == 'unordered':
            if stable:
                self.kids.insert(self.pos, self.kids.pop(i))
            else:
                self.kids[self.pos], self.kids[i] = self.kids[i], self.kids[self.pos]
            self.pos += 1
            return self.kids[self.pos - 1]
        self.pos = i + 1
        return self.kids[i]

    def consume(self):
        n = Node(self.tag, self.attrs, self.text, [k.whole() for k in self.kids], self.tail)
        self.attrs, self.text, self.kids, self.tail, self.pos, self.attrs_taken = {}, '', [], '', 0, True
        return NodeElement(n)

    def whole(self):
        return Node(self.tag, dict(self.attrs), self.text, [k.whole() for k in self.kids], self.tail)

    def unbound(self, path):
        out = []
        line = self.line
        if self.text.strip():
            out.append((path, line, self.text.strip()))
        if path and self.tail.strip():  # text behind the top element belongs to its parent
            out.append((path, line, self.tail.strip()))
        for k, v in self.attrs.items():
            out.append((path + ('@' + k,), line, v))
        for k in self.kids:
            out += k.unbound(path + (k.tag,))
        return out


def NodeElement(n):
    """A native element of the active backend with the given content (pydantic checks the type)."""
    from pydantic_xml.element.native import etree
    from .tree import to_et
    e = to_et(n, etree)
    e.tail = n.tail or None
    return e

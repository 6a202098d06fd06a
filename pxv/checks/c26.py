"""The element reader and writer interfaces given to custom hooks."""
import xml.etree.ElementTree as ET

from ..common import *
from ..live import base_ns

TECHNIQUE = 'model-based histories: random call sequences on readers and writers compared with a reference element after every call'
RULE = ('Random documents (repeated tags, namespaces, white space, comments between texts) read by a model whose XML field validator performs '
        'a random history of reader calls on the root element and on every element it obtains (pops, searches with and without look-behind and '
        'stepping, paths, snapshots taken, used and applied, unbound content, conversion to native) in one search mode; and models whose XML '
        'field serializer performs a random history of writer calls (text, attributes, making, appending, removing, finding or creating, '
        'converting native elements). Every result and the final content are compared with a reference. Non-trivial: a history in which '
        'at least three calls had an effect.')
ASSUMPTIONS = ['one search mode per history, as one model has one',
               'in unordered mode any not yet yielded element with the tag may be yielded; pop_elements gives them in any order']

TAGS = ['a', 'b', 'c', '{urn:p}a']
ATTRS = ['x', 'y', '{urn:p}x', 'n']
TEXTS = ['', '', 't', ' ', 'u v', '\n ', 'é&<']
MODES = ['strict', 'ordered', 'unordered']

SRC = '''
RUN = [None]
class R(BaseXmlModel, tag='m'):
    f: str = element(default='')

    @xml_field_validator('f')
    def hook(cls, element, name):
        return RUN[0](element)


class W(BaseXmlModel, tag='m'):
    f: str = element(default='')

    @xml_field_serializer('f')
    def hook(self, element, value, name):
        RUN[0](element)


class WN(BaseXmlModel, tag='m', nsmap={'': 'urn:d', 'p': 'urn:p'}, ns='p'):
    f: str = element(default='')

    @xml_field_serializer('f')
    def hook(self, element, value, name):
        RUN[0](element)
'''
_ns = []


def ns():
    if not _ns:
        n = dict(base_ns())
        exec(compile(SRC, '<c26>', 'exec'), n)
        _ns.append(n)
    return _ns[0]


class El:
    """Reference element."""

    def __init__(self, tag, text=None, tail=None, attrs=None, kids=(), native=False):
        self.tag, self.text, self.tail = tag, text or None, tail or None
        self.attrs = dict(attrs or {})
        self.kids = list(kids)
        self.cur = 0            # strict, ordered: position; unordered: number yielded
        self.yielded = []       # unordered
        self.last = None
        self.real = None
        self.parent = None
        self.native = native
        self.dead = False

    @classmethod
    def of(cls, n):
        return cls(n.tag, n.text, n.tail, n.attrs, [cls.of(k) for k in n.children])

    def copy(self):
        e = El(self.tag, self.text, self.tail, self.attrs, native=self.native)
        pairs = [(k, k.copy()) for k in self.kids]
        e.kids = [c for _, c in pairs]
        e.cur = self.cur
        to = {id(k): c for k, c in pairs}
        e.yielded = [to[id(k)] for k in self.yielded if id(k) in to]
        e.last = to.get(id(self.last))
        return e

    def node(self):
        return Node(self.tag, dict(self.attrs), self.text or '', [k.node() for k in self.kids], self.tail or '')

    def unbound(self, path=()):
        out = []
        if self.text and self.text.strip():
            out.append((path, None, self.text.strip()))
        if path and self.tail and self.tail.strip():
            out.append((path, None, self.tail.strip()))
        out += [(path, k, v) for k, v in self.attrs.items()]
        for k in self.kids:
            out += k.unbound(path + (k.tag,))
        return out

    def candidates(self, tag, mode, look):
        """Elements a search may give."""
        if look and self.last is not None and self.last.tag == tag:
            return [self.last]
        if mode == 'strict':
            return [k for k in self.kids[self.cur:self.cur + 1] if k.tag == tag]
        if mode == 'ordered':
            return [k for k in self.kids[self.cur:] if k.tag == tag][:1]
        return [k for k in self.kids if k.tag == tag and not any(k is y for y in self.yielded)]

    def used(self):
        return self.cur != 0 or bool(self.yielded) or any(k.used() for k in self.kids)

    def take(self, k, mode, look):
        if look and k is self.last:
            return
        if mode == 'unordered':
            self.yielded.append(k)
        else:
            self.cur = next(i for i, x in enumerate(self.kids) if x is k) + 1
        self.last = k

    def clear(self):
        kids, self.kids, self.cur, self.yielded, self.last = self.kids, [], 0, [], None
        return kids


def canon(n, mode):
    kids = [canon(k, mode) for k in n.children]
    if mode == 'unordered':
        kids.sort()
    return n.tag, tuple(sorted(n.attrs.items())), n.text or '', tuple(kids), n.tail or ''


def native(e):
    et = e.to_native()
    n = from_et(et)
    n.tail = et.tail or ''
    return n


def attrs_sorted(unbound):
    """The attributes of one element have no order."""
    out, run = [], []
    for x in unbound + [None]:
        if run and (x is None or x[1] is None or x[0] != run[0][0]):
            out += sorted(run)
            run = []
        if x is not None:
            (out if x[1] is None else run).append(x)
    return out


class Ambiguous(Exception):
    pass


class History:
    def __init__(self, mode, T):
        self.mode = mode
        self.T = T
        self.log = []
        self.effects = 0

    def bad(self, what, want, got):
        raise Violation('%s gives %r, not %r' % (what, got, want), calls='\n'.join(self.log), mode=self.mode)

    def eq(self, what, want, got):
        if want != got:
            self.bad(what, want, got)

    def match(self, what, cands, real, new=False):
        """The reference element that was given."""
        known = [k for k in cands if k.real is real]
        if known and not new:
            return known[0]
        got = canon(native(real), self.mode)
        fit = [k for k in cands if (new or k.real is None) and canon(k.node(), self.mode) == got]
        if not fit:
            self.bad(what, [canon(k.node(), self.mode) for k in cands], got)
        if len(fit) > 1 and any(k.used() for k in fit):
            raise Ambiguous
        fit[0].real = real
        return fit[0]

    def got(self, what, cands, real, new=False):
        """Compares the result of a search; returns the reference element or None."""
        if real is None:
            if cands:
                self.bad(what, cands[0].tag, None)
            return None
        if not cands:
            self.bad(what, None, native(real))
        k = self.match(what, cands, real, new)
        self.eq(what + '.tag', k.tag, real.tag)
        self.effects += 1
        return k


class Reading(History):
    def run(self, root, model, ops):
        model.real = root
        self.handles = [model]
        self.snaps = []
        from pydantic_xml.element import SearchMode
        self.sm = SearchMode(self.mode)
        for op, h, a, b in ops:
            live_ = [e for e in self.handles if not e.dead]
            e = live_[h % len(live_)]
            self.where = 'e%d' % self.handles.index(e)
            getattr(self, 'do_' + op)(e, a, b)
        for e in self.handles:
            if not e.dead:
                self.do_unbound(e, 0, 0)
                self.do_native(e, 0, 0)

    def call(self, text):
        what = '%s.%s' % (self.where, text)
        self.log.append(what)
        return what

    def keep(self, k):
        if k is not None and k not in self.handles:
            self.handles.append(k)
            self.log[-1] += ' -> e%d' % (len(self.handles) - 1)

    def do_text(self, e, a, b):
        self.eq(self.call('pop_text()'), e.text, e.real.pop_text() or None)
        self.eq(self.call('pop_text()'), None, e.real.pop_text())
        self.effects += e.text is not None
        e.text = None

    def do_tail(self, e, a, b):
        self.eq(self.call('pop_tail()'), e.tail, e.real.pop_tail() or None)
        self.eq(self.call('pop_tail()'), None, e.real.pop_tail())
        self.effects += e.tail is not None
        e.tail = None

    def do_attrib(self, e, a, b):
        n = ATTRS[a % 4]
        self.eq(self.call('pop_attrib(%r)' % n), e.attrs.pop(n, None), e.real.pop_attrib(n))
        self.eq(self.call('pop_attrib(%r)' % n), None, e.real.pop_attrib(n))
        self.effects += 1

    def do_get(self, e, a, b):
        n = ATTRS[a % 4]
        self.eq(self.call('get_attrib(%r)' % n), e.attrs.get(n), e.real.get_attrib(n))

    def do_attributes(self, e, a, b):
        what = self.call('pop_attributes()')
        got = e.real.pop_attributes()
        self.eq(what, e.attrs, dict(got or {}))
        self.effects += bool(e.attrs)
        e.attrs = {}

    def do_elements(self, e, a, b):
        what = self.call('pop_elements()')
        got = e.real.pop_elements()
        kids = e.clear()
        if len(kids) != len(got):
            self.bad(what, [k.tag for k in kids], [r.tag for r in got])
        if self.mode != 'unordered':
            self.eq(what, [k.tag for k in kids], [r.tag for r in got])
        rest = list(kids)
        for i, r in enumerate(got):
            k = self.match(what, [kids[i]] if self.mode != 'unordered' else rest, r)
            rest = [x for x in rest if x is not k]
            self.keep(k)
        self.effects += bool(kids)

    def do_pop(self, e, a, b):
        tag, remove = TAGS[a % 4], b % 4 == 0
        what = self.call('pop_element(%r, %s%s)' % (tag, self.mode, ', remove=True' if remove else ''))
        cands = e.candidates(tag, self.mode, False)
        real = e.real.pop_element(tag, self.sm, remove=True) if remove else e.real.pop_element(tag, self.sm)
        k = self.got(what, cands, real, remove)
        if k is None:
            return
        e.take(k, self.mode, False)
        if remove:
            new = El(k.tag, k.text, k.tail, k.attrs)
            new.kids = k.clear()
            new.real = real
            k.text, k.tail, k.attrs = None, None, {}
            k.real = None
            k = new
        self.keep(k)

    def do_loop(self, e, a, b):
        tag = TAGS[a % 4]
        for _ in range(30):
            n = len(self.log)
            had = e.candidates(tag, self.mode, False)
            self.do_pop(e, a, b)
            if not had:
                return
            assert len(self.log) > n

    def do_find(self, e, a, b):
        tag, look, step = TAGS[a % 4], bool(b & 1), bool(b & 2)
        what = self.call('find_element(%r, %s, look_behind=%s, step_forward=%s)' % (tag, self.mode, look, step))
        cands = e.candidates(tag, self.mode, look)
        real = e.real.find_element(tag, self.sm, look_behind=look, step_forward=step)
        k = self.got(what, cands, real)
        if k is not None and step:
            e.take(k, self.mode, look)
            self.keep(k)
        elif k is not None:
            again = e.real.find_element(tag, self.sm, look_behind=look, step_forward=False)
            if again is not real:
                self.bad(what + ' (again)', native(real), again and native(again))

    def do_sub(self, e, a, b):
        path = [TAGS[a % 4], TAGS[b % 4]] + ([TAGS[(a >> 2) % 4]] if b & 4 else [])
        path = path[1:] if b & 8 else path
        what = self.call('find_sub_element(%r, %s)' % (path, self.mode))
        got = e.real.find_sub_element(path, self.sm)
        out, cur = [], e
        for i, tag in enumerate(path):
            cands = cur.candidates(tag, self.mode, True)
            k = self.got('%s[%d]' % (what, i), cands, got[i] if i < len(got) else None)
            if k is None:
                break
            cur.take(k, self.mode, True)
            out.append(k)
            cur = k
        self.eq('len(%s)' % what, len(out), len(got))
        for k in out:
            self.keep(k)

    def do_step(self, e, a, b):
        if self.mode == 'unordered' or e.cur >= len(e.kids):
            return
        self.call('step_forward()')
        e.real.step_forward()
        e.last = e.kids[e.cur]
        e.cur += 1
        self.effects += 1

    def do_snap(self, e, a, b):
        self.call('create_snapshot()')
        s = e.copy()
        s.real = e.real.create_snapshot()
        self.keep(s)
        self.snaps.append((e, s))
        self.same(e)
        self.same(s)

    def do_apply(self, e, a, b):
        mine = [(o, s) for o, s in self.snaps if o is e and not s.dead]
        if not mine:
            return
        s = mine[a % len(mine)][1]
        self.call('apply_snapshot(e%d)' % self.handles.index(s))
        e.real.apply_snapshot(s.real)
        e.tag, e.text, e.tail, e.attrs, e.kids = s.tag, s.text, s.tail, s.attrs, s.kids
        e.cur, e.yielded, e.last = s.cur, s.yielded, s.last
        s.dead = True
        self.effects += 1
        self.same(e)

    def do_trial(self, e, a, b):
        """A snapshot is taken, used and, mostly, applied."""
        self.do_snap(e, 0, 0)
        s, where = self.snaps[-1][1], self.where
        for i, op in enumerate(['text', 'tail', 'attrib', 'attributes', 'elements', 'pop', 'find', 'sub', 'step']):
            if (a * 16 + b) >> i & 1 or i == a % 9:
                self.where = 'e%d' % self.handles.index(s)
                getattr(self, 'do_' + op)(s, a + i, b)
        self.where = where
        if b % 4:
            mine = [x for o, x in self.snaps if o is e and not x.dead]
            self.do_apply(e, len(mine) - 1, 0)
        else:
            self.same(e)
        if a & 1:
            self.do_tail(e, a, b)
            self.do_text(e, a, b)

    def same(self, e):
        self.eq('%s.to_native()' % self.where, canon(e.node(), self.mode), canon(native(e.real), self.mode))

    def do_native(self, e, a, b):
        self.call('to_native()')
        self.same(e)

    def do_unbound(self, e, a, b):
        what = self.call('get_unbound()')
        want = e.unbound()
        got = [(tuple(x.tag for x in p), n, v) for p, n, v in e.real.get_unbound()]
        if self.mode == 'unordered':
            def key(x):
                return x[0], x[1] or '', x[2]
            want, got = sorted(want, key=key), sorted(got, key=key)
        else:
            want, got = attrs_sorted(want), attrs_sorted(got)
        self.eq(what, want, got)

    def do_empty(self, e, a, b):
        if not e.tail:
            self.eq(self.call('is_empty()'), not (e.text or e.attrs or e.kids), e.real.is_empty())


ROPS = ['text', 'tail', 'attrib', 'get', 'attributes', 'elements', 'pop', 'pop', 'pop', 'loop', 'find', 'find', 'find', 'sub', 'sub', 'step',
        'snap', 'apply', 'trial', 'trial', 'native', 'unbound', 'empty']


class Writing(History):
    def run(self, root, model, ops):
        from pydantic_xml.element import SearchMode
        model.real = root
        self.handles = [model]
        for op, h, a, b in ops:
            e = self.handles[h % len(self.handles)]
            self.where = 'e%d' % self.handles.index(e)
            self.sm = SearchMode(MODES[b % 3])
            getattr(self, 'do_' + op)(e, a, b)
            self.effects += 1
            for x in self.handles:
                if not x.tail:
                    self.eq('e%d.is_empty()' % self.handles.index(x), not (x.text or x.attrs or x.kids), x.real.is_empty())

    def add(self, e):
        self.handles.append(e)
        self.log[-1] = 'e%d = ' % (len(self.handles) - 1) + self.log[-1]

    def call(self, text):
        self.log.append('%s.%s' % (self.where, text))

    def do_text(self, e, a, b):
        t = TEXTS[a % len(TEXTS)]
        self.call('set_text(%r)' % t)
        e.real.set_text(t)
        e.text = t

    def do_attr(self, e, a, b):
        n, v = ATTRS[a % 4], TEXTS[b % len(TEXTS)]
        self.call('set_attribute(%r, %r)' % (n, v))
        e.real.set_attribute(n, v)
        e.attrs[n] = v

    def do_attrs(self, e, a, b):
        d = {ATTRS[i]: TEXTS[(b + i) % len(TEXTS)] for i in range(4) if a >> i & 1}
        self.call('set_attributes(%r)' % d)
        given = dict(d)
        e.real.set_attributes(given)
        given['later'] = 'z'
        e.attrs = d

    def do_make(self, e, a, b):
        tag, nsmap = TAGS[a % 4], [None, {'p': 'urn:p'}, {'': 'urn:d'}, {'': 'urn:p', 'q': 'urn:q'}, {}][b % 5]
        self.call('make_element(%r, %r)' % (tag, nsmap))
        k = El(tag)
        k.real = e.real.make_element(tag, nsmap)
        self.add(k)

    def do_native(self, e, a, b):
        n = Node(TAGS[a % 4], {'x': 'v'} if b & 1 else {}, TEXTS[b % len(TEXTS)],
                 [Node(TAGS[b % 4], {}, 'k', [], TEXTS[a % len(TEXTS)])] * (b % 3), TEXTS[(a + b) % len(TEXTS)] if b & 4 else '')
        from pydantic_xml.element.native import etree
        from ..tree import to_et
        et = to_et(n, etree)
        et.tail = n.tail or None
        self.call('from_native(%s)' % n)
        k = El.of(n)
        k.native = True
        k.real = type(e.real).from_native(et)
        self.add(k)

    def do_append(self, e, a, b):
        free = [k for k in self.handles[1:] if k.parent is None]
        up = e
        while up is not None:
            free = [k for k in free if k is not up]
            up = up.parent
        if not free:
            self.do_make(e, a, b)
            free = self.handles[-1:]
        k = free[-1 - a % len(free)]
        self.call('append_element(e%d)' % self.handles.index(k))
        e.real.append_element(k.real)
        e.kids.append(k)
        k.parent = e

    def do_remove(self, e, a, b):
        kids = [k for k in self.handles if k.parent is not None]
        if not kids:
            return
        k = kids[a % len(kids)]
        p = k.parent
        self.where = 'e%d' % self.handles.index(p)
        self.call('remove_element(e%d)' % self.handles.index(k))
        p.real.remove_element(k.real)
        p.kids = [x for x in p.kids if x is not k]
        k.parent = None

    def do_foc(self, e, a, b):
        if e.native:
            return
        tag, nsmap = TAGS[a % 4], [None, {'p': 'urn:p'}, {'': 'urn:d'}][b % 3]
        self.call('find_element_or_create(%r, %s, %r)' % (tag, self.sm.value, nsmap))
        real = e.real.find_element_or_create(tag, self.sm, nsmap)
        if e.kids and e.kids[-1].tag == tag:
            k = e.kids[-1]
            if k.real is not real:
                self.bad(self.log[-1], 'the preceding element', native(real))
            return
        if any(h.real is real for h in self.handles):
            self.bad(self.log[-1], 'a new element', native(real))
        k = El(tag)
        k.real = real
        k.parent = e
        e.kids.append(k)
        self.add(k)


WOPS = ['text', 'attr', 'attrs', 'make', 'native', 'append', 'append', 'append', 'remove', 'foc', 'foc', 'foc']


@dataclass(frozen=True)
class Hist:
    tree: Any
    tape: tuple
    mode: str
    ops: tuple


def freeze(n):
    return n.tag, tuple(n.attrs.items()), n.text, tuple(freeze(k) for k in n.children), n.tail


def thaw(t):
    return Node(t[0], dict(t[1]), t[2], [thaw(k) for k in t[3]], t[4])


@st.composite
def trees(draw, depth=0, num=None):
    num = num if num is not None else [0]
    num[0] += 1
    n = Node('m' if not depth else draw(st.sampled_from(TAGS)), {'n': str(num[0])}, draw(st.sampled_from(TEXTS)))
    for a in ATTRS[:3]:
        if draw(st.integers(0, 3)) == 0:
            n.attrs[a] = draw(st.sampled_from(TEXTS))
    if depth < 3:
        for _ in range(draw(st.integers(0, (6, 3, 2)[depth]))):
            k = draw(trees(depth + 1, num))
            k.tail = draw(st.sampled_from(TEXTS))
            n.children.append(k)
    return n


def ops(names, n):
    return st.lists(st.tuples(st.sampled_from(names), st.integers(0, 9), st.integers(0, 15), st.integers(0, 15)), min_size=4, max_size=n).map(tuple)


@st.composite
def readings(draw):
    return Hist(freeze(draw(trees())), tuple(draw(st.lists(st.integers(0, 9), max_size=20))), draw(st.sampled_from(MODES)), draw(ops(ROPS, 25)))


def check_reading(c, T):
    tree = thaw(c.tree)
    doc = Printer(Tape(c.tape), noise=True).document(tree)
    drive(Reading(c.mode, T), ns()['R'], El.of(tree), c.ops, T, lambda M: guarded(M.from_xml, doc), doc)


def drive(h, M, model, ops, T, go, doc):
    err, called = [], []

    def run(element):
        called.append(1)
        try:
            h.run(element, model, ops)
        except Exception as e:
            err.append(e)
        return 'done'
    ns()['RUN'][0] = run
    out = go(M)
    if len(called) != 1:
        raise Violation('the hook is called %d times' % len(called), document=doc)
    if err:
        if isinstance(err[0], Ambiguous):
            T.count('ended: two equal elements')
            return None
        if isinstance(err[0], Violation):
            err[0].details['document'] = doc
        raise err[0]
    T.count('calls', len(h.log))
    T.count('mode: ' + h.mode)
    if h.effects >= 3:
        T.nontrivial(doc, h.mode, '\n'.join(h.log))
        T.sample('%s\n%s\n%s' % (doc, h.mode, '\n'.join(h.log)))
    return out


@st.composite
def writings(draw):
    return Hist(draw(st.booleans()), (), 'any', draw(ops(WOPS, 20)))


def check_writing(c, T):
    M = ns()['WN' if c.tree else 'W']
    for how in ('text', 'tree'):
        model = El('{urn:p}m' if c.tree else 'm')
        out = drive(Writing(c.mode, T), M, model, c.ops, T, lambda M: guarded(M(f='x').to_xml if how == 'text' else M(f='x').to_xml_tree), M.__name__)
        try:
            got = tparse(out) if how == 'text' else from_et(out)
        except ET.ParseError as e:
            raise Violation('the document is not well-formed: %s' % e, document=repr(out)) from None
        if got.canon() != model.node().canon():
            raise Violation('the document does not hold what was written', document=repr(out) if how == 'text' else repr(got),
                            want=repr(model.node()), calls=repr(c.ops))


def parts():
    return [Part('reading', readings, check_reading, 1500), Part('writing', writings, check_writing, 800)]

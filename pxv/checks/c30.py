"""Entry points and their options."""
from ..common import *
from ..live import Live, base_ns
from ..tree import to_et

TECHNIQUE = 'metamorphic: text entry points against the tree entry points and the backend called directly, with generated options'
RULE = ('Generated model programs and instances; to_xml with generated combinations of model options and backend options is compared byte for '
        'byte (or exception for exception) with the backend serializing to_xml_tree; every presentation is read back and must give what the plain '
        'one gives; from_xml with generated parsers, documents (valid, mutated, with comments and blank text, truncated, with something in front or behind) and flags is compared '
        'with from_xml_tree of the backend\'s parse; trees given are left as they were; a context object given to either entry point is '
        'the one every model validator of the program sees. Non-trivial: a document of more than one element, per option set.')
ASSUMPTIONS = ['pretty printing is read back only for models without text, whose white space it cannot change']

LX_OUT = [{}, {'pretty_print': True}, {'encoding': 'unicode'}, {'encoding': 'utf-8'}, {'encoding': 'utf-16'}, {'encoding': 'iso-8859-1'},
          {'encoding': 'ascii'}, {'encoding': 'utf-8', 'xml_declaration': True}, {'xml_declaration': True}, {'xml_declaration': False},
          {'encoding': 'utf-8', 'xml_declaration': True, 'standalone': True}, {'standalone': False}, {'pretty_print': True, 'encoding': 'unicode'},
          {'pretty_print': True, 'xml_declaration': True, 'encoding': 'utf-16'}, {'doctype': '<!DOCTYPE x>'}, {'encoding': 'windows-1252'},
          {'with_tail': False}, {'encoding': 'utf-16-le', 'xml_declaration': True}]
STD_OUT = [{}, {'encoding': 'unicode'}, {'encoding': 'utf-8'}, {'encoding': 'utf-16'}, {'encoding': 'iso-8859-1'}, {'encoding': 'ascii'},
           {'encoding': 'utf-8', 'xml_declaration': True}, {'xml_declaration': True}, {'xml_declaration': False},
           {'short_empty_elements': False}, {'encoding': 'us-ascii', 'xml_declaration': True, 'short_empty_elements': False},
           {'encoding': 'windows-1252'}, {'short_empty_elements': True, 'encoding': 'unicode'}, {'method': 'xml'}]
# not readable as XML, or refused
ODD = [{'method': 'text'}, {'method': 'html'}, {'encoding': 'no-such-encoding'}, {'nothing_of_the_kind': 1},
       {'encoding': 'unicode', 'xml_declaration': True}, {'method': 'text', 'encoding': 'unicode'}, {'method': 'c14n'}]
FLAGS = ['skip_empty', 'exclude_none', 'exclude_unset']


def lxml():
    return 'lxml' in base_ns()['etree'].__name__


def parsers():
    """Parser makers of the backend in use: (name, function)."""
    etree = base_ns()['etree']
    if lxml():
        P = etree.XMLParser
        return [('none', dict), ('default', lambda: {'parser': P()}), ('blank', lambda: {'parser': P(remove_blank_text=True)}),
                ('comments', lambda: {'parser': P(remove_comments=True)}), ('pis', lambda: {'parser': P(remove_pis=True)}),
                ('recover', lambda: {'parser': P(recover=True)}), ('cdata', lambda: {'parser': P(strip_cdata=False)}),
                ('huge', lambda: {'parser': P(huge_tree=True, resolve_entities=False)}), ('base', lambda: {'base_url': 'http://h.example/'}),
                ('html', lambda: {'parser': etree.HTMLParser()}), ('encoding', lambda: {'parser': P(encoding='utf-8')}),
                ('odd', lambda: {'nothing_of_the_kind': 1})]

    def keep():
        return {'parser': etree.XMLParser(target=etree.TreeBuilder(insert_comments=True, insert_pis=True))}

    def upper():
        class Upper(etree.TreeBuilder):
            def data(self, data):
                return super().data(data.upper())
        return {'parser': etree.XMLParser(target=Upper())}
    return [('none', dict), ('default', lambda: {'parser': etree.XMLParser()}), ('keep', keep), ('upper', upper),
            ('encoding', lambda: {'parser': etree.XMLParser(encoding='utf-8')}), ('odd', lambda: {'nothing_of_the_kind': 1})]


def attempt(fn, *a, **kw):
    try:
        return 'ok', guarded(fn, *a, **kw)
    except (TypeError, ValueError, LookupError, SyntaxError, AssertionError) as e:
        return 'raises', type(e).__name__, str(e)


def told(o):
    if o.kind == 'invalid':
        return 'invalid %s %s' % (o.title, sorted(map(repr, (err_key(e, True) for e in o.errors))))
    if o.kind == 'crash':
        return 'raises %s: %s' % (type(o.exc).__name__, o.exc)
    if o.kind == 'parsing':
        return 'parsing error: %s' % o.exc
    return repr(o)


def check_out(c, T):
    L = live(c.u)
    etree = L.etree
    outs, flags = c.x
    table = LX_OUT if lxml() else STD_OUT
    ascii_names = None
    for v, inst in instances(L, c, T):
        opts = {f: True for i, f in enumerate(FLAGS) if flags >> i & 1}
        tree = guarded(inst.to_xml_tree, **opts)
        node = from_et(tree)
        ascii_names = names_ascii(node)
        base = told(L.sut_parse_tree(node))
        text = has_text(c.u)
        for o in [table[i % len(table)] for i in outs] + [ODD[i % len(ODD)] for i in outs[:2]]:
            a = attempt(inst.to_xml, **opts, **o)
            b = attempt(etree.tostring, tree, **o)
            if a != b:
                fail('to_xml is not the backend\'s serialization of to_xml_tree', L, instance=lit(v), options={**opts, **o}, to_xml=a, backend=b)
            T.count('out: ' + (a[0] if a[0] == 'ok' else 'raises ' + a[1]))
            if a[0] != 'ok' or o in ODD:
                continue
            enc = o.get('encoding', 'ascii')
            if not ascii_names and enc in ('ascii', 'us-ascii', 'iso-8859-1', 'windows-1252'):
                continue
            if o.get('pretty_print') and text:
                continue
            back = told(L.sut_parse(a[1]))
            if node.size() > 1:
                T.nontrivial(L.src, plain(node), o)
                T.sample('%s\n# %s\n# %r -> %r' % (L.src, lit(v), {**opts, **o}, a[1]))
            if strip_lines(back) != strip_lines(base):
                fail('a presentation of the document reads differently', L, instance=lit(v), options={**opts, **o}, document=repr(a[1]),
                     plain=base, presented=back)


def strip_lines(s):
    import re
    return re.sub(r", (-?\d+|None)\)(?=[\"',\]])", ')', s)


def has_text(u):
    return uses(u, BText, BRaw)


def names_ascii(n):
    return all(x.tag.isascii() and all(map(str.isascii, x.attrs)) for x in n.walk())


DAMAGE = [(' ', ''), ('\n', ''), ('\ufeff', ''), ('x', ''), ('\t<!-- c -->', ''), ('', '\n '), ('', 'x'), ('', '<x/>'), ('', '\0'), ('\0', ''), ('', '<!-- c -->'),
          ('<?xml version="1.1"?>', ''), ('<?xml version="1.0" encoding="ascii"?>', ''), ('<?pi?>', ''), ('<!DOCTYPE x>', ''), ('\ufeff ', ''), ('\r\n', '\r\n')]


def damaged(doc, n):
    """Something in front of or behind the document."""
    a, b = DAMAGE[n % len(DAMAGE)]
    if isinstance(doc, bytes):
        return a.encode() + doc + b.encode()
    return a + doc + b


def check_in(c, T):
    L = live(c.u)
    etree = L.etree
    tape, ps, eas, cut, positional = c.x
    tags, attrs = vocabulary(c.u, L.ref)
    pool = parsers()
    for v, inst in instances(L, c, T):
        base = L.ref.to_tree(inst)
        for i, t in enumerate([base] + [mutate(base, m, tags, attrs) for m in c.muts]):
            enc = [None, None, 'utf-8', 'utf-16'][(sum(tape) + i) % 4]
            doc = Printer(Tape(tape[i:] + tape), noise=True, ws=True, encoding=enc).document(t)
            if cut and i == 1:
                doc = doc[:max(1, len(doc) - cut)]
            elif i > 1 and (tape + (0,))[i % (len(tape) + 1)] % 2:
                doc = damaged(doc, sum(tape) + i)
            for p in ps:
                name, make = pool[p % len(pool)]
                kw = {'context': {'k': 1}, 'empty_as_string': eas}
                got = outcome(L.top.from_xml, doc, {'k': 1}, eas, **make()) if positional else outcome(L.top.from_xml, doc, **kw, **make())
                try:
                    root = guarded(etree.fromstring, doc, **make())
                except Exception as e:
                    want = 'raises %s: %s' % (type(e).__name__, e)
                else:
                    if not (hasattr(root, 'tag') and isinstance(root.tag, str)):
                        continue        # nothing was recovered
                    before = etree.tostring(root)
                    want = told(outcome(L.top.from_xml_tree, root, **kw))
                    if etree.tostring(root) != before:
                        fail('from_xml_tree changes the tree it is given', L, before=before, after=etree.tostring(root))
                    if told(outcome(L.top.from_xml_tree, root, {'k': 1}, eas)) != want:
                        fail('the second read of the same tree differs', L, document=repr(doc))
                T.count('in: %s, %s' % (name, want.split()[0]))
                if told(got) != want:
                    fail('from_xml is not from_xml_tree of the parsed source', L, document=repr(doc), parser=name, empty_as_string=eas,
                         from_xml=told(got), from_xml_tree=want)
                if want.startswith(('ok', 'invalid')) and t.size() > 1:
                    T.nontrivial(L.src, doc, name)


# --- the validation context

CTX = '''
SEEN = []


class CtxXmlModel(BaseXmlModel):
    @model_validator(mode='before')
    @classmethod
    def see_before(cls, data, info):
        SEEN.append((cls.__name__, info.context))
        return data

    @model_validator(mode='after')
    def see_after(self, info):
        SEEN.append((type(self).__name__, info.context))
        return self


'''


class CtxLive(Live):
    def __init__(self, u):
        super().__init__(u)
        from ..live import load
        self.src = CTX + self.src.replace('(BaseXmlModel', '(CtxXmlModel')
        self.ns = load(self.src)
        self.classes = {m.name: self.ns[m.name] for m in u.models}
        self.top = self.classes[u.top]


def models_in(v):
    if isinstance(v, pd.BaseModel):
        yield v
        for x in v.__dict__.values():
            yield from models_in(x)
    elif isinstance(v, (list, tuple, set, frozenset)):
        for x in v:
            yield from models_in(x)
    elif isinstance(v, dict):
        for x in v.values():
            yield from models_in(x)


def check_context(c, T):
    L = CtxLive(c.u)
    plain_ = {m.name for m in c.u.models if not m.root}
    seen = L.ns['SEEN']
    tags, attrs = vocabulary(c.u, L.ref)
    for v, inst in instances(L, c, T):
        doc = guarded(inst.to_xml_tree)
        base = from_et(doc)
        for t in [base] + [mutate(base, m, tags, attrs) for m in c.muts]:
            for how in ('text', 'tree'):
                for ctx in ({'k': object()}, None):
                    del seen[:]
                    got = L.sut_parse(plain(t), context=ctx) if how == 'text' else L.sut_parse_tree(t, context=ctx)
                    wrong = [(n, x) for n, x in seen if x is not ctx]
                    if wrong:
                        fail('the validator of %s sees the context %r, not the one given' % wrong[0], L, document=plain(t), entry=how)
                    T.count('context seen', len(seen))
                    if got.kind == 'ok' and ctx:
                        want = {type(x).__name__ for x in models_in(got.value)} & plain_
                        missing = want - {n for n, _ in seen}
                        if missing and not any(m.bases for m in c.u.models):
                            fail('no validator ran for %s' % missing, L, document=plain(t))
                        if len(want) > 1:
                            T.nontrivial(L.src, plain(t))
                            T.sample('%s\n# %s' % (L.src, plain(t)))


def parts():
    any_ = Knobs(ns=0.3, models=(1, 4), cr=False)
    notext = Knobs(ns=0.3, cr=False, locs=('attr', 'elem', 'elem', 'elem', 'wrap'), shapes=('prim', 'prim', 'opt', 'model', 'seq', 'tup', 'dct',
                   'munion'), roots=0)
    deep = Knobs(ns=0.1, models=(2, 5), fields=(1, 4), shapes=('model', 'model', 'seq', 'seq', 'tup', 'munion', 'tunion', 'prim', 'self'),
                 seq_items=('model', 'model', 'tup', 'munion', 'tunion'), roots=0.3, subclass=0)
    outs = lambda d: (tuple(d(st.lists(st.integers(0, 17), min_size=2, max_size=5))), d(st.sampled_from([0, 0, 0, 1, 2, 3, 4, 7])))
    ins = lambda d: (tuple(d(st.lists(st.integers(0, 9), max_size=16))), tuple(d(st.lists(st.integers(0, 11), min_size=1, max_size=3))),
                     d(st.booleans()), d(st.sampled_from([0, 0, 1, 3, 8])), d(st.booleans()))
    return [
        Part('out', lambda: cases(any_, 2, 0, outs), check_out, 250),
        Part('out pretty', lambda: cases(notext, 2, 0, outs), check_out, 120),
        Part('in', lambda: cases(any_, 1, 3, ins), check_in, 200),
        Part('context', lambda: cases(deep, 2, 2), check_context, 150),
    ]

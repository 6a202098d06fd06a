"""lxml and the standard library behave the same."""
import pickle

from ..common import *
from ..live import load
from ..peer import Peer
from ..tree import to_et
from . import c24

TECHNIQUE = 'differential: the same generated programs, instances and documents in two processes, one per backend'
RULE = ('Generated model programs with instances written as text and trees under several options, and documents (written ones, mutated ones and '
        'arbitrary trees over the same names, printed with comments, processing instructions, CDATA sections, character references, foreign '
        'prefixes and encodings) read as text and bytes; generated supported and unsupported definitions; each is run in an lxml process and '
        'in a standard library process and everything observed must agree: documents by content, values, acceptance, error locations, types, '
        'messages and inputs, exceptions at definition. Non-trivial: a program with a document of more than one element.')
ASSUMPTIONS = ['texts without carriage returns: the standard library itself writes them unescaped', 'line numbers exist with lxml only',
               'both backends are given names and characters that XML allows']

KNOBS = [Knobs(cr=False), Knobs(cr=False, ns=1.0, models=(2, 5)), Knobs(cr=False, modes=('unordered', 'ordered')),
         Knobs(cr=False, forbid=0.6), Knobs(cr=False, shapes=('raw', 'model', 'seq', 'tup', 'munion', 'tunion', 'prim')),
         Knobs(cr=False, nillable=0.5, opt=0.6, skip_flag=0.5), Knobs(cr=False, top_root=1.0, roots=0.6)]


def observe(part, blob):
    c = pickle.loads(blob)
    if part == 'definition':
        return observe_definition(c)
    obs = []
    try:
        L = live(c.u)
    except DefinitionFailed as e:
        return [('definition', '%s: %s' % (type(e.exc).__name__, e.exc))]
    docs = []
    for i, v in enumerate(c.vals):
        try:
            inst = L.make(v)
            base = L.ref.to_tree(inst)
        except (pd.ValidationError, KeyError):
            obs.append(('value %d' % i, 'rejected'))
            continue
        for name, fn in (('to_xml', lambda: tparse(guarded(inst.to_xml, encoding='utf-8', xml_declaration=True)).canon()),
                         ('to_xml skip_empty', lambda: tparse(guarded(inst.to_xml, encoding='unicode', skip_empty=True)).canon()),
                         ('to_xml exclude_none', lambda: tparse(guarded(inst.to_xml, encoding='utf-16', exclude_none=True)).canon()),
                         ('to_xml exclude_unset', lambda: L.sut_tree(inst, exclude_unset=True).canon()),
                         ('to_xml_tree', lambda: L.sut_tree(inst).canon())):
            try:
                obs.append(('%s %d' % (name, i), repr(fn())))
            except Exception as e:
                obs.append(('%s %d' % (name, i), 'raises %s' % type(e).__name__))
        docs.append(base)
    bases = list(docs)
    tags, attrs = vocabulary(c.u, L.ref)
    tape, enc, eas, trees = c.x
    for b in bases:
        docs += [mutate(b, m, tags, attrs) for m in c.muts]
    docs += trees
    for i, t in enumerate(docs):
        args = dict(noise=True, ws=bool(i % 2))
        try:
            doc = Printer(Tape(tape[i % 7:] + tape), encoding=enc, **args).document(t)
        except UnicodeEncodeError:      # in a name
            doc = Printer(Tape(tape[i % 7:] + tape), encoding='utf-8', **args).document(t)
        got = L.sut_parse(doc, context={'k': 1}, empty_as_string=eas)
        obs.append((doc, told(got)))
        tree = to_et(t, L.etree)
        keep = from_et(tree).canon()
        for how in ('as a tree', 'as the same tree again'):
            obs.append(('%s %s' % (plain(t), how), told(outcome(L.top.from_xml_tree, tree))))
        obs.append((plain(t) + ' is left alone', repr(from_et(tree).canon() == keep)))
    return obs


def told(o):
    if o.kind == 'invalid':
        return 'invalid %s: %s' % (o.title, sorted(map(repr, map(err_key, o.errors))))
    if o.kind == 'crash':
        return 'raises %s' % type(o.exc).__name__
    if o.kind == 'parsing':
        return 'parsing error: %s' % o.exc
    return repr(o)


def observe_definition(src):
    try:
        guarded(load, src)
    except Exception as e:
        return [(src, ('%s: %s' % (type(e).__name__, e)).replace('_Element', 'Element'))]
    return [(src, 'accepted')]


_peer = {}


def compare(part, arg, src, T):
    from pydantic_xml.element.native import etree
    std = 'lxml' not in etree.__name__
    if not _peer:
        _peer['p'] = Peer(__name__, not std)
    blob = pickle.dumps(arg)            # sets are iterated in the order they were built in
    mine, other = observe(part, blob), _peer['p'].ask(part, blob)
    T.count('observations', len(mine))
    for (a, x), (b, y) in zip(mine, other):
        if a != b:
            raise Violation('the backends are asked different things', first=a, second=b, source=src)
        if x != y:
            raise Violation('the backends differ', source=src, what_was_done=a if isinstance(a, str) else repr(a), lxml=y if std else x, std=x if std else y)
    if len(mine) != len(other):
        raise Violation('the backends accept different values', source=src)
    return mine


def program_cases():
    @st.composite
    def make(draw):
        k = draw(st.sampled_from(KNOBS))
        u = draw(universes(k))
        vals = tuple(model_value(draw, u.top, k, u) for _ in range(2))
        muts = tuple(tuple(draw(mutations)) for _ in range(3))
        from ..ref import Ref
        tags, attrs = vocabulary(u, Ref(u, {}))
        root = Ref(u, {}).plan(u.top).q
        trees = tuple(replace(draw(random_trees(tags, attrs, 2)), tag=root) for _ in range(2))
        return Case(u, vals, muts, (tuple(draw(st.lists(st.integers(0, 9), max_size=24))),
                                    draw(st.sampled_from([None, None, 'utf-8', 'utf-16', 'iso-8859-1', 'ascii', 'utf-8-sig'])), draw(st.booleans()), trees))
    return make()


def check_program(c, T):
    src = universe_src(c.u)
    obs = compare('program', c, src, T)
    for a, x in obs:
        if x.startswith(('ok', 'invalid', 'parsing', 'raises')):
            T.count('read: ' + x.split()[0])
            if x.startswith(('ok', 'invalid')):
                T.nontrivial(src, a)
    if len(obs) > 4:
        T.sample('%s\n# %r\n# -> %s' % (src, obs[-2][0], obs[-2][1]))


def check_definition(c, T):
    pre, last = c24.source(c)
    src = pre + (last or '')
    obs = compare('definition', src, src, T)
    T.count('definition: ' + obs[0][1].split(':')[0])
    T.nontrivial(src)


def parts():
    return [
        Part('programs', program_cases, check_program, 400, backends=('lxml',)),
        Part('definitions', c24.defs, check_definition, 500, backends=('lxml',)),
    ]

"""Locations and lines of validation errors."""
from ..common import *
from ..gen import tapes

TECHNIQUE = 'generated invalid documents in generated layouts against the errors (location, type, message, input, line) of a reference binder'
RULE = ('Generated models over types that reject most texts; documents of instances with texts, attributes and elements broken, removed or '
        'misplaced, printed over several lines (up to some 70000) in generated layouts (white space, comments, CDATA, line breaks inside start tags); the '
        'multiset of (location, type, message, input, line) equals that of the reference binder reading the element lines the parser '
        'reports. With ElementTree, which has no lines, the line is -1. Non-trivial: an outcome with at least one error.')
ASSUMPTIONS = ['libxml2 reports the source line of each element', 'values are not compared when a collection contains an item without a value (known finding D4)']
STRICT = ['int', 'bool', 'float', 'color', 'date', 'posint', 'pat', 'short', 'literal', 'uuid', 'ip', 'level', 'decimal', 'echo', 'echo']
LINES = [0, 1, 2, 2, 127, 254, 999, 9998, 32766, 65533, 70000]
OPS = [0, 6, 6, 7, 9, 10, 10, 1, 2, 5, 8, 15, 16, 16, 17, 17]


def part(name, n, ops=OPS, **kw):
    k = Knobs(**{**dict(prims=STRICT, ns=0.15, skip_flag=0, noxml=0, computed=0.05), **kw})

    @st.composite
    def make(draw):
        u = draw(universes(k))
        ms = st.lists(st.builds(Mut, st.sampled_from(ops), st.integers(0, 60), st.integers(0, 60), st.integers(0, 60)), min_size=1, max_size=4)
        return Case(u, (model_value(draw, u.top, k, u),), tuple(tuple(draw(ms)) for _ in range(6)), tuple(draw(tapes) for _ in range(3)))
    return Part(name, make, check, n)


def check(c, T):
    L = live(c.u)
    tags, attrs = vocabulary(c.u, L.ref)
    for v, inst in instances(L, c, T):
        base = L.ref.to_tree(inst)
        for i, m in enumerate(c.muts):
            t = mutate(base, m, tags, attrs, root_ok=False)
            doc = Printer(Tape(c.x[i % 3]), noise=i % 2 == 1, ws=True).document(t)
            if i % 3 == 0:
                doc = '\n' * LINES[sum(c.x[0]) % len(LINES)] + doc
            tree = L.etree.fromstring(doc)
            node = from_et(tree)
            if i % 2:
                got = expect_parse(L, node, T, how='text', doc=doc, line=True)
            else:
                got = outcome(L.top.from_xml_tree, tree)
                exps = L.ref_parse(node)
                if exps[0].ambiguous:
                    continue
                if not matches(exps, got, True):
                    fail('parsing gives another outcome', L, document=doc, expected='\nor '.join(map(repr, exps)), actual=got)
            if got is not None and got.kind == 'invalid':
                if STD and any(e[3] not in (-1, None) for e in got.errors):
                    fail('a line is reported without a source of lines', L, document=doc, actual=got)
                T.count('errors:%s' % min(len(got.errors), 4))
                T.count('depth:%s' % max(len(e[0]) for e in got.errors))
                T.nontrivial(L.src, doc)
                T.sample('%s\n# %r\n# -> %r' % (L.src, doc, got))


def parts():
    return [
        part('any', 140, models=(1, 4)),
        part('nested', 130, models=(3, 5), shapes=('model', 'model', 'self', 'seq', 'prim', 'munion', 'tunion'), roots=0.3),
        part('collections', 110, shapes=('seq', 'seq', 'tup', 'prim', 'dct', 'tdct'), locs=('elem', 'elem', 'none', 'wrap')),
        part('wrapped', 110, locs=('wrap', 'wrap', 'elem', 'attr'), fields=(2, 5)),
        part('modes', 80, modes=('ordered', 'unordered'), models=(2, 4)),
        part('forbid', 80, forbid=0.7),
        part('aliases', 60, alias=0.8, models=(2, 3)),
    ]

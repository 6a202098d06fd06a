"""Totality of parsing."""
from ..common import *

RULE = ('Generated model programs; documents are valid ones, mutated ones (16 kinds of edits) and arbitrary trees over the names the '
        'models use, and with lxml documents holding entity references the parser was told not to resolve. Every parse must end in the outcome of the reference binding (value, validation errors, or root mismatch). '
        'Non-trivial: a document with at least one sub-element.')
ASSUMPTIONS = ['documents nest less deeply than the interpreter recursion limit',
               'values are not compared when a collection contains an item without a value (known finding D4)']

MARK = '\ue0ff'


def check_entities(c, T):
    """Entity references that the parser was told not to resolve stand for nothing."""
    L = live(c.u)
    tags, attrs = vocabulary(c.u, L.ref)
    for v, inst in instances(L, c, T):
        base = L.ref.to_tree(inst)
        for t in [base] + [mutate(base, m, tags, attrs) for m in c.muts]:
            marked = t.copy()
            nodes = list(marked.walk())
            for a, b in c.x:
                n = nodes[a % len(nodes)]
                if a % 3 or n is marked:
                    n.text = n.text[:b % (len(n.text) + 1)] + MARK + n.text[b % (len(n.text) + 1):]
                else:
                    n.tail = n.tail[:b % (len(n.tail) + 1)] + MARK + n.tail[b % (len(n.tail) + 1):]
            doc = '<!DOCTYPE d [<!ENTITY e "value">]>' + plain(marked).replace(MARK, '&e;')
            got = L.sut_parse(doc, parser=L.etree.XMLParser(resolve_entities=False))
            exps = L.ref_parse(t)
            if not exps[0].ambiguous and not matches(exps, got):
                fail('unresolved entity references change the outcome', L, document=doc, expected='\nor '.join(map(repr, exps)), actual=got)
            T.count('entities: ' + got.kind)
            if c.x and len(nodes) > 1:
                T.nontrivial(L.src, doc)
                T.sample('%s\n# %s\n# -> %r' % (L.src, doc, got))


def check_deep(c, T):
    """Documents with long chains of elements."""
    L = live(c.u)
    tags, attrs = vocabulary(c.u, L.ref)
    for v, inst in instances(L, c, T):
        base = L.ref.to_tree(inst)
        for i, m in enumerate(c.muts):
            t = mutate(base, m, tags, attrs, root_ok=False)
            nodes = list(t.walk())
            for at, depth, name, step, text in c.x:
                n = nodes[(at + i) % len(nodes)]
                link = Node(tags[name % len(tags)])
                n.children.insert(at % (len(n.children) + 1), link)
                for j in range(depth):
                    sub = Node(tags[(name + j * step) % len(tags)])
                    link.children.append(sub)
                    link = sub
                link.text = text
            T.count('deep: %s' % expect_kind(L, t, T, i))
            T.nontrivial(L.src, str(c.x), plain(t))
            T.sample('%s\n# %s' % (L.src, plain(t)[:1000]))


def expect_kind(L, t, T, i):
    got = expect_parse(L, t, T, how='text' if i % 2 else 'tree')
    return got.kind if got is not None else 'not compared'


def parts():
    chains = st.lists(st.tuples(st.integers(0, 40), st.sampled_from([5, 20, 60, 120, 200, 235]), st.integers(0, 40), st.sampled_from([0, 0, 1]),
                                st.sampled_from(['', ' ', 'deep'])), min_size=1, max_size=2).map(tuple)
    refs = st.lists(st.tuples(st.integers(0, 40), st.integers(0, 9)), min_size=1, max_size=4).map(tuple)
    return [
        Part('entities', lambda: cases(Knobs(forbid=0.4), 1, 3, lambda draw: draw(refs)), check_entities, 120, backends=('lxml',)),
        Part('deep documents', lambda: cases(Knobs(forbid=0.5), 1, 3, lambda draw: draw(chains)), check_deep, 50),
        read_part('mutated', Knobs(), 160, nmuts=8, random=0),
        read_part('arbitrary', Knobs(fields=(1, 5), models=(1, 3)), 160, nmuts=0, random=8, valid=False),
        read_part('collections', Knobs(shapes=('seq', 'tup', 'seq', 'model', 'munion', 'tunion', 'prim'), fields=(1, 4)), 100, nmuts=8),
        read_part('one element, many fields', Knobs(shapes=('dct', 'dct', 'tdct', 'seq', 'prim', 'punion', 'opt'), locs=('wrap', 'wrap', 'wrap', 'none', 'elem'),
                                                    wraps=('w', 'w', 'a'), inner=('none', 'none', 'attr', 'elem'), opt=0.6, fields=(2, 5), ns=0.2), 110,
                  nmuts=6),
        read_part('forbid', Knobs(forbid=0.5), 80, nmuts=6, random=2),
    ]

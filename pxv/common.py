"""Cases over generated model programs, and the comparisons most checks share."""
from dataclasses import dataclass, replace
from typing import Any

from hypothesis import strategies as st
import pydantic as pd

from . import gen
from .core import Part
from .gen import (BAttr, BAttrs, BElem, BModel, BRaw, BSeq, BTagged, BText, BTup, BUnion, BWrap, Knobs, Mut, bindings, model_value,
                  mutate, mutations, random_trees, universes, vocabulary)
from .live import (DefinitionFailed, Violation, diff_tree, err_key, errs_equal, guarded, is_elem, live, outcome, same, show)
from .spec import MUnion, Prim, lit, subtypes, universe_src
from .tree import Node, Printer, Tape, from_et, plain
from .tree import parse as _tparse

STD = gen.STD


@dataclass(frozen=True)
class Case:
    u: Any
    vals: tuple = ()
    muts: tuple = ()
    x: Any = None


def cases(k, nvals=2, nmuts=0, extra=None):
    """extra: draw -> anything, kept in Case.x."""
    @st.composite
    def make(draw):
        kk = k if isinstance(k, Knobs) else draw(st.sampled_from(list(k)))
        u = draw(universes(kk))
        vals = tuple(model_value(draw, u.top, kk, u) for _ in range(nvals))
        muts = tuple(tuple(draw(mutations)) for _ in range(nmuts))
        return Case(u, vals, muts, extra(draw) if extra else None)
    return make()


def instances(L, c, T):
    for v in c.vals:
        try:
            inst = L.make(v)
        except pd.ValidationError:
            T.count('value rejected by validation')
            continue
        if related(L.u):
            try:
                L.ref.to_tree(inst)
            except KeyError:
                T.count('skipped: JSON data of a union value lacks its own fields (known finding D38)')
                continue
            except (AttributeError, TypeError, ValueError):
                T.count('skipped: a value of a union redeclares fields of a base with types the base cannot write')
                continue
        yield v, inst


def related(u):
    """Does some union list a model beside one of its bases?"""
    names = {m.name for m in u.models if m.bases}
    return bool(names) and any(names & set(t.names) for m in u.models for f in m.fields for t in subtypes(f.type) if isinstance(t, MUnion))


def tparse(doc):
    """Reads a document written by the code under test."""
    try:
        return _tparse(doc)
    except SyntaxError as e:        # ElementTree.ParseError
        raise Violation('the document written is not well-formed: %s' % e, document=doc) from None


def fail(what, L, **details):
    raise Violation(what, source=L.src, **details)


def text_of(inst, exp, **opts):
    """to_xml; names outside ASCII need an encoding that has them (both backends default to ASCII)."""
    if 'encoding' not in opts and not names_ascii(exp):
        opts['encoding'] = 'utf-8'
    return guarded(inst.to_xml, **opts)


def names_ascii(n):
    return all(x.tag.isascii() and all(map(str.isascii, x.attrs)) for x in n.walk())


def expect_tree(L, inst, v, T, how='to_xml_tree', **opts):
    """The document of an instance is the one the reference gives; returns the reference tree."""
    exp = L.ref.to_tree(inst, **opts)
    if how == 'to_xml':
        got = tparse(text_of(inst, exp, **opts))
    else:
        got = L.sut_tree(inst, **opts)
    if exp.canon() != got.canon():
        fail('the document differs: ' + str(diff_tree(exp, got)), L, instance=lit(v) if not isinstance(v, str) else v,
             options=opts, expected=plain(exp), actual=plain(got))
    return exp


def matches(exps, got, line=False):
    for e in exps:
        if e.kind != got.kind:
            continue
        if e.kind == 'ok' and not same(e.value, got.value):
            continue
        if e.kind == 'invalid' and not errs_equal(e.errors, got.errors, line):
            continue
        return True
    return False


def expect_parse(L, tree, T, how='tree', name=None, context=None, eas=False, line=False, doc=None):
    """Parsing gives an outcome the reference allows; returns it."""
    exps = L.ref_parse(tree, name, context, eas)
    kw = {'context': context, 'empty_as_string': eas}
    if how == 'tree':
        got = L.sut_parse_tree(tree, name, **kw)
    else:
        got = L.sut_parse(doc if doc is not None else plain(tree), name, **kw)
    T.count('outcome:' + exps[0].kind)
    if got.kind == 'crash':
        fail('parsing raised %s: %s' % (type(got.exc).__name__, got.exc), L, document=doc or plain(tree), root=name or L.u.top)
    if exps[0].ambiguous:
        T.count('skipped: collection with an empty item (known finding)')
        return None
    if not matches(exps, got, line):
        fail('parsing gives another outcome', L, document=doc or plain(tree), root=name or L.u.top, empty_as_string=eas, context=context,
             expected='\nor '.join(map(repr, exps)), actual=got)
    return got


def uses(u, *kinds):
    """Whether the top model's plan, followed through sub-models, has bindings of the given kinds."""
    from .ref import DefError, Ref
    ref = Ref(u, {})
    seen, todo = set(), [u.top]
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        for pf in ref.plan(n).fields:
            for b in all_bindings(pf.b):
                if isinstance(b, kinds):
                    return True
                if isinstance(b, BModel):
                    todo.append(b.model)
    return False


def all_bindings(b):
    yield b
    if isinstance(b, BWrap):
        yield from all_bindings(b.inner)
    elif isinstance(b, BSeq):
        yield from all_bindings(b.item)
    elif isinstance(b, BTup):
        for x in b.items:
            yield from all_bindings(x)
    elif isinstance(b, BUnion):
        for x in b.alts:
            yield from all_bindings(x)
    elif isinstance(b, BTagged):
        for _, x in b.alts:
            yield from all_bindings(x)


def write_part(name, k, n, kinds=(), nvals=3, opts=None, thorough=None, backends=('lxml', 'std')):
    """Differential writing: instances of universes drawn with knobs k."""
    def fn(c, T):
        L = live(c.u)
        ok = not kinds or uses(c.u, *kinds)
        T.count('write: feature present' if ok else 'write: feature absent')
        for v, inst in instances(L, c, T):
            exp = expect_tree(L, inst, v, T, how='to_xml' if c.x else 'to_xml_tree', **(opts or {}))
            if ok and exp.size() > 1:
                T.nontrivial(L.src, plain(exp))
                T.sample('%s\n# %s\n# -> %s' % (L.src, lit(v), plain(exp)))
    return Part(name, lambda: cases(k, nvals, 0, lambda draw: draw(st.booleans())), fn, n, thorough, backends)


def read_part(name, k, n, kinds=(), nvals=1, nmuts=6, thorough=None, line=False, eas=None, valid=True, random=0, context=None,
              backends=('lxml', 'std'), ops=None):
    """Differential reading: documents of instances, mutated, and arbitrary trees over the same names."""
    def extra(draw):
        return (draw(st.booleans()), tuple(draw(st.integers(0, 2**16)) for _ in range(random)), draw(st.booleans()))

    @st.composite
    def make(draw):
        kk = k if isinstance(k, Knobs) else draw(st.sampled_from(list(k)))
        u = draw(universes(kk))
        vals = tuple(model_value(draw, u.top, kk, u) for _ in range(nvals))
        if ops:
            ms = st.lists(st.builds(Mut, st.sampled_from(ops), st.integers(0, 60), st.integers(0, 60), st.integers(0, 60)), max_size=4)
        else:
            ms = mutations
        muts = tuple(tuple(draw(ms)) for _ in range(nmuts))
        trees = ()
        if random:
            from .ref import Ref
            tags, attrs = vocabulary(u, Ref(u, {}))
            trees = tuple(draw(random_trees(tags, attrs, 2)) for _ in range(random))
            root = Ref(u, {}).plan(u.top).q
            trees = tuple(replace(t, tag=root) if i % 3 else t for i, t in enumerate(trees))
        return Case(u, vals, muts, (draw(st.booleans()), trees, draw(st.booleans()) if eas is None else eas))

    def fn(c, T):
        L = live(c.u)
        as_text, trees, e = c.x
        ok = not kinds or uses(c.u, *kinds)
        T.count('read: feature present' if ok else 'read: feature absent')
        tags, attrs = vocabulary(c.u, L.ref)
        docs = []
        for v, inst in instances(L, c, T):
            base = L.ref.to_tree(inst)
            docs += ([base] if valid else []) + [mutate(base, m, tags, attrs) for m in c.muts]
        docs += trees
        for t in docs:
            got = expect_parse(L, t, T, how='text' if as_text else 'tree', eas=e, context=context, line=line)
            if ok and got is not None and t.size() > 1:
                T.nontrivial(L.src, plain(t), e)
                if got.kind != 'parsing':
                    T.sample('%s\n# %s\n# -> %r' % (L.src, plain(t), got))
    return Part(name, make, fn, n, thorough, backends)

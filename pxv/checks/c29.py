"""hide_input_in_errors."""
import re

from ..common import *
from .c23 import Live2

TECHNIQUE = 'metamorphic: the same invalid documents read with and without the setting; secrets planted in the documents'
RULE = ('Generated model programs, twice: with hide_input_in_errors on the root model (own config, class argument or inherited; nested models '
        'left alone, or set to the opposite) and without. Written documents are mutated with secret values in attributes, text and unexpected '
        'parts and read by both. The rendered error of the hiding program has no input and no secret (unless a validator put it into its own '
        'message), that of the other shows one input per error, and both report the same errors. Non-trivial: an invalid document.')
SECRETS = ['S3CRET-a', 'S3CRET b', '~S3CRET', 'S3CRET' * 12, '9S3CRET', '', 'S3CRET{0}', 'S3CRET %s']


@st.composite
def programs(draw):
    k = draw(st.sampled_from([Knobs(cr=False), Knobs(cr=False, models=(2, 5), shapes=('model', 'seq', 'tup', 'munion', 'tunion', 'punion', 'prim'),
                                                    prims=NUM), Knobs(cr=False, forbid=0.7, prims=NUM), Knobs(cr=False, top_root=1.0, prims=NUM),
                              Knobs(cr=False, shapes=('punion', 'munion', 'seq', 'tup', 'dct', 'tdct'), prims=NUM)]))
    u = draw(universes(k))
    vals = tuple(model_value(draw, u.top, k, u) for _ in range(2))
    ms = st.lists(st.builds(Mut, st.sampled_from([0, 1, 4, 6, 7, 7, 8, 9, 10, 10, 10, 12, 5]), st.integers(0, 60), st.integers(0, 60),
                            st.integers(0, 60)), min_size=1, max_size=5)
    return Case(u, vals, tuple(tuple(draw(ms)) for _ in range(4)), (draw(st.integers(0, 2)), draw(st.integers(0, 2)), draw(st.booleans())))


NUM = ['int', 'float', 'bool', 'date', 'int', 'posint', 'color', 'literal', 'decimal', 'str', 'pat', 'short']


def config(src, name, how):
    """Adds configuration to a class of a program."""
    m = re.search(r'^class %s\((.*)\):\n((?:    .*\n?|\n(?=    ))*)' % re.escape(name), src, re.M)
    body = m[2]
    if 'model_config = ConfigDict(' in body:
        body = body.replace('model_config = ConfigDict(', 'model_config = ConfigDict(hide_input_in_errors=%s, ' % how, 1)
    else:
        body = '    model_config = ConfigDict(hide_input_in_errors=%s)\n' % how + ('' if body.strip() == 'pass' else body)
    return src[:m.start(2)] + body + src[m.end(2):]


def variant(u, x, hide):
    """The program with the setting at the root."""
    where, nested, _ = x
    src = universe_src(u)
    top = next(m for m in u.models if m.name == u.top)
    names = [m.name for m in u.models if m.name != u.top and m.name not in top.bases]
    for n in names:
        if nested == 1:
            src = config(src, n, not hide)
        elif nested == 2 and hide:
            src = config(src, n, True)
    own = [m.name for m in u.models if m.name == u.top]
    if not hide:
        # a base may carry the opposite of what a nested one says; nothing at the root
        return src
    if where == 1 and not top.bases and not top.root:
        # inherited from a base
        src = re.sub(r'^class %s\(BaseXmlModel' % own[0], 'class HideBase(BaseXmlModel):\n    model_config = ConfigDict(hide_input_in_errors=True)\n\n\n'
                     'class %s(HideBase' % own[0], src, flags=re.M)
        return src
    if where == 2:
        return re.sub(r'^class %s\((.*)\):$' % own[0], r'class %s(\1, hide_input_in_errors=True):' % own[0], src, count=1, flags=re.M)
    return config(src, own[0], True)


_made = {}


def made(u, src):
    if src not in _made:
        if len(_made) > 8:
            _made.clear()
        _made[src] = Live2(u, src)
    return _made[src]


def check(c, T):
    L = live(c.u)
    hidden, shown = made(c.u, variant(c.u, c.x, True)), made(c.u, variant(c.u, (0, 0, 0), False))
    if c.x[1] == 1:
        # opposite settings of nested models must not matter
        T.count('nested models with the opposite setting')
    tags, attrs = vocabulary(c.u, L.ref)
    for v, inst in instances(L, c, T):
        base = L.ref.to_tree(inst)
        for m in c.muts:
            t = mutate(base, m, tags, attrs, texts=SECRETS, root_ok=False)
            if c.x[2]:
                for i, n in enumerate(t.walk()):
                    if n.attrs and i % 2:
                        n.attrs[sorted(n.attrs)[0]] = 'S3CRET'
            doc = plain(t)
            a, b = hidden.sut_parse(doc), shown.sut_parse(doc)
            T.count('read: ' + b.kind)
            if a.kind != b.kind or (a.kind == 'invalid' and not errs_equal(a.errors, b.errors, True)):
                fail('the setting changes the outcome', hidden, document=doc, hidden=a, shown=b)
            if a.kind != 'invalid':
                continue
            T.nontrivial(hidden.src, doc)
            ta, tb = str(a.exc), str(b.exc)
            T.sample('%s\n# %s\n# -> %s' % (hidden.src, doc, ta))
            if repr(a.exc) != ta:
                T.count('repr differs from str')
            for text, which in ((ta, 'str'), (repr(a.exc), 'repr')):
                if 'input_value=' in text or 'input_type=' in text:
                    fail('the %s of the error shows the input' % which, hidden, document=doc, text=text)
                rest = text
                for e in a.exc.errors():
                    rest = rest.replace(e['msg'], '')
                if 'S3CRET' in rest:
                    fail('the %s of the error shows a secret' % which, hidden, document=doc, text=text)
            if tb.count('input_value=') < len(b.errors):
                fail('without the setting the error does not show its inputs', shown, document=doc, text=tb)


def parts():
    return [Part('secrets', programs, check, 400)]

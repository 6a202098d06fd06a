"""Generated model programs made real: classes, instances, parsing and comparison."""
import copy
import datetime as dt
import decimal
import enum
import signal
import sys
import types

import pydantic as pd

from .spec import (HEADER, MV, NTV, RV, Color, Level, ModelRef, Opt, Seq, Tup, Universe, lit, universe_src)
from .ref import Ref, RefErrors, RefParsingError
from .tree import Node, Printer, Tape, from_et, plain, to_et
from .tree import parse as tparse

_base = None
MODNAME = 'pxv_case'


class Violation(Exception):
    """The code under test broke the property."""

    def __init__(self, what, **details):
        super().__init__(what)
        self.what = what
        self.details = details


class Hang(Exception):
    pass


CPU_LIMIT = 20


def _alarm(*_):
    raise Hang('no result after %d s of CPU time' % CPU_LIMIT)


def guarded(fn, *a, **kw):
    """Calls the code under test; a call that does not come back becomes a Hang."""
    old = signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    try:
        return fn(*a, **kw)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


def base_ns():
    global _base
    if _base is None:
        ns = {'__name__': MODNAME}
        exec(compile(HEADER, '<header>', 'exec'), ns)
        ns['Color'], ns['Level'] = Color, Level
        _base = ns
    return _base


def load(src):
    """Executes model source in a fresh module and returns its namespace."""
    mod = types.ModuleType(MODNAME)
    mod.__dict__.update(base_ns())
    mod.__dict__['__name__'] = MODNAME
    sys.modules[MODNAME] = mod
    exec(compile(src, '<case>', 'exec'), mod.__dict__)
    return mod.__dict__


class DefinitionFailed(Exception):
    def __init__(self, exc):
        super().__init__(repr(exc))
        self.exc = exc


_cache = {}


class Live:
    def __init__(self, u: Universe):
        self.u = u
        self.src = universe_src(u)
        try:
            self.ns = guarded(load, self.src)
        except Exception as e:
            raise DefinitionFailed(e) from e
        self.classes = {m.name: self.ns[m.name] for m in u.models}
        self.top = self.classes[u.top]
        self.ref = Ref(u, self.classes)
        self.sref = Ref(u, self.classes, stable=True)
        self.etree = self.ns['etree']

    def cls(self, name=None):
        return self.classes[name or self.u.top]

    # ---- instances

    def make(self, v):
        """Materialises a generated value."""
        if isinstance(v, MV):
            m = self.u.get(v.model)
            cls = self.classes[v.model]
            if m.root:
                d = v.dict()
                return cls(self.make(d['root'])) if 'root' in d else cls()
            _, _, fields = self.ref.flat(v.model)
            names = {f.name: f.valias or f.alias or f.name for f in fields}
            return cls(**{names[k]: self.make(x) for k, x in v.values})
        if isinstance(v, NTV):
            return self.ns[v.name](*[self.make(x) for x in v.items])
        if isinstance(v, RV):
            return self.etree.fromstring(v.xml)
        if isinstance(v, list):
            return [self.make(x) for x in v]
        if type(v) is tuple:
            return tuple(self.make(x) for x in v)
        if isinstance(v, frozenset):
            return frozenset(self.make(x) for x in v)
        if isinstance(v, set):
            return {self.make(x) for x in v}
        if isinstance(v, dict):
            return {k: self.make(x) for k, x in v.items()}
        return v

    # ---- outcomes of the code under test

    def sut_tree(self, inst, **opts):
        """to_xml_tree as a Node; exceptions are returned as the outcome."""
        return from_et(guarded(inst.to_xml_tree, **opts))

    def sut_parse(self, doc, name=None, **kw):
        return outcome(self.cls(name).from_xml, doc, **kw)

    def sut_parse_tree(self, node, name=None, **kw):
        return outcome(self.cls(name).from_xml_tree, to_et(node, self.etree), **kw)

    def ref_parse(self, tree, name=None, context=None, eas=False):
        """The outcomes the properties allow: one, or two where an unordered reordering policy is free."""
        outs = []
        for r in (self.ref, self.sref):
            r.ambiguous = False
            try:
                o = Out('ok', r.parse(name or self.u.top, tree, context, eas))
            except RefParsingError:
                o = Out('parsing')
            except RefErrors as e:
                o = Out('invalid', errors=sorted_errs((x.loc, x.type, x.msg, x.line, x.input) for x in e.errs), title=e.title)
            o.ambiguous = r.ambiguous
            outs.append(o)
            if not any(m.search_mode == 'unordered' for m in self.u.models):
                break
        return outs


def live(u):
    """A small cache: shrinking revisits the same universe again and again."""
    key = universe_src(u)
    got = _cache.get(key)
    if got is None:
        if len(_cache) > 8:
            _cache.clear()
        got = _cache[key] = Live(u)
    return got


class Out:
    """Outcome of a parse: ok / parsing / invalid / crash."""

    def __init__(self, kind, value=None, errors=None, title=None, exc=None):
        self.kind = kind
        self.value = value
        self.errors = errors
        self.title = title
        self.exc = exc
        self.ambiguous = False

    def __repr__(self):
        if self.kind == 'ok':
            return f'ok {show(self.value)}'
        if self.kind == 'invalid':
            return f'invalid {self.errors!r}'
        if self.kind == 'crash':
            return f'crash {type(self.exc).__name__}: {self.exc}'
        return self.kind


def show(v):
    if hasattr(v, 'tag') and hasattr(v, 'attrib'):
        return 'Element(%r)' % (from_et(v).canon(),)
    if isinstance(v, pd.BaseModel):
        return '%s(%s)' % (type(v).__name__, ', '.join(f'{k}={show(x)}' for k, x in v.__dict__.items()))
    if type(v) in (list, tuple):
        o, c = ('[', ']') if type(v) is list else ('(', ')')
        return o + ', '.join(show(x) for x in v) + c
    if isinstance(v, tuple):
        return type(v).__name__ + '(' + ', '.join(show(x) for x in v) + ')'
    if type(v) is dict:
        return '{' + ', '.join(sorted(f'{show(k)}: {show(x)}' for k, x in v.items())) + '}'
    if isinstance(v, (set, frozenset)):
        return type(v).__name__ + repr(sorted(map(show, v)))
    return repr(v)


def sorted_errs(it):
    return sorted(it, key=lambda e: (tuple(map(str, e[0])), e[1], e[2], repr(e[3:])))


def split_line(msg):
    """('[line 3]: text') -> (3, 'text'); line is None when there is no marker."""
    if msg.startswith('[line '):
        head, _, rest = msg.partition(']: ')
        try:
            return int(head[6:]), rest
        except ValueError:
            pass
    return None, msg


def outcome(fn, *a, **kw):
    from pydantic_xml import errors
    try:
        return Out('ok', guarded(fn, *a, **kw))
    except pd.ValidationError as e:
        out = []
        for x in e.errors():
            line, msg = split_line(x['msg'])
            out.append((tuple(x['loc']), x['type'], msg, line, x['input']))
        return Out('invalid', errors=sorted_errs(out), title=e.title, exc=e)
    except errors.ParsingError as e:
        return Out('parsing', exc=e)
    except Exception as e:
        return Out('crash', exc=e)


# ---------------------------------------------------------------- comparison

def is_elem(v):
    return hasattr(v, 'tag') and hasattr(v, 'attrib') and hasattr(v, 'iter')


def same(a, b, tails=True):
    """Deep equality that also compares types."""
    if is_elem(a) and is_elem(b):
        return from_et(a).canon(top=not tails) == from_et(b).canon(top=not tails)
    if type(a) is not type(b):
        return False
    if isinstance(a, pd.BaseModel):
        return (a.__dict__.keys() == b.__dict__.keys() and all(same(x, b.__dict__[k], tails) for k, x in a.__dict__.items())
                and same(a.__pydantic_extra__ or {}, b.__pydantic_extra__ or {}, tails))
    if isinstance(a, enum.Enum):
        return a is b
    if isinstance(a, float):
        return repr(a) == repr(b)
    if isinstance(a, decimal.Decimal):
        return a == b or (a != a and b != b)
    if isinstance(a, dt.datetime):
        return a == b and a.utcoffset() == b.utcoffset()
    if isinstance(a, dt.time):
        return a == b and a.utcoffset() == b.utcoffset()
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, tails) for x, y in zip(a, b))
    if isinstance(a, (set, frozenset)):
        return a == b and all(any(same(x, y, tails) for y in b) for x in a)
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(x, b[k], tails) for k, x in a.items())
    return a == b


def err_key(e, line=False):
    loc, typ, msg, ln, inp = e
    if not isinstance(inp, (str, int, float, bool, type(None))):
        inp = show(inp)
    return (tuple(map(str, loc)), typ, msg, inp) + ((ln,) if line else ())


def errs_equal(a, b, line=False):
    from collections import Counter
    return Counter(map(repr, (err_key(e, line) for e in a))) == Counter(map(repr, (err_key(e, line) for e in b)))


def diff_tree(a, b, path=''):
    """First difference between two nodes, for messages."""
    if a.tag != b.tag:
        return f'{path}: tag {a.tag!r} != {b.tag!r}'
    path = path + '/' + a.tag
    if a.attrs != b.attrs:
        return f'{path}: attributes {a.attrs!r} != {b.attrs!r}'
    if (a.text or '') != (b.text or ''):
        return f'{path}: text {a.text!r} != {b.text!r}'
    if [c.tag for c in a.children] != [c.tag for c in b.children]:
        return f'{path}: children {[c.tag for c in a.children]!r} != {[c.tag for c in b.children]!r}'
    for x, y in zip(a.children, b.children):
        if (x.tail or '') != (y.tail or ''):
            return f'{path}/{x.tag}: tail {x.tail!r} != {y.tail!r}'
        d = diff_tree(x, y, path)
        if d:
            return d
    return None

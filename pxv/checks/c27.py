"""The mypy plugin."""
import atexit
import json
import os
import re
import shutil
import tempfile

from .. import env
from ..common import *

TECHNIQUE = 'generated modules, differential: mypy with the pydantic_xml plugin vs. the same plain pydantic models with the pydantic plugin, and vs. run time'
RULE = ('Generated modules of models (fields declared by attr, element, wrapped with and without a wrapped entity, Field, bare and Annotated '
        'annotations, with defaults, factories, aliases, frozen, strict; model settings; inheritance with overriding; generic and root models; '
        'import styles; plugin settings) with constructor calls, model_construct calls, assignments and reads. mypy with the pydantic_xml plugin must '
        'report what mypy with the pydantic plugin reports for the same models written with Field, line by line; and what it reports for '
        'constructor calls and assignments must be what happens when they are executed. Non-trivial: a module with a reported line and a line '
        'that is not.')
NOTE = ('Random search with shrinking; assurance is that of the explored cases listed in the evidence. Trusts mypy and the pydantic plugin, '
        'which is the reference for the differential.')
SHARDS = 4

TYPES = {
    'int': ('1', '2'), 'str': ("'a'", "'b'"), 'float': ('1.5', '2.5'), 'bool': ('True', 'False'), 'Optional[int]': ('None', '3'),
    'List[int]': ('[1]', '[]'), 'Optional[str]': ('None', "'c'"),
}
CONFIGS = {
    'loose': '',
    'typed': '[pydantic-mypy]\ninit_typed = True\ninit_forbid_extra = True\nwarn_required_dynamic_aliases = True\n',
}


@dataclass(frozen=True)
class F:
    name: str
    type: str
    form: str               # bare, call or annotated
    fn: str = ''            # attr element wrapped Field
    pos: str = ''           # positional arguments
    kw: tuple = ()          # ((name, source), ...)
    inner: tuple = ()       # wrapped: () or (fn, pos, kw)
    rhs: str = ''           # the value assigned
    inner_kw: bool = False  # wrapped entity passed as keyword

    def d(self):
        return dict(self.kw + (self.inner[2] if self.inner else ()))

    def has_default(self):
        d = self.d()
        return bool(self.rhs) or d.get('default', '...') != '...' or d.get('default_factory', 'None') != 'None'

    def alias(self):
        d = self.d()
        a = d.get('validation_alias', d.get('alias'))
        return None if a is None or a == 'None' else a.strip("'")


@dataclass(frozen=True)
class M:
    name: str
    base: str               # model, root, or the name of a model
    fields: tuple
    xml_kw: tuple = ()
    config: tuple = ()      # ((name, source), ...)
    config_as: str = 'kw'   # kw or attribute
    arg: str = ''           # root type
    generic: bool = False
    extra: tuple = ()       # other class statements


@dataclass(frozen=True)
class Prog:
    style: str
    config: str
    models: tuple
    stmts: tuple            # ('call', model, args source, (names)) ...


PREFIX = {'from': '', 'mod': 'px.', 'as': 'X'}


def render(p, xml):
    imp = {'from': 'from pydantic_xml import BaseXmlModel, RootXmlModel, attr, element, wrapped',
           'mod': 'import pydantic_xml as px',
           'as': 'from pydantic_xml import BaseXmlModel as XBaseXmlModel, RootXmlModel as XRootXmlModel, attr as Xattr, element as Xelement, wrapped as Xwrapped'}
    pre = PREFIX[p.style]
    lines = ['from typing import Any, ClassVar, Generic, List, Optional, TypeVar', 'from typing_extensions import Annotated',
             'from pydantic import BaseModel, ConfigDict, Field, PrivateAttr, RootModel', imp[p.style] if xml else '', "T = TypeVar('T')"]

    def call(fn, pos, kw):
        args = ([pos] if pos and (xml or fn == 'Field') else []) + ['%s=%s' % x for x in kw]
        if fn == 'Field' or not xml:
            return 'Field(%s)' % ', '.join(args)
        return '%s%s(%s)' % (pre, fn, ', '.join(args))

    def entity(f):
        if f.fn == 'wrapped' and f.inner:
            fn, pos, kw = f.inner
            if not xml:
                return 'Field(%s)' % ', '.join('%s=%s' % x for x in f.kw + kw)
            inner = call(fn, pos, kw)
            args = [f.pos, ('entity=' if f.inner_kw else '') + inner] + ['%s=%s' % x for x in f.kw]
            return '%swrapped(%s)' % (pre, ', '.join(args))
        return call(f.fn, f.pos, f.kw)

    for m in p.models:
        if m.base == 'model':
            base = pre + 'BaseXmlModel' if xml else 'BaseModel'
        elif m.base == 'root':
            base = (pre + 'RootXmlModel' if xml else 'RootModel') + ('[%s]' % m.arg if m.arg else '')
        else:
            base = m.base
        head = [base] + (['Generic[T]'] if m.generic else [])
        if xml:
            head += ['%s=%s' % x for x in m.xml_kw]
        if m.config and m.config_as == 'kw':
            head += ['%s=%s' % x for x in m.config]
        lines.append('class %s(%s):' % (m.name, ', '.join(head)))
        body = []
        if m.config and m.config_as != 'kw':
            body.append('model_config = ConfigDict(%s)' % ', '.join('%s=%s' % x for x in m.config))
        body += m.extra
        for f in m.fields:
            if f.form == 'bare':
                body.append('%s: %s%s' % (f.name, f.type, ' = ' + f.rhs if f.rhs else ''))
            elif f.form == 'annotated':
                body.append('%s: Annotated[%s, %s]%s' % (f.name, f.type, entity(f), ' = ' + f.rhs if f.rhs else ''))
            else:
                body.append('%s: %s = %s' % (f.name, f.type, entity(f)))
        lines += ['    ' + x for x in body or ['pass']]
    first = len(lines)
    for i, s in enumerate(p.stmts):
        if s[0] == 'call':
            lines.append('%s(%s)' % (s[1], s[2]))
        elif s[0] == 'construct':
            lines.append('%s.model_construct(%s)' % (s[1], s[2]))
        elif s[0] == 'assign':
            lines.append('def f%d(m: %s) -> None: m.%s = %s' % (i, s[1], s[2], s[3]))
        elif s[0] == 'read':
            lines.append('def f%d(m: %s) -> None: reveal_type(m.%s)' % (i, s[1], s[2]))
    return '\n'.join(lines) + '\n', first


# --- generation

NAMES = ('a', 'b', 'c', 'd')


@st.composite
def programs(draw):
    def pick(*xs):
        return draw(st.sampled_from(xs))

    def chance(n):
        return draw(st.integers(0, 99)) < n

    def kws(t, fn, rich=True):
        kw = []
        k = pick('', '', '', 'default', 'default', 'default_factory', 'ellipsis', 'nofactory')
        if k == 'default':
            kw.append(('default', pick(*TYPES[t])))
        elif k == 'default_factory':
            kw.append(('default_factory', 'lambda: ' + pick(*TYPES[t])))
        elif k == 'ellipsis':
            kw.append(('default', '...'))
        elif k == 'nofactory' and fn == 'Field':
            kw.append(('default_factory', 'None'))
        k = pick('', '', '', '', 'alias', 'alias', 'validation_alias', 'serialization_alias', 'both')
        name = draw(st.sampled_from(NAMES)) + 'z' + str(draw(st.integers(0, 99)))
        if k in ('alias', 'both'):
            kw.append(('alias', repr(name)))
        if k in ('validation_alias', 'both'):
            kw.append(('validation_alias', repr(name + 'v')))
        if k == 'serialization_alias':
            kw.append(('serialization_alias', repr(name + 's')))
        k = pick('', '', '', 'True', 'True', 'False')
        if k:
            kw.append(('frozen', k))
        k = pick('', '', '', 'True', 'False')
        if k and t[0].islower():
            kw.append(('strict', k))
        for n in ('title', 'description'):
            if chance(15):
                kw.append((n, "'t'"))
        if chance(10):
            kw.append(('exclude', 'True'))
        if fn in ('element',) and chance(10):
            kw.append(('nillable', 'True'))
        return tuple(draw(st.permutations(kw)))

    def field(name, text_ok, generic=False):
        t = 'T' if generic else pick('int', 'str', 'float', 'bool', 'Optional[int]', 'Optional[str]', 'List[int]')
        vt = 'int' if generic else t
        form = pick('call', 'call', 'call', 'call', 'annotated', 'bare' if text_ok and t != 'List[int]' else 'call')
        if generic:
            form = 'call'
        if form == 'bare':
            return F(name, t, 'bare', rhs=pick('', TYPES[vt][0]))
        fns = ['element', 'wrapped', 'wrapped', 'element'] + ([] if t == 'List[int]' else ['attr', 'attr']) + (['Field'] if text_ok and t != 'List[int]' else [])
        fn = draw(st.sampled_from(fns))
        if form == 'annotated':
            kw = ()
            if chance(30):
                kw = (('alias', repr(name + 'z')),)
            pos = pick('', repr(name)) if fn in ('attr', 'element') else ("'w/%s'" % name if fn == 'wrapped' else '')
            inner = ('element', '', ()) if fn == 'wrapped' else ()
            return F(name, t, 'annotated', fn, pos, kw, inner, rhs=pick('', TYPES[vt][1]))
        kw = kws(vt, fn)
        if generic:
            kw = tuple(x for x in kw if x[0] not in ('default', 'default_factory'))
        if fn == 'wrapped':
            inner = ()
            deep = pick(0, 1, 2, 2)
            ifn = 'element' if t == 'List[int]' else pick('element', 'attr')
            if not text_ok or t == 'List[int]':
                deep = max(deep, 1)
            if deep:
                split = draw(st.integers(0, len(kw))) if deep == 2 else len(kw)
                inner = (ifn, pick('', repr(name)), kw[split:])
                kw = kw[:split]
            # aliases of both would have to be merged
            names = dict(kw).keys() & {'alias', 'validation_alias', 'serialization_alias'}
            if inner and names and dict(inner[2]).keys() & {'alias', 'validation_alias', 'serialization_alias'}:
                inner = (inner[0], inner[1], tuple(x for x in inner[2] if 'alias' not in x[0]))
            return F(name, t, 'call', fn, "'w/%s'" % name, kw, inner, inner_kw=chance(30))
        pos = ''
        if fn in ('attr', 'element') and chance(40):
            pos = repr(name)
        elif fn == 'Field' and chance(40) and not dict(kw).keys() & {'default', 'default_factory'}:
            pos = pick('...', *TYPES[vt])
        f = F(name, t, 'call', fn, pos, kw)
        return f

    models = []
    plain = []
    texts = {}
    for i in range(pick(1, 2, 3, 4, 5)):
        name = 'ABCDE'[i]
        kind = pick('model', 'model', 'model', 'model', 'sub', 'sub', 'root', 'generic')
        if kind == 'sub' and not plain:
            kind = 'model'
        if kind == 'root':
            t = pick('int', 'str', 'List[int]', 'Optional[int]')
            if t != 'List[int]' and chance(40):
                models.append(M(name, 'root', (), arg=t))
            else:
                kw = tuple(x for x in kws(t, 'element') if x[0] in ('default', 'default_factory'))
                models.append(M(name, 'root', (F('root', t, 'call', 'element', repr('r'), kw),), arg=t if t != 'List[int]' and chance(50) else ''))
            continue
        base = 'model'
        names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=4, unique=True))
        if kind == 'sub':
            base = draw(st.sampled_from(plain))
        texts[name] = texts.get(base, False)
        fields = []
        for n in names:
            f = field(n, not texts[name], generic=kind == 'generic' and not fields)
            if f.form == 'bare' or f.fn == 'Field' or (f.fn == 'wrapped' and not f.inner):
                texts[name] = True
            fields.append(f)
        config = []
        for n, vs, q in (('frozen', ('True', 'False'), 15), ('extra', ("'forbid'", "'ignore'"), 12), ('populate_by_name', ('True', 'False'), 12),
                         ('validate_by_name', ('True',), 6), ('strict', ('True', 'False'), 10)):
            if chance(q):
                config.append((n, draw(st.sampled_from(vs))))
        if any(n == 'populate_by_name' for n, _ in config):
            config = [x for x in config if x[0] != 'validate_by_name']
        xml_kw = tuple((n, v) for n, v in (('tag', "'t'"), ('ns', "'p'"), ('nsmap', "{'p': 'urn:a'}"), ('search_mode', None), ('skip_empty', 'True'))
                       if v and chance(20))
        if any(n == 'ns' for n, _ in xml_kw) and not any(n == 'nsmap' for n, _ in xml_kw):
            xml_kw += (('nsmap', "{'p': 'urn:a'}"),)
        extra = []
        if chance(10):
            extra.append("K: ClassVar[int] = 1")
        if chance(10):
            extra.append('_p: int = PrivateAttr(default=1)')
        models.append(M(name, base, tuple(fields), xml_kw, tuple(config), pick('kw', 'attribute'), generic=kind == 'generic', extra=tuple(extra)))
        if kind != 'generic':
            plain.append(name)
    byname = {m.name: m for m in models}

    def flat(m):
        out = flat(byname[m.base]) if m.base in byname else {}
        out.update({f.name: f for f in m.fields})
        return out

    stmts = []
    for _ in range(draw(st.integers(3, 24))):
        m = draw(st.sampled_from(models))
        fields = flat(m)
        kind = pick('call', 'call', 'call', 'call', 'construct', 'assign', 'assign', 'read')
        if m.base == 'root':
            val = pick('1', "'a'", '[1]', 'None')
            args = pick('', val, val, 'root=' + val, '%s, %s' % (val, val), 'x=' + val)
            stmts.append(('call' if kind != 'read' else 'construct', m.name, args, ()) if kind != 'assign' else ('assign', m.name, 'root', val))
            continue
        if kind in ('assign', 'read'):
            f = fields[draw(st.sampled_from(sorted(fields)))]
            if kind == 'read':
                stmts.append(('read', m.name, f.name))
            else:
                stmts.append(('assign', m.name, f.name, TYPES.get(f.type, TYPES['int'])[1]))
            continue
        args, keys = [], []
        drop = pick(0, 0, 15, 40)
        for f in fields.values():
            if chance(10 if f.has_default() else 0) or chance(drop):
                continue
            if f.has_default() and chance(50):
                continue
            key = f.alias() or f.name
            if chance(10):
                key = f.name
            vs = TYPES.get(f.type, TYPES['int'])
            v = draw(st.sampled_from(vs)) if not chance(8) else pick("'zz'", '[]', '7', 'None')
            if key not in keys:
                keys.append(key)
                args.append('%s=%s' % (key, v))
        if chance(6):
            args.append('zz=1')
        if chance(3):
            args.insert(0, '1')
        stmts.append((kind, m.name, ', '.join(args), ()))
    return Prog(pick('from', 'from', 'mod', 'as'), pick('loose', 'loose', 'typed'), tuple(models), tuple(stmts))


# --- running mypy

_dir = None
_runs = []


def scratch():
    global _dir
    if _dir is None:
        _dir = tempfile.mkdtemp(prefix='pxv-mypy-')
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_dir, ignore_errors=True))
        for plugin in ('pydantic_xml', 'pydantic'):
            for c, text in CONFIGS.items():
                with open(os.path.join(_dir, '%s-%s.ini' % (plugin, c)), 'w') as f:
                    f.write('[mypy]\nplugins = %s.mypy\n%s' % (plugin, text))
    return _dir


def forked(fn):
    """fn() in a child process: mypy does not give its memory back."""
    from mypy import api  # noqa: F401
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w, 'w') as f:
                json.dump(fn(), f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        got = f.read()
    os.waitpid(pid, 0)
    return json.loads(got) if got else ('', 'mypy died', 2)


def run_mypy(d, plugin, config):
    from mypy import api
    os.chdir(d)
    os.environ['MYPYPATH'] = env.REPO
    return api.run(['--config-file', '%s-%s.ini' % (plugin, config), '--cache-dir', 'cache-%s-%s' % (plugin, config), '--no-error-summary',
                    '--follow-imports=silent', '--show-error-codes', '--no-pretty', '--hide-error-context', '--no-color-output', 'gen.py'])


def mypy(plugin, config, src):
    """The diagnostics of a module: {line: [message]}."""
    from mypy import api
    d = scratch()
    path = os.path.join(d, 'gen.py')
    with open(path, 'w') as f:
        f.write(src)
    _runs.append(0)         # mypy takes a file of the same size and second as before for unchanged
    os.utime(path, (10 ** 9 + len(_runs), 10 ** 9 + len(_runs)))
    out, err, code = forked(lambda: run_mypy(d, plugin, config))
    res = {}
    for line in out.splitlines():
        m = re.match(r'gen\.py:(\d+): (.*)$', line)
        if m is None:
            return 'unexpected: %s\n%s' % (line, err)
        res.setdefault(int(m[1]), []).append(m[2])
    if code not in (0, 1) or err:
        return 'failed (%s): %s' % (code, err)
    return {k: sorted(v) for k, v in res.items()}


def runtime(p, src, first):
    """What executing each statement comes to; None where that is not determined by the signature."""
    ns = {'__name__': 'gen'}
    lines = src.splitlines()
    try:
        exec(compile('\n'.join(lines[:first]), 'gen.py', 'exec'), ns)
    except Exception as e:
        return repr(e)
    out = []
    for s, line in zip(p.stmts, lines[first:]):
        if s[0] == 'call':
            try:
                eval(line, ns)
                out.append('ok')
            except pd.ValidationError as e:
                ts = {x['type'] for x in e.errors()}
                out.append('missing' if 'missing' in ts else ('extra' if 'extra_forbidden' in ts else 'value'))
            except TypeError as e:
                out.append('type' if 'positional' in str(e) or 'argument' in str(e) else None)
        elif s[0] == 'assign':
            cls = ns[s[1]]
            f = cls.model_fields[s[2]]
            out.append('frozen' if f.frozen or cls.model_config.get('frozen') else 'ok')
        else:
            out.append(None)
    return out


def check(p, T):
    src, first = render(p, True)
    plain_src, _ = render(p, False)
    ran = runtime(p, src, first)
    if isinstance(ran, str):
        T.count('definition rejected')
        T.count(ran[:60])
        return
    a, b = mypy('pydantic_xml', p.config, src), mypy('pydantic', p.config, plain_src)
    if isinstance(b, str):
        raise RuntimeError(b)
    if isinstance(a, str):
        raise Violation('mypy fails with the plugin', source=src, mypy=a)
    lines = src.splitlines()
    fields = {}
    for m in p.models:
        fields[m.name] = dict(fields.get(m.base, {}), **{f.name: f for f in m.fields})
    byname = {m.name: m for m in p.models}
    kinds = set()
    for i, line in enumerate(lines):
        n = i + 1
        if a.get(n) == b.get(n):
            if i >= first:
                kinds.add('reported' if n in a else 'clean')
                for x in a.get(n, ['clean']):
                    T.count('%s: %s' % (p.stmts[i - first][0], re.sub(r'"[^"]*"', '"..."', x)[:70]))
            continue
        if i < first and not any('pydantic' in x for x in a.get(n, []) + b.get(n, [])):
            T.count('definition typed differently')
            continue
        raise Violation('the plugin reports something else than for plain pydantic models', source=src, plain=plain_src, settings=p.config,
                        line='%d: %s' % (n, line), xml=a.get(n), pydantic=b.get(n))
    for i, (s, r) in enumerate(zip(p.stmts, ran)):
        n = first + i + 1
        chain, m = [], byname[s[1]]
        while m is not None:
            chain.append(m)
            m = byname.get(m.base)
        if r is None or s[0] not in ('call', 'assign'):
            continue
        if any(f.form == 'annotated' for f in fields[s[1]].values()) or any(n in ('populate_by_name', 'validate_by_name', 'strict')
                                                                             for m in chain for n, _ in m.config):
            continue        # the pydantic plugin does not look into these
        T.count('run: ' + r)
        got = a.get(n, [])
        if s[0] == 'assign':
            ro = any('read-only' in x for x in got)
            if ro != (r == 'frozen') and not (r == 'frozen' and inherited_frozen(s, chain)):
                raise Violation('an assignment is reported when it works or the other way', source=src, line=lines[n - 1], mypy=got, runtime=r)
        elif r == 'missing' and not any('call-arg' in x for x in got):
            raise Violation('a missing argument is not reported', source=src, line=lines[n - 1], mypy=got, runtime=r)
        elif r == 'ok' and any('Missing' in x for x in got):
            raise Violation('a call that works is reported', source=src, line=lines[n - 1], mypy=got, runtime=r)
    if len(kinds) == 2:
        T.nontrivial(src)
    T.sample(src + '# -> %s' % {k: v for k, v in a.items() if k > first})


def inherited_frozen(s, chain):
    """The pydantic plugin does not treat the frozen fields of a base as such in a subclass."""
    return s[2] not in [f.name for f in chain[0].fields]


def parts():
    return [Part('plugin', programs, check, 60, 1500, backends=('lxml',))]

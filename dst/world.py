"""Builds record classes, values and selections of a scenario (pure JSON) on the code under test."""
import sys
import types
import warnings
import collections
import typing
from collections import deque, defaultdict

from dst import userland as U
from dst.userland import Callback, SimLogger, TL, dec, Invalid

MOD = types.ModuleType('dstw')
sys.modules['dstw'] = MOD

R = None  # the package under test, set by load()


def load():
    global R
    if R is None:
        import records
        import records.select
        import records.extras
        R = records
    return R


def _showwarning(message, category, filename, lineno, file=None, line=None):
    ctx = getattr(TL, 'ctx', None)
    if ctx is not None:
        ctx.callback('warnings', 'warning', 'ident', [category.__name__, str(message)])


def setup_process():
    warnings.simplefilter('always')
    warnings.showwarning = _showwarning


STYLE = {'hollow': 'hollow', 'check': 'check', 'strict': 'check_strict', 'default': 'default'}


def style_of(s):
    return getattr(load().TypeCheckStyle, STYLE[s])


ITER = {'list': typing.List, 'set': typing.Set, 'frozenset': typing.FrozenSet, 'deque': typing.Deque,
        'Sequence': typing.Sequence, 'MutableSequence': typing.MutableSequence, 'AbstractSet': typing.AbstractSet}
ITER9 = {'list': list, 'set': set, 'frozenset': frozenset, 'deque': deque, 'Sequence': collections.abc.Sequence,
         'MutableSequence': collections.abc.MutableSequence, 'AbstractSet': collections.abc.Set}
GEN_N = {'Iterable': typing.Iterable, 'Collection': typing.Collection, 'Container': typing.Container,
         'Reversible': typing.Reversible, 'Generator': typing.Generator, 'AsyncGenerator': typing.AsyncGenerator}
MAPS = {'dict': typing.Dict, 'Mapping': typing.Mapping, 'defaultdict': typing.DefaultDict,
        'MutableMapping': typing.MutableMapping}
ABC = {'Iterable': collections.abc.Iterable, 'Sized': collections.abc.Sized, 'Hashable': collections.abc.Hashable,
       'Sequence': collections.abc.Sequence, 'Mapping': collections.abc.Mapping, 'Shape': U.Shape}
PLAIN = dict(U.TYPES)
PLAIN.update({'deque': deque, 'defaultdict': defaultdict, 'OrderedDict': collections.OrderedDict,
              'Counter': collections.Counter})
PLAIN.update({'abc.' + k: v for k, v in ABC.items()})
BARE = {'List': typing.List, 'Dict': typing.Dict, 'Tuple': typing.Tuple, 'SequenceT': typing.Sequence}


TVAR = typing.TypeVar('TVAR')


class Mixin:
    """an ordinary class that can be a parent of record classes"""
    mix_attr = 'mixed'

    def mix(self):
        return 'mix'


class SlotMixin:
    __slots__ = ()

    def smix(self):
        return 's'


MIXINS = {'Mixin': Mixin, 'SlotMixin': SlotMixin}


class World:
    def __init__(self):
        self.classes = {}
        self.specs = {}
        self.pool = []
        self.selects = []
        self.tags = {}
        self.defaults = {}  # (class, field) -> the declared plain default object
        self.shared_nodes = {}
        self.shared_toks = {}
        self.shared_spec = {}  # what they were made of
        self.handles = []
        self.errs = []  # declared exception instances
        self.notes = None  # when a list: every argument object given to the code under test

    # ---- construction
    def build(self, scn):
        for spec in scn.get('classes', ()):
            self.define(spec)
        for s in scn.get('selects', ()):
            self.selects.append(self.select(s))
        for p in scn.get('pool', ()):
            self.pool.append(dec(p, self))
        return self

    def make(self, name, kwargs):
        cls = self.classes[name]
        return cls(**kwargs)

    def tag(self, x):
        if x not in self.tags:
            self.tags[x] = load().Tag({'m1': -1, 'm2': -2}.get(x, x)) if x != 'noorder' else load().exclude_from_ordering
        return self.tags[x]

    def fresh_tag(self, x):
        """an equal tag that is another object"""
        if x == 'noorder':
            return self.tag(x)
        return load().Tag({'m1': -1, 'm2': -2}.get(x, x))

    def select(self, s):
        return load().select.Select(**select_kwargs(s, self))

    # ---- hints
    def tokens(self, toks):
        out = []
        for t in toks:
            out.append(self.token(t))
        return out

    def token(self, t):
        R = load()
        k = t[0]
        if k == 'shared':
            key = t[1]
            if key not in self.shared_toks:
                self.shared_toks[key] = self.token(t[2])
                self.shared_spec[t[1]] = t[2]
            return self.shared_toks[key]
        if k == 'style':
            return style_of(t[1])
        if k == 'tag':
            return self.tag(t[1])
        if k == 'co':
            extra = [dec(a) for a in (t[3] if len(t) > 3 else ())]
            return R.CallCoercion(Callback(t[1], 'coercer', t[2]), *extra)
        if k == 'va':
            extra = [dec(a) for a in (t[3] if len(t) > 3 else ())]
            return R.CallValidation(Callback(t[1], 'validator', t[2]), *extra)
        if k == 'as':
            return R.AssertCallValidation(Callback(t[1], 'assert', t[2]), **self.assert_kw(t[1], t[3] if len(t) > 3 else {}))
        if k == 'map':
            vm = {dec(a): dec(b) for a, b in t[1]}
            fm = {dec(a): Callback(cb, 'mapfactory', sem) for a, cb, sem in t[2]}
            return R.MapCoercion(vm, fm)
        if k == 'cm':
            return R.ClassMethodCoercion(t[1], *[dec(a) for a in (t[2] if len(t) > 2 else ())])
        if k == 'compose':
            return R.ComposeCoercer(*[self.token(x) for x in t[1]])
        if k == 'loose':
            return R.Loose if len(t) < 2 or not t[1] else R.Loose.constrain(tuple(U.TYPES[x] for x in t[1]))
        if k == 'loosei':
            return R.Loose()
        if k == 'lunpack':
            return R.LooseUnpack if len(t) < 2 else R.LooseUnpack.constrain(*[U.TYPES[x] for x in t[1]])
        if k == 'lmap':
            return R.LooseUnpackMap
        if k == 'whole':
            return R.Whole
        if k == 'tobytes':
            from records.fillers.builtin_fillers.std_fillers import ToBytes
            return ToBytes(t[1], 'big')
        if k == 'fromint':
            return R.FromInteger
        if k == 'falsish':
            return R.Falsish
        if k == 'eval':
            kw = {'call': Callback(t[2][0], 'evalcall', t[2][1])} if len(t) > 2 else {}
            return R.Eval(*[{'P': U.P, 'len': len, 'int': int, '...': ...}[x] for x in t[1]], **kw)
        if k == 'leval':
            return R.LiteralEval
        if k == 'clamp':
            return R.Clamp(dec(t[1]), dec(t[2]))
        if k == 'cyclic':
            return R.Cyclic(dec(t[1]), dec(t[2]))
        if k == 'within':
            return R.Within(dec(t[1]), dec(t[2]), g_eq=t[3], l_eq=t[4])
        if k == 'fullmatch':
            return R.FullMatch(t[1])
        if k == 'truth':
            return R.Truth
        raise Invalid(f'bad token {t}')

    def base_hint(self, node):
        k = node['k']
        if k == 'plain':
            return PLAIN[node['t']]
        if k == 'bare':
            return BARE[node['t']]
        if k == 'any':
            return typing.Any
        if k == 'none':
            return None
        if k == 'ellipsis':
            return type(...)
        if k == 'callable':
            return typing.Callable
        if k == 'union':
            return typing.Union[tuple(self.member(m) for m in node['m'])]
        if k == 'optional':
            return typing.Optional[self.member(node['m'][0])]
        if k == 'lit':
            return typing.Literal[tuple(dec(v) for v in node['v'])]
        if k == 'iter':
            return (ITER9 if node.get('nine') else ITER)[node['c']][self.hint(node['e'])]
        if k == 'gen':
            return GEN_N[node['c']][(self.hint(node['e']), *(self.hint(e) for e in node.get('more', ())))]
        if k == 'map':
            return MAPS[node['c']][self.hint(node['kk']), self.hint(node['vv'])]
        if k == 'tup':
            if not node['e']:
                return tuple[()] if node.get('nine') else typing.Tuple[()]
            return typing.Tuple[tuple(self.hint(e) for e in node['e'])]
        if k == 'tupv':
            return typing.Tuple[self.hint(node['e']), ...]
        if k == 'type':
            return typing.Type[PLAIN[node['t']] if node['t'] != 'Any' else typing.Any]
        if k == 'newtype':
            return typing.NewType('NT', self.hint(node['n']))
        if k == 'rec':
            return self.classes[node['c']]
        if k == 'tvar':
            return TVAR
        if k == 'self':
            return typing.Optional[node.get('py', node['c'])]  # a forward reference to the class being defined
        raise Invalid(f'bad node {node}')

    def member(self, node):
        h = self.hint(node)
        if node['k'] in ('union', 'optional') and not node.get('toks'):
            return typing.NewType('NT', h)  # (or typing would take its members for members of the outer one)
        return h

    def hint(self, node):
        if 'share' in node:
            if node['share'] not in self.shared_nodes:
                self.shared_nodes[node['share']] = self._hint(node)
            return self.shared_nodes[node['share']]
        return self._hint(node)

    def _hint(self, node):
        toks = node.get('toks') or ()
        base = self.base_hint(node)
        if not toks:
            return base
        return load().Annotated[(base, *self.tokens(toks))]

    # ---- class definition
    def namespace(self, spec):
        """the bases and body of a class, without defining it"""
        R = load()
        ann = {}
        ns = {'__module__': 'dstw', '__qualname__': spec.get('pyname', spec['name']), '__annotations__': ann}
        for f in spec['fields']:
            h = self.hint(f['node'])
            tags = [self.tag(t) for t in f.get('tags', ())]
            if f.get('final') in ('in', 'half'):
                # some of the tokens stand outside of Final
                toks = self.tokens(f['node'].get('toks') or ())
                j = len(toks) // 2 if f['final'] == 'half' else 0
                h = self.base_hint(f['node'])
                h = typing.Final[R.Annotated[(h, *toks[:j])] if j else h]
                tags = [*toks[j:], *tags]
            elif f.get('final'):
                h = typing.Final[h] if f['final'] != 'raw' else typing.Final
            if tags:
                h = R.Annotated[(h, *tags)]
            ann[f['name']] = h
            d = f.get('default')
            if d is not None:
                if d[0] == 'v':
                    obj = dec(d[1], self)
                    self.defaults[(spec['name'], f['name'])] = obj
                    ns[f['name']] = obj
                elif d[0] == 'sv':  # a default object shared between classes
                    obj = self.shared_toks.setdefault(('default', d[1]), None)
                    if obj is None:
                        obj = self.shared_toks[('default', d[1])] = dec(d[2], self)
                    self.defaults[(spec['name'], f['name'])] = obj
                    ns[f['name']] = obj
                else:
                    ns[f['name']] = R.Factory(Callback(d[1], 'factory', d[2]))
        for name in spec.get('classvars', ()):
            ann[name] = typing.ClassVar[int]
            ns[name] = 5
        pre = spec.get('pre_bind', ())
        hook = spec.get('pre_hook')
        if pre or hook:
            ns['pre_bind'] = self.make_pre_bind(pre, hook)
        for p in spec.get('parsers', ()):
            ns[p['name']] = self.make_parser(p)
        pn = spec.get('post_new')
        if pn:
            ns['post_new'] = self.make_post_new(spec, pn)
        if 'bool' in spec:
            val = spec['bool']
            ns['__bool__'] = lambda self: val
        if 'len' in spec:
            n = spec['len']
            ns['__len__'] = lambda self: n
        bases = []
        for b in spec.get('bases', ()):
            bases.append(MIXINS[b] if b in MIXINS else self.classes[b])
        if not any(issubclass(b, R.RecordBase) for b in bases):
            bases.append(R.RecordBase)
        kw = {}
        if spec.get('frozen'):
            kw['frozen'] = True
        if spec.get('ordered'):
            kw['ordered'] = True
        if spec.get('unary') is not None:
            kw['unary_parse'] = spec['unary']
        if spec.get('style'):
            kw['default_type_check'] = style_of(spec['style'])
        return tuple(bases), ns, kw

    def assert_kw(self, cbid, o):
        kw = {}
        if 'err' in o:
            kw['err'] = o['err'] if isinstance(o['err'], str) else U.EXC[o['err'][0]]()
            if not isinstance(kw['err'], str):
                self.errs.append(kw['err'])
        if 'warn' in o:
            kw['warn'] = SimLogger(cbid + '.log') if o['warn'] == 'logger' else bool(o['warn'])
        return kw

    def make_pre_bind(world, pre, hook):
        def pre_bind(cls):
            owner = next(c for c in cls.__mro__ if c.__dict__.get('pre_bind') is cm)
            super(owner, cls).pre_bind()
            if cls is not owner:
                return
            if hook:
                ctx = getattr(TL, 'ctx', None)
                if ctx is not None:
                    ctx.callback(hook, 'pre_bind', 'ident', cls.__name__)
            for p in pre:
                field = getattr(cls, p['field'])
                kw = {k: dec(v) for k, v in (p.get('kw') or {}).items()}
                kw.update(world.assert_kw(p['cb'][0], p.get('opts') or {}))
                if p.get('sub') is not None:
                    kw['sub_key'] = p['sub']
                cb = Callback(p['cb'][0], p['kind'], p['cb'][1])
                add = {'coercer': field.add_coercer, 'validator': field.add_validator,
                       'assert': field.add_assert_validator}[p['kind']]
                if kw or p.get('deco'):
                    add(**kw)(cb)
                else:
                    add(cb)

        cm = classmethod(pre_bind)
        return cm

    def make_parser(self, p):
        """a parser: calls its callback, and builds a record from what that returns"""
        cb = Callback(p['cb'], 'parser', p['sem'])
        mode = p.get('mode', 'field')
        field = p.get('field')
        n = p['name']

        def body(cls, v):
            r = cb(v)
            if mode == 'field':
                return cls(**{field: r})
            if mode == 'mapping':
                return cls(**r)
            return r

        mark = load().parser if not p.get('nopar') else lambda f: f
        if p.get('kind') == 'selectable':
            def sel(cls, v):
                r = cb(v)
                return r if mode == 'mapping' else {field: r}
            sel.__name__ = sel.__qualname__ = n
            return mark(load().SelectableFactory(sel))
        if p.get('kind') == 'static':
            def st(v):
                return cb(v)
            st.__name__ = n
            return mark(staticmethod(st))
        body.__name__ = n
        return mark(classmethod(body))

    def make_post_new(self, spec, pn):
        cb = Callback(pn['cb'], 'post_new', 'ident')
        mode = pn['mode']
        world = self

        def post_new(self):
            names = U.REG.get(type(self), ())
            vals = {n: self.__dict__.get(n) for n in names}
            ctx = getattr(TL, 'ctx', None)
            cb(vals)
            if mode == 'none':
                return None
            if mode == 'self':
                return self
            if mode == 'reject':
                f = pn['field']
                if U.crc(U.canon(vals.get(f))) % pn['mod'] == pn['rem']:
                    raise ValueError('post_new rejects')
                return None
            if mode == 'other':
                return ['replacement', pn.get('val', 0)] if pn.get('val') != 'falsy' else []
            if mode == 'twin':
                # a replacement record of the same class (post_new runs again for it)
                if ctx is not None:
                    if ctx.post_depth:
                        return None
                    ctx.post_depth += 1
                    try:
                        return type(self)(**vals)
                    finally:
                        ctx.post_depth -= 1
                return None
            if mode == 'hash':
                hash(self)
                return None
            if mode == 'assign':
                if not type(self).is_frozen():
                    setattr(self, pn['field'], vals[pn['field']])
                return None
            if mode == 'attr':
                if not type(self).is_frozen():
                    self.x_extra = 1
                return None
            raise Invalid(mode)

        return post_new

    def define(self, spec, register=True):
        cls = self.finish(spec, *self.namespace(spec))
        if register:
            self.register(spec, cls)
        return cls

    @staticmethod
    def finish(spec, bases, ns, kw):
        return types.new_class(spec.get('pyname', spec['name']), bases, kw, lambda body: body.update(ns))

    def register(self, spec, cls):
        name = spec['name']
        self.classes[name] = cls
        self.specs[name] = spec
        setattr(MOD, name, cls)
        U.REG[cls] = tuple(self.field_order(name))

    def field_order(self, name):
        spec = self.specs[name]
        out = []
        for b in spec.get('bases', ()):
            if b in self.specs:
                for n in self.field_order(b):
                    if n not in out:
                        out.append(n)
        for f in spec['fields']:
            if f['name'] not in out:
                out.append(f['name'])
        return out

    def field_specs(self, name):
        """{field: (declaring class spec, field spec)} in declaration order, parents first"""
        out = {}
        spec = self.specs[name]
        for b in spec.get('bases', ()):
            if b in self.specs:
                out.update(self.field_specs(b))
        for f in spec['fields']:
            out[f['name']] = (spec, f)
        return out


class OneShot:
    """an iterable that can be iterated once"""

    def __init__(self, items):
        self.it = iter(items)

    def __iter__(self):
        return self.it


def select_kwargs(s, world=None):
    """keyword arguments of a Select; each is given in one of several iterable shapes"""
    kw = {}
    for key, val in s.items():
        if key in ('rm', 'mrm'):
            shape, items = val
            name = {'rm': 'keys_to_remove', 'mrm': 'keys_to_maybe_remove'}[key]
        else:
            shape, items = val
            if key in ('add', 'madd'):
                items = [(k, dec(v, world)) for k, v in items]
            else:
                items = [(a, b) for a, b in items]
            name = {'ren': 'keys_to_rename', 'mren': 'keys_to_maybe_rename', 'add': 'keys_to_add',
                    'madd': 'keys_to_maybe_add'}[key]
        kw[name] = shaped(shape, items)
        if world is not None and world.notes is not None:
            world.notes.append(kw[name])
            if key in ('add', 'madd'):
                world.notes.extend(v for _, v in items)
    return kw


def shaped(shape, items):
    if shape == 'str':
        return items[0]
    if shape == 'list':
        return list(items)
    if shape == 'tuple':
        return tuple(items)
    if shape == 'gen':
        return (x for x in items)
    if shape == 'iter':
        return iter(list(items))
    if shape == 'oneshot':
        return OneShot(items)
    if shape == 'dict':
        return dict(items)
    if shape == 'odict':
        return collections.OrderedDict(items)
    if shape == 'mproxy':
        return types.MappingProxyType(dict(items))
    if shape == 'keys':
        return dict.fromkeys(items).keys()
    if shape == 'items':
        return dict(items).items()
    if shape == 'deque':
        return deque(items)
    if shape == 'set':
        return set(items)
    if shape == 'fset':
        return frozenset(items)
    if shape == 'chain':
        import itertools
        return itertools.chain(items)
    if shape == 'map':
        return map(lambda x: x, items)
    if shape == 'zip':
        return zip([a for a, _ in items], [b for _, b in items])
    raise Invalid(shape)

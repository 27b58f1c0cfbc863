"""User-side code that the simulator owns: plain classes, exceptions, callbacks and their semantics.

Everything the library calls back into is an object defined here, so that the simulator can log, delay (yield at) and
fail every invocation.  Nothing in this module touches the code under test.
"""
import asyncio
import datetime
import json
import math
import numbers
import operator
import re
import zlib
from _thread import _local
from abc import ABC, abstractmethod
from collections import ChainMap, Counter, OrderedDict, defaultdict, deque
from decimal import Decimal
from enum import Enum
from fractions import Fraction
from types import SimpleNamespace, FunctionType, BuiltinFunctionType, MethodType

TL = _local()


# ---------------------------------------------------------------- plain user classes
def stable_hash(name, k):
    """equal for equal values"""
    try:
        return hash((name, k))
    except TypeError:
        return hash(name)


class P:
    def __init__(self, k=0):
        self.k = k

    def __eq__(self, other):
        return type(self) is type(other) and self.k == other.k

    def __hash__(self):
        return stable_hash('P', self.k)

    def __repr__(self):
        return f'{type(self).__name__}({self.k!r})'

    def __lt__(self, other):
        return self.k < other.k


    @classmethod
    def mk(cls, v, *extra):
        ctx = getattr(TL, 'ctx', None)
        if ctx is not None:
            ctx.callback('P.mk', 'coercer', 'ident', v, extra=extra)
        return cls(v)


class Q(P):
    pass


class Obj:
    """identity equality and hash"""

    def __init__(self, k=0):
        self.k = k

    def __repr__(self):
        return f'Obj({self.k!r})'


class HK:
    """equality and hash by value; hashing and comparing are calls of user code, which can fail or be interrupted"""

    def __init__(self, k=0):
        self.k = k

    def __eq__(self, other):
        ctx = getattr(TL, 'ctx', None)
        if ctx is not None:
            ctx.callback('hk-eq', 'eq', 'ident', [self.k, getattr(other, 'k', None)])
        return type(self) is type(other) and self.k == other.k

    def __hash__(self):
        ctx = getattr(TL, 'ctx', None)
        if ctx is not None:
            ctx.callback('hk-hash', 'hash', 'ident', self.k)
        return hash(('HK', self.k))

    def __lt__(self, other):
        ctx = getattr(TL, 'ctx', None)
        if ctx is not None:
            ctx.callback('hk-lt', 'lt', 'ident', [self.k, getattr(other, 'k', None)])
        return self.k < other.k

    def __repr__(self):
        ctx = getattr(TL, 'ctx', None)
        if ctx is not None:
            ctx.callback('hk-repr', 'repr', 'ident', self.k)
        return f'HK({self.k!r})'


def _user_op(name, a, b=None):
    ctx = getattr(TL, 'ctx', None)
    if ctx is not None:
        ctx.callback(name, name.partition('-')[2], 'ident', [a, b])


class MV:
    """a totally ordered quantity of the user; every operation on it is user code that can fail or be interrupted"""

    def __init__(self, k=0):
        self.k = k

    def __repr__(self):
        return f'MV({self.k})'

    def __hash__(self):
        return hash(('MV', self.k))


def _mv(name, f, wrap):
    def op(self, other):
        if type(other) is not MV:
            return NotImplemented
        _user_op('mv-' + name, self.k, other.k)
        return MV(f(self.k, other.k)) if wrap else f(self.k, other.k)
    setattr(MV, f'__{name}__', op)


for _n in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
    _mv(_n, getattr(operator, _n), False)
for _n in ('sub', 'add', 'mod'):
    _mv(_n, getattr(operator, _n), True)


class Args:
    """remembers how it was called"""

    def __init__(self, *args, **kwargs):
        self.args = args
        self.kwargs = kwargs
        _user_op('args-init', list(args), sorted(kwargs.items()))

    @classmethod
    def mk(cls, *args, **kwargs):
        _user_op('args-mk', list(args), sorted(kwargs.items()))
        return cls('mk', *args, **kwargs)

    def __eq__(self, other):
        return type(self) is type(other) and (self.args, self.kwargs) == (other.args, other.kwargs)

    __hash__ = None

    def __repr__(self):
        return f'Args({self.args}, {self.kwargs})'


class Hooky:
    """a value all of whose conversions are user code"""

    def __init__(self, k=0):
        self.k = k

    def __int__(self):
        _user_op('hy-int', self.k)
        return int(self.k)

    __index__ = __int__

    def __float__(self):
        _user_op('hy-float', self.k)
        return float(self.k)

    def __str__(self):
        _user_op('hy-str', self.k)
        return f'hy{self.k}'

    def __repr__(self):
        return f'Hooky({self.k})'

    def __bytes__(self):
        _user_op('hy-bytes', self.k)
        return b'hy'

    def __iter__(self):
        _user_op('hy-iter', self.k)
        return iter([self.k, self.k + 1])

    def keys(self):
        _user_op('hy-keys', self.k)
        return ['k']

    def items(self):
        _user_op('hy-items', self.k)
        return [('k', self.k)]

    def __getitem__(self, x):
        _user_op('hy-getitem', self.k)
        return self.k

    def __bool__(self):
        _user_op('hy-bool', self.k)
        return bool(self.k)

    def __eq__(self, other):
        _user_op('hy-eq', self.k)
        return self.k == (other.k if type(other) is Hooky else other)

    def __hash__(self):
        _user_op('hy-hash', self.k)
        return hash(self.k)


class HNum:
    """a real number of the user"""

    def __init__(self, k=0.0):
        self.k = k

    def __repr__(self):
        return f'HNum({self.k})'

    def __hash__(self):
        return hash(self.k)

    imag = 0
    denominator = property(lambda self: _raise(AttributeError('denominator')))

    def conjugate(self):
        return self

    @property
    def real(self):
        return self


def _hn(name, f):
    def op(self, *args):
        _user_op('hn-' + name, self.k)
        return f(self.k, *[a.k if type(a) is HNum else a for a in args])
    setattr(HNum, name if name in ('is_integer', 'as_integer_ratio') else f'__{name}__', op)


for _n in ('mod', 'add', 'sub', 'mul', 'truediv', 'floordiv', 'lt', 'le', 'gt', 'ge', 'eq', 'ne', 'neg', 'abs'):
    _hn(_n, getattr(operator, _n))
for _n, _f in (('round', round), ('int', int), ('float', float), ('trunc', math.trunc), ('floor', math.floor), ('ceil', math.ceil),
               ('divmod', divmod), ('bool', bool), ('is_integer', lambda k: float(k).is_integer()),
               ('as_integer_ratio', lambda k: float(k).as_integer_ratio())):
    _hn(_n, _f)
numbers.Real.register(HNum)


class Shape(ABC):
    @abstractmethod
    def area(self): ...


class Square(Shape):
    def __init__(self, k=0):
        self.k = k

    def area(self):
        return self.k

    def __eq__(self, other):
        return type(self) is type(other) and self.k == other.k

    def __hash__(self):
        return stable_hash('Square', self.k)

    def __repr__(self):
        return f'Square({self.k!r})'


class Once:
    """can be iterated once, until it is made reusable"""

    def __init__(self, items):
        self.items, self.left = items, iter(items)
        self.reusable = False

    def __iter__(self):
        return iter(self.items) if self.reusable else self.left

    def __repr__(self):
        return f'Once({self.items!r})'


class IntSub(int):
    def __repr__(self):
        return 'IntSub(' + int.__repr__(self) + ')'


class StrSub(str):
    def __repr__(self):
        return 'StrSub(' + str.__repr__(self) + ')'


class FloatSub(float):
    pass


class ListSub(list):
    def __repr__(self):
        return 'ListSub(' + list.__repr__(self) + ')'


class TupleSub(tuple):
    pass


class DictSub(dict):
    pass


class DefaultDictSub(defaultdict):
    pass


class DequeSub(deque):
    pass


class EvenMeta(type):
    def __instancecheck__(cls, v):
        return type(v) is int and v % 2 == 0


class Even(metaclass=EvenMeta):
    """a type whose instances are told apart by their value"""


class Colour(Enum):
    red = 1
    green = 2


class Box:
    """a mutable object with by-value equality; its own copying can be made to fail"""

    def __init__(self, k=0, inner=None):
        self.k = k
        self.inner = [] if inner is None else inner

    def __eq__(self, other):
        return type(self) is type(other) and (self.k, self.inner) == (other.k, other.inner)

    __hash__ = None

    def __repr__(self):
        return f'Box({self.k!r}, {self.inner!r})'

    def __deepcopy__(self, memo):
        ctx = getattr(TL, 'ctx', None)
        if ctx is not None:
            ctx.callback('box-deepcopy', 'deepcopy', 'ident', self.k)
        ret = type(self)(self.k)
        memo[id(self)] = ret
        from copy import deepcopy
        ret.inner = deepcopy(self.inner, memo)
        return ret


class Function:
    """a function whose printed form has no address in it"""

    def __init__(self, name, f):
        self.__name__ = self.__qualname__ = name
        self.__module__ = __name__
        self.f = f

    def __call__(self, *args):
        return self.f(*args)

    def __repr__(self):
        return f'<function {self.__name__}>'

    def __reduce__(self):
        return self.__name__


f_id = Function('f_id', lambda v=None: v)
f_len = Function('f_len', lambda v: len(v))


CLASSES = {c.__name__: c for c in (P, Q, Obj, HK, Square, IntSub, StrSub, FloatSub, ListSub, TupleSub, DictSub, DefaultDictSub, DequeSub,
                                   Colour, Box, Shape, MV, Args, Hooky, HNum, Even)}
TYPES = {t.__name__: t for t in (int, str, float, bool, bytes, list, tuple, dict, set, frozenset, object, type,
                                 Exception, TypeError, ValueError, KeyError, BaseException, complex)}
TYPES.update(CLASSES)
TYPES.update({'date': datetime.date, 'datetime': datetime.datetime, 'timedelta': datetime.timedelta, 'Decimal': Decimal,
              'Fraction': Fraction, 'bytearray': bytearray, 'Number': numbers.Number})
FUNCS = {'f_id': f_id, 'f_len': f_len, 'len': len}


# ---------------------------------------------------------------- exceptions
class TwoArgError(Exception):
    def __init__(self, a, b):
        super().__init__(a, b)


class BadCtorError(Exception):
    """cannot be built from a message: its constructor fails with something that is not a TypeError"""

    def __init__(self, obj):
        super().__init__(obj.code)
        self.code = obj.code


class CustomError(ValueError):
    pass


class SimCancel(BaseException):
    pass


class Hang(BaseException):
    """an operation made more steps than any finite operation of its size can need"""


STEP_CAP = 300000


class _Code:
    code = 7


EXC = {
    'ValueError': lambda: ValueError('sim'), 'TypeError': lambda: TypeError('sim'), 'KeyError': lambda: KeyError('sim'),
    'RuntimeError': lambda: RuntimeError('sim'), 'AttributeError': lambda: AttributeError('sim'),
    'ZeroDivisionError': lambda: ZeroDivisionError('sim'), 'OSError': lambda: OSError(5, 'sim'),
    'MemoryError': lambda: MemoryError('sim'), 'RecursionError': lambda: RecursionError('sim'),
    'LookupError': lambda: LookupError('sim'), 'CustomError': lambda: CustomError('sim'),
    'IndexError': lambda: IndexError('sim'), 'OverflowError': lambda: OverflowError('sim'),
    'UnicodeDecodeError': lambda: UnicodeDecodeError('ascii', b'x', 0, 1, 'sim'),
    'TwoArgError': lambda: TwoArgError('sim', 2), 'BadCtorError': lambda: BadCtorError(_Code()),
    'StopIteration': lambda: StopIteration('sim'), 'AssertionError': lambda: AssertionError('sim'),
    'NotImplementedError': lambda: NotImplementedError('sim'), 'EOFError': lambda: EOFError('sim'),
    'TimeoutError': lambda: TimeoutError('sim'), 'ImportError': lambda: ImportError('sim'),
}
ORDINARY = ['ValueError', 'TypeError', 'KeyError', 'RuntimeError', 'AttributeError', 'ZeroDivisionError', 'OSError',
            'MemoryError', 'RecursionError', 'LookupError', 'CustomError', 'IndexError', 'OverflowError',
            'UnicodeDecodeError', 'TwoArgError', 'AssertionError', 'NotImplementedError', 'EOFError', 'TimeoutError',
            'ImportError']
BASE = {
    'KeyboardInterrupt': lambda: KeyboardInterrupt('sim'), 'SystemExit': lambda: SystemExit(3),
    'GeneratorExit': lambda: GeneratorExit('sim'), 'SimCancel': lambda: SimCancel('sim'),
    'CancelledError': lambda: asyncio.CancelledError('sim'),
}


def make_exc(name):
    e = (EXC.get(name) or BASE[name])()
    try:
        e.dst_injected = True
    except Exception:
        pass
    return e


# ---------------------------------------------------------------- values: tagged JSON <-> objects
class Invalid(Exception):
    """the scenario itself is ill-formed (only happens while shrinking)"""


NOREC = P('no record')  # stands for a record argument that cannot be built


NAN = float('nan')  # one object, as math.nan is
SHARED = [HK(0), HK(1), HK(2)]


def dec(e, world=None):
    t = e[0]
    if t == 'i':
        return int(e[1])
    if t == 's':
        return str(e[1])
    if t == 'f':
        return float(e[1])
    if t == 'b':
        return bool(e[1])
    if t == 'nan':
        return NAN
    if t == 'hs':
        return SHARED[e[1]]
    if t == 'n':
        return None
    if t == 'y':
        return bytes.fromhex(e[1])
    if t == 'e':
        return ...
    if t == 'c':
        return complex(e[1], e[2])
    if t == 'fr':
        return Fraction(e[1], e[2])
    if t == 'l':
        return [dec(x, world) for x in e[1]]
    if t == 't':
        return tuple([dec(x, world) for x in e[1]])
    if t == 'ls':
        return ListSub([dec(x, world) for x in e[1]])
    if t == 'ts':
        return TupleSub([dec(x, world) for x in e[1]])
    if t == 'S':
        return set([dec(x, world) for x in e[1]])
    if t == 'F':
        return frozenset([dec(x, world) for x in e[1]])
    if t == 'q':
        return deque([dec(x, world) for x in e[1]], e[2])
    if t == 'qs':
        return DequeSub([dec(x, world) for x in e[1]], e[2])
    if t in ('d', 'od', 'ds', 'ctr', 'dd', 'dds', 'mp', 'cm'):
        pairs = [(dec(k, world), dec(v, world)) for k, v in e[1]]
        if t == 'd':
            return dict(pairs)
        if t == 'od':
            return OrderedDict(pairs)
        if t == 'ds':
            return DictSub(pairs)
        if t == 'ctr':
            return Counter(dict(pairs))
        if t == 'dd':
            return defaultdict(f_id, pairs)
        if t == 'dds':
            return DefaultDictSub(f_id, pairs)
        if t == 'mp':
            from types import MappingProxyType
            return MappingProxyType(dict(pairs))
        return ChainMap(dict(pairs[::2]), dict(pairs[1::2]))
    if t == 'is':
        return IntSub(e[1])
    if t == 'ss':
        return StrSub(e[1])
    if t == 'fs':
        return FloatSub(e[1])
    if t == 'o':
        c = CLASSES[e[1]]
        if c is Colour:
            return Colour(e[2])
        return c(dec(e[2], world) if isinstance(e[2], list) else e[2])
    if t == 'ty':
        return TYPES[e[1]]
    if t == 'fn':
        return FUNCS[e[1]]
    if t == 'ns':
        return SimpleNamespace(**{k: dec(v, world) for k, v in e[1].items()})
    if t == 'da':
        return datetime.date.fromordinal(e[1])
    if t == 'dt':
        return datetime.datetime(2020, 1, 1) + datetime.timedelta(seconds=e[1])
    if t == 'td':
        return datetime.timedelta(seconds=e[1])
    if t == 'D':
        return Decimal(e[1])
    if t == 'fx':
        return float.fromhex(e[1])
    if t == 'it':
        return Once([dec(x, world) for x in e[1]])
    if t == 'rg':
        return range(*e[1])
    if t == 'r':
        if world is None or e[1] not in world.classes:
            raise Invalid(f'no class {e[1]}')
        for kw in e[2] if isinstance(e[2], list) else (e[2],):
            try:
                return world.make(e[1], {k: dec(v, world) for k, v in kw.items()})
            except Exception:
                pass
        return NOREC
    if t == 'ref':
        if world is None or e[1] >= len(world.pool):
            raise Invalid('no such pool object')
        return world.pool[e[1]]
    if t == 'cls':
        if world is None or e[1] not in world.classes:
            raise Invalid(f'no class {e[1]}')
        return world.classes[e[1]]
    if t == 'kept':
        return world.kept[e[1]]
    if t == 'tokjs':  # text of an object given as JSON-able structure
        return json.dumps(e[1])
    raise Invalid(f'bad value tag {t}')


REG = {}  # record class -> tuple of field names (filled in by world.py)
MAXD = 12


def _is_record(t):
    return t in REG


ADDRESS = re.compile('at 0x[0-9a-f]{6,}')


def canon(v, d=0):
    """an address-free, JSON-able description of a value, including exact types"""
    if d > MAXD:
        return ['...']
    t = type(v)
    if v is None:
        return ['n']
    if t is bool:
        return ['b', int(v)]
    if t is int:
        return ['i', v] if abs(v) < 2 ** 53 else ['i', str(v)]
    if t is float:
        return ['f', repr(v)]
    if t is str:
        return ['s', ADDRESS.sub('at 0x', v) if 'at 0x' in v else v]
    if t is bytes:
        return ['y', v.hex()]
    if t is bytearray:
        return ['ba', v.hex()]
    if t is list:
        return ['l', [canon(x, d + 1) for x in list(v)]]
    if t is tuple:
        return ['t', [canon(x, d + 1) for x in v]]
    if t is dict:
        return ['d', [[canon(k, d + 1), canon(x, d + 1)] for k, x in list(v.items())]]
    if t in REG:
        out = []
        for n in REG[t]:
            try:
                out.append([n, canon(getattr(v, n), d + 1)])
            except AttributeError:
                out.append([n, ['missing']])
        for n in ('x_extra',):
            try:
                out.append([n, canon(getattr(v, n), d + 1)])
            except AttributeError:
                pass
        return ['r', t.__qualname__, out]
    if isinstance(v, type):
        return ['ty', v.__qualname__]
    if isinstance(v, (set, frozenset)):
        return [t.__name__, sorted((canon(x, d + 1) for x in list(v)), key=json.dumps)]
    if isinstance(v, defaultdict):
        return [t.__name__, getattr(v.default_factory, '__name__', None),
                [[canon(k, d + 1), canon(x, d + 1)] for k, x in list(v.items())]]
    if isinstance(v, dict):
        return [t.__name__, [[canon(k, d + 1), canon(x, d + 1)] for k, x in list(dict.items(v))]]
    if isinstance(v, deque):
        return [t.__name__, [canon(x, d + 1) for x in list(v)], v.maxlen]
    if isinstance(v, ChainMap):
        return ['ChainMap', [canon(m, d + 1) for m in v.maps]]
    if isinstance(v, (list, tuple)):
        return [t.__name__, [canon(x, d + 1) for x in list(v)]]
    if isinstance(v, (int, float, str, bytes, complex, Fraction, range, Enum, datetime.date, datetime.timedelta, Decimal)):
        return [t.__name__, str(v)]
    if v is ...:
        return ['e']
    if isinstance(v, SimpleNamespace):
        return ['ns', [[k, canon(x, d + 1)] for k, x in vars(v).items()]]
    if isinstance(v, Box):
        return ['Box', canon(v.k, d + 1), canon(v.inner, d + 1)]
    if t is Args:
        return ['o', 'Args', canon(v.args, d + 1), canon(v.kwargs, d + 1)]
    if t in (P, Q, Square, Obj, HK, MV, Hooky, HNum):
        return ['o', t.__name__, canon(v.k, d + 1)]
    if isinstance(v, (Function, FunctionType, BuiltinFunctionType, MethodType)):
        return ['fn', v.__qualname__]
    if isinstance(v, BaseException):
        return ['ex', t.__name__]
    if t.__name__ == 'mappingproxy':
        return ['mappingproxy', [[canon(k, d + 1), canon(x, d + 1)] for k, x in list(v.items())]]
    if t.__name__ == 'chain':
        return ['?chain']
    if t.__module__.startswith('records'):
        return ['?rec', t.__qualname__]
    return ['?', t.__qualname__]


def unordered(c):
    """the description of a value, whatever the order of the keys of its mappings (JSON may be written with sorted keys)"""
    if not isinstance(c, list):
        return c
    c = [unordered(x) for x in c]
    if len(c) > 1 and isinstance(c[0], str) and isinstance(c[-1], list) and all(isinstance(x, list) and len(x) == 2 for x in c[-1]) \
            and c[0] not in ('l', 't', 'r'):
        c[-1].sort(key=json.dumps)
    return c


def crc(c):
    return zlib.crc32(json.dumps(unordered(c)).encode())


# ---------------------------------------------------------------- callback semantics (pure functions)
def _raise(e):
    raise e


def _inst(v):
    # (calling a method of str on the class str itself crashes some interpreters)
    if isinstance(v, type):
        raise TypeError('sem')
    return v


def _nodict(v):
    # (indexing a defaultdict would modify it)
    if isinstance(v, dict):
        raise TypeError('sem')
    return v


def _chk(ok, v):
    if not ok:
        raise ValueError('sem')
    return v


SEM = {
    # coercion
    'ident': lambda v: v,
    'int': lambda v: int(v), 'float': lambda v: float(v), 'str': lambda v: str(v), 'len': lambda v: len(v),
    'list': lambda v: list(v), 'tuple': lambda v: tuple(v), 'set': lambda v: set(v), 'fset': lambda v: frozenset(v),
    'dict': lambda v: dict(v), 'deque': lambda v: deque(v), 'bool': lambda v: bool(v), 'P': lambda v: P(v),
    'Q': lambda v: Q(v), 'Square': lambda v: Square(v), 'enc': lambda v: _inst(v).encode(), 'dec': lambda v: _inst(v).decode(),
    'nonefy': lambda v: None if not v else _raise(ValueError('sem')), 'first': lambda v: next(iter(v.values())) if isinstance(v, dict) else v[0],
    'split': lambda v: _inst(v).split(','), 'neg': lambda v: -v, 'wrap': lambda v: [v], 'wrapt': lambda v: (v,),
    'wrapd': lambda v: {v: v}, 'isub': lambda v: IntSub(v), 'ssub': lambda v: StrSub(v), 'lsub': lambda v: ListSub(v),
    'strict_str_int': lambda v: int(v) if type(v) is str else _raise(TypeError('sem')),
    'ell': lambda v: ..., 'none': lambda v: None, 'fn': lambda v: f_id, 'type': lambda v: type(v),
    'fail': lambda v: _raise(ValueError('sem')), 'failt': lambda v: _raise(TypeError('sem')),
    # validation
    'inc': lambda v: v + 1, 'upper': lambda v: _inst(v).upper(), 'strip': lambda v: _inst(v).strip(), 'rev': lambda v: _nodict(v)[::-1],
    'dbl': lambda v: v + v, 'nonneg': lambda v: _chk(v >= 0, v), 'nonempty': lambda v: _chk(len(v) > 0, v),
    'short': lambda v: _chk(len(v) < 4, v), 'even': lambda v: _chk(v % 2 == 0, v), 'abs': lambda v: abs(v),
    'cpl': lambda v: list(v) if type(v) is list else v,
    'flt': lambda v: v + 0.5 if isinstance(v, (int, float)) else v,
    'app': lambda v: v + 'z',
    # assertions
    'a_pos': lambda v: v > 0, 'a_truthy': lambda v: bool(v), 'a_short': lambda v: len(v) < 3, 'a_even': lambda v: v % 2 == 0,
    'a_true': lambda v: True, 'a_false': lambda v: False, 'a_one': lambda v: 1, 'a_zero': lambda v: 0, 'a_none': lambda v: None,
    'a_str': lambda v: isinstance(v, str),
}


def apply_sem(sem, v):
    if isinstance(sem, list):
        if sem[0] == 'const':
            return dec(sem[1])
        if sem[0] == 'add':
            return v + dec(sem[1])
        raise Invalid(f'bad sem {sem}')
    return SEM[sem](v)


def fault_for(faults, cbid, c):
    """the action injected into callback ``cbid`` when called with a value whose canonical form is ``c``"""
    for f in faults or ():
        if f['cb'] != cbid:
            continue
        w = f.get('when', 'all')
        if w == 'all' or crc(c) % w[1] == w[2]:
            return f['act']
    return None


class Callback:
    """A user function under simulator control"""
    __name__ = 'callback'

    def __init__(self, cbid, role, sem):
        self.cbid = cbid
        self.role = role
        self.sem = sem

    def __call__(self, *args, **kw):
        ctx = getattr(TL, 'ctx', None)
        args += tuple(sorted(kw.items()))
        if ctx is None:
            return apply_sem(self.sem, *(args[:1] or (None,)))
        if len(args) > 1:
            # extra arguments must arrive unchanged: they take part in the logged argument
            return ctx.callback(self.cbid, self.role, self.sem, args[0], extra=args[1:])
        return ctx.callback(self.cbid, self.role, self.sem, args[0] if args else None)


class SimLogger:
    """stands in for the logging.Logger of warn-only validators; only ``warning`` is used"""

    def __init__(self, cbid):
        self.cbid = cbid

    def warning(self, msg, *args, **kwargs):
        ctx = getattr(TL, 'ctx', None)
        if ctx is not None:
            ctx.callback(self.cbid, 'logger', 'ident', str(msg))


class Ctx:
    """Execution context of one operation: fault plan, callback log, injection point"""

    def __init__(self, sim=None, faults=(), name='op'):
        self.sim = sim
        self.faults = faults
        self.name = name
        self.log = []
        self.fired = []  # fault actions that actually happened
        self.steps = 0
        self.interrupt_at = None
        self.interrupt_exc = None  # the exception object that was injected
        self.interrupt_name = None
        self.calls_after = 0
        self.injected = []  # exception objects raised by faults
        self.post_depth = 0
        self.raise_at_call = None  # (call number, exception name): injected at that callback invocation
        self.keep = None  # when a list: (callback id, result object) of every callback that returned
        self.nest = None  # {step: [function]}: run at these steps, in the middle of the operation (see C18)
        self.suspended = False
        self.loose = False  # set by the model where the number of element callbacks is not determined

    def point(self, where=None):
        if self.suspended:
            return
        self.steps += 1
        if self.nest is not None and self.steps in self.nest:
            self.suspended = True
            try:
                for f in self.nest[self.steps]:
                    f()
            finally:
                TL.ctx = self
                self.suspended = False
        if self.steps == self.interrupt_at:
            self.interrupt_exc = e = make_exc(self.interrupt_name)
            raise e
        if self.sim is not None:
            self.sim.point(self, where)
        elif self.steps > STEP_CAP:
            raise Hang(f'no end after {STEP_CAP} steps')

    def step_point(self):
        self.point(None)

    def callback(self, cbid, role, sem, v, extra=()):
        c = canon(v)
        if extra:
            c = ['args', c] + [canon(x) for x in extra]
        if self.interrupt_exc is not None:
            self.calls_after += 1
        self.log.append([cbid, c])
        self.point(('cb', cbid))
        if self.raise_at_call is not None and len(self.log) == self.raise_at_call[0] + 1 and self.interrupt_exc is None:
            self.interrupt_exc = e = make_exc(self.raise_at_call[1])
            raise e
        act = fault_for(self.faults, cbid, c)
        if act is not None:
            self.fired.append([cbid] + act[:2])
            if act[0] == 'raise':
                e = make_exc(act[1])
                self.injected.append(e)
                raise e
            if act[0] == 'raiseB':
                e = make_exc(act[1])
                self.interrupt_exc = e
                raise e
            if act[0] == 'ret':
                return self._kept(cbid, dec(act[1]))
            raise Invalid(f'bad act {act}')
        if sem is None:
            return None
        return self._kept(cbid, apply_sem(sem, v))

    def _kept(self, cbid, r):
        if self.keep is not None:
            self.keep.append((cbid, r))
        return r

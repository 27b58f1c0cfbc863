"""C21: built-in coercers convert only as documented."""
import builtins
import math
import sys
from ast import literal_eval
from numbers import Complex, Integral, Rational, Real

from dst import mini, world as W
from dst import userland as U
from dst.common import Viol, short
from dst.mini import Want, Refuse
from dst.userland import dec, canon

ID = 'C21'
QUICK = 14000
THOROUGH = 400000
RULE = ('seeded record classes whose fields (plain, optional, union, nested in lists, tuples, sets and dicts) carry 1-3 of the '
        'built-in coercers in all their forms (arguments, constraints, compositions, maps), alone or shared between fields of '
        'different types; 4-12 constructions each with suitable, odd and hostile arguments (among them user objects whose '
        'conversions, comparisons, hashes and constructors fail by a seeded plan, and texts that would run code), some interrupted, '
        'a quarter from 2-3 threads under a seeded schedule; each value and refusal is judged by a reference of each coercer '
        'written from its documentation; a spy among the builtins must never be touched; non-trivial: a value was refused, a '
        'failure was injected or threads interleaved')
MEASURE = 'crc of (construction, kind of result, faults that fired)'
REAL = ['records (all of it)', 'CPython threads, released one at a time']
STUB = ['conversions, comparisons and constructors of user objects (can fail)', 'asynchronous interrupts',
        'thread scheduling, locks and clocks']
ASSUMPTIONS = ['floats that differ from a whole number by less than one millionth may be refused or taken for it',
               'texts given to Eval do not modify the namespace through __builtins__']

ORIGINS = ['int', 'float', 'str', 'bool', 'bytes', 'list', 'tuple', 'set', 'frozenset', 'dict', 'Args', 'P', 'Fraction', 'IntSub',
           'complex', 'date', 'timedelta', 'bytearray']
KINDS = {
    'loose': ['int', 'float', 'str', 'list', 'tuple', 'set', 'frozenset', 'dict', 'Args', 'P', 'Fraction', 'IntSub', 'bytes', 'bool', 'complex'],
    'unpack': ['Args', 'P', 'Fraction', 'complex', 'date', 'timedelta', 'list', 'int', 'str'],
    'umap': ['Args', 'dict', 'timedelta', 'P'],
    'whole': ['int', 'IntSub', 'float', 'Args', 'Fraction'],
    'tobytes': ['bytes', 'bytearray'],
    'fromint': ['bool'],
    'falsish': ['int', 'str', 'list', 'tuple', 'dict', 'set', 'Args', 'P', 'float', 'bytes'],
    'eval': ['int', 'str', 'list', 'tuple', 'dict', 'float', 'P', 'Args', 'set', 'bool'],
    'leval': ['int', 'float', 'set', 'tuple', 'dict', 'list', 'bool', 'complex'],
    'map': ORIGINS,
    'cm': ['Args', 'P', 'int', 'float', 'date', 'dict', 'bytes', 'IntSub', 'bytearray'],
    'compose': ['int', 'float', 'str', 'list', 'tuple', 'Args', 'P', 'Fraction', 'IntSub', 'dict'],
    'co': ['int', 'str', 'float', 'Args', 'list', 'tuple'],
}
NAMES = {'P': U.P, 'len': len, 'int': int, 'Args': U.Args, 'f_len': U.f_len}
CM = {'Args': ['mk'], 'P': ['mk'], 'int': ['from_bytes'], 'IntSub': ['from_bytes'], 'bytearray': ['fromhex'], 'float': ['fromhex'], 'date': ['fromisoformat', 'fromordinal'],
      'dict': ['fromkeys'], 'bytes': ['fromhex']}


class Spy:
    touched = []

    def __call__(self, *a, **k):
        Spy.touched.append('called')
        return 1

    def __getattr__(self, n):
        Spy.touched.append('attribute ' + n)
        return self

    def __getitem__(self, n):
        Spy.touched.append('item')
        return self

    def __iter__(self):
        Spy.touched.append('iterated')
        return iter(())

    def keys(self):
        Spy.touched.append('keys')
        return ()

    def __str__(self):
        Spy.touched.append('str')
        return '1'

    def __add__(self, o):
        Spy.touched.append('add')
        return 1

    __radd__ = __neg__ = __mul__ = __add__


def start():
    Spy.touched.clear()
    builtins.dst_spy = Spy()


def finish(trace):
    t = list(Spy.touched)
    del builtins.dst_spy
    if t:
        raise Viol('executed', f'evaluating a text reached an object among the builtins: {t[:4]}', **({'schedule': trace} if trace else {}))


# ------------------------------------------------------------ tokens
def types_of(c):
    return tuple(U.TYPES[x] for x in c) if len(c) != 1 else U.TYPES[c[0]]


def an(o):
    return [dec(x) for x in o.get('args', ())], {k: dec(v) for k, v in o.get('kw', {}).items()}


def token(t, m):
    R = W.load()
    from records.fillers.builtin_fillers.std_fillers import ToBytes
    k, o = t[0], t[1]
    if k in ('loose', 'unpack', 'umap', 'whole', 'falsish'):
        cls = {'loose': R.Loose, 'unpack': R.LooseUnpack, 'umap': R.LooseUnpackMap, 'whole': R.Whole, 'falsish': R.Falsish}[k]
        if 'c' in o:
            if k == 'loose':
                cls = cls.constrain(types_of(o['c']))
            elif k == 'unpack':
                cls = cls.constrain(*[... if c == '...' else types_of(c) for c in o['c']])
            else:
                cls = cls.constrain(**{n: types_of(c) for n, c in o['c'].items()})
        args, kw = an(o)
        return cls(*args, **kw) if args or kw or o.get('inst') else cls
    if k == 'tobytes':
        args, kw = an(o)
        return ToBytes(*args, **kw)
    if k == 'fromint':
        return R.FromInteger() if o.get('inst') else R.FromInteger
    if k == 'leval':
        return R.LiteralEval() if o.get('inst') else R.LiteralEval
    if k == 'eval':
        kw = {n: dec(v) for n, v in o.get('kw', {}).items()}
        if 'call' in o:
            kw['call'] = U.Callback(o['call'][0], 'evalcall', o['call'][1])
        return R.Eval(*([...] if o.get('add') else []), *[NAMES[n] for n in o.get('names', ())], **kw)
    if k == 'map':
        vm = {dec(a): dec(b) for a, b in o['v']}
        fm = {dec(a): U.Callback(cb, 'mapfactory', sem) for a, cb, sem in o['f']}
        return R.MapCoercion(*([vm, fm] if o.get('pos') else []), **({} if o.get('pos') else
                             {**({'value_map': vm} if vm else {}), **({'factory_map': fm} if fm else {})}))
    if k == 'cm':
        args, kw = an(o)
        return R.ClassMethodCoercion(o['m'], *args, **kw)
    if k == 'compose':
        return R.ComposeCoercer(*[token(x, m) for x in o['t']])
    if k == 'co':
        args, kw = an(o)
        return R.CallCoercion(U.Callback(o['cb'], 'coercer', o['sem']), *args, **kw)
    raise U.Invalid(k)


def is_coercer(t):
    return True


def validate(t, w):
    raise AssertionError


def no(why='refuse'):
    raise Refuse([TypeError(why)])


# ------------------------------------------------------------ references, from the documentation
def coerce(t, origin, v):
    k, o = t[0], t[1]
    args, kw = an(o) if k in ('loose', 'unpack', 'umap', 'whole', 'falsish', 'tobytes', 'cm', 'co') else ([], {})
    if k == 'loose':
        if 'c' in o and not isinstance(v, types_of(o['c'])):
            no()
        return Want(origin(v, *args, **kw))
    if k == 'unpack':
        vs = [x for x in v]
        if 'c' in o:
            c = o['c']
            if len(c) == 2 and c[1] == '...':
                ok = all(isinstance(x, types_of(c[0])) for x in vs)
            else:
                ok = len(vs) == len(c) and all(isinstance(x, types_of(y)) for x, y in zip(vs, c))
            if not ok:
                no()
        return Want(origin(*vs, *args, **kw))
    if k == 'umap':
        d = {x: v[x] for x in v.keys()}
        if 'c' in o and not all(x in o['c'] and isinstance(y, types_of(o['c'][x])) for x, y in d.items()):
            no()
        if set(d) & set(kw):
            no('given twice')
        return Want(origin(*args, **{**d, **kw}))
    if k == 'whole':
        return whole(origin, v, args, kw)
    if k == 'tobytes':
        if not isinstance(v, Integral):
            no()
        length = args[0] if args else kw.get('length')
        order = args[1] if len(args) > 1 else kw.get('byteorder', 'big')
        signed = kw.get('signed', False)
        n = int(v)
        if length is not None:
            lo, hi = (-(1 << (8 * length - 1)) if length else 0, (1 << (8 * length - 1)) - 1 if length else 0) if signed else \
                (0, (1 << (8 * length)) - 1)
            if not lo <= n <= hi:
                no('too big')
        elif n < 0 and not signed:
            no('negative')

        def ok(r):
            if type(r) is not origin or int.from_bytes(r, order, signed=signed) != n:
                return f'must be the bytes of {n}'
            if length is not None and len(r) != length:
                return f'must be {length} bytes long'
            if length is None and len(r) > (n.bit_length() + 8) // 8 + 1:
                return 'is longer than needed'
        return Want(origin(b''), ok)
    if k == 'fromint':
        for x in (0, 1):
            if v == x:
                return Want(x == 1, lambda r: None if r is (x == 1) else f'must be {x == 1}')
        no()
    if k == 'falsish':
        if v:
            no()
        return Want(origin(*args, **kw))
    if k == 'leval':
        if not isinstance(v, str):
            return Want(v)
        while isinstance(v, str):
            v = literal_eval(v)
        return Want(v)
    if k == 'eval':
        if not isinstance(v, str):
            no()
        ns = {n: NAMES[n] for n in o.get('names', ())}
        if 'f_len' in ns:
            ns['f_len'] = U.f_len
        ns.update({n: dec(x) for n, x in o.get('kw', {}).items()})
        if 'call' in o:
            ns['call'] = lambda *a: U.apply_sem(o['call'][1], *(a[:1] or (None,)))
        if o.get('add'):
            ns[origin.__name__] = origin
        return Want(eval(v, {'__builtins__': ns}))
    if k == 'map':
        vm = {dec(a): dec(b) for a, b in o['v']}
        if v in vm:
            return Want(vm[v])
        fm = {dec(a): sem for a, cb, sem in o['f']}
        if v in fm:
            return Want(U.apply_sem(fm[v], None))
        no()
    if k == 'cm':
        return Want(getattr(origin, o['m'])(v, *args, **kw))
    if k == 'compose':
        w = Want(v)
        for x in reversed(o['t']):
            w = coerce(x, origin, w.value)
        return w
    if k == 'co':
        return Want(U.apply_sem(o['sem'], v))
    raise U.Invalid(k)


def whole(origin, v, args, kw):
    if isinstance(v, Rational):
        if v.denominator != 1:
            no()
        return Want(origin(v.numerator, *args, **kw))
    if isinstance(v, Real):
        x = float(v)
        if math.isnan(x) or math.isinf(x):
            no()
        n = round(x)
        if abs(x - n) > 1e-6:
            no()
        return Want(origin(n, *args, **kw), maybe=x != n)
    if isinstance(v, Complex) and v.imag == 0:
        return whole(origin, v.real, args, kw)
    no()


# ------------------------------------------------------------ generation
TEXTS = ['dst_spy()', 'dst_spy', '[dst_spy.x]', "f'{dst_spy}'", '{**dst_spy}', '(lambda: dst_spy())()', '[dst_spy() for x in (1,)]', '-dst_spy',
         'dst_spy + 1', '[*dst_spy]', '1 + dst_spy', '{dst_spy: 1}', 'dst_spy[0]', "'dst_spy()'", '"\'dst_spy()\'"', '1 if dst_spy() else 2',
         '__import__("os").getpid()', 'open("x")', 'print(1)', 'str(dst_spy())', 'set(dst_spy)', '(x := dst_spy())', 'lambda: 1']
LITS = ['1', '12', '-3', '1.5', '[1, 2]', '(1, 2)', '{1: 2}', '{1, 2}', 'True', 'False', 'None', '1j', '2+3j', '"12"', "'[1]'", '"\'1.5\'"', '()', '[]', '{}',
        'set()', 'b"a"', ' 1', '1 ', '1 2', '[1', '', 'nan', 'x', "['a', ['b', {}]]", '0x10', '1_000', '"', '...', '--1', '1+1', '(1)', '"{1: 2}"']
EVALS = ['P(1)', 'len("abc")', 'int("7")', 'k + 1', 'call(3)', 'call(call(1))', '[call(1), call(2)]', 'Args(1, k=2)', 'Args(call(1))', '1 / 0', '(x := 5)',
         'x', '(x := 3)', 'x + 1', '(k := 2)', '[P := 4][0]', '(int := 8)', '[k for _ in (1, 2)]', '"a" * 3', '{1, 2}', '(1, 2)', '1.5', '[]', '{}', 'True', 'None', 'P(k)', 'int(k)', 'str(1)', 'list((1,))',
         'float(2)', 'tuple([1])', 'dict()', 'Args()', 'f_len([1])', 'int(call(2))', 'str(k)', 'P(len("ab"))', 'int.__name__', 'k', 'raise', '']
ODD = [['n'], ['s', ''], ['s', '12'], ['s', 'ff'], ['s', '1.5'], ['s', 'nan'], ['s', 'abc'], ['s', '3/4'], ['s', '2020-01-02'], ['s', '0102'], ['s', '0x1p3'],
       ['i', 0], ['i', 1], ['i', 2], ['i', -1], ['i', 255], ['i', 256], ['i', -128], ['i', -129], ['i', 65535], ['i', 737000], ['i', 127], ['i', 128], ['i', 2 ** 70],
       ['b', 0], ['b', 1], ['f', 0.0], ['f', 1.0], ['f', 2.5], ['f', 3.0], ['f', -2.0], ['f', 2.9999999999], ['f', -1e-20], ['f', 1e300], ['f', 2.0 ** 60],
       ['f', 2.00001], ['f', 0.999], ['nan'], ['f', math.inf], ['f', -0.0], ['f', -0.5], ['c', 2.0, 0.0], ['c', 2.5, 0.0], ['c', 2.0, 1.0], ['fr', 4, 2],
       ['fr', 1, 2], ['fr', 5 * 10 ** 12 - 1, 10 ** 12], ['fr', 1, 10 ** 15], ['fr', 2 ** 70, 1], ['D', '2'], ['D', '2.5'], ['y', ''], ['y', '0102'], ['y', '3132'], ['l', []], ['l', [['i', 1]]], ['l', [['i', 1], ['i', 2]]],
       ['l', [['i', 1], ['s', 'a']]], ['l', [['i', 2020], ['i', 1], ['i', 2]]], ['t', [['i', 1], ['i', 2]]], ['t', []], ['t', [['s', 'a']]],
       ['l', [['t', [['s', 'a'], ['i', 1]]]]], ['d', []], ['d', [[['s', 'k'], ['i', 1]]]], ['d', [[['s', 'days'], ['i', 1]]]],
       ['d', [[['s', 'k'], ['s', 'x']], [['s', 'z'], ['i', 2]]]], ['d', [[['i', 1], ['i', 2]]]], ['od', [[['s', 'k'], ['i', 1]]]], ['mp', [[['s', 'k'], ['i', 3]]]],
       ['S', [['i', 1]]], ['F', []], ['o', 'Hooky', 0], ['o', 'Hooky', 1], ['o', 'Hooky', 2], ['o', 'HNum', 1.0], ['o', 'HNum', 2.5], ['o', 'HNum', 0.0],
       ['o', 'HNum', -3.0], ['o', 'P', ['i', 1]], ['e'], ['ty', 'int'], ['rg', [2]], ['is', 3], ['ss', '4'], ['ls', [['i', 5]]], ['o', 'HK', 1]]
MAPKEYS = [['s', 'a'], ['s', 'b'], ['i', 1], ['i', 2], ['n'], ['b', 0], ['t', [['i', 1]]], ['f', 2.5], ['hs', 1], ['s', '']]
SOME = {'int': [['i', 7], ['i', 0]], 'float': [['f', 1.5]], 'str': [['s', 'm'], ['s', '']], 'bool': [['b', 1]], 'bytes': [['y', '61']], 'list': [['l', [['i', 9]]], ['l', []]],
        'tuple': [['t', [['i', 9]]]], 'set': [['S', [['i', 9]]]], 'frozenset': [['F', []]], 'dict': [['d', []]], 'Args': [['o', 'Args', 3]], 'P': [['o', 'P', 3]],
        'Fraction': [['fr', 1, 3]], 'IntSub': [['is', 2]], 'complex': [['c', 1.0, 1.0]], 'date': [['da', 700000]], 'timedelta': [['td', 5]], 'bytearray': [['n']]}
CONS = [[], ['int'], ['str'], ['int', 'str'], ['list'], ['float', 'int'], ['Number'], ['object'], ['Hooky'], ['tuple', 'list']]
SEMS = {'int': ['int', 'len'], 'str': ['str', 'strip'], 'float': ['float'], 'Args': [['const', ['o', 'Args', 1]]], 'list': ['list', 'wrap'], 'tuple': ['tuple', 'wrapt']}
FAULTY = ['hy-int', 'hy-float', 'hy-str', 'hy-iter', 'hy-keys', 'hy-items', 'hy-getitem', 'hy-bool', 'hy-eq', 'hy-hash', 'hn-mod', 'hn-round', 'hn-eq',
          'args-init', 'args-init', 'args-mk', 'hk-eq', 'hk-hash', 'P.mk']


def gen_tok(rng, kind, t, cbs, d=0):
    def cb(role):
        c = f'{role}{len(cbs)}'
        cbs.append(c)
        return c

    o = {}
    if kind in ('loose', 'unpack', 'umap', 'whole', 'falsish') and rng.random() < 0.5:
        o['inst'] = 1
    extra = {'int': [{'args': [['i', 16]]}, {'kw': {'base': ['i', 16]}}], 'Args': [{'args': [['i', 5]]}, {'kw': {'q': ['i', 6]}}, {'kw': {'k': ['i', 6]}}, {'args': [['s', 'z'], ['n']], 'kw': {'q': ['n']}}],
             'str': [{'args': [['s', 'ascii']]}, {}]}
    if kind == 'loose':
        if rng.random() < 0.4:
            o['c'] = rng.choice(CONS)
        if rng.random() < 0.35 and t in extra:
            o.update(rng.choice(extra[t]))
    elif kind == 'unpack':
        if rng.random() < 0.5:
            o['c'] = [rng.choice(CONS) for _ in range(rng.choice([0, 1, 2, 2, 3]))] if rng.random() < 0.6 else [rng.choice(CONS), '...']
        if rng.random() < 0.3 and t == 'Args':
            o.update(rng.choice(extra[t]))
    elif kind == 'umap':
        if rng.random() < 0.5:
            o['c'] = {k: rng.choice(CONS) for k in rng.sample(['k', 'z', 'days', 'q'], rng.choice([0, 1, 2, 3]))}
        if rng.random() < 0.4 and t == 'Args':
            o.update(rng.choice(extra[t]))
    elif kind in ('whole', 'falsish'):
        if rng.random() < 0.3 and t == 'Args':
            o.update(rng.choice(extra[t]))
    elif kind == 'tobytes':
        j = rng.random()
        if j < 0.3:
            o['args'] = [['i', rng.choice([1, 2, 3, 4])], ['s', rng.choice(['big', 'little'])]]
        elif j < 0.6:
            o['kw'] = {'length': ['i', rng.choice([1, 2, 4])], 'byteorder': ['s', rng.choice(['big', 'little'])]}
        elif j < 0.8:
            o['kw'] = {'byteorder': ['s', rng.choice(['big', 'little'])]}
        if rng.random() < 0.4:
            o.setdefault('kw', {})['signed'] = ['b', 1]
    elif kind in ('fromint', 'leval'):
        if rng.random() < 0.5:
            o['inst'] = 1
    elif kind == 'eval':
        o['names'] = rng.sample(sorted(NAMES), rng.choice([0, 1, 2, 3]))
        if rng.random() < 0.5:
            o['add'] = 1
        if rng.random() < 0.5:
            o['kw'] = {'k': ['i', rng.choice([5, 0])]}
        if rng.random() < 0.5:
            o['call'] = [cb('evalcall'), rng.choice(['ident', 'int', 'str', 'wrap', 'neg', ['const', ['i', 4]]])]
    elif kind == 'map':
        ks = rng.sample(MAPKEYS, 4)
        o['v'] = [[k, rng.choice(SOME[t] + ODD[:4] if rng.random() < 0.2 else SOME[t])] for k in ks[:rng.randrange(3)]]
        o['f'] = [[k, cb('mapfactory'), ['const', rng.choice(SOME[t])]] for k in ks[rng.choice([1, 2]):rng.choice([2, 3, 4])]]
        if rng.random() < 0.5:
            o['pos'] = 1
    elif kind == 'cm':
        o['m'] = rng.choice(CM[t])
        if o['m'] == 'from_bytes':
            o['args'] = [['s', rng.choice(['big', 'little'])]]
            if rng.random() < 0.5:
                o['kw'] = {'signed': ['b', 1]}
        elif o['m'] == 'mk' and t == 'Args' and rng.random() < 0.6:
            o.update(rng.choice(extra['Args']))
        elif o['m'] == 'mk' and rng.random() < 0.5:
            o['args'] = [['i', 5]]
        elif o['m'] == 'fromkeys' and rng.random() < 0.5:
            o['args'] = [['i', 5]]
    elif kind == 'compose':
        o['t'] = []
        for j in range(rng.choice([1, 2, 2, 3])):
            kk = rng.choice([x for x in KINDS if t in KINDS[x] and (x != 'compose' or d < 1)] if j == 0 else ['co', 'map', 'loose', 'falsish', 'leval', 'whole'])
            if kk in ('leval', 'falsish', 'whole', 'loose') and t not in KINDS[kk]:
                kk = 'co'
            o['t'].append(gen_tok(rng, kk, t, cbs, d + 1))
        if rng.random() < 0.5:
            o['t'][-1] = ['co', {'cb': cb('coercer'), 'sem': rng.choice(['ident', 'strip', 'len', 'str', 'first', 'wrap'])}]
    elif kind == 'co':
        o['cb'] = cb('coercer')
        o['sem'] = rng.choice(SEMS.get(t, ['ident']))
    return [kind, o]


LITERAL = {'int': ['7', '0'], 'str': ['"a"'], 'list': ['[1]', '[]'], 'tuple': ['(1,)'], 'dict': ['{1: 2}'], 'float': ['1.5'], 'set': ['{1}'],
           'bool': ['True'], 'P': ['P(1)'], 'Args': ['Args(1)']}


def suits(tok, t):
    """can the token stand on a field of type t?"""
    kind, o = tok
    if kind == 'cm':
        return o['m'] in CM.get(t, ())
    if kind == 'compose':
        return t in KINDS['compose'] and all(suits(x, t) for x in o['t'])
    return kind in ('map', 'co', 'loose', 'whole', 'falsish') or t in KINDS[kind]


def gen(rng, i):
    toks, cbs = {}, []
    p_share = rng.choice([0, 0.3, 0.7])
    fav = rng.choice(sorted(KINDS)) if rng.random() < 0.6 else None
    ts = rng.sample(ORIGINS, rng.choice([2, 3, 5]))

    def field(style):
        kind = fav if fav and rng.random() < 0.6 else rng.choice(sorted(KINDS))
        mine = [x for x in KINDS[kind] if x in ts]
        t = rng.choice(mine or KINDS[kind])
        ks = []
        for j in range(rng.choice([1, 1, 1, 2, 3])):
            kk = kind if j == 0 else rng.choice([x for x in KINDS if t in KINDS[x]])
            old = [x for x in toks if toks[x][0] == kk and suits(toks[x], t)]
            if old and rng.random() < p_share:
                k = rng.choice(old)
            else:
                k = f'T{len(toks)}'
                toks[k] = gen_tok(rng, kk, t, cbs)
            ks.append(k)
        rng.shuffle(ks)
        shapes = ['plain', 'plain', 'plain', 'plain', 'list', 'dict', 'tupv', 'tup2', 'opt', 'optlist', 'dictlist', 'union']
        if t in ('int', 'str', 'float', 'bytes', 'P', 'Fraction', 'bool'):
            shapes.append('set')
        f = {'shape': rng.choice(shapes), 't': t, 'toks': ks, 'stylepos': rng.randrange(3)}
        if f['shape'] == 'union':
            f['t2'] = 'str' if t != 'str' else 'int'
            if t == 'Hooky':
                f['shape'] = 'plain'
        st = rng.choice([None, 'check', 'strict'])
        if st:
            f['style'] = st
        return f

    classes = mini.gen_classes(rng, rng.choice([1, 1, 2, 3]), field, style=rng.choice(['check', 'check', 'strict']))

    def suit(tok, t):
        kind, o = tok
        if kind == 'leval':
            return ['s', rng.choice(LITS if rng.random() < 0.7 else TEXTS)]
        if kind == 'eval' and t in LITERAL and rng.random() < 0.35:
            # the right value, but by way of another name
            x, y = rng.choice(LITERAL[t]), rng.choice(['int', 'str', 'list', 'tuple', 'dict', 'float', 'P', 'Args', 'set', 'bool', 'len', 'k', 'print'])
            return ['s', rng.choice(['[{x}, {y}][0]', '{x} if {y} else {x}', '[{y} and {x}][0]', '({y} and 0) or {x}']).format(x=x, y=y)]
        if kind == 'eval':
            return ['s', rng.choice(EVALS if rng.random() < 0.8 else TEXTS)]
        if kind == 'map' and rng.random() < 0.7:
            ks = [x[0] for x in o['v'] + o['f']]
            return rng.choice(ks or MAPKEYS)
        if kind == 'compose':
            return suit(o['t'][-1], t)
        if kind == 'whole' and rng.random() < 0.7:
            return rng.choice([x for x in ODD if x[0] in ('i', 'f', 'fr', 'c', 'D', 'b') or x[1:2] == ['HNum']])
        if kind == 'tobytes' and rng.random() < 0.8:
            return rng.choice([x for x in ODD if x[0] == 'i'])
        if kind in ('unpack',) and rng.random() < 0.8:
            return rng.choice([x for x in ODD if x[0] in ('l', 't', 'ls', 'rg') or x[1:2] == ['Hooky']])
        if kind == 'umap' and rng.random() < 0.8:
            return rng.choice([x for x in ODD if x[0] in ('d', 'od', 'mp') or x[1:2] == ['Hooky']])
        if kind == 'cm' and rng.random() < 0.7:
            return rng.choice({'date': [['s', '2020-01-02'], ['i', 737000], ['s', 'x']], 'int': [['y', '0102'], ['y', 'ff'], ['l', [['i', 1]]]],
                               'float': [['s', '0x1p3'], ['s', 'x']], 'bytearray': [['s', '0102'], ['s', 'zz']], 'IntSub': [['y', '0102']], 'bytes': [['s', '0102'], ['s', 'zz']], 'dict': [['l', [['i', 1]]], ['s', 'ab']]}.get(t, ODD))
        return rng.choice(ODD)

    ref = mini.Mini(sys.modules[__name__], {'toks': toks, 'classes': classes})

    def value(f):
        # most arguments are acceptable
        for _ in range(rng.choice([1, 4, 4])):
            v = any_value(f)
            try:
                ref.elem(f, classes[0]['style'], dec(v))
                break
            except Refuse:
                pass
        return v

    def any_value(f):
        k = rng.random()
        if k < 0.12:
            v = rng.choice(ODD)
        elif k < 0.2:
            v = rng.choice(SOME[f['t']])
        else:
            v = suit(toks[rng.choice(f['toks'])], f['t'])
            if v[0] in ('l', 't') and f['shape'] == 'plain' and len(f['toks']) == 1 and toks[f['toks'][0]][0] == 'unpack' and rng.random() < 0.3:
                # (can be taken once)
                v = ['it', v[1]]
        if f['shape'] == 'set' and (v[0] in ('l', 'S', 'd', 'od', 'mp', 'ls') or v[0] == 't' and any(x[0] == 'd' for x in v[1])
                                    or v[1:2] in (['Hooky'], ['HK'], ['HNum']) or v[0] == 'hs'):
            return ['s', '1']
        return v

    def faults(rng):
        out = []
        for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
            cb = rng.choice(FAULTY + cbs + cbs)
            # (some of these the interpreter replaces by its own in the protocols of iteration and mappings)
            excs = [e for e in U.ORDINARY if not (cb.startswith('hy-') and e in ('AttributeError', 'TypeError', 'KeyError', 'LookupError'))]
            out.append({'cb': cb, 'when': rng.choice(['all', 'all', ['mod', 2, rng.randrange(2)]]),
                        'act': ['raise', rng.choice(excs)] if rng.random() < 0.85 else ['raiseB', rng.choice(sorted(U.BASE))]})
        return out

    scn = {'classes': classes, 'toks': toks}
    scn.update(mini.gen_threads(rng, lambda: mini.gen_op(rng, classes, value, faults, intr=0.08)))
    return scn


def run(scn):
    return mini.run(sys.modules[__name__], scn)

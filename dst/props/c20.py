"""C20: range validators keep values inside their bounds."""
import datetime
import math
from fractions import Fraction

from dst import mini, world as W
from dst import userland as U
from dst.common import Viol, short
from dst.mini import Want, Refuse
from dst.userland import dec, canon

ID = 'C20'
QUICK = 16000
THOROUGH = 400000
RULE = ('seeded record classes whose fields (plain, optional, union, nested in lists, tuples, sets and dicts) carry 1-3 range '
        'tokens, alone or shared between fields and classes, over nine kinds of values (ints, floats, mixed numbers, fractions, '
        'decimals, strings, dates, durations, partially ordered sets, a user quantity whose comparisons and arithmetic fail by a '
        'seeded plan); 4-12 constructions each with values at, next to and far from the bounds, some interrupted, a quarter from '
        '2-3 threads under a seeded schedule; each accepted value, refusal and warning is judged by an own comparison with the '
        'bounds; non-trivial: a value was refused, a failure was injected or threads interleaved')
MEASURE = 'crc of (construction, kind of result, faults that fired)'
REAL = ['records (all of it)', 'CPython threads, released one at a time']
STUB = ['comparisons and arithmetic of the user quantity (can fail)', 'asynchronous interrupts', 'thread scheduling, locks and clocks',
        'loggers and warnings']
ASSUMPTIONS = ['NaN and infinities have no nearest bound and no cyclic equivalent, they are only given to range checks',
               'a cyclic result of floats may be off by rounding, but never outside the range']

FLOATS = [0.0, 1.0, 0.1, 360.0, -180.0, 2.5, 1e16, 1e-300, 7.3]


def num(e):
    v = dec(e)
    return v.k if isinstance(v, U.MV) else v


# ------------------------------------------------------------ tokens
def token(t, m):
    R = W.load()
    k, lo, hi, o = t[0], t[1], t[2], t[3]
    a = None if lo is None else dec(lo)
    b = None if hi is None else dec(hi)
    if k == 'co':
        return R.CallCoercion(U.Callback(t[4], 'coercer', t[5]))
    if k == 'clamp':
        kw = {}
        if lo is not None:
            kw['ge'] = a
        if hi is not None:
            kw['le'] = b
        return R.Clamp(*([a, b] if o.get('pos') and len(kw) == 2 else ()), **({} if o.get('pos') and len(kw) == 2 else kw))
    if k == 'cyclic':
        return R.Cyclic(a, b)
    if k == 'within':
        kw = {}
        if lo is not None:
            kw['ge'] = a
        if hi is not None:
            kw['lt'] = b
        if 'g' in o:
            kw['g_eq'] = bool(o['g'])
        if 'l' in o:
            kw['l_eq'] = bool(o['l'])
        if 'err' in o:
            kw['err'] = o['err'] if isinstance(o['err'], str) else U.EXC[o['err'][0]]()
        if 'warn' in o:
            kw['warn'] = U.SimLogger(o['warn'][1]) if isinstance(o['warn'], list) else True
        return R.Within(**kw)
    raise U.Invalid(k)


def is_coercer(t):
    return t[0] == 'co'


def coerce(t, origin, v):
    return Want(U.apply_sem(t[5], v))


notes = []


def inside(t, v):
    """by comparisons only"""
    lo, hi, o = t[1], t[2], t[3]
    if lo is not None:
        a = dec(lo)
        if not (v >= a if o.get('g', True) else v > a):
            return False
    if hi is not None:
        b = dec(hi)
        if not (v <= b if o.get('l', False) else v < b):
            return False
    return True


def plain(v):
    return v.k if isinstance(v, U.MV) else v


def validate(t, w):
    v = w.value
    k, lo, hi, o = t[0], t[1], t[2], t[3]
    if k == 'within':
        if not inside(t, v):
            if 'warn' in o:
                notes.append([o['warn'][1] if isinstance(o['warn'], list) else 'warnings', o.get('err', 'validation failed')])
                return w
            e = o.get('err', 'validation failed')
            exc = ValueError(e) if isinstance(e, str) else U.EXC[e[0]]()
            try:
                exc.dst_exact = True
            except Exception:
                pass
            raise exc
        return w
    a = None if lo is None else dec(lo)
    b = None if hi is None else dec(hi)
    if k == 'clamp':
        if a is not None and a > v:
            return bound(a, w)
        if b is not None and b < v:
            return bound(b, w)
        if (a is not None and v == a) or (b is not None and v == b):
            return bound(v, w)
        return w
    if k == 'cyclic':
        if a <= v and v < b:
            return w
        if isinstance(v, (datetime.date, datetime.timedelta)):
            return equal(a + (v - a) % (b - a))
        x, p, q = Fraction(plain(v)), Fraction(plain(a)), Fraction(plain(b))
        exact = p + (x - p) - (q - p) * math.floor((x - p) / (q - p))
        if float in (type(v), type(a), type(b)) or isinstance(v, float):
            tol = Fraction(1, 10 ** 15) * 4 * (abs(x) + abs(p) + abs(q))
            return Want(float(exact), near(a, b, p, q, exact, tol))
        return equal(U.MV(int(exact)) if isinstance(v, U.MV) else exact)
    raise U.Invalid(k)


def bound(v, w):
    """the bound, or the argument where they are equal"""
    if not w.arg:
        return equal(v)
    return Want(v, lambda r: None if r == v and type(r) in (type(v), type(w.value)) else f'must be {short(canon(v))}')


def equal(v):
    return Want(v, lambda r: None if r == v else f'must be {short(canon(v))}')


def near(a, b, p, q, exact, tol):
    def ok(r):
        if not (a <= r < b):
            return f'must lie in [{a}, {b})'
        d = abs(Fraction(r) - exact)
        if min(d, (q - p) - d) > tol:
            return f'must be {float(exact)}'
    return ok


def check_notes(notes, ctx, me):
    got = sorted([e[0], e[1]] for e in ctx.log if e[0] == 'warnings' or e[0].startswith('LOG'))
    want = sorted([n, ['l', [['s', 'UserWarning'], ['s', str(e)]]] if n == 'warnings' else ['s', str(e)]] for n, e in notes)
    if [g[0] for g in got] != [x[0] for x in want] or not all(str(x[1][-1]) in str(g[1]) for g, x in zip(got, want)):
        raise Viol('warnings', f'warned {short(got)}, must be {short(want)}; {me}')


def judge_token(m, op, ctx, exc):
    t = op['tok']
    k, lo, hi, o = t[0], t[1], t[2], t[3]
    empty = False
    if lo is not None and hi is not None:
        a, b = dec(lo), dec(hi)
        try:
            empty = a > b or k == 'within' and a == b and not (o.get('g', True) and o.get('l', False))
        except TypeError:
            if exc is None:
                raise Viol('token-accepted', f'{short(t)}: its bounds cannot be compared but it was accepted')
            return 'token-refused'
    if ctx.interrupt_exc is not None:
        return 'interrupted'
    if ctx.injected and exc is not None:
        if not any(x is ctx.injected[0] for x in mini.causes(exc)):
            raise Viol('token-error', f'{short(t)}: {exc!r} is not the failure of the comparison')
        return 'token-refused'
    if empty and exc is None:
        raise Viol('token-accepted', f'{short(t)} was accepted though no value can satisfy it')
    if not empty and exc is not None:
        raise Viol('token-refused', f'{short(t)} was refused with {exc!r}')
    return 'token-refused' if exc is not None else 'token'


# ------------------------------------------------------------ generation
def near_values(rng, dom, e):
    """a value at, next to or far from the bound e"""
    k = rng.random()
    if dom == 'int':
        return ['i', e[1] + rng.choice([0, 0, 1, -1, 2, -2, 7, -7, 10 ** 18, -10 ** 18, 1000])] if k < 0.95 else ['b', rng.randrange(2)]
    if dom == 'float':
        x = dec(e)
        y = rng.choice([x, x, math.nextafter(x, math.inf), math.nextafter(x, -math.inf), -x, x + 0.5, x - 0.5, -1e-20, 1e-20, 5e-324, -5e-324,
                        x * 2, x - 360.0, x + 1e17, -1e17, 0.30000000000000004, -0.0])
        return ['fx', y.hex()]
    if dom == 'mixed':
        x = dec(e)
        return rng.choice([['i', int(x)], ['f', float(x)], ['fr', Fraction(x).numerator, Fraction(x).denominator], ['i', int(x) + 1],
                           ['i', int(x) - 1], ['f', float(x) + 0.5], ['b', 1], ['fr', 1, 3], ['f', -1e-20], ['is', int(x)]])
    if dom == 'frac':
        return ['fr', *rng.choice([(e[1], e[2]), (e[1] * 7 + 1, e[2] * 7), (e[1] * 7 - 1, e[2] * 7), (-e[1], e[2]), (e[1] + 100 * e[2], e[2])])]
    if dom == 'dec':
        d = dec(e)
        return ['D', str(rng.choice([d, d, d + 1, d - 1, d + U.Decimal('0.0001'), d - U.Decimal('0.0001'), -d, d + 1000, d - 1000]))]
    if dom == 'str':
        return ['s', rng.choice([e[1], e[1], e[1] + 'a', e[1][:-1], e[1].upper(), '', 'zzzz', e[1] + '\0', 'é' + e[1]])]
    if dom in ('date', 'dt', 'td'):
        return [{'date': 'da', 'dt': 'dt', 'td': 'td'}[dom], max(1, e[1] + rng.choice([0, 0, 1, -1, 2, 30, -30, 10000])) if dom == 'date' else
                e[1] + rng.choice([0, 0, 1, -1, 30, -30, 86400, -86400, 10 ** 7])]
    if dom == 'mv':
        return ['o', 'MV', e[2] + rng.choice([0, 0, 1, -1, 2, -2, 9, -9, 100])]
    if dom == 'set':
        return ['F', [['i', i] for i in rng.sample(range(5), rng.randrange(5))]]
    if dom == 'tup':
        return ['t', rng.choice([e[1], e[1] + [['i', 0]], e[1][:-1], [['i', 1], ['i', 9]], []])]
    raise AssertionError(dom)


def gen_bound(rng, dom):
    if dom == 'int':
        return ['i', rng.choice([0, 1, 2, 5, -3, 10, 360, -180])]
    if dom == 'float':
        return ['f', rng.choice(FLOATS)]
    if dom == 'mixed':
        return rng.choice([['i', 0], ['i', 2], ['f', 2.5], ['fr', 1, 2], ['i', -1], ['f', 0.0], ['f', 7.0]])
    if dom == 'frac':
        return ['fr', rng.choice([0, 1, -1, 2, 7]), rng.choice([1, 2, 3])]
    if dom == 'dec':
        return ['D', rng.choice(['0', '1', '-1', '2.5', '360', '-180', '0.1'])]
    if dom == 'str':
        return ['s', rng.choice(['', 'a', 'ab', 'b', 'm', 'zz'])]
    if dom == 'date':
        return ['da', rng.choice([700000, 700001, 700030, 700365])]
    if dom == 'dt':
        return ['dt', rng.choice([0, 1, 3600, 86400, -86400])]
    if dom == 'td':
        return ['td', rng.choice([0, 1, 3600, 86400, -3600])]
    if dom == 'mv':
        return ['o', 'MV', rng.choice([0, 1, 3, 5, -2, 10])]
    if dom == 'set':
        return ['F', [['i', i] for i in rng.sample(range(5), rng.randrange(5))]]
    return ['t', [['i', rng.randrange(3)] for _ in range(rng.randrange(1, 3))]]


DOMS = {'int': ['int', 'int', 'Any', 'object'], 'float': ['float', 'float', 'Any'], 'mixed': ['object', 'Any', 'Number'], 'frac': ['Fraction'],
        'dec': ['Decimal', 'Any'], 'str': ['str', 'str', 'Any'], 'date': ['date'], 'dt': ['datetime', 'date'], 'td': ['timedelta', 'Any'], 'mv': ['MV', 'MV', 'object', 'Any'],
        'set': ['frozenset'], 'tup': ['tuple']}
CYCLIC = {'int', 'float', 'mixed', 'frac', 'dec', 'date', 'dt', 'td', 'mv'}
FAULTY = ['mv-lt', 'mv-le', 'mv-gt', 'mv-ge', 'mv-eq', 'mv-sub', 'mv-mod', 'mv-add']


def gen_tok(rng, dom, last, spoil=False):
    for _ in range(50):
        kinds = ['within', 'within', 'clamp']
        if dom in CYCLIC and (last or dom not in ('float', 'mixed')):
            kinds += ['cyclic', 'cyclic']
        if dom == 'set':
            kinds = ['within']
        k = rng.choice(kinds)
        lo, hi = gen_bound(rng, dom), gen_bound(rng, dom)
        if k != 'cyclic' and not spoil:
            j = rng.random()
            if j < 0.15:
                lo = None
            elif j < 0.3:
                hi = None
            elif j < 0.32:
                lo = hi = None
        o = {}
        if k == 'within':
            if rng.random() < 0.5:
                o['g'] = rng.random() < 0.5
            if rng.random() < 0.5:
                o['l'] = rng.random() < 0.5
            if rng.random() < 0.3:
                o['err'] = rng.choice(['too far', ['KeyError'], ['CustomError'], ['OSError'], ['TypeError']])
            if rng.random() < 0.2:
                o['warn'] = True
                if isinstance(o.get('err'), list):
                    o.pop('err')
                if rng.random() < 0.5:
                    o['warn'] = ['logger', f'LOG{rng.randrange(3)}']
        elif k == 'clamp' and rng.random() < 0.3:
            o['pos'] = 1
        if spoil:
            return [k if k != 'cyclic' else 'clamp', lo, hi, o if k != 'cyclic' else {}]
        if lo is not None and hi is not None:
            a, b = dec(lo), dec(hi)
            if not a < b:
                continue
        return [k, lo, hi, o]
    return ['within', None, None, {}]


def gen(rng, i):
    toks = {}
    pool = {}
    doms = rng.sample(sorted(DOMS), rng.choice([1, 1, 2]))
    if rng.random() < 0.25:
        doms = ['mv']
    p_share = rng.choice([0, 0.3, 0.7])

    def field(style):
        dom = rng.choice(doms)
        ts = []
        n = rng.choice([1, 1, 1, 2, 3])
        for j in range(n):
            last = j == n - 1
            mine = [k for k in pool.get(dom, ()) if last or toks[k][0] != 'cyclic']
            if mine and rng.random() < p_share:
                k = rng.choice(mine)
            else:
                k = f'T{len(toks)}'
                toks[k] = gen_tok(rng, dom, last)
                pool.setdefault(dom, []).append(k)
            ts.append(k)
        t = rng.choice(DOMS[dom])
        st = rng.choice([None, None, 'check', 'hollow', 'strict'])
        shape = rng.choice(['plain', 'plain', 'plain', 'list', 'dict', 'tupv', 'tup2', 'opt', 'set', 'optlist', 'dictlist', 'union'])
        eff = st or style
        if t in ('Any', 'object', 'Number', 'date') and eff == 'strict':
            st = eff = 'check'
        if shape != 'plain' and (eff == 'hollow' or t in ('Any', 'object') or style == 'hollow'):
            shape = 'plain'
        f = {'shape': shape, 't': t, 'toks': ts, 'dom': dom, 'stylepos': rng.randrange(3)}
        if shape == 'union':
            f['t2'] = 'str' if t != 'str' else 'int'
        if st:
            f['style'] = st
        if eff != 'hollow' and dom == 'int' and t == 'int' and rng.random() < 0.3:
            k = f'T{len(toks)}'
            toks[k] = ['co', None, None, {}, f'co{k}', rng.choice(['int', 'len', 'strict_str_int'])]
            ts.insert(rng.randrange(len(ts) + 1), k)
        return f

    classes = mini.gen_classes(rng, rng.choice([1, 1, 2, 3]), field)

    def value(f):
        dom = f['dom']
        if rng.random() < 0.05:
            return rng.choice([['n'], ['s', 'x'], ['i', 1], ['t', []]])
        if f['shape'] == 'union' and rng.random() < 0.3:
            return ['s', 'other'] if f['t2'] == 'str' else ['i', 4]
        if dom == 'float' and rng.random() < 0.08 and all(toks[k][0] == 'within' for k in f['toks']):
            return rng.choice([['nan'], ['f', math.inf], ['f', -math.inf]])
        if dom == 'int' and any(toks[k][0] == 'co' for k in f['toks']) and rng.random() < 0.4:
            return rng.choice([['s', '12'], ['s', '0'], ['s', '-3'], ['s', 'x'], ['s', '360'], ['f', 2.0], ['t', [['i', 1]]]])
        bounds = [b for k in f['toks'] for b in toks[k][1:3] if b is not None] or [gen_bound(rng, dom)]
        v = near_values(rng, dom, rng.choice(bounds))
        if f['shape'] == 'set' and not hash_ok(v):
            return ['i', 0]
        return v

    def hash_ok(v):
        return v[0] not in ('l', 'S', 'd')

    def faults(rng):
        if 'mv' in doms and rng.random() < 0.4:
            return [{'cb': rng.choice(FAULTY), 'when': rng.choice(['all', ['mod', 2, rng.randrange(2)], ['mod', 3, rng.randrange(3)]]),
                     'act': ['raise', rng.choice(U.ORDINARY)] if rng.random() < 0.85 else ['raiseB', rng.choice(sorted(U.BASE))]}
                    for _ in range(rng.choice([1, 1, 2]))]
        return []

    def make():
        if rng.random() < 0.08:
            op = {'tok': gen_tok(rng, rng.choice(doms), True, spoil=True)}
            fl = faults(rng)
            if fl:
                op['faults'] = fl
            return op
        return mini.gen_op(rng, classes, value, faults)

    scn = {'classes': classes, 'toks': toks}
    scn.update(mini.gen_threads(rng, make))
    return scn


def run(scn):
    import sys
    return mini.run(sys.modules[__name__], scn)

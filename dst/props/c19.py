"""C19: finished operations leave nothing behind in memory."""
import gc
import json
import sys
import zlib
from collections import ChainMap, deque
from enum import Enum
from types import SimpleNamespace

from dst import ops, opgen
from dst import userland as U
from dst.common import Viol, short, norm
from dst.gen import flavour
from dst.userland import dec
from dst.props.c02 import INTR, retwist

ID = 'C19'
QUICK = 16000
THOROUGH = 80000
RULE = ('a seeded world and 2-8 public operations (construction, parsing, import, export, comparison, hashing, copying, use of '
        'selections and handles), succeeding, with callbacks failing by a seeded plan, with failing streams, or interrupted (or out '
        'of memory) at a seeded callback; after each one its outcome is dropped and the collector run, then the reference count of every object '
        'reachable from its arguments, and the number of live records and user objects, must be what they were before it; each '
        'operation is then repeated and the number of allocated blocks must stop growing; non-trivial: an operation had a '
        'container, user object or record as argument, or failed')
MEASURE = 'crc of (operation, kind of outcome) of each executed operation'
REAL = ['records (all of it)', 'json', 'pickle', 'copy', 'the memory management of CPython']
STUB = ['user callbacks', 'interrupts (raised while a callback runs)', 'streams', 'locks and clocks']
ASSUMPTIONS = ['a reference kept by the library shows in the reference count of the object or in the number of live objects; small '
               'integers and other immortal objects are not counted', 'assignments and class definitions are meant to keep what '
               'they are given and are not compared', 'an exception instance that the user declared as '
               'the error of an assertion belongs to the user and shows where it was raised last', 'interrupts are raised at callback calls only: CPython 3.12 itself leaks '
               'references when a trace function raises at certain jumps']


def gen(rng, i):
    g = flavour(rng, share=rng.random() < 0.3)
    for k in range(rng.choice([1, 1, 2])):
        g.cls(f'A{k}', p_post=0.2, p_parsers=0.3)
    og = opgen.OpGen(g)
    og.fill_pool(rng.choice([1, 3]), rng.choice([1, 3]))
    og.fill_selects(rng.choice([0, 1, 2]))
    og.fill_handles(rng.choice([0, 1, 2]))
    hist = []
    for _ in range(rng.choice([2, 3, 5, 8])):
        if hist and rng.random() < 0.2:
            op = json.loads(json.dumps(g.ch(hist)))
            op.pop('intr', None)
            op = retwist(g, og, op)
        else:
            op = og.op(None, None, faults=0.35, base=rng.random() < 0.2)
        if rng.random() < 0.3:
            op['intr'] = [g.ch(INTR), rng.random()]
        if op['o'] in ('from_json_io', 'to_json', 'pickle_rt') and op.get('io', op['o'] == 'from_json_io') and rng.random() < 0.3:
            op['fail_at'] = rng.choice([1, 2, 3])
            op['exc'] = g.ch(['OSError', 'ValueError', 'KeyboardInterrupt'])
        hist.append(op)
    scn = og.world()
    scn['history'] = hist
    scn['reps'] = int(rng.random() < 0.2)
    return scn


SKIP = (type, Enum, U.Function, type(len), type(gen), type(None), bool, type(...), U.Callback)


def reach(roots):
    """every object that can be reached from the arguments through containers, user objects and records"""
    out = []
    seen = set()
    todo = list(roots)
    while todo:
        x = todo.pop()
        if isinstance(x, SKIP) or id(x) in seen:
            continue
        seen.add(id(x))
        out.append(x)
        t = type(x)
        if isinstance(x, ChainMap):
            todo.extend(x.maps)
        elif isinstance(x, dict):
            # (names of attributes are shared between equal strings by the interpreter)
            todo.extend(k for k in dict.keys(x) if not isinstance(k, str))
            todo.extend(dict.values(x))
        elif isinstance(x, (list, tuple, set, frozenset, deque)):
            todo.extend(list(x))
        elif isinstance(x, SimpleNamespace):
            todo.extend(vars(x).values())
        elif t in U.REG:
            for n in U.REG[t]:
                try:
                    todo.append(getattr(x, n))
                except AttributeError:
                    pass
        elif isinstance(x, (U.P, U.Obj, U.HK, U.Square, U.Box)):
            todo.extend(vars(x).values())
    return out


USER = (U.P, U.Obj, U.HK, U.Square, U.Box, U.IntSub, U.StrSub, U.FloatSub, U.ListSub, U.TupleSub, U.DictSub, U.DequeSub,
        SimpleNamespace, U.Ctx, ops.SimText, BaseException)


def census():
    """how many records, user objects, streams and exceptions are alive"""
    out = {}
    for x in gc.get_objects():
        t = type(x)
        if t in U.REG or isinstance(x, USER):
            out[t.__qualname__] = out.get(t.__qualname__, 0) + 1
    return out


def run(scn):
    scn = norm(scn)  # (every value its own object)
    world = opgen.build(scn)
    gc.disable()
    s = {'ops': 0, 'steps': 0, 'objects': 0, 'repeated': 0}
    trail = []
    hard = False
    gc.collect()
    gc.freeze()

    def once(op):
        """executes the operation and drops everything it gave"""
        ctx = U.Ctx(None, op.get('faults', ()))
        if op.get('intr'):
            ctx.raise_at_call = [int(op['intr'][1] * 5), op['intr'][0]]
        out = ops.outcome(world, op, ctx, False, False)
        r = ['err', out['err']['t']] if 'err' in out else ['ok']
        return r, ctx.steps, [f[1] for f in ctx.fired] + (['interrupt'] if ctx.interrupt_exc is not None else [])

    for op in scn['history']:
        o, made = prebuild(world, op)
        objs = reach(made)
        pool = reach(world.pool)
        gc.collect()
        n0 = census()
        c0 = counts(objs)
        p0 = counts(pool)
        kind, steps, fired = once(o)
        for e in world.errs:
            e.__traceback__ = e.__context__ = e.__cause__ = None
        gc.collect()
        c1 = counts(objs)
        p1 = counts(pool)
        n1 = census()
        s['ops'] += 1
        s['steps'] += steps
        s['objects'] += len(objs) + len(pool)
        for f in fired:
            s['fault:' + f] = s.get('fault:' + f, 0) + 1
        hard = hard or kind[0] == 'err' or bool(objs)
        trail.append([op, kind])
        for what, xs, a, b in (('argument', objs, c0, c1), ('shared', pool, p0, p1)):
            for j in range(len(xs)):
                if b[j] > a[j]:
                    raise Viol('kept-' + what, f'{short(op)} ({kind}) left {b[j] - a[j]} references to '
                                               f'{"its argument" if what == "argument" else "a shared object"} {short(U.canon(xs[j]))}')
        for k in n1:
            if n1[k] > n0.get(k, 0):
                raise Viol('alive', f'{short(op)} ({kind}) left {n1[k] - n0.get(k, 0)} more objects of {k} alive')
        if scn.get('reps'):
            grow(op, o, once, s)
    return {'nontrivial': hard, 'sum': s, 'sigs': [zlib.crc32(json.dumps(trail).encode())], 'sample': hard and len(scn['history']) > 2}


def counts(xs):
    return [sys.getrefcount(x) for x in xs]


def prebuild(world, op):
    """the operation with its arguments built beforehand, and these arguments"""
    world.kept = kept = []

    def keep(enc):
        if enc[0] == 'ref':
            return enc
        try:
            kept.append(dec(enc, world))
        except U.Invalid:
            raise
        except Exception:
            return enc
        return ['kept', len(kept) - 1]

    o = dict(op)
    for k in ('arg', 'v', 'r', 'm', 'b'):
        if o.get(k) is not None and isinstance(o[k], list):
            o[k] = keep(o[k])
    if isinstance(o.get('kw'), dict) and o['o'] != 'sel_merge':
        o['kw'] = {k: keep(v) for k, v in o['kw'].items()}
    if 'a' in o:
        o['a'] = keep(o['a']) if o['a'] and isinstance(o['a'][0], str) else [keep(v) for v in o['a']]
    if 'bs' in o:
        o['bs'] = [keep(v) for v in o['bs']]
    return o, kept


def grow(op, o, once, s):
    """a reference kept per call shows as at least one more block per call, however long one goes on

    (free lists and the tracing machinery take a few blocks too, fewer and fewer as they fill up)"""
    for window, windows in ((8, 3), (60, 5)):
        n = [0] * (windows + 1)
        for k in range(windows + 1):
            for _ in range(window):
                once(o)
            gc.collect()
            n[k] = sys.getallocatedblocks()
        s['repeated'] += window * (windows + 1)
        steps = [b - a for a, b in zip(n, n[1:])]
        if min(steps) < window or (windows > 3 and min(steps) < 0.8 * max(steps)):
            return
    raise Viol('growth', f'{short(op)}: repeating it takes more and more memory: {steps} blocks in {window} calls each')
